import json
P=[]
def p(id,title,statement,over,text,why,files,mech,**kw):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    a.update(kw)
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Dense arrays survive conversion to and from matrix product form",
"Converting any dense array (or list of per-site factors) to a matrix product array and back returns the same numbers in the same index order, in local as well as in global leg ordering, with any number of legs per site and with or without open boundary bonds. The reported shape, number of legs, ranks, size and dtype always describe exactly the represented tensor, and the maximal-rank formula is exact for every shape, however large.",
["inputs","configurations"],"every chain length, every per-site leg structure (no legs, several legs, size-one legs, different legs per site), every dtype and value class including zero and rank-deficient arrays, both leg orderings",
"Tests convert a handful of random generic arrays with uniform legs; leg-order or factorisation mistakes only show for non-uniform shapes, unusual leg counts or degenerate values.",
["mpnum/mparray.py","mpnum/utils/array_transforms.py"],
[("dense <-> MPA conversion","MPArray.from_array, from_array_global, from_kron, to_array, to_array_global"),("leg reordering","global_to_local, local_to_global"),("metadata","MPArray.shape, ndims, ranks, size, dtype, full_rank")])
p("C02","Tensor arithmetic equals dense arithmetic for every expression",
"Any expression built from addition, subtraction, negation, scalar multiplication and division (in place or not), weighted and compressed sums, complex conjugation, transposition, adjoint and distance represents exactly the tensor the same expression gives on dense arrays, whatever gauge the operands are in and whichever numeric types are mixed. The result's norm and canonical bookkeeping are valid for that tensor.",
["inputs","histories","programs"],"every expression tree up to a depth over every operand shape, gauge history, dtype combination and scalar",
"Tests evaluate each operator once on freshly drawn random operands; interactions between gauge state, dtype mixing, single-site chains and nested expressions are not reached.",
["mpnum/mparray.py","mpnum/special.py"],
[("sums","MPArray.__add__, __sub__, sumup, special.sumup"),("scalars","MPArray.__mul__, __imul__, __truediv__, __itruediv__"),("leg permutations and conjugation","MPArray.T, transpose, conj, adj"),("distance","normdist")])
p("C03","Contractions, traces and indexing equal their dense counterparts",
"Local contraction over any choice of legs, partial contraction at any offset, inner products, operator sandwiches, local outer products, chaining, leg sums, traces, partial traces, diagonals, index evaluation and iteration over sub-arrays give exactly the dense result with legs in the documented order. Requests that refer to legs or positions which do not exist are never answered with a wrong value silently taken from a bond.",
["inputs","configurations","histories"],"every valid leg selection (positive and negative, single and multiple, per site) on every shape, offset, operand gauge and value class in the bound",
"Tests cover a few leg selections on uniform random operands; the leg-selection space (sign, order, per-site patterns, offsets) is combinatorial.",
["mpnum/mparray.py","mpnum/special.py"],
[("contractions","dot, partialdot, inner, sandwich, localouter, chain, special.inner_prod_mps"),("leg reductions","MPArray.sum, trace, partialtrace, diag, MPArray.get, MPArray.axis_iter")])
p("C04","Structural rearrangements never change the represented tensor",
"Reshaping legs, flattening, grouping and splitting sites, exposing a bond as a leg pair and restoring it, cutting a chain, reversing site order, removing legless or trivial sites, inserting extra sites and padding ranks represent the dense tensor with exactly the corresponding index rearrangement. Inverse rearrangements undo each other, and the result carries a truthful canonical form so that its norm is right.",
["inputs","histories","configurations"],"every position, grouping, split and insertion pattern on every chain shape, in every gauge the operand can be in",
"Tests apply each rearrangement to freshly generated arrays and rarely compute a norm afterwards, so wrong gauge bookkeeping or wrong placement at the chain ends goes unseen.",
["mpnum/mparray.py"],
[("reshape/group/split","MPArray.reshape, ravel, group_sites, split_sites"),("bond <-> leg","MPArray.vleg2leg, leg2vleg, split"),("site list edits","prune, inject, MPArray.reverse, MPArray.pad_ranks")])
p("C05","Reported canonical form is true after any operation history",
"After any sequence of operations, every site an array reports as left-canonical is an isometry from the left and every site it reports as right-canonical is one from the right. Canonicalising to any requested pair of positions reaches at least that form, and impossible requests are rejected without changing the represented tensor.",
["histories","inputs"],"every operation sequence up to a depth over in-place and derived-object operations, all chain lengths, all canonicalisation targets including negative and keyword ones",
"Tests check the claim after single operations from a few starting gauges; false claims arise from sequences (update then scale, expose bond then restore).",
["mpnum/mparray.py","mpnum/mpstruct.py"],
[("gauge moves","MPArray.canonicalize"),("claim bookkeeping","LocalTensors.update, LocalTensors.canonical_form"),("derived claims","MPArray.__mul__, conj, T, reshape, vleg2leg, leg2vleg, split, from_array")],
state=[{"name":"canonical_form","meaning":"pair (left,right): sites before left are left-canonical, sites from right on are right-canonical"}])
p("C06","Gauge changes preserve the tensor; norms and spectra are right",
"Canonicalisation, norm evaluation, singular value extraction and lossless compression never change the represented tensor, in any order and repetition. The norm always equals the dense 2-norm, and the singular values always equal those of the dense matricisation at every cut, whatever history produced the array.",
["histories","inputs"],"every sequence of gauge-changing, scaling and updating operations up to a depth, from every shape and value class including zero, rank-deficient, tiny and huge tensors",
"Tests compute the norm of a few freshly canonicalised random arrays; shortcuts that trust canonical bookkeeping fail only after particular histories.",
["mpnum/mparray.py"],
[("norm shortcut","norm"),("gauge moves","MPArray.canonicalize"),("spectra","MPArray.singularvals"),("lossless compression","MPArray.compress")])
p("C07","The local tensor store stays consistent under every update history",
"The container of local tensors always holds exactly the tensors last written to each site, with matching bonds, for any sequence of single-site, negative-index, multi-site and rank-changing writes with or without canonical flags. Inconsistent writes are rejected and leave the contents unchanged, reads are read-only, copies are independent and canonical claims stay true as long as the flags given were true.",
["histories","inputs"],"every write sequence up to a depth over all positions, spans, flags and tensor kinds, from every starting canonical form",
"The tests update one site once from a few starting forms; flag handling of multi-site writes, negative indices and combinations of writes are not exercised.",
["mpnum/mpstruct.py"],
[("writes","LocalTensors.update, __setitem__"),("reads","LocalTensors.__getitem__, __iter__"),("copies","LocalTensors.copy")],
state=[{"name":"local tensors + canonical form","meaning":"list of arrays and the pair of claimed canonical bounds"}])
p("C08","No operation on one array ever changes another array",
"Operating on an array, in place or not, never changes any other array, dense array or operand passed in: functions that return new objects leave their operands' represented tensors untouched, and later in-place changes of either side do not show in the other. Dense arrays handed out can be modified freely and dense arrays handed in are never modified.",
["histories","programs"],"every pair (derivation, in-place mutation) and every sequence of them up to a depth, on either side of the derivation, for all derivation functions",
"Tests check at most the direct operand of one call; aliasing shows only when a later in-place operation on one object is followed by a read of another.",
["mpnum/mparray.py","mpnum/mpstruct.py","mpnum/mpsmpo.py"],
[("sharing of local tensors","MPArray.__mul__, chain, conj, T, reshape, vleg2leg, get, sum, LocalTensors"),("in-place operations","MPArray.canonicalize, compress, __imul__, __itruediv__, LocalTensors.update")])
p("C09","SVD compression keeps its overlap, rank and error contract",
"For every input, compression by singular value truncation returns a tensor whose ranks respect the requested rank and relative-error limits, the returned overlap equals both the squared norm of the result and its inner product with the original, and the error is bounded by the discarded singular values. With no effective limit the tensor is unchanged, the copying and in-place variants agree, and the sweep direction only decides which end carries the weight.",
["inputs","histories","configurations"],"every shape, value class (degenerate spectra, zero, rank-deficient), starting gauge, direction, rank and relative-error setting in the bound",
"Tests use random generic tensors and one or two ranks; degenerate spectra, asymmetric bond dimensions, starting gauges and parameter combinations are not enumerated.",
["mpnum/mparray.py","mpnum/utils/extmath.py"],
[("truncating sweeps","MPArray.compress, MPArray.compression"),("truncated SVD","truncated_svd, randomized_svd")])
p("C10","Variational compression returns a stationary point with true overlap",
"For every input and start tensor, variational compression returns a tensor within the rank limit whose returned overlap equals its squared norm and its inner product with the original, it is never farther from the original than the start and never gets worse with more sweeps. If the limit admits an exact representation reachable by the sweep, the result is exact; it agrees between the copying and in-place variants, and neither the start tensor nor unrelated random state is touched.",
["inputs","configurations","histories"],"every shape, target, start tensor, window width, sweep count and rank in the bound",
"Tests compare a few random compressions with a loose optimality bound; overlap identities, window widths at chain boundaries and start handling are not covered for all configurations.",
["mpnum/mparray.py"],
[("variational sweeps","MPArray.compress(method='var'), MPArray.compression(method='var')")])
p("C11","Sums of embedded local terms equal the dense sum of embedded operators",
"Placing local operators on a chain and summing them yields exactly the dense sum of the embedded operators, for every number, width, position and rank of the terms and any embedding tensor, open or cyclic. For consecutive placements the rank stays within the documented economical bound, and slice generation covers exactly the documented positions.",
["inputs","configurations"],"every width, number of terms, offset, slice pattern, embedding tensor, term rank and dtype mix in the bound",
"The economical construction has special cases at both chain ends, for width one and for few terms; tests sample a few sizes.",
["mpnum/mparray.py","mpnum/utils/physics.py"],
[("embedding and local sums","local_sum, embed_slice, regular_slices"),("cyclic Hamiltonians","mpo_cH, sparse_cH")])
p("C12","State-format conversions and reductions equal dense partial traces",
"Converting between pure states, locally purified states and density operators represents the same quantum state, and every reduced state on every window, start list, stop list or support equals the dense partial trace, in the documented order and format. Conversion functions preserve positivity and trace.",
["inputs","configurations"],"every chain length, local dimension (also per site), ancilla dimension, rank, window width and every start/stop selection in the bound",
"Tests check uniform random states with a few widths; per-site dimensions, boundary windows and start/stop selections are combinatorial.",
["mpnum/mpsmpo.py"],
[("conversions","mps_to_mpo, mps_to_pmps, pmps_to_mpo, pmps_to_mps, pmps_dm_to_array"),("reductions","reductions, reductions_mpo, reductions_mps_as_mpo, reductions_mps_as_pmps, reductions_pmps, pmps_reduction")])
p("C13","Eigenvalue search obeys variational bounds and returns true eigenpairs",
"For every Hermitian operator the returned vector respects the rank limit and the returned eigenvalue never lies outside the operator's spectrum; unless a multi-site window had to truncate, the vector is normalised and its expectation value is the returned eigenvalue. When the rank admits all states and some optimisation window spans the whole space, the result is the exact extremal eigenpair. Splitting the operator into a sum of parts changes nothing, and no argument is modified.",
["inputs","configurations"],"every small Hermitian operator in the alphabet (including degenerate and sign-flipped spectra), window width, sweep count, start vector and splitting in the bound",
"Tests look for ground states of a few random Hamiltonians; bounds and exactness for all operator kinds, splittings and windows are not settled by samples.",
["mpnum/linalg.py"],
[("local eigenvalue sweeps","eig"),("sum of operators","eig_sum")])
p("C14","Constructed measurements are valid POVMs in every dimension",
"Every measurement the library constructs (local Pauli-type measurements in any dimension, products, embeddings, blocks, repetitions and lists) has positive semidefinite elements that sum to the identity, and those documented as informationally complete are. Element ordering follows the documentation and the linear inversion map recovers every state from its probabilities.",
["inputs","configurations"],"every local dimension, chain length, start site, block width and repetition in the bound",
"Tests check dimensions up to a small number and few positions; the constructions contain dimension-dependent branches.",
["mpnum/povm/localpovm.py","mpnum/povm/mppovm.py"],
[("local POVMs","x_povm, y_povm, z_povm, pauli_povm, pauli_parts, POVM, concat"),("chain POVMs","MPPovm.from_local_povm, eye, embed, block, repeat, pauli_mpp, pauli_mpps")])
p("C15","Outcome probabilities follow the Born rule in every representation",
"The probabilities computed for any measurement and state equal the dense trace of state times element, independent of whether the state is given as pure, purified or density operator, of the algorithm selected and of the rank of the measurement. Probabilities of sub-chains equal those of the dense reduced states, and every returned distribution is real, non-negative and normalised.",
["inputs","configurations"],"every state format, implementation choice, measurement (product, entangled, partially trivial, different per site), chain length and window in the bound",
"Tests compare a few random states with uniform product measurements; the algorithms split the chain adaptively by size, so each split point needs its own configuration.",
["mpnum/povm/mppovm.py","mpnum/utils/pmf.py"],
[("probabilities","MPPovm.pmf, pmf_as_array, pmfs_as_array, block_pmfs_as_array, expectations, probability_map"),("lists","MPPovmList.pmf, pmf_as_array, block_pmfs_as_array")])
p("C16","Samples follow the exact outcome distribution for every random draw",
"Over all possible random draws, measurement sampling produces every outcome with exactly its Born probability, for either sampling method and any group size, and independent samples are independent. Outcomes are reported on the documented sites, packing and unpacking are mutually inverse, and randomness comes only from the generator passed in.",
["schedules","inputs","configurations"],"every sequence of random choices the sampler can make, for every method, group size, measurement, state format and number of samples in the bound",
"Statistical tests with fixed seeds can only detect gross bias and only for the sampled configurations; exhaustive exploration of the draws gives the exact distribution.",
["mpnum/povm/mppovm.py"],
[("sampling","MPPovm.sample, MPPovmList.sample"),("packing","MPPovm.pack_samples, unpack_samples")])
p("C17","Estimators are unbiased with the stated variance over all samples",
"Averaged over every possible sample record with its exact probability, estimated probabilities, linear functionals and their estimates from another measurement equal the true values, and the variance reported for the exact state equals the true variance of the estimate. Variance estimates are unbiased, counts as weights are equivalent to repeated samples, and quantities for which the data carry no information are reported as not available.",
["histories","inputs","configurations"],"every sample record up to a length, for every measurement pair, coefficient vector and weighting in the bound",
"Tests compare one large random sample with the true value within several standard deviations; bias or a wrong variance factor is invisible there.",
["mpnum/povm/mppovm.py"],
[("probability estimates","MPPovm.est_pmf, est_pmf_from, est_pmf_from_mpps"),("functionals","MPPovm.lfun, est_lfun, MPPovmList.lfun, est_lfun, lfun_from, est_lfun_from"),("element matching","MPPovm.match_elems")])
p("C18","Saving and loading returns the identical array",
"Writing any array to a file or group and loading it again returns an array with identical local tensors, dtypes, ranks, shape, canonical form and class, after any operation history. Saving changes neither the array nor its represented tensor, and several arrays in separate groups of one file do not interfere.",
["histories","inputs"],"every shape, dtype, gauge history, number of sites (two digit site numbers included) and target kind in the bound",
"The two tests cover one four-site shape and fail on the installed storage library.",
["mpnum/mparray.py"],
[("serialisation","MPArray.dump, MPArray.load")])
p("C19","Factories deliver the promised structure using only the given randomness",
"Every construction function returns exactly the promised tensor or structure (zero, identity, diagonal, Hermitian, normalised, positive with unit trace, requested shape, ranks and dtype) for every size request. Results depend on nothing but the arguments and the random generator passed in, are reproducible from it and leave global random state alone.",
["inputs","configurations","schedules"],"every size, leg, rank and flag combination and every generator state in the bound, including degenerate scripted draws",
"Tests draw a few sizes; leaks of global randomness and wrong rank capping at unusual sizes are not looked for.",
["mpnum/factory.py","mpnum/linalg.py","mpnum/mparray.py"],
[("factories","zero, eye, diagonal_mpa, random_mpa, random_mps, random_mpo, random_mpdo, random_local_ham"),("random start vectors","eig, MPArray.compression")])
p("C20","Dense helper routines satisfy their mathematical definition",
"Block-diagonal sums, multi-factor Kronecker products, partial traces, truncated and randomised singular value decompositions, probability projection and the model-Hamiltonian helpers compute exactly what they are defined to compute for every input in their documented domain. Invalid probability vectors are rejected, never silently repaired, and model ground-state energies equal the smallest eigenvalue of the model Hamiltonian.",
["inputs","configurations"],"every axis choice, shape, number of arguments, rank request, tolerance boundary and model parameter in the bound",
"Tests and doctests evaluate one or two examples per helper.",
["mpnum/utils/extmath.py","mpnum/utils/pmf.py","mpnum/utils/physics.py"],
[("dense algebra","block_diag, mkron, partial_trace, matdot, truncated_svd, randomized_svd"),("probabilities","project_pmf, project_nonneg"),("models","cXY_E0, cXY_local_terms, mpo_cH, sparse_cH")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
