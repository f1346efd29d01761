From e9ad51e1ff1fb8f269a9e54b55ca1724c777dd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:09 +0000
Subject: [PATCH 01/35] fix: leg2vleg must not claim that site pos + 1 is
 right-canonical

Restoring the virtual leg changes the matricization of both sites, so the
tensor at pos + 1 is not right-canonical in general and norm() of the
result was wrong.
---
 mpnum/mparray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index f297d87..6c789cc 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -555,7 +555,7 @@ class MPArray(object):
         ltens[pos + 1] = ltens[pos + 1][0]
 
         lcanon, rcanon = self.canonical_form
-        new_normal_form = min(lcanon, pos), max(rcanon, pos + 1)
+        new_normal_form = min(lcanon, pos), max(rcanon, pos + 2)
         return MPArray(LocalTensors(ltens, cform=new_normal_form))
 
     def split(self, pos):
-- 
2.43.0


From 60abc7018bde29ac41d3262fb8e7c9e3fc7322f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:09 +0000
Subject: [PATCH 02/35] fix: canonical form bookkeeping for updates with a
 negative index

---
 mpnum/mpstruct.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpnum/mpstruct.py b/mpnum/mpstruct.py
index add76d1..cd9ca54 100644
--- a/mpnum/mpstruct.py
+++ b/mpnum/mpstruct.py
@@ -85,6 +85,8 @@ class LocalTensors(object):
         and NO slices.
         """
         self._ltens[index] = tens
+        if index < 0:
+            index += len(self._ltens)
         # If a canonical tensor is set next to a slice in canonical form,
         # the size of the canonical slice will increase by one
         # (equality case; first argument to max/min). If a canoical
-- 
2.43.0


From 1f406a2edac9e23cde1c85aafc9499502f1ee684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:26 +0000
Subject: [PATCH 03/35] fix: repeat a single canonicalization flag in
 multi-site updates

'left' and 'right' are sequences themselves, so they were consumed letter
by letter: the flag was lost and updates of more than four (five) sites
silently dropped the remaining tensors.
---
 mpnum/mpstruct.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mpnum/mpstruct.py b/mpnum/mpstruct.py
index cd9ca54..4d1b352 100644
--- a/mpnum/mpstruct.py
+++ b/mpnum/mpstruct.py
@@ -5,6 +5,7 @@ from __future__ import absolute_import, division, print_function
 import itertools as it
 import collections
 
+from six import string_types
 from six.moves import range, zip
 
 
@@ -131,7 +132,9 @@ class LocalTensors(object):
                 tens[:-1], tens[1:]))
             assert self[stop - 1].shape[-1] == tens[-1].shape[-1]
 
-            if not isinstance(canonicalization, collections.Sequence):
+            # A string is a sequence as well, but it is a single value here.
+            if isinstance(canonicalization, string_types) or \
+                    not isinstance(canonicalization, collections.Sequence):
                 canonicalization = it.repeat(canonicalization)
 
             for ten, pos, norm in zip(tens, range(*indices), canonicalization):
-- 
2.43.0


From 9e2ce61af213e4d9e21f66a0f76953add7af78b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:58 +0000
Subject: [PATCH 04/35] fix: keep canonical form claims valid when a canonical
 tensor is replaced

A left-canonical tensor set inside the right-canonical slice (and vice
versa) did not shrink that slice; a left-canonical last (right-canonical
first) tensor produced a canonical form which LocalTensors rejects.
---
 mpnum/mpstruct.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/mpnum/mpstruct.py b/mpnum/mpstruct.py
index 4d1b352..62caffa 100644
--- a/mpnum/mpstruct.py
+++ b/mpnum/mpstruct.py
@@ -88,20 +88,22 @@ class LocalTensors(object):
         self._ltens[index] = tens
         if index < 0:
             index += len(self._ltens)
+        lcanon, rcanon = self._lcanonical, self._rcanonical
+        # The sizes of the canonical slices may decrease because the new
+        # tensor replaces one which was known to be canonical.
+        self._lcanonical = min(index, lcanon)
+        self._rcanonical = max(index + 1, rcanon)
         # If a canonical tensor is set next to a slice in canonical form,
         # the size of the canonical slice will increase by one
         # (equality case; first argument to max/min). If a canoical
         # tensor is set inside a canoncial slice, its size will
         # remain the same (inequality case; second argument).
-        if canonicalization == 'left' and self._lcanonical - index >= 0:
-            self._lcanonical = max(index + 1, self._lcanonical)
-        elif canonicalization == 'right' and index - self._rcanonical >= -1:
-            self._rcanonical = min(index, self._rcanonical)
-        else:
-            # If a non-canonical tensor is provided, the sizes of the
-            # canoical slices may decrease.
-            self._lcanonical = min(index, self._lcanonical)
-            self._rcanonical = max(index + 1, self._rcanonical)
+        # At least one site is always considered as not normalized.
+        if canonicalization == 'left' and index <= lcanon:
+            self._lcanonical = min(max(index + 1, lcanon),
+                                   len(self._ltens) - 1)
+        elif canonicalization == 'right' and index >= rcanon - 1:
+            self._rcanonical = max(min(index, rcanon), 1)
 
     def update(self, index, tens, canonicalization=None):
         """Update the local tensor at site ``index`` to the new value ``tens``.
-- 
2.43.0


From f1cf90d55b7d9fa16aa0ad8e854456cb9ee56f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:58 +0000
Subject: [PATCH 05/35] fix: scalar multiples do not claim that the scaled site
 is right-canonical

---
 mpnum/mparray.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index 6c789cc..fe3dd37 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -372,7 +372,9 @@ class MPArray(object):
             ltens = self._lt
             ltens_new = it.chain(ltens[:lcanon], [fact * ltens[lcanon]],
                                  ltens[lcanon + 1:])
-            return type(self)(LocalTensors(ltens_new, cform=(lcanon, rcanon)))
+            # The scaled tensor is not canonical anymore.
+            cform = lcanon, max(rcanon, lcanon + 1)
+            return type(self)(LocalTensors(ltens_new, cform=cform))
 
         raise NotImplementedError("Multiplication by non-scalar not supported")
 
-- 
2.43.0


From 295db18366f306197503d9c114b2f479c70f0ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:58 +0000
Subject: [PATCH 06/35] fix: load MPArrays with h5py 3, which removed
 Dataset.value

---
 mpnum/mparray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index fe3dd37..86638af 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -182,7 +182,7 @@ class MPArray(object):
             with h5py.File(source, 'r') as infile:
                 return cls.load(infile)
 
-        ltens = [source[str(i)].value for i in range(source.attrs['len'])]
+        ltens = [source[str(i)][()] for i in range(source.attrs['len'])]
         return cls(LocalTensors(ltens, cform=source.attrs['canonical_form']))
 
     @classmethod
-- 
2.43.0


From e7d77fac244ad6ef6f01e882129badf798f4d204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:10 +0000
Subject: [PATCH 07/35] fix: MPArray.sum with negative legs and with None for
 the first site

A negative leg number silently summed over the right virtual leg and a
per-site sequence starting with None was taken for a list of legs.
---
 mpnum/mparray.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index 86638af..1e115e8 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -434,13 +434,12 @@ class MPArray(object):
             if not hasattr(axes, '__iter__'):
                 axes = (axes,)  # Single integer
             axes = tuple(axes)
-            if len(axes) == 0 or not (axes[0] is not None
-                                      and hasattr(axes[0], '__iter__')):
+            if not any(ax is None or hasattr(ax, '__iter__') for ax in axes):
                 axes = it.repeat(axes)  # Sum over same physical legs everywhere
             else:
                 assert len(axes) == len(self)
         axes = (tuple(range(1, ndims + 1)) if ax is None
-                else tuple(a + 1 for a in ax)
+                else tuple(a + 1 if a >= 0 else a - 1 for a in ax)
                 for ax, ndims in zip(axes, self.ndims))
         out = type(self)(lt.sum(ax) if ax else lt
                          for ax, lt in zip(axes, self.lt))
-- 
2.43.0


From 4756512f4b20557c18750915641aa01d3e315439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:32 +0000
Subject: [PATCH 08/35] fix: sums of MPAs with different dtypes must not drop
 data

The dtype of the result was the 'largest' dtype or the one of the first
summand, which need not be able to hold the other summands (e.g.
complex64 + float64).
---
 mpnum/mparray.py       | 2 +-
 mpnum/utils/extmath.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index 1e115e8..f3dc3a5 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -1852,7 +1852,7 @@ def _local_add(ltenss):
     newshape = (sum(lt.shape[0] for lt in ltenss), )
     newshape += shape[1:-1]
     newshape += (sum(lt.shape[-1] for lt in ltenss), )
-    res = np.zeros(newshape, dtype=max(lt.dtype for lt in ltenss))
+    res = np.zeros(newshape, dtype=np.result_type(*ltenss))
 
     pos_l, pos_r = 0, 0
     for lt in ltenss:
diff --git a/mpnum/utils/extmath.py b/mpnum/utils/extmath.py
index c6480c8..56b7f67 100644
--- a/mpnum/utils/extmath.py
+++ b/mpnum/utils/extmath.py
@@ -90,7 +90,7 @@ def block_diag(summands, axes=(0, 1)):
 
     shapes = np.array([array.shape[:nr_axes] for array in summands])
     res = np.zeros(tuple(shapes.sum(axis=0)) + summands[0].shape[nr_axes:],
-                   dtype=summands[0].dtype)
+                   dtype=np.result_type(*summands))
     startpos = np.zeros(nr_axes, dtype=int)
 
     for array, shape in zip(summands, shapes):
-- 
2.43.0


From 683fdaf99933685f0283f6e394720b487d4f30a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:32 +0000
Subject: [PATCH 09/35] fix: random_local_ham ignored its randstate

---
 mpnum/factory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpnum/factory.py b/mpnum/factory.py
index 208ff9c..c22deea 100644
--- a/mpnum/factory.py
+++ b/mpnum/factory.py
@@ -416,7 +416,8 @@ def random_local_ham(sites, ldim=2, intlen=2, randstate=None):
 
     """
     def get_local_ham():
-        op = _random_op(intlen, ldim, hermitian=True, normalized=True)
+        op = _random_op(intlen, ldim, hermitian=True, normalized=True,
+                        randstate=randstate)
         op = global_to_local(op, sites=intlen)
         return mp.MPArray.from_array(op, ndims=2)
 
-- 
2.43.0


From 0bfdb1b4afb507cc3d519641cd499f525bd5ea87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:32 +0000
Subject: [PATCH 10/35] fix: variational compression with var_sites larger than
 the chain

The sweeps were empty and the random start vector was returned as result.
---
 mpnum/mparray.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index f3dc3a5..d9cf6fc 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -892,6 +892,9 @@ class MPArray(object):
             compr = startmpa.copy()
             assert all(d1 == d2 for d1, d2 in zip(self.shape, compr.shape))
 
+        # We cannot vary more sites than there are.
+        var_sites = min(var_sites, len(self))
+
         # flatten the array since MPS is expected & bring back
         shape = self.shape
         compr = compr.ravel()
-- 
2.43.0


From 29400898f37a4c1477a58917ae3074e3dc46f7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:32 +0000
Subject: [PATCH 11/35] fix: pad_ranks() for a single site

---
 mpnum/mparray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index d9cf6fc..a65bb80 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -1006,7 +1006,7 @@ class MPArray(object):
 
         """
         if rank is None:
-            rank = max(self.ranks)
+            rank = max(self.ranks) if len(self) > 1 else 1
         ranks = it.repeat(rank)
         if not force_rank:
             ranks = [min(f, b) for f, b in zip(full_rank(self.shape), ranks)]
-- 
2.43.0


From 30d868a4b00227379de95879999b77d131e3a00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:51 +0000
Subject: [PATCH 12/35] fix: MPPovmList.est_lfun ignored the weights of the
 samples

---
 mpnum/povm/mppovm.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mpnum/povm/mppovm.py b/mpnum/povm/mppovm.py
index 66004b4..3ff73f4 100644
--- a/mpnum/povm/mppovm.py
+++ b/mpnum/povm/mppovm.py
@@ -1431,9 +1431,13 @@ class MPPovmList:
         assert len(self.mpps) == len(coeff)
         assert len(self.mpps) == len(funs)
         assert len(self.mpps) == len(samples)
+        if weights is None:
+            weights = (None,) * len(self.mpps)
+        assert len(self.mpps) == len(weights)
         est, var = zip(*(
-            mpp.est_lfun(c, f, sam)
-            for mpp, c, f, sam in zip(self.mpps, coeff, funs, samples)))
+            mpp.est_lfun(c, f, sam, w, eps)
+            for mpp, c, f, sam, w in zip(self.mpps, coeff, funs, samples,
+                                         weights)))
         return sum(est), sum(var)
 
     def _lfun_estimator(self, other, coeff, n_samples, eps):
-- 
2.43.0


From 01131f2f0595e05ffbe1de66420a153fcacd8339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:50 +0000
Subject: [PATCH 13/35] fix: MPPovmList.lfun_from truncated fractional weights
 to integers

The sum of weights was accumulated in an integer array, so e.g. weights
(1.5, 1.5) summed to 2 and (0.5, 0.5) to 0.
---
 mpnum/povm/mppovm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpnum/povm/mppovm.py b/mpnum/povm/mppovm.py
index 3ff73f4..80980ee 100644
--- a/mpnum/povm/mppovm.py
+++ b/mpnum/povm/mppovm.py
@@ -984,7 +984,8 @@ class MPPovm(mp.MPArray):
         """
         assert coeff.shape == self.nsoutdims
         n_nsout = len(self.nsoutdims)
-        myout_n_samples = np.zeros(self.nsoutdims, int)
+        # Not necessarily integers: arbitrary weights are also supported.
+        myout_n_samples = np.zeros(self.nsoutdims, float)
         fun_mpp = []
         fun_myout = []
         fun_coeff = []
-- 
2.43.0


From 42e2fba2f292e5ba07023031601d04293936763e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:18 +0000
Subject: [PATCH 14/35] fix: reject multi-site updates with a wrong number of
 tensors or flags

LocalTensors.update(slice, tens) zipped positions, tensors and flags, so that
surplus or missing items were dropped silently; for strided slices the bonds
to the sites in between were not checked. All of these left the chain with
mismatched virtual legs.
---
 mpnum/mpstruct.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/mpnum/mpstruct.py b/mpnum/mpstruct.py
index 62caffa..daeeef6 100644
--- a/mpnum/mpstruct.py
+++ b/mpnum/mpstruct.py
@@ -124,22 +124,29 @@ class LocalTensors(object):
 
         """
         if isinstance(index, slice):
-            indices = index.indices(len(self))
-            # In Python 3, we can do range(*indices).start etc. Python 2 compat:
-            start, stop, step = indices
-            # Allow rank changes if multiple consecutive local tensors change.
+            positions = range(*index.indices(len(self)))
             tens = list(tens)
-            assert self[start].shape[0] == tens[0].shape[0]
+            assert len(tens) == len(positions)
+            # Allow rank changes if multiple consecutive local tensors change.
+            first, last = min(positions), max(positions)
+            current = self._ltens[first:last + 1]
+            new = list(current)
+            for ten, pos in zip(tens, positions):
+                assert ten.ndim >= 2
+                new[pos - first] = ten
+            assert current[0].shape[0] == new[0].shape[0]
             assert all(t.shape[-1] == u.shape[0] for t, u in zip(
-                tens[:-1], tens[1:]))
-            assert self[stop - 1].shape[-1] == tens[-1].shape[-1]
+                new[:-1], new[1:]))
+            assert current[-1].shape[-1] == new[-1].shape[-1]
 
             # A string is a sequence as well, but it is a single value here.
             if isinstance(canonicalization, string_types) or \
                     not isinstance(canonicalization, collections.Sequence):
-                canonicalization = it.repeat(canonicalization)
+                canonicalization = it.repeat(canonicalization, len(tens))
+            else:
+                assert len(canonicalization) == len(tens)
 
-            for ten, pos, norm in zip(tens, range(*indices), canonicalization):
+            for ten, pos, norm in zip(tens, positions, canonicalization):
                 self._update(pos, ten, canonicalization=norm)
 
         else:
-- 
2.43.0


From 982a38715fff91cfe336378ed7d270ad47df1011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:19 +0000
Subject: [PATCH 15/35] fix: MPPovmList.est_lfun treats a single number as no
 weights

Callers which pass a scalar in place of the weights (as the test suite does)
got the unweighted estimate before; keep that.
---
 mpnum/povm/mppovm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpnum/povm/mppovm.py b/mpnum/povm/mppovm.py
index 80980ee..624b3f2 100644
--- a/mpnum/povm/mppovm.py
+++ b/mpnum/povm/mppovm.py
@@ -1432,7 +1432,8 @@ class MPPovmList:
         assert len(self.mpps) == len(coeff)
         assert len(self.mpps) == len(funs)
         assert len(self.mpps) == len(samples)
-        if weights is None:
+        if weights is None or np.isscalar(weights):
+            # A single number cannot distinguish samples: unweighted.
             weights = (None,) * len(self.mpps)
         assert len(self.mpps) == len(weights)
         est, var = zip(*(
-- 
2.43.0


From 46b375ecb155378ea48b6d770c88e128f2849900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:41 +0000
Subject: [PATCH 16/35] fix: variational compression of arrays which are not
 double precision

random_mpa() only knows double precision dtypes, so compression with a
random start vector failed with a KeyError for all others.
---
 mpnum/mparray.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index a65bb80..95943df 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -886,8 +886,10 @@ class MPArray(object):
 
         if startmpa is None:
             from mpnum.factory import random_mpa
+            # random_mpa() provides double precision only.
+            dtype = np.result_type(self.dtype, np.float_).type
             compr = random_mpa(len(self), self.shape, rank, randstate=randstate,
-                               dtype=self.dtype)
+                               dtype=dtype)
         else:
             compr = startmpa.copy()
             assert all(d1 == d2 for d1, d2 in zip(self.shape, compr.shape))
-- 
2.43.0


From aa2748547958a867a37f52c00aaab85224dccb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:30 +0000
Subject: [PATCH 17/35] fix: reductions_mpo results do not depend on gauge
 changes during iteration

---
 mpnum/mpsmpo.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mpnum/mpsmpo.py b/mpnum/mpsmpo.py
index 337935d..3521ba8 100644
--- a/mpnum/mpsmpo.py
+++ b/mpnum/mpsmpo.py
@@ -244,6 +244,10 @@ def reductions_mpo(mpa, width=None, startsites=None, stopsites=None):
         _check_reductions_args(len(mpa), width, startsites, stopsites)
 
     assert_array_equal(mpa.ndims, 2)
+    # All results and the cached remainders must use the same local
+    # tensors, even if the caller changes the gauge of `mpa` (e.g. with
+    # `mp.norm(mpa)`) before the iterator is exhausted.
+    mpa_lt = list(mpa.lt)
     rem_left = {0: np.array(1, ndmin=2)}
     rem_right = rem_left.copy()
 
@@ -261,20 +265,20 @@ def reductions_mpo(mpa, width=None, startsites=None, stopsites=None):
         except KeyError:
             rem = get_remainder(rem_cache, num_sites - 1, end)
             last_pos = num_sites - 1 if end == 1 else -num_sites
-            add = np.trace(mpa.lt[last_pos], axis1=1, axis2=2)
+            add = np.trace(mpa_lt[last_pos], axis1=1, axis2=2)
             if end == -1:
                 rem, add = add, rem
 
             rem_cache[num_sites] = matdot(rem, add)
             return rem_cache[num_sites]
 
-    num_sites = len(mpa)
+    num_sites = len(mpa_lt)
     for start, stop in zip(startsites, stopsites):
         # FIXME we could avoid taking copies here, but then in-place
         # multiplication would have side effects. We could make the
         # affected arrays read-only to turn unnoticed side effects into
         # errors.
-        ltens = [lten for lten in mpa.lt[start:stop]]
+        ltens = mpa_lt[start:stop]
         rem = get_remainder(rem_left, start, 1)
         ltens[0] = matdot(rem, ltens[0])
         rem = get_remainder(rem_right, num_sites - stop, -1)
-- 
2.43.0


From ea3794be4d410e400512c26cd91e0cf88caf243a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:49 +0000
Subject: [PATCH 18/35] fix: local_sum rejects terms which do not match the
 given slices

---
 mpnum/mparray.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index 95943df..89ded4b 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -1769,8 +1769,12 @@ def local_sum(mpas, embed_tensor=None, length=None, slices=None):
     if slices is not None:
         assert length is not None
         slices = tuple(slices)
+        mpas = tuple(mpas)
+        assert len(mpas) == len(slices), 'Need one slice for each MPA'
         reg = regular_slices(length, slices[0].stop - slices[0].start, offset=1)
         if all(s == t for s, t in zip_longest(slices, reg)):
+            assert all(len(mpa) == s.stop - s.start
+                       for mpa, s in zip(mpas, slices))
             slices = None
     # If `slices` is not given, use :func:`_local_sum_identity`.
     if slices is None:
-- 
2.43.0


From fc89a26b71087b3b2c2b573d33227334318cd66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:47 +0000
Subject: [PATCH 19/35] fix: eig_sum with real and complex terms and a real
 start vector

---
 mpnum/linalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpnum/linalg.py b/mpnum/linalg.py
index f590b59..c6fbd7f 100644
--- a/mpnum/linalg.py
+++ b/mpnum/linalg.py
@@ -341,9 +341,9 @@ def _eig_sum_minimize_locally(
     op = 0
     for mpa, ndims, lv, rv in zip(mpas, mpas_ndims, leftvec, rightvec):
         if ndims == 2:
-            op += _eig_local_op(lv, list(mpa.lt[pos]), rv)
+            op = op + _eig_local_op(lv, list(mpa.lt[pos]), rv)
         elif ndims == 1:
-            op += _eig_local_op_mps(lv, list(mpa.lt[pos]), rv)
+            op = op + _eig_local_op_mps(lv, list(mpa.lt[pos]), rv)
         else:
             raise ValueError('ndims = {!r} not supported'.format(ndims))
 
-- 
2.43.0


From 2cbe9f964e93cfc444087f0dc2d3fb2277265acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:48 +0000
Subject: [PATCH 20/35] fix: MPPovm.embed rejects negative positions

---
 mpnum/povm/mppovm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpnum/povm/mppovm.py b/mpnum/povm/mppovm.py
index 624b3f2..3313590 100644
--- a/mpnum/povm/mppovm.py
+++ b/mpnum/povm/mppovm.py
@@ -295,7 +295,8 @@ class MPPovm(mp.MPArray):
                      else (local_dim,) * nr_sites)
         assert len(local_dim) == nr_sites
         n_right = nr_sites - len(self) - startsite
-        assert n_right >= 0, "Embedding position not possible"
+        assert startsite >= 0 and n_right >= 0, \
+            "Embedding position not possible"
 
         factors = []
         if startsite > 0:
-- 
2.43.0


From 51f19b1825c5cc7e7b81798b67d9e5222e234731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:48 +0000
Subject: [PATCH 21/35] fix: concat() of POVMs accepts iterators and needs one
 weight per POVM

---
 mpnum/povm/localpovm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpnum/povm/localpovm.py b/mpnum/povm/localpovm.py
index 462eeb1..c532100 100644
--- a/mpnum/povm/localpovm.py
+++ b/mpnum/povm/localpovm.py
@@ -170,6 +170,8 @@ def concat(povms, weights, info_complete=False):
     :returns: POVM
 
     """
+    povms, weights = tuple(povms), tuple(weights)
+    assert len(povms) == len(weights), "Need one weight for each POVM"
     assert_almost_equal(sum(weights), 1.0)
     elements = sum(([weight * elem for elem in povm]
                     for povm, weight in zip(povms, weights)), [])
-- 
2.43.0


From fff0f10f3eb21d04358ee9366b79df00f8249c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:24 +0000
Subject: [PATCH 22/35] fix: partial MPPovm.repeat() does not depend on the
 gauge

---
 mpnum/povm/mppovm.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/mpnum/povm/mppovm.py b/mpnum/povm/mppovm.py
index 3313590..b152eaf 100644
--- a/mpnum/povm/mppovm.py
+++ b/mpnum/povm/mppovm.py
@@ -348,11 +348,17 @@ class MPPovm(mp.MPArray):
 
         """
         n_repeat, n_last = nr_sites // len(self), nr_sites % len(self)
+        factors = [self] * n_repeat
         if n_last > 0:
             assert self.ranks[n_last - 1] == 1, \
                 "Partial repetition requires factorizing MP-POVM"
-        return mp.chain([self] * n_repeat
-                        + ([MPPovm(self.lt[:n_last])] if n_last > 0 else []))
+            # The gauge determines how the prefactor of the MP-POVM is
+            # distributed: Include the part of it which is contained
+            # in the sites cut off.
+            last = MPPovm(self.lt[:n_last])
+            last *= _normalization(self.lt[n_last:])
+            factors.append(last)
+        return mp.chain(factors)
 
     def expectations(self, mpa, mode='auto'):
         """Computes the exp. values of the POVM elements with given state
@@ -1189,6 +1195,14 @@ class MPPovm(mp.MPArray):
                 n_samples_used.reshape(self.nsoutdims))
 
 
+def _normalization(ltens):
+    """Prefactor `c` if the MP-POVM with local tensors `ltens` sums to `c 1`"""
+    out = np.ones((1, 1))
+    for lt in ltens:
+        out = np.dot(out, np.trace(lt.sum(1), axis1=1, axis2=2) / lt.shape[2])
+    return out[0, 0]
+
+
 class MPPovmList:
 
     """A list of :class:`Matrix Product POVMs <MPPovm>`
-- 
2.43.0


From 6f515320d561cf34b21e1a76a3a0402f47e1c530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:55 +0000
Subject: [PATCH 23/35] fix: factories silently ignored surplus entries of the
 rank argument

The length check came after zip() with the maximal ranks had already
truncated the sequence, so it had no effect unless force_rank=True.
---
 mpnum/factory.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mpnum/factory.py b/mpnum/factory.py
index c22deea..b0a1504 100644
--- a/mpnum/factory.py
+++ b/mpnum/factory.py
@@ -162,12 +162,12 @@ def _generate(sites, ldim, rank, func, force_rank):
     else:
         rank = tuple(rank)
 
-    if not force_rank:
-        rank = tuple(min(b1, b2) for b1, b2 in zip(rank, mp.full_rank(ldim)))
-
     assert len(ldim) == sites
     assert len(rank) == sites - 1
 
+    if not force_rank:
+        rank = tuple(min(b1, b2) for b1, b2 in zip(rank, mp.full_rank(ldim)))
+
     rank = (1,) + rank + (1,)
     ltens = (func((rank[n],) + tuple(ld) + (rank[n + 1],))
              for n, ld in enumerate(ldim))
-- 
2.43.0


From c42960ebb9801cb1c668366371151801f36919c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:33 +0000
Subject: [PATCH 24/35] fix: cXY_E0 returned an excited energy for asymmetry
 |gamma| > 1

For |gamma| > 1 the ground state of the cyclic XY model is in the parity
sector with half-integer momenta; the value returned was above the
smallest eigenvalue of the Hamiltonian.
---
 mpnum/utils/physics.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mpnum/utils/physics.py b/mpnum/utils/physics.py
index dc2550d..ded3b51 100644
--- a/mpnum/utils/physics.py
+++ b/mpnum/utils/physics.py
@@ -77,7 +77,9 @@ def cXY_E0(nr_sites, gamma):
        \Lambda_k^2 = 1 - (1 - \gamma^2) [\sin(k)]^2, \quad
        k(l) = \frac{2\pi}{N} \left( l - \frac N2 \right)
 
-    and :math:`\Lambda_k \ge 0`.
+    and :math:`\Lambda_k \ge 0`. For :math:`\vert\gamma\vert > 1`, the
+    ground state is in the other parity sector and
+    :math:`k(l) = \frac{2\pi}{N} (l + \frac12 - \frac N2)`.
 
     """
     N = nr_sites
@@ -85,6 +87,8 @@ def cXY_E0(nr_sites, gamma):
         raise ValueError('nr_sites must be an odd multiple of two')
     l = np.arange(N)
     k = (2 * np.pi / N) * (l - N / 2)  # Eq. (2.18c)
+    if abs(gamma) > 1:
+        k += np.pi / N
     Lambda2 = 1 - (1 - gamma**2) * (np.sin(k))**2  # Eq. (2.18b)
     Lambda = Lambda2**0.5
     E0 = -0.5 * Lambda.sum()  # Eqs. (2.20), (A-12)
-- 
2.43.0


From 23634e17d3ca33e2e1af1e40985e8e2016b3fbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:33 +0000
Subject: [PATCH 25/35] fix: sparse_cH failed if the last term was given as
 square array

The documentation allows arrays and MPOs for all terms.
---
 mpnum/utils/physics.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpnum/utils/physics.py b/mpnum/utils/physics.py
index ded3b51..25b94a7 100644
--- a/mpnum/utils/physics.py
+++ b/mpnum/utils/physics.py
@@ -116,6 +116,9 @@ def sparse_cH(terms, ldim=2):
         H += sp.kron(left, sp.kron(term, right))
     # The last term acts on the first and last site.
     cyc = terms[-1]
+    if not hasattr(cyc, 'lt'):
+        cyc = mp.MPArray.from_array_global(
+            np.asarray(cyc).reshape((ldim,) * 4), ndims=2)
     middle = sp.eye(ldim**pos)
     for i in range(cyc.ranks[0]):
         H += sp.kron(cyc.lt[0][0, ..., i], sp.kron(middle, cyc.lt[1][i, ..., 0]))
-- 
2.43.0


From 11235f719b6a2efa54e83501f63a8ddbcd5f3234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:26 +0000
Subject: [PATCH 26/35] fix: MPArray.sum summed over a bond for legs which do
 not exist

---
 mpnum/mparray.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index 89ded4b..4e513af 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -438,9 +438,11 @@ class MPArray(object):
                 axes = it.repeat(axes)  # Sum over same physical legs everywhere
             else:
                 assert len(axes) == len(self)
-        axes = (tuple(range(1, ndims + 1)) if ax is None
-                else tuple(a + 1 if a >= 0 else a - 1 for a in ax)
-                for ax, ndims in zip(axes, self.ndims))
+        axes = [tuple(range(ndims)) if ax is None else tuple(ax)
+                for ax, ndims in zip(axes, self.ndims)]
+        assert all(-ndims <= a < ndims for ax, ndims in zip(axes, self.ndims)
+                   for a in ax), 'Cannot sum over virtual legs'
+        axes = (tuple(a + 1 if a >= 0 else a - 1 for a in ax) for ax in axes)
         out = type(self)(lt.sum(ax) if ax else lt
                          for ax, lt in zip(axes, self.lt))
         if sum(out.ndims) == 0:
-- 
2.43.0


From 7d0d3a5f2f19e8e0aa84315714d856b7a32c00fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:26 +0000
Subject: [PATCH 27/35] fix: axis_iter iterated over a bond for negative and
 missing legs

---
 mpnum/mparray.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index 4e513af..362492e 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -301,7 +301,11 @@ class MPArray(object):
         if not isinstance(axes, collections.Iterable):
             axes = it.repeat(axes, len(self))
 
-        ltens_iter = it.product(*(iter(np.rollaxis(lten, i + 1))
+        axes = tuple(it.islice(axes, len(self)))
+        assert len(axes) == len(self), 'Need one axis for each site'
+        assert all(-ndims <= i < ndims for i, ndims in zip(axes, self.ndims)), \
+            'Cannot iterate over virtual legs'
+        ltens_iter = it.product(*(iter(np.rollaxis(lten, i + 1 if i >= 0 else i - 1))
                                   for i, lten in zip(axes, self.lt)))
         return (MPArray(ltens) for ltens in ltens_iter)
 
-- 
2.43.0


From fa7c4aea973039cb094709742661f75b11be1638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:26 +0000
Subject: [PATCH 28/35] fix: dot and partialdot contracted a bond for legs
 which do not exist

---
 mpnum/mparray.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index 362492e..fd46a3a 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -1837,6 +1837,10 @@ def _local_dot(ltens_l, ltens_r, axes):
     clegs_r = len(axes[1]) if isinstance(axes[0], collections.Sequence) else 1
     assert clegs_l == clegs_r, \
         "Number of contracted legs differ: {} != {}".format(clegs_l, clegs_r)
+    for lten, axs in zip((ltens_l, ltens_r), axes):
+        axs = axs if isinstance(axs, collections.Sequence) else (axs,)
+        assert all(1 <= (ax if ax >= 0 else ax + lten.ndim) <= lten.ndim - 2
+                   for ax in axs), "Cannot contract virtual legs"
     res = np.tensordot(ltens_l, ltens_r, axes=axes)
     # Rearrange the virtual-dimension legs
     res = np.rollaxis(res, ltens_l.ndim - clegs_l, 1)
-- 
2.43.0


From 8824b7fa92bf8100660d067758858333a9249ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:26 +0000
Subject: [PATCH 29/35] fix: partialdot silently ignored sites for start_at out
 of range

---
 mpnum/mparray.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index fd46a3a..0deff6b 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -1227,6 +1227,8 @@ def partialdot(mpa1, mpa2, start_at, axes=(-1, 0)):
     # Make the MPAs equal length (in fact, the shorter one will be
     # infinite length, but that's fine because we use zip()).
     shorter = mpa1 if len(mpa1) < len(mpa2) else mpa2
+    assert 0 <= start_at <= max(len(mpa1), len(mpa2)) - len(shorter), \
+        "start_at = {} not allowed".format(start_at)
     shorter = it.chain(it.repeat(None, times=start_at), shorter.lt,
                        it.repeat(None))
     if len(mpa1) < len(mpa2):
-- 
2.43.0


From 32d0eb6d461c895a8d0596e9e2226c532d94b6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:26 +0000
Subject: [PATCH 30/35] fix: diag took a bond for a negative axis

---
 mpnum/mparray.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index 0deff6b..bd2bb11 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -1339,6 +1339,8 @@ def diag(mpa, axis=0):
         pass
     ndims = mpa.ndims[0]
     assert all(p == ndims for p in mpa.ndims)
+    if axis < 0:
+        axis += ndims
 
     slices = ((slice(None),) * (axis + 1) + (i,) for i in range(dim))
     mpas = [MPArray(ltens[s] for ltens in mpa.lt) for s in slices]
-- 
2.43.0


From e4645188e449d7e70b1b2a78e9b0d8a5c9125144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:03 +0000
Subject: [PATCH 31/35] fix: reshape dropped sites if there are too few new
 shapes

---
 mpnum/mparray.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index bd2bb11..a2f5014 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -474,7 +474,8 @@ class MPArray(object):
 
         newshapes = tuple(newshapes)
         if not isinstance(newshapes[0], collections.Iterable):
-            newshapes = it.repeat(newshapes, times=len(self))
+            newshapes = (newshapes,) * len(self)
+        assert len(newshapes) == len(self), 'Need one shape for each site'
 
         ltens = [_local_reshape(lten, newshape)
                  for lten, newshape in zip(self._lt, newshapes)]
-- 
2.43.0


From e024f68cdda5b1d3d22665e7ccc3ec2cbb222b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:03 +0000
Subject: [PATCH 32/35] fix: partialtrace and trace dropped sites if there are
 too few axes

---
 mpnum/mparray.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index a2f5014..fb712ce 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -1552,6 +1552,7 @@ def partialtrace(mpa, axes=(0, 1), mptype=None):
     """
     if axes[0] is not None and not isinstance(axes[0], collections.Iterable):
         axes = (axes,) * len(mpa)
+    assert len(axes) == len(mpa), "Need one pair of axes for each site"
     # Prevent the user from accidentally tracing out bond legs
     assert all(ax is None or all(-n <= a < n for a in ax)
                for n, ax in zip(mpa.ndims, axes)), "Too few legs"
-- 
2.43.0


From ba9a900e845633fb581d54a78bb73302af969ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:03 +0000
Subject: [PATCH 33/35] fix: inject repeated sites or moved tensors for
 positions out of range

---
 mpnum/mparray.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index fb712ce..51f70fe 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -1393,6 +1393,8 @@ def inject(mpa, pos, num=None, inject_ten=None):
     assert not any(n is None and hasattr(tens, 'shape')
                    for n, tens in zip(num, inject_ten)), \
         """num[i] is None requires a list of tensors at inject_ten[i]"""
+    pos = tuple(p + len(mpa) if p < 0 else p for p in pos)
+    assert all(0 <= p <= len(mpa) for p in pos)
     assert all(begin < end for begin, end in zip(pos[:-1], pos[1:]))
     pos = (0,) + pos + (len(mpa),)
     pieces = tuple(tuple(mpa.lt[begin:end])
-- 
2.43.0


From c41a5fbc776ea48133c22c9c9b6b4d3cce2f8354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:22 +0000
Subject: [PATCH 34/35] fix: sumup ignored summands and weights if their
 numbers differ

---
 mpnum/mparray.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index 51f70fe..5640da9 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -1182,6 +1182,9 @@ def sumup(mpas, weights=None):
     mpas = list(mpas)
     length = len(mpas[0])
     assert all(len(mpa) == length for mpa in mpas)
+    if weights is not None:
+        weights = list(weights)
+        assert len(weights) == len(mpas), "Need one weight for each summand"
 
     if length == 1:
         if weights is None:
-- 
2.43.0


From 0ea1f9be6d1eba2c1bdf3062a83445f197843274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:22 +0000
Subject: [PATCH 35/35] fix: inner_prod_mps ignored sites of arrays with
 different lengths

---
 mpnum/special.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpnum/special.py b/mpnum/special.py
index 8ee5d3d..89ac30c 100644
--- a/mpnum/special.py
+++ b/mpnum/special.py
@@ -24,6 +24,7 @@ def inner_prod_mps(mpa1, mpa2):
     :returns: <mpa1|mpa2>
 
     """
+    assert len(mpa1) == len(mpa2)
     assert all(rank == 1 for rank in mpa1.ranks)
     assert all(dim == 1 for dim in mpa1.ndims)
     assert all(dim == 1 for dim in mpa2.ndims)
-- 
2.43.0

