"""Re-execute one recorded case: exit 1 and the message if it fails."""
import importlib
import json
import sys


def main(path):
    rec = json.load(open(path))
    from . import lib, worker
    mod = importlib.import_module('mc.props.' + rec['property'].lower())
    ctx = lib.Ctx(rec['property'], rec['tier'], [])
    ctx.begin(rec['key'])
    # JSON turns tuples into lists: look the key up in the enumeration.
    for key in mod.cases(rec['tier']):
        if json.loads(json.dumps(key)) == rec['key']:
            break
    else:
        sys.exit('case is not in the enumeration')
    out = worker.execute(mod, key, ctx, 1200)
    if out is None:
        print('case holds')
        return 0
    print(out[0], out[1])
    return 1


if __name__ == '__main__':
    sys.exit(main(sys.argv[1]))
