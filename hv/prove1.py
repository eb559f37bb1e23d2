"""python3-vt -m hv.prove1 cXX index out.json   (one proof, own process)"""
import importlib
import json
import sys

sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def main():
    from hv.spec import prove
    m = importlib.import_module('hv.props.' + sys.argv[1])
    p = m.PROOFS[int(sys.argv[2])]
    r = prove(p[0], p[1], **(p[2] if len(p) > 2 else {}))
    for o in r['failed']:
        o['cond'] = str(o.get('cond'))[:1500]
        o['model'] = str(o.get('model'))[:3000] if o.get('model') is not None else None
        o['info'] = str(o.get('info'))[:500] if o.get('info') is not None else None
        o['pc'] = [str(c)[:400] for c in (o.get('pc') or [])][-25:]
    open(sys.argv[3], 'w').write(json.dumps(r, indent=1, default=str))


main()
