"""Developer entry: python3-vt -m irv.dev <contracts module> [filter]"""
import importlib
import sys
import os
import multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from irv import contract, build


def main():
    mod = sys.argv[1]
    flt = sys.argv[2] if len(sys.argv) > 2 else ''
    sys.path.insert(0, os.path.join(build.VERIF, 'contracts'))
    importlib.import_module(mod)
    wd = '/tmp/w'
    os.makedirs(wd, exist_ok=True)
    if 'KEEPLL' not in os.environ:
        for f in os.listdir(wd):
            os.remove(os.path.join(wd, f))
    items = [x for x in contract.REGISTRY if flt in x[0]]
    for u in {id(x[1]): x[1] for x in items}.values():
        u.build(wd)
    with mp.Pool(8, maxtasksperchild=1) as p:
        rs = p.imap_unordered(work, range(len(items)), chunksize=1)
        work.items = items
        tot = ok = 0
        for r in rs:
            n = len(r['results'])
            k = sum(x['ok'] for x in r['results'])
            tot += n
            ok += k
            print('%-50s %d/%d  %.1fs vac=%s loops=%s' % (r['contract'], k, n, r['wall'], r.get('vacuity'), r.get('loops')))
            if r['error']:
                print(r['error'])
            if r['unsupported']:
                print('   UNSUPPORTED', r['unsupported'])
            nf = 0
            for x in r['results']:
                nf += not x['ok']
                if not x['ok'] and nf <= 8:
                    print('   FAIL', x['name'], x.get('why'), x.get('goal', '')[:300].replace('\n', ' '))
                    if x.get('model'):
                        print('        ', str(x['model'])[:300])
                if 'V' in os.environ:
                    print('     ', x['name'], x['ok'], x['backend'], x['time'])
    print('TOTAL', ok, '/', tot)


def work(i):
    sys.setrecursionlimit(20000)
    items = [x for x in contract.REGISTRY if (sys.argv[2] if len(sys.argv) > 2 else '') in x[0]]
    n, u, f, o = items[i]
    return contract.run_contract((n, u, f, o, '/tmp/w'))


if __name__ == '__main__':
    main()
