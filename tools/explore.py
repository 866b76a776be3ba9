#!/usr/bin/env python3
"""explore.py ID TEST LO HI [SEED]: run cases in parallel, print one example per violation key"""
import os, sys, importlib, multiprocessing as mp, tempfile, shutil, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from vlib import engine
prop, test, lo, hi = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
seed = int(sys.argv[5]) if len(sys.argv) > 5 else 1
m = importlib.import_module('props.' + prop.lower())
scratch = tempfile.mkdtemp(prefix='explore-')


def one(idx):
    d = os.path.join(scratch, 'w%d' % os.getpid())
    os.makedirs(d, exist_ok=True)
    ctx = engine.Ctx(d, 'thorough')
    c = engine.Choices(seed=engine.case_seed(seed, prop, test, idx))
    r, msg, key = engine.run_case(m.SPEC['tests'][test][0], c, ctx)
    return idx, r, msg, key, (dict(ctx.files) if r == 'violation' else None), (c.out if r == 'violation' else None)


if __name__ == '__main__':
    m.SPEC['setup']('thorough') if m.SPEC.get('setup') else None
    seen = {}
    out = os.environ.get('OUT', '/tmp/explore-%s' % prop)
    os.makedirs(out, exist_ok=True)
    with mp.Pool(8, initializer=engine._limits) as pool:
        for idx, r, msg, key, files, ch in pool.imap_unordered(one, range(lo, hi), chunksize=4):
            if r == 'violation':
                n, best = seen.get(key, (0, None))
                if best is None or len(files.get('in.y', '')) < len(best[3].get('in.y', '')):
                    best = (idx, msg, key, files, ch)
                seen[key] = (n + 1, best)
            elif r == 'resource':
                print('resource', idx, msg[:300])
    shutil.rmtree(scratch)
    for key, (n, (idx, msg, key, files, ch)) in sorted(seen.items()):
        print('=== %s x%d idx %d\n%s' % (key, n, idx, msg[:int(os.environ.get('LEN', '900'))]))
        p = os.path.join(out, '%s-%s.json' % (test, ''.join(x if x.isalnum() else '_' for x in key)))
        json.dump({'property': prop, 'test': test, 'tier': 'thorough', 'choices': ch, 'key': key, 'message': msg, 'files': files}, open(p, 'w'))
        print('   ', p)
