"""Developer aid: every violation class of many runs (python tools/scan.py P12 300 [seed])."""
import collections
import importlib
import multiprocessing
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dst import env, run  # noqa
from dst.core import h64  # noqa


def one(args):
    name, base, i, tier = args
    prop = importlib.import_module(f'dst.props.{name.lower()}')
    seed = h64(base, name, i) % (1 << 53)
    scn = prop.gen(seed, tier)
    scn['seed'] = seed
    out = run.execute(prop, scn)
    return (i, out.get('violation'), out.get('harness_error'), out['probes'])


if __name__ == '__main__':
    name, n = sys.argv[1], int(sys.argv[2])
    base = int(sys.argv[3]) if len(sys.argv) > 3 else 1
    groups, probes, bad = collections.defaultdict(list), collections.Counter(), []
    with multiprocessing.get_context('fork').Pool(8) as pool:
        for i, v, h, p in pool.imap_unordered(
                one, [(name, base, i, 'quick') for i in range(n)], 4):
            probes.update(p)
            if v:
                groups[v['class'], v['msg'][:60]].append((i, v['msg']))
            if h:
                bad.append((i, h))
    for key, items in sorted(groups.items(), key=lambda x: -len(x[1])):
        print(len(items), key[0], '|', items[0][1][:600], '| runs',
              sorted(i for i, _ in items)[:8])
    for i, h in bad[:3]:
        print('HARNESS', i, h)
    print(len(bad), 'harness errors;', dict(probes))
