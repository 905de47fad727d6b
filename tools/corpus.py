"""Collect shrunk failures (replays/) into corpus/<id>.jsonl.

    tools/corpus.py            every replay without a history which passes
                               on the current tree and is not yet there

A replay that still fails is a violation and is left alone.
"""
import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from pbt import core  # noqa: E402

props = core.load_props()
by = {}
for path in sorted(glob.glob(os.path.join(HERE, 'replays', '*.json'))):
    v = json.load(open(path))
    if v.get('history') or v['property'] not in props:
        continue
    if v['mode'] not in [m[0] for m in props[v['property']].modes]:
        continue
    if len(json.dumps(v['case'])) > 6000:
        continue
    by.setdefault(v['property'], []).append((v['mode'], v['case'], path))
os.makedirs(os.path.join(HERE, 'corpus'), exist_ok=True)
for pid in sorted(by):
    have = core.corpus(pid)
    new = []
    runner = core.Runner(pid)
    for mode, case, path in by[pid]:
        if (mode, case) in have or (mode, case) in new:
            continue
        try:
            res = runner.run(mode, case)
        except core.HarnessError as exc:
            print(pid, 'unusable', path, str(exc)[:80])
            continue
        if res.get('fail'):
            print(pid, 'STILL FAILS', path)
        else:
            new.append((mode, case))
    runner.close()
    with open(os.path.join(HERE, 'corpus', pid + '.jsonl'), 'a') as fh:
        for mode, case in new:
            fh.write(json.dumps({'mode': mode, 'case': case},
                                sort_keys=True) + '\n')
    print(pid, len(have), '+', len(new))
