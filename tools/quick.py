#!/usr/bin/env python3
"""Development aid: search every property for a few seconds and print a line each."""
import json, subprocess, sys, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
secs = sys.argv[1] if len(sys.argv) > 1 else '6'
seed = sys.argv[2] if len(sys.argv) > 2 else '1'
props = sys.argv[3:] or ['C%02d' % i for i in range(1, 19)]
d = subprocess.run([sys.executable, here + '/build.py'], stdout=subprocess.PIPE, check=True, text=True).stdout.strip()
for p in props:
    o = subprocess.run([d + '/u5esim', 'search', '--prop', p, '--seed', seed, '--seconds', secs, '--dir', d], stdout=subprocess.PIPE, text=True).stdout
    try: j = json.loads(o)
    except Exception: print(p, 'ERR', o[-400:]); continue
    print(p, {k: j[k] for k in ('runs', 'skipped', 'calls', 'steps', 'solo', 'solo_failed', 'nontrivial', 'distinct_schedules', 'distinct_states')}, {k: v[1] for k, v in j['faults'].items()}, {k: j[k] for k in ('workers_lost', 'internal', 'nondeterministic') if k in j})
    v = j.get('violation')
    if v: print('  V', v['run'], v['class'], v['detail'][:300])
