#!/usr/bin/env python3
"""replay.py REPLAY.json: rebuilds the real code of /repo natively with the harness and runs the recorded counterexample."""
import sys, json, tempfile, shutil
import check, jobs
r = json.load(open(sys.argv[1]))
job = next(j for t in ('quick', 'thorough') for j in jobs.SPEC[r['property']]['jobs'](t) if j.name == r['job'] and list(j.defs) == r['defines'])
d = tempfile.mkdtemp(prefix='replay-')
try:
    exe, e = check.compile_native(job, d, r['replay_build'])
    if not exe: print(e); sys.exit(2)
    check.write_inputs(d + '/in.txt', r['inputs']); code, out = check.native_run(exe, d + '/in.txt'); print(out); print('exit', code)
    sys.exit(0 if code == 0 else 1)
finally: shutil.rmtree(d)
