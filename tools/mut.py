#!/usr/bin/env python3
"""mut.py PROP FILE OLD NEW [JOBREGEX]: runs a check on a mutated scratch copy of /repo's sources (development aid)."""
import sys, os, shutil, subprocess, tempfile
prop, f, old, new = sys.argv[1:5]
d = tempfile.mkdtemp(prefix='mut-'); r = d + '/repo'
subprocess.run(['rsync', '-a', '--exclude=.git', '--exclude=build*', '/repo/', r + '/'], check=False) if shutil.which('rsync') else subprocess.run(['git', '-C', '/repo', 'worktree', 'list'], stdout=subprocess.DEVNULL) and subprocess.run(f'mkdir -p {r} && git -C /repo archive HEAD | tar x -C {r}', shell=True, check=True)
if f == 'patch': subprocess.run(['patch', '-p1', '-d', r, '-i', old], check=True, stdout=subprocess.DEVNULL)
elif f != '-':
    p = r + '/' + f; s = open(p).read(); n = s.count(old); assert n >= 1, 'pattern not found'
    if n > 1 and not os.environ.get('ALL'): i = int(os.environ.get('NTH', '0')); parts = s.split(old); s = old.join(parts[:i+1]) + new + old.join(parts[i+1:])
    else: s = s.replace(old, new)
    open(p, 'w').write(s)
env = dict(os.environ, VERIF_REPO=r, VERIF_OUT=d)
if len(sys.argv) > 5: env['VERIF_JOB'] = sys.argv[5]
os.makedirs(d + '/build', exist_ok=True); os.system(f'cp -a /verif/build/engine-* {d}/build/ 2>/dev/null')
p = subprocess.run(['timeout', '880', 'python3', '/verif/check.py', prop, os.environ.get('TIER', 'quick')], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
o = p.stdout; print(f'MUT {prop} {f}: {old[:60]!r} -> {new[:60]!r}: exit {p.returncode}'); print(o if os.environ.get('FULL') else '\n'.join(l[:300] for l in o.splitlines()[-int(os.environ.get('N', '4')):]))
if os.environ.get("KEEP"): print(d)
else: shutil.rmtree(d)
