#!/usr/bin/env python3
"""mkseed.py SPEC.py [ID...]: builds /verif/seeded/<id> from SEEDS in SPEC.py: applies the edit to /repo, confirms that it builds, that the tests pass and
that the demonstration tells the two trees apart, runs the property's check on it, and undoes it."""
import sys, os, json, subprocess, importlib.util, shutil, time
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
spec = importlib.util.spec_from_file_location('s', sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
R = '/tmp/seedrepo'; V = '/verif'   # a scratch copy, so that /repo stays as it is
sh('rm -rf /tmp/seedrepo /tmp/seedvp; mkdir /tmp/seedrepo && git -C /repo archive HEAD | tar x -C /tmp/seedrepo && cd /tmp/seedrepo && git init -q && git add -A && git -c user.name=s -c user.email=s@s commit -qm base; cp -a /opt/vp /tmp/seedvp; sed -i s,/repo,/tmp/seedrepo,g /tmp/seedvp/build.sh /tmp/seedvp/test.sh; sed -i s,/opt/vp/,/tmp/seedvp/,g /tmp/seedvp/build.sh /tmp/seedvp/test.sh; echo _build >> /tmp/seedrepo/.git/info/exclude')
DEMO = '''#!/bin/bash
# exit 0: the behaviour is right; anything else: broken
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
%(cc)s || exit 3
cd "$T"; timeout 250 %(run)s ./demo
'''
for s in m.SEEDS:
    if len(sys.argv) > 2 and s['id'] not in sys.argv[2:]: continue
    d = f'{V}/seeded/{s["id"]}'; os.makedirs(d, exist_ok=True); isC = s.get('c'); src = 'demo.c' if isC else 'demo.cpp'
    open(f'{d}/{src}', 'w').write(s['demo'])
    cc = s.get('cc') or (('gcc -std=gnu11' if isC else 'g++ -std=c++17') + f' {s.get("flags", "-O1 -DNDEBUG")} -w -I"$PWD/include" -I"$PWD" "$D/{src}" {s.get("srcs", "")} -o "$T/demo" -lpthread {s.get("libs", "")}')
    open(f'{d}/demo.sh', 'w').write(DEMO % dict(cc=cc, run=s.get('run', ''))); os.chmod(f'{d}/demo.sh', 0o755)
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(f'{d}/meta.json', 'w'), indent=1)
    r0 = sh(f'bash {d}/demo.sh', cwd=R)
    try:
        for f, a, b in s['edits']:
            t = open(f'{R}/{f}').read(); assert t.count(a) == 1, (s['id'], f, a, t.count(a)); open(f'{R}/{f}', 'w').write(t.replace(a, b))
        open(f'{d}/patch.diff', 'w').write(sh(f'git -C {R} diff').stdout)
        b = sh('bash /tmp/seedvp/build.sh'); t = sh('bash /tmp/seedvp/test.sh /tmp/seed.json'); o = json.load(open('/tmp/seed.json'))
        r1 = sh(f'bash {d}/demo.sh', cwd=R); t0 = time.time(); c = sh(f'python3 {V}/check.py {s["property"]} quick', env=dict(os.environ, VERIF_REPO=R, VERIF_OUT='/tmp/seedout', **({'VERIF_JOB': s['job']} if 'job' in s else {})))
    finally: sh(f'git -C {R} checkout -- .')
    ok = r0.returncode == 0 and r1.returncode != 0 and b.returncode == 0 and len(o['passed']) == 84
    print(f'{s["id"]}: {"OK" if ok else "BAD"} demo {r0.returncode}->{r1.returncode} build {b.returncode} tests {len(o["passed"])}; check exit {c.returncode} in {time.time()-t0:.0f}s: {c.stdout.strip().splitlines()[-1][:150] if c.stdout.strip() else ""}')
    if not ok: print('  ', r0.stdout[-500:], r1.stdout[-500:], b.stdout[-500:] if b.returncode else '')
    sys.stdout.flush()
sh('rm -rf /tmp/seedrepo /tmp/seedvp')
