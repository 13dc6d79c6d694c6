"""Creates and verifies planted bugs.  Usage from a script:

    from seed import plant
    plant(id, property, pkg, edits, demo, needs, breaks)

edits: list of (file, old, new); demo: Go test source (function TestSeedDemo)
placed into package directory pkg through an overlay.  The change is made in a
scratch copy of /repo, which must build, pass the stable tests and fail the
demonstration; without it the demonstration must pass."""
import json, os, subprocess, shutil, sys
WT = '/tmp/seedwt'
ENV = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off')
DEMO = '''#!/bin/bash
# Runs demo_test.go inside package %(pkg)s of the repository in the working directory.
D="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
T="$(mktemp -d)"
printf '{"Replace":{"%%s/%(pkg)s/zz_seed_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$D" > "$T/overlay.json"
timeout 250 go test -count=1 -overlay "$T/overlay.json" -run '^TestSeedDemo' ./%(pkg)s
rc=$?
rm -rf "$T"
exit $rc
'''
def run(cmd, cwd=WT, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors='replace')
def tests():
    rc, out = run(['bash', '-c', "go test -count=1 -json $(go list ./... | grep -v /domain$) 2>/dev/null"])
    passed = set()
    for l in out.splitlines():
        try: r = json.loads(l)
        except ValueError: continue
        if r.get('Action') == 'pass' and r.get('Test'): passed.add(r['Package'].split('go-hbci')[-1].lstrip('/') + '|' + r['Test'])
    return passed
_base = None
def plant(id, prop, pkg, edits, demo, needs, breaks):
    global _base
    only = sys.argv[1:]
    if only and id not in only: return
    dst = f'/verif/seeded/{id}'
    if not os.path.isdir(WT): subprocess.check_call(['cp', '-a', '/repo', WT])
    subprocess.check_call(['bash', '-c', f'git -C {WT} checkout -q -- . && git -C {WT} clean -qfd && git -C {WT} fetch -q /repo HEAD && git -C {WT} reset -q --hard FETCH_HEAD'])
    if _base is None: _base = tests(); print('baseline', len(_base))
    os.makedirs(dst, exist_ok=True)
    open(dst + '/demo.sh', 'w').write(DEMO % {'pkg': pkg}); os.chmod(dst + '/demo.sh', 0o755)
    open(dst + '/demo_test.go', 'w').write(demo)
    subprocess.call(['gofmt', '-w', dst + '/demo_test.go'])
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(dst + '/meta.json', 'w'), indent=1)
    rc0, out0 = run(['bash', dst + '/demo.sh'])
    for f, old, new in edits:
        p = f'{WT}/{f}'; s = open(p).read()
        if s.count(old) != 1: print(id, 'EDIT?', f, s.count(old), repr(old)[:60]); return
        open(p, 'w').write(s.replace(old, new))
    rc, out = run(['gofmt', '-l'] + [e[0] for e in edits])
    if out.strip(): run(['gofmt', '-w'] + [e[0] for e in edits])
    rcb, outb = run(['go', 'build', './...'])
    rcv, outv = run(['go', 'vet'] + sorted({'./' + os.path.dirname(e[0]) for e in edits}))
    missing = _base - tests() if rcb == 0 else {'BUILD'}
    rc1, out1 = run(['bash', dst + '/demo.sh'])
    rc, diff = run(['git', 'diff'])
    open(dst + '/patch.diff', 'w').write(diff)
    ok = rc0 == 0 and rcb == 0 and not missing and rc1 != 0 and 'build failed' not in out1
    print(id, 'OK' if ok else 'BAD', f'clean={rc0} build={rcb} lost={sorted(missing)[:3]} patched={rc1}')
    if rc0: print(out0[-700:])
    if rcb: print(outb[-500:])
    if rc1 == 0 or 'build failed' in out1: print(out1[-500:])
    run(['git', 'checkout', '-q', '--', '.'])
