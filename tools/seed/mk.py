#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from the bugs described in bugs_*.py and confirms
each one: it applies, builds, the stable tests pass, the demonstration passes
without it and fails with it. usage: mk.py [--noconfirm] [id ...]"""
import sys, os, subprocess, json, shutil, glob, importlib.util
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = '/verif/seeded'
sys.path.insert(0, HERE)
bugs = []
for f in sorted(glob.glob(HERE + '/bugs_*.py')):
    spec = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    bugs += m.BUGS
args = sys.argv[1:]
confirm = '--noconfirm' not in args
ids = [a for a in args if not a.startswith('--')]
def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **kw)
W = '/tmp/seedwork'
for b in bugs:
    if ids and b['id'] not in ids: continue
    shutil.rmtree(W, ignore_errors=True)
    sh(f'git -C /repo worktree prune', '/')
    r = sh(f'git clone -q /repo {W}', '/'); assert r.returncode == 0, r.stderr
    for path, old, new in b['edits']:
        p = W + '/' + path
        s = open(p).read()
        assert s.count(old) == 1, (b['id'], path, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    r = sh('gofmt -l .', W)
    diff = sh('git diff', W).stdout
    # it must change lines of the original repository, not those of our own fixes
    orig = False
    for path, old, new in b['edits']:
        ln = 0
        for l in sh(f'git diff -U0 {path}', W).stdout.splitlines():
            if l.startswith('@@'): ln = int(l.split()[1][1:].split(',')[0])
            elif l.startswith('-') and not l.startswith('---'):
                who = sh(f'git blame -s -L{ln},{ln} HEAD -- {path}', W).stdout
                orig = orig or who.startswith('^') or who.startswith('07dbd0a')
                ln += 1
    if not orig and any(l.startswith("-") and not l.startswith("---") for l in diff.splitlines()): print(b['id'], 'changes no original line')
    d = f"{OUT}/{b['id']}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + '/patch.diff', 'w').write(diff)
    pkg = b.get('pkg', 'arwen/hosttest')
    open(d + '/demo.sh', 'w').write(b.get('demo_sh') or open(HERE + '/demo.sh.in').read().replace('@PKG@', pkg))
    os.chmod(d + '/demo.sh', 0o755)
    shutil.copy('/verif/wasmsim/wasmsim.c', d + '/wasmsim.c')
    if b.get('kit', pkg == 'arwen/hosttest'):
        shutil.copy(HERE + '/kit_test.go.in', d + '/zz_demokit_test.go')
    open(d + '/zz_demo_test.go', 'w').write(b['test'])
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    if not confirm: continue
    sh('git stash -q', W)
    c = sh(d + '/demo.sh', W)
    sh('git stash pop -q', W)
    p = sh(d + '/demo.sh', W)
    env = 'export GOFLAGS=-mod=readonly GOTOOLCHAIN=local GOPROXY=off PATH=/opt/veriftools/go1.27.3/bin:$PATH; '
    bld = sh(env + "go list -export -f '{{.ImportPath}}' ./... >/dev/null", W)
    tst = sh(env + 'go test -vet=off ./cmd/testgen/... ./crypto/... ./fuzz/util ./fuzz/weightedroulette ./ipc/marshaling ./mandos-go/... ./math/... >/dev/null', W)
    base = 0
    ok = c.returncode == 0 and p.returncode != 0 and bld.returncode == 0
    built = 'build failed' not in p.stdout and 'build failed' not in p.stderr
    print(b['id'], 'OK' if ok and built else 'BAD', 'clean', c.returncode, 'patched', p.returncode, 'build', bld.returncode, 'stable', tst.returncode, flush=True)
    if c.returncode != 0: print((c.stdout + c.stderr)[-1500:])
    elif p.returncode == 0 or not built: print((p.stdout + p.stderr)[-1500:])
    elif '--v' in args: print((p.stdout + p.stderr)[:1200])
shutil.rmtree(W, ignore_errors=True)
