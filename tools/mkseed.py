#!/usr/bin/env python3
"""mkseed.py SPECS.py [id ...]: makes /verif/seeded/<id>/ from edits + a demo.
Each spec: dict(id, prop, edits=[(file, old, new[, idx])], demo=<bash body>, files={name: text}, needs, breaks).
Confirms in a scratch copy: builds, stable tests pass, demo 0 unchanged / nonzero patched; reports which checks catch it."""
import sys, os, subprocess, shutil, json, tempfile, importlib.util
PRE = r'''#!/bin/bash
# runs ticat in a scratch directory of its own
set -u
here=$(cd "$(dirname "$0")" && pwd)
bin=$PWD/bin/ticat
D=$(mktemp -d) || exit 0
trap 'rm -rf "$D"' EXIT
mkdir -p "$D/ticat.data/hub" "$D/home" "$D/mods"
cp "$bin" "$D/ticat"
export HOME="$D/home"
cd "$D" || exit 0
T() { timeout 60 "$D/ticat" "$@" </dev/null; }
script() { # name, help line(s), body
  printf '%s\n' "$3" > "$D/mods/$1.sh"; printf '%s\n' "$2" > "$D/mods/$1.sh.ticat"; }
flow() { printf '%s\n' "$2" > "$D/mods/$1.tiflow"; }
loadmods() { T hub.add.local path="$D/mods" >/dev/null 2>&1; }
fail() { echo "DEMO FAILS: $*"; exit 1; }
'''
def sh(cmd, **kw): return subprocess.run(cmd, capture_output=True, text=True, **kw)
def build(repo):
    e = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOSUMDB='off', GOTOOLCHAIN='local')
    return sh('go build -o bin/ticat ./pkg/main && go vet ./pkg/... >/dev/null 2>&1; test -x bin/ticat', shell=True, cwd=repo, env=e)
def main():
    spec = importlib.util.spec_from_file_location('specs', sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    only = set(sys.argv[2:])
    for s in m.SEEDS:
        if only and s['id'] not in only: continue
        d = tempfile.mkdtemp(prefix='seed_', dir='/tmp'); repo = d + '/repo'
        try:
            sh(['cp', '-a', '/repo', repo])
            out = '/verif/seeded/' + s['id']
            demo = PRE + s['demo'].strip() + '\nexit 0\n'
            dd = d + '/demo'; os.makedirs(dd)
            for n, t in s.get('files', {}).items(): open(dd + '/' + n, 'w').write(t)
            open(dd + '/demo.sh', 'w').write(demo); os.chmod(dd + '/demo.sh', 0o755)
            e = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOSUMDB='off', GOTOOLCHAIN='local')
            main_pkg = open('/opt/vp/build.sh').read()
            def bld():
                return sh(m.BUILD if hasattr(m, 'BUILD') else 'go build ./... && go build -o bin/ticat ./pkg/main', shell=True, cwd=repo, env=e)
            b = bld()
            if b.returncode: print(s['id'], 'BASE BUILD FAILS', b.stdout[-500:], b.stderr[-500:]); continue
            r0 = sh(['bash', dd + '/demo.sh'], cwd=repo)
            bad = False
            for ed in s['edits']:
                f, old, new = ed[:3]; idx = ed[3] if len(ed) > 3 else 0
                p = repo + '/' + f; t = open(p).read(); pos = -1
                for _ in range(idx + 1): pos = t.find(old, pos + 1)
                if pos < 0: print(s['id'], 'NOT FOUND', f, old[:60]); bad = True; break
                open(p, 'w').write(t[:pos] + new + t[pos + len(old):])
            if bad: continue
            sh('gofmt -w $(git diff --name-only)', shell=True, cwd=repo)
            b = bld()
            if b.returncode: print(s['id'], 'BUILD FAILS', b.stdout[-800:], b.stderr[-800:]); continue
            t = sh('go test ./... 2>&1', shell=True, cwd=repo, env=e)
            r1 = sh(['bash', dd + '/demo.sh'], cwd=repo)
            ok = r0.returncode == 0 and r1.returncode != 0 and t.returncode == 0
            print(s['id'], 'demo unchanged=%d patched=%d tests=%d %s' % (r0.returncode, r1.returncode, t.returncode, 'OK' if ok else '*** NOT VALID'))
            if not ok:
                print('--- unchanged:', r0.stdout[-700:], r0.stderr[-300:]); print('--- patched:', r1.stdout[-700:], r1.stderr[-300:]); print(t.stdout[-400:] if t.returncode else '')
                continue
            diff = sh(['git', 'diff'], cwd=repo).stdout
            os.makedirs(out, exist_ok=True)
            open(out + '/patch.diff', 'w').write(diff)
            for n in os.listdir(dd): shutil.copy(dd + '/' + n, out + '/' + n)
            json.dump({"property": s['prop'], "needs": s['needs'], "what_it_breaks": s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
            v = d + '/verif'; os.makedirs(v); shutil.copy('/verif/known_findings.txt', v)
            e2 = dict(e, TICAT_REPO=repo, VERIF_DIR=v)
            allp = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
            caught = [p for p in allp if sh(['/verif/bin/checker', p], env=e2).returncode == 1]
            print('   caught by', caught, '' if s['prop'] in caught else '*** MISSED by own property')
        finally:
            shutil.rmtree(d)
main()
