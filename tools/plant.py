#!/usr/bin/env python3
"""Verifies planted bugs and stores them in /verif/seeded.

usage: plant.py SPEC.py [ID...]      SPEC.py fills BUGS with bug(...)
A bug: id, prop, edits [(file, old, new)], pkg, demo (Go test source with TestPlanted), needs, breaks, race.
"""
import json, os, subprocess, sys, tempfile, shutil
REPO = '/repo'
BUGS = []
def bug(id, prop, edits, pkg, demo, needs, breaks, race=False, count=1):
    BUGS.append(dict(id=id, prop=prop, edits=edits, pkg=pkg, demo=demo, needs=needs, breaks=breaks, race=race, count=count))
DEMO = '''#!/bin/bash
# Run in the repository's root: exit 0 when the property holds for this history.
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d) || exit 3
printf '{"Replace":{"%%s/%(pkg)s/zz_planted_test.go":"%%s/demo.go.txt"}}' "$PWD" "$d" >"$t/overlay.json"
"${GO:-go}" test %(flags)s-count=%(count)d -timeout 120s -overlay "$t/overlay.json" -run '^TestPlanted$' ./%(pkg)s
rc=$?
rm -f "$t/overlay.json"; rmdir "$t"
exit $rc
'''
def sh(cmd, cwd, timeout=600):
    p = subprocess.run(['bash', '-c', cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors='replace')
def main():
    spec = sys.argv[1]; only = sys.argv[2:]
    g = dict(bug=bug); exec(compile(open(spec).read(), spec, 'exec'), g)
    for b in BUGS:
        if only and b['id'] not in only: continue
        wt = tempfile.mkdtemp(prefix='plant-'); tree = wt + '/repo'
        try:
            subprocess.run(['cp', '-a', REPO, tree], check=True)
            bad = None
            for f, old, new in b['edits']:
                s = open(f'{tree}/{f}').read()
                if s.count(old) != 1: bad = f'{f}: text found {s.count(old)} times: {old[:60]!r}'; break
                open(f'{tree}/{f}', 'w').write(s.replace(old, new))
            if bad: print(b['id'], 'EDIT', bad); continue
            _, diff = sh('git diff', tree)
            d = f"{wt}/out"; os.mkdir(d)
            open(d + '/patch.diff', 'w').write(diff)
            open(d + '/demo.go.txt', 'w').write(b['demo'].lstrip())
            open(d + '/demo.sh', 'w').write(DEMO % dict(pkg=b['pkg'], flags='-race ' if b['race'] else '', count=b['count'])); os.chmod(d + '/demo.sh', 0o755)
            json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
            rc, o = sh(f'{d}/demo.sh', REPO)
            if rc != 0: print(b['id'], 'DEMO FAILS ON CLEAN', o[-1500:]); continue
            rc, o = sh('. /opt/vp/env.sh; ${GO:-go} build ./... && ${GO:-go} vet ./%s' % b['pkg'], tree)
            if rc != 0: print(b['id'], 'BUILD', o[-1500:]); continue
            rc, o = sh(f'{d}/demo.sh', tree)
            if rc == 0: print(b['id'], 'DEMO PASSES WITH BUG', o[-500:]); continue
            why = [l for l in o.splitlines() if '_test.go' in l or 'panic' in l or 'RACE' in l][:1]
            # the stable tests
            base = json.load(open('/opt/vp/BASELINE.json'))
            for _ in range(5):  # some are sensitive to load
                rc, o = sh('. /opt/vp/env.sh; ${GO:-go} test -count=1 ./... 2>&1 | grep -E "^(---|FAIL|panic)" | head', tree)
                if 'FAIL' not in o: break
            if 'FAIL' in o or 'panic' in o: print(b['id'], 'TESTS CATCH IT', o[:300]); continue
            dst = f"/verif/seeded/{b['id']}"
            if os.path.isdir(dst): shutil.rmtree(dst)
            shutil.copytree(d, dst)
            print(b['id'], 'OK', why)
        finally:
            shutil.rmtree(wt)
main()
