"""mkseed.py DEF.py : plants the bugs defined in DEF.py (list SEEDS of dicts id, prop, edits=[(file, old, new)], demo, needs, breaks), confirming each."""
import sys, os, subprocess, json, shutil
V = '/verif'; R = '/repo'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
DEMO = '''#!/bin/bash
# exit 0: the property holds in the library built in /repo
D="$(cd "$(dirname "$0")" && pwd)"; T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
g++ -std=gnu++11 -O0 -w %s -I"$PWD/src/pe_lib" "$D/demo.cpp" "$PWD/lib/Debug/libpe_lib.a" -o "$T/demo" || exit 3
cd "$T" && timeout 120 ./demo
'''
def stable():
    r = sh('bash /opt/vp/test.sh /tmp/seed_out.json'); 
    try: o = json.load(open('/tmp/seed_out.json'))
    except Exception: return ['no result', r.stdout.decode()[-500:]]
    b = json.load(open('/opt/vp/BASELINE.json'))
    want = set(b['stable'])
    got = set(o['passed'] if 'passed' in o else [])
    return sorted(want - got)
def main():
    ns = {}; exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo dirty'
    for s in ns['SEEDS']:
        if only and s['id'] not in only: continue
        d = os.path.join(V, 'seeded', s['id']); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + '/demo.cpp', 'w').write(s['demo'])
        open(d + '/demo.sh', 'w').write(DEMO % s.get('flags', '')); os.chmod(d + '/demo.sh', 0o755)
        try:
            ok = True
            for f, old, new in s['edits']:
                p = '%s/src/pe_lib/%s' % (R, f); t = open(p, newline='').read()
                crlf = '\r\n' in t
                if crlf: old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
                if t.count(old) != s.get('count', 1): print(s['id'], 'edit matches', t.count(old), 'times in', f); ok = False; break
                open(p, 'w', newline='').write(t.replace(old, new))
            if not ok: shutil.rmtree(d); continue
            open(d + '/patch.diff', 'wb').write(sh('git -C /repo diff').stdout)
            bad = stable(); r1 = sh('bash %s/demo.sh' % d, cwd=R)
        finally: sh('git -C /repo checkout -- .')
        sh('bash /opt/vp/build.sh'); r0 = sh('bash %s/demo.sh' % d, cwd=R)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        good = not bad and r0.returncode == 0 and r1.returncode not in (0, 3)
        print(s['id'], 'OK' if good else 'REJECTED', 'tests broken: %s' % bad[:3] if bad else '', 'demo clean rc=%d patched rc=%d' % (r0.returncode, r1.returncode))
        if not good: print((r0.stdout + r1.stdout).decode(errors='replace')[-1500:]); shutil.rmtree(d)
main()
