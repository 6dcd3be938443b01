"""Writes and confirms the planted bugs of tools/seeds.py under /verif/seeded (run: seed.py [id ...])."""
import sys, os, subprocess, json, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from seeds import SEEDS

DEMO = '''#!/bin/bash
# builds demo.cpp with the current sources of the repository (cwd) and runs it
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
g++ -std=gnu++17 -O1 -w -DNDEBUG -include cstdint -Iincludes -o "$t/demo" "$d/demo.cpp" %s -lgmpxx -lgmp -lcrypto || exit 3
timeout 250 "$t/demo"
r=$?
rm -f "$t/demo"
rmdir "$t"
exit $r
'''
F = ['src/fields/field_secp256r1.cpp', 'src/fields/field_bn254.cpp']
SRC = dict(
    f=F, e=F + ['src/ecc/ecc_secp256r1.cpp', 'src/ecc/ecc_bn254.cpp'],
    s=F + ['src/shamirss/shamirss.cpp'])
SRC['d'] = SRC['e'] + ['src/dme/dme.cpp', 'src/dme/dmhe.cpp']
SRC['o'] = SRC['d'] + ['src/ot/ot.cpp', 'src/ot/dot.cpp']
SRC['g'] = SRC['d'] + ['src/elgamal/elgamal.cpp']
SRC['p'] = SRC['e'] + ['src/puda/puda.cpp']
SRC['u'] = ['src/utilities/utilities.cpp']
SRC['a'] = SRC['u'] + ['src/utilities/aes.cpp']
SRC['q'] = SRC['o'] + SRC['a'] + ['src/opprf/opprf.cpp']
PRE = '''#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <tuple>
#include <new>
#include <gmpxx.h>
%s
static int bad = 0;
#define CHECK(c, what) do { if (!(c)) { printf("FAIL: %%s\\n", what); bad = 1; } } while (0)
%s
int main()
{
%s
    printf(bad ? "FAIL\\n" : "ok\\n");
    return bad;
}
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    want = sys.argv[1:]
    for s in SEEDS:
        if want and s['id'] not in want:
            continue
        d = os.path.join(V, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        sh('git -C /repo checkout -- .')
        ok = True
        try:
            for f, old, new in s['edits']:
                p = os.path.join('/repo', f)
                t = open(p).read()
                if t.count(old) < 1:
                    raise RuntimeError('%s: text not found in %s: %r' % (s['id'], f, old))
                n = s.get('nth', 0)
                parts = t.split(old)
                if len(parts) > 2 and 'nth' not in s:
                    raise RuntimeError('%s: %d matches of %r' % (s['id'], len(parts) - 1, old))
                t = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
                open(p, 'w').write(t)
            open(os.path.join(d, 'patch.diff'), 'w').write(sh('git -C /repo diff').stdout)
            open(os.path.join(d, 'demo.cpp'), 'w').write(PRE % ('\n'.join('#include "%s"' % h for h in s['inc']), s.get('top', ''), s['demo']))
            open(os.path.join(d, 'demo.sh'), 'w').write(DEMO % ' '.join(SRC[s['src']]))
            os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            r1 = sh('cd /repo && bash %s/demo.sh' % d)
            b = sh('bash /opt/vp/build.sh')
            t = sh('bash /opt/vp/test.sh /tmp/seedtest.json')
            try:
                failed = judge('/tmp/seedtest.json')
            except Exception as ex:
                failed = ['test output: %s %s' % (ex, t.stdout[-300:])]
        except Exception as ex:
            print(s['id'], 'ERROR', ex)
            continue
        finally:
            sh('git -C /repo checkout -- .')
        r0 = sh('cd /repo && bash %s/demo.sh' % d)
        good = r1.returncode not in (0, 3, 124) and r0.returncode == 0 and b.returncode == 0 and not failed
        print(s['id'], 'GOOD' if good else 'BAD', 'demo with %d (%s) without %d (%s) build %d failed tests %s' % (
            r1.returncode, r1.stdout.strip()[-200:].replace('\n', '; '), r0.returncode, r0.stdout.strip()[-200:].replace('\n', '; '), b.returncode, failed), flush=True)
        if not good:
            shutil.rmtree(d)
    sh('bash /opt/vp/build.sh')


def judge(f):
    base = json.load(open('/opt/vp/BASELINE.json'))
    want = set(base['passing'] if 'passing' in base else base.get('stable', base))
    got = json.load(open(f))
    passed = set(got.get('passed', got.get('passing', [])))
    return sorted(want - passed)


main()
