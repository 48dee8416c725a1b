#!/usr/bin/env python3
"""Plants one bug: seed.py new SPEC.py      writes /verif/seeded/<id>/ from a spec (id, property, needs, breaks, edits, demo)
                   seed.py try ID... [CHECK...]  applies it to /repo, runs demo, build, tests and checks, and undoes it."""
import json, os, re, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = '/repo'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
DEMO_SH = '''#!/bin/bash
# exit 0: the property holds on this input; nonzero: it does not
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++17 -DXTYPES_EXCEPTIONS -w%s -I"$PWD/include" "$here/demo.cpp" -o "$tmp/demo" || exit 2
timeout 60 "$tmp/demo"
'''
DEMO_CPP = '''#include <xtypes/xtypes.hpp>
#include <xtypes/idl/idl.hpp>
#include <iostream>
'''
def new(spec):
    s = {}; exec(open(spec).read(), s)
    d = os.path.join(V, 'seeded', s['id']); os.makedirs(d, exist_ok=True)
    assert sh('git -C %s status --porcelain' % R).stdout == ''
    for f, old, nw in s['edits']:
        p = os.path.join(R, 'include/xtypes', f); t = open(p).read()
        assert t.count(old) == 1, (f, t.count(old), old)
        n = t[:t.index(old)].count('\n') + 1
        open(p, 'w').write(t.replace(old, nw))
    diff = sh('git -C %s diff' % R).stdout; sh('git -C %s checkout -- .' % R)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    # the removed lines must be original ones
    for f, old, nw in s['edits']:
        bl = sh('git -C %s blame -s include/xtypes/%s' % (R, f)).stdout.split('\n')
        t = open(os.path.join(R, 'include/xtypes', f)).read()
    rm = [l[1:].strip() for l in diff.split('\n') if l.startswith('-') and not l.startswith('---')]
    base = sh('git -C %s rev-list --max-parents=0 HEAD' % R).stdout.split()[0]
    orig = set(l.strip() for l in sh('git -C %s grep -h "" %s -- include' % (R, base)).stdout.split('\n'))
    print(s['id'], 'removed lines original:', [l in orig for l in rm])
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH % s.get('flags', '')); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    body = s['demo']
    if '#include' not in body: body = ('#include <xtypes/xtypes.hpp>\n' if not s.get('idl') else '#include <xtypes/xtypes.hpp>\n' + s['idl'] + '\n') + '#include <iostream>\nusing namespace eprosima; using namespace eprosima::xtypes;\n#define CHECK(c) do { if (!(c)) { std::cerr << "FAILED: " #c << std::endl; return 1; } } while (0)\ntemplate<class F> bool refused(F f) { try { f(); return false; } catch (const std::runtime_error&) { return true; } }\n\nint main()\n{' + body + '    return 0;\n}\n'
    open(os.path.join(d, 'demo.cpp'), 'w').write(body)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
def trial(i, checks):
    d = os.path.join(V, 'seeded', i); m = json.load(open(d + '/meta.json'))
    assert sh('git -C %s status --porcelain' % R).stdout == ''
    r0 = sh(d + '/demo.sh', cwd=R); res = ['demo clean %d' % r0.returncode]
    if r0.returncode: res.append(r0.stdout[-500:])
    a = sh('git -C %s apply %s/patch.diff' % (R, d))
    if a.returncode: print(i, 'DOES NOT APPLY', a.stdout); return
    try:
        r1 = sh(d + '/demo.sh', cwd=R); res.append('demo patched %d (%s)' % (r1.returncode, r1.stdout.strip()[-120:]))
        if not os.environ.get('NOTESTS'):
            b = sh('bash /opt/vp/build.sh', cwd=R); res.append('build %d' % b.returncode)
            t = sh('bash /opt/vp/test.sh /tmp/o.json', cwd=R); res.append(t.stdout.strip().split('\n')[-1])
        for c in checks or [m['property']]:
            k = sh('python3 %s/check.py %s' % (V, c)); hit = 'VIOLATION property=%s ' % c in k.stdout
            first = [l for l in k.stdout.split('\n') if l.startswith('  case')][:1]
            res.append('%s: exit %d %s %s' % (c, k.returncode, 'CAUGHT' if hit and k.returncode == 1 else 'MISSED', first))
    finally:
        sh('git -C %s checkout -- .' % R)
    print(i, '|', '\n   '.join(res), flush=True)
if __name__ == '__main__':
    if sys.argv[1] == 'new':
        for s in sys.argv[2:]: new(s)
    else:
        ids = [a for a in sys.argv[2:] if not re.match(r'^C\d\d$', a)]; cs = [a for a in sys.argv[2:] if re.match(r'^C\d\d$', a)]
        for i in ids: trial(i, cs)
