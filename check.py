#!/usr/bin/env python3
"""Driver of one check: (re)builds its harness from /repo's working tree, runs the enumeration, prints the verdict
and writes evidence/<ID>.json.   usage: check.py ID [--replay KEY]"""
import hashlib, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(HERE, 'harness'))
from checks import CHECKS

def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)

def tree_hash(flags, src):
    h = hashlib.sha256()
    h.update(repr(flags).encode())
    for base in (os.path.join(REPO, 'include'), os.path.join(HERE, 'harness')):
        for d, ds, fs in os.walk(base):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                if base.endswith('harness') and f != src and not f.endswith(('.hpp', '.h')):
                    continue
                h.update(os.path.relpath(p, base).encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:20]

def exe_of(src, flags):
    return os.path.join(HERE, '.build', '%s-%s' % (os.path.splitext(src)[0], tree_hash(flags, src)))

def build(src, flags):
    exe = exe_of(src, flags)
    if os.path.exists(exe):
        return exe, ''
    tmp = exe + '.tmp%d' % os.getpid()
    r = sh(['g++', '-std=c++17', '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(HERE, 'harness'),
            '-DXTYPES_EXCEPTIONS', '-w'] + flags + [os.path.join(HERE, 'harness', src), '-o', tmp])
    if r.returncode != 0:
        return None, r.stdout
    os.rename(tmp, exe)
    return exe, ''

def build_all(parts):
    """The executables of all parts, built at the same time; of each harness only the newest builds are kept."""
    bdir = os.path.join(HERE, '.build'); os.makedirs(bdir, exist_ok=True)
    todo = [(p['src'], p.get('flags', ['-O1', '-fsanitize=address'])) for p in parts]
    keep = {os.path.basename(exe_of(*t)) for t in todo}
    stems = {os.path.splitext(s)[0] for s, _ in todo}
    for f in os.listdir(bdir):
        if f.rsplit('-', 1)[0] in stems and f not in keep and not f.startswith(tuple(k + '.tmp' for k in keep)):
            os.unlink(os.path.join(bdir, f))
    with ThreadPoolExecutor(4) as pool:
        return list(pool.map(lambda t: build(*t), todo))

def known(pid):
    res = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('known: property=%s ' % pid):
                rest = l.split('key=', 1)[1].rstrip('\n')
                key, _, what = rest.partition(' :: ')
                res[key] = what
    return res

ENV = {'ASAN_OPTIONS': 'detect_leaks=0:malloc_context_size=2:abort_on_error=0:exitcode=77:max_malloc_fill_size=4096:malloc_fill_byte=190:'
                       'max_free_fill_size=4096:free_fill_byte=222:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_segv=1',
       'TSAN_OPTIONS': 'exitcode=66:halt_on_error=1:report_signal_unsafe=0'}

def main():
    pid = sys.argv[1]
    c = CHECKS[pid]
    tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    env = dict(os.environ); env.update(ENV); env['VERIF_TIER'] = tier
    env.setdefault('MC_BUDGET', str((3000 if tier == 'thorough' else 560 if len(c['parts']) == 1 else 600) // len(c['parts'])))
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    total = {'cases': 0, 'states': 0, 'transitions': 0, 'traces': 0}
    samples, viol, unconf, capped, parts = [], [], [], False, []
    try:
        for part, (exe, err) in zip(c['parts'], build_all(c['parts'])):
            if exe is None:
                print(err[-4000:]); print('ERROR: harness %s does not build against %s' % (part['src'], REPO)); return 2
            out = os.path.join(tmp, part['src'] + '.json')
            if len(sys.argv) > 3 and sys.argv[2] == '--replay':
                r = sh([exe, tmp, out, '--replay', sys.argv[3]], env=env); print(r.stdout)
                if r.returncode: return 1
                continue
            for _ in range(30):     # ThreadSanitizer can be unlucky with where the kernel puts the program
                r = sh([exe, tmp, out], env=env)
                if 'unexpected memory mapping' not in r.stdout: break
            else:
                print('note: ThreadSanitizer cannot run here, %s %s is skipped' % (part['src'], part.get('flags'))); continue
            if r.returncode != 0 or not os.path.exists(out):
                print(r.stdout[-2000:]); print('ERROR: harness run failed (%d)' % r.returncode); return 2
            j = json.load(open(out))
            for k in total: total[k] += j[k]
            samples += j['samples']; capped |= j['capped']
            parts.append({'harness': part['src'], 'cases': j['cases'], 'states': j['states'], 'transitions': j['transitions'], 'traces': j['traces'], 'wall_s': round(j['wall'], 2)})
            for v in j['violations']: viol.append((part['src'], v['key'], v['what']))
            for v in j['unconfirmed']: unconf.append((part['src'], v['key'], v['what']))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if len(sys.argv) > 3: return 0
    kn = known(pid)
    news = [v for v in viol if v[1] not in kn]
    for src, key, what in viol:
        if key in kn:
            print('KNOWN-FINDING: property=%s %s (%s)' % (pid, kn[key], key))
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': {'states': total['states'], 'transitions': total['transitions'],
                       'traces_validated_against_impl': total['traces'], 'cases': total['cases'],
                       'exhaustive': not capped and not viol, 'bounds': c['bounds'][tier] if isinstance(c['bounds'], dict) else c['bounds'],
                       'what_is_counted': c.get('counted', 'states: distinct (configuration, model state) pairs compared with the implementation; transitions: operations applied to the implementation and to the model; traces: complete histories replayed on the implementation'),
                       'parts': parts, 'unconfirmed': [u[1] for u in unconf][:10],
                       'samples': samples[:12] or ['(none)']},
          'assumptions': c.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(news)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print('%s %s: cases=%d states=%d transitions=%d traces=%d capped=%s wall=%.1fs' %
          (pid, tier, total['cases'], total['states'], total['transitions'], total['traces'], capped, time.time() - t0))
    for u in unconf[:5]: print('note: not reproducible, not reported: %s %s' % (u[1], u[2][:300]))
    if total['cases'] == 0:
        print('ERROR: nothing was explored'); return 2
    if news:
        rdir = os.path.join(HERE, 'replays'); os.makedirs(rdir, exist_ok=True)
        for src, key, what in news[:12]:
            rp = os.path.join(rdir, '%s-%s.txt' % (pid, hashlib.sha1(key.encode()).hexdigest()[:10]))
            with open(rp, 'w') as f:
                f.write('property: %s\ncase: %s\nwhat: %s\nreplay: cd /verif && VERIF_TIER=%s python3 check.py %s --replay %s\n' % (pid, key, what, tier, pid, "'" + key.replace("'", "'\\''") + "'"))
            print('VIOLATION property=%s replay=%s' % (pid, rp))
            print('  case %s: %s' % (key, what[:600]))
        if len(news) > 12: print('  ... and %d more' % (len(news) - 12))
        return 1
    return 0

if __name__ == '__main__':
    sys.exit(main())
