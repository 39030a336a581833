#!/usr/bin/env python3
"""Runs one property's monitors against /repo's working tree.

usage: check.py ID [--tier quick|thorough] [--seed N]      (env VERIF_SEED, VERIF_TIER)
exit 0: held on everything observed; exit 1 + VIOLATION line: violated; exit 2: inconclusive.
"""
import concurrent.futures as cf, glob, hashlib, json, os, re, signal, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'bin'))
REPO = os.environ.get('NMPC_REPO', '/repo')   # only overridden by hand, to look at other trees
BUILD = os.environ.get('NMPC_BUILD', os.path.join(V, 'build'))
H = os.path.join(V, 'harness')
from checks import CHECKS, BINS, VARIANTS
NCPU = os.cpu_count() or 8

def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)

def tree_hash():
    h = hashlib.sha256()
    fs = []
    for d in ('nmpc_ddp/include', 'nmpc_fmpc/include', 'nmpc_cgmres/include', 'nmpc_cgmres/src'):
        for r, _, f in os.walk(os.path.join(REPO, d)):
            fs += [os.path.join(r, x) for x in f]
    fs += [os.path.join(H, x) for x in os.listdir(H)]
    for f in sorted(fs):
        h.update(f.replace(REPO, '/repo').encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:16]

class BuildError(Exception):
    pass

def build(bins):
    """bins: list of (binary, variant). Returns paths; compiles all objects in parallel."""
    th = tree_hash()
    out = os.path.join(BUILD, th)
    os.makedirs(out, exist_ok=True)
    jobs, links, res = {}, [], {}
    for b, v in bins:
        spec, var = BINS[b], VARIANTS[v]
        inc = ['-I/usr/include/eigen3'] + ['-I%s/nmpc_%s/include' % (REPO, p) for p in ('ddp', 'fmpc', 'cgmres')] + ['-I' + H]
        objs = []
        units = [(s, []) for s in spec['srcs']]
        for a, c in spec.get('ddp', []):
            units.append(('one_ddp.cpp', ['-DNX_=%d' % a, '-DNU_=%d' % c]))
        for a, c, g in spec.get('fmpc', []):
            units.append(('one_fmpc.cpp', ['-DNX_=%d' % a, '-DNU_=%d' % c, '-DNG_=%d' % g]))
        if spec.get('cgmres'):
            units += [(f, []) for f in sorted(glob.glob(REPO + '/nmpc_cgmres/src/*.cpp'))]
        for s, d in units:
            src = s if s.startswith('/') else os.path.join(H, s)
            cmd = [var['cxx'], '-std=c++17', '-w'] + var['flags'] + inc + d + spec.get('defs', []) + ['-c', src]
            o = os.path.join(out, hashlib.sha256(' '.join(cmd).encode()).hexdigest()[:16] + '.o')
            jobs[o] = cmd + ['-o', o]
            objs.append(o)
        exe = os.path.join(out, '%s.%s' % (b, v))
        links.append((exe, [var['cxx']] + var['flags'] + objs + ['-o', exe, '-lpthread']))
        res[(b, v)] = exe
    def comp(item):
        o, cmd = item
        if os.path.exists(o):
            return None
        t = o + '.tmp%d' % os.getpid()
        r = sh(cmd[:-1] + [t])
        if r.returncode:
            return ' '.join(cmd) + '\n' + r.stdout[-6000:]
        os.rename(t, o)
    # long units first
    items = sorted(jobs.items(), key=lambda x: (('one_' not in ' '.join(x[1])), x[0]))
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for e in ex.map(comp, items):
            if e:
                raise BuildError(e)
    for exe, cmd in links:
        if not os.path.exists(exe):
            t = exe + '.tmp%d' % os.getpid()
            r = sh(cmd[:-2 - 0][:cmd.index('-o')] + ['-o', t, '-lpthread'])
            if r.returncode:
                raise BuildError(' '.join(cmd) + '\n' + r.stdout[-6000:])
            os.rename(t, exe)
    return res

def run_shard(exe, wrap, prop, seed, tier, shard, nsh, scale, env, only=None, frm=0, case_seconds=120, keep=False):
    base = os.path.join(BUILD, 'run.%d.%s.%s.%d.%d' % (os.getpid(), os.path.basename(exe), prop, shard, frm))
    outp, stat = base + '.json', base + '.status'
    for p in (outp, stat):
        if os.path.exists(p):
            os.unlink(p)
    cmd = wrap + [exe, '--prop', prop, '--seed', str(seed), '--tier', tier, '--shard', str(shard), '--nshards', str(nsh), '--scale', str(scale), '--out', outp, '--status', stat, '--from', str(frm), '--case-seconds', str(case_seconds)]
    if keep:
        cmd += ['--keep-going']
    if only is not None:
        cmd += ['--only', str(only)]
    e = dict(os.environ); e.update(env)
    r = sh(cmd, env=e, timeout=3 * 3600)
    case = None
    if os.path.exists(stat):
        try: case = int(open(stat).read().split()[0])
        except Exception: pass
    rep = None
    if os.path.exists(outp):
        try: rep = json.load(open(outp))
        except Exception: rep = None
    for p in (outp, stat):
        if os.path.exists(p):
            os.unlink(p)
    return r.returncode, case, rep, r.stdout

def load_findings():
    p = os.path.join(V, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'findings': []}

def main():
    pid = sys.argv[1]
    if pid == '--self-test':   # setup: only verify that the tools are there; checks build from /repo themselves
        r = sh(['sh', '-c', 'g++ --version | head -1; valgrind --version; test -f /usr/include/eigen3/Eigen/Core && echo eigen'])
        print(r.stdout); return 0 if 'eigen' in r.stdout else 1
    seed = int(os.environ.get('VERIF_SEED', '1')); tier = os.environ.get('VERIF_TIER', 'quick')
    a = sys.argv[2:]
    for i, x in enumerate(a):
        if x == '--seed': seed = int(a[i + 1])
        if x == '--tier': tier = a[i + 1]
    chk = CHECKS[pid]
    t0 = time.time()
    parts = [p for p in chk['parts'] if tier in p.get('tiers', ('quick', 'thorough'))]
    rp = os.path.join(V, 'replays', '%s.txt' % pid)
    if os.path.exists(rp): os.unlink(rp)
    try:
        exes = build(sorted({(p['bin'], p.get('variant', 'plain')) for p in parts}))
    except BuildError as e:
        print(str(e)); print('INCONCLUSIVE property=%s: the monitors do not build against %s' % (pid, REPO)); return 2
    t_build = time.time() - t0
    viol, inconclusive = [], []
    tot = dict(evaluations=0, nontrivial=0); distinct = set(); counters = {}; maxima = {}; samples = []; runs = []; digs = {}
    jobs = []
    for p in parts:
        v = p.get('variant', 'plain')
        nsh = p.get('shards', NCPU)
        for s in range(nsh):
            jobs.append((p, exes[(p['bin'], v)], s, nsh))
    def do(job):
        p, exe, s, nsh = job
        var = VARIANTS[p.get('variant', 'plain')]
        env = dict(var.get('env', {})); env.update(p.get('env', {}))
        wrap = var.get('wrap', []) + p.get('wrap', [])
        res = []; frm = 0; crashes = 0
        args = (exe, wrap, p.get('prop', pid), seed, tier, s, nsh, p.get('scale', {}).get(tier, 1), env)
        while True:
            rc, case, rep, txt = run_shard(*args, frm=frm, case_seconds=p.get('case_seconds', 40), keep=p.get('ignore_verdicts', False))
            if rep is not None and (rc == 0 or (rc == 66 and False)):
                res.append(('rep', rep)); break
            if rc == 3 or case is None:
                res.append(('inc', 'harness failed to start rc=%s: %s' % (rc, txt[-500:]))); break
            # crash, sanitizer report or watchdog in `case`
            if rc == -signal.SIGALRM:
                rc2, _, rep2, txt2 = run_shard(*args, only=case, case_seconds=3 * p.get('case_seconds', 40))
                if p.get('ignore_verdicts') and rc2 in (0, -signal.SIGALRM):
                    res.append(('inc', 'watchdog fired in case %d (not a memory error)' % case))
                elif rep2 is not None and rc2 == 0:
                    res.append(('inc', 'watchdog fired once in case %d, not reproduced' % case))
                else:
                    res.append(('viol', dict(case=case, key='hang' if rc2 == -signal.SIGALRM else 'crash', msg='no termination' + txt2[-1500:])))
                break
            else:
                rc2, _, rep2, txt2 = run_shard(*args, only=case)
                key = 'crash'
                m = re.search(r'(AddressSanitizer|ThreadSanitizer|LeakSanitizer|MemorySanitizer): ([\w-]+)', txt) or re.search(r'(runtime error): (.{0,80})', txt) or re.search(r'(Assertion) (.{0,120})', txt) or re.search(r'==\d+== (Conditional|Use of|Invalid)(.*)', txt)
                if m: key = m.group(0)[:100]
                res.append(('viol', dict(case=case, key=key, msg='process ended with %s: %s' % (rc, txt[:2500]))))
            crashes += 1
            frm = case + 1
            if crashes >= 3: break
        return p, exe, res
    with cf.ThreadPoolExecutor(max(1, chk.get('jobs', NCPU))) as ex:
        for p, exe, res in ex.map(do, jobs):
            for kind, r in res:
                if kind == 'inc': inconclusive.append(r); continue
                if kind == 'viol': viol.append((p, r)); continue
                tot['evaluations'] += r['evaluations']; tot['nontrivial'] += r['nontrivial']
                tag = p['bin'] + ':' + p.get('variant', 'plain')
                distinct.update(tag + h for h in r['distinct'])
                for k, n in r['counters'].items(): counters[p['bin'] + '.' + k] = counters.get(p['bin'] + '.' + k, 0) + n
                for k, n in r['maxima'].items(): maxima[p['bin'] + '.' + k] = max(maxima.get(p['bin'] + '.' + k, -1e308), n)
                if not p.get('ignore_verdicts'):
                    for n in r['need']: runs.append((p['bin'], n))
                    for x in r['violations']: viol.append((p, x))
                if p.get('digest'):
                    for c, h in r['digests'].items(): digs.setdefault((p['bin'], c), {}).setdefault(h, []).append(p)
                if len(samples) < 12: samples += r['samples'][:1]
    for (b, c), hs in digs.items():
        counters[b + '.digest_comparisons'] = counters.get(b + '.digest_comparisons', 0) + sum(map(len, hs.values())) - 1
        if len(hs) > 1:
            ps = sorted(hs.values(), key=len)
            viol.append((ps[0][0], dict(case=int(c), key='uninitialised', msg='the result depends on the initial contents of memory: ' + ' / '.join(','.join(q['variant'] + ('[' + ' '.join('%s=%s' % e for e in q.get('env', {}).items()) + ']' if q.get('env') else '') for q in g) for g in ps))))
    for b, n in sorted(set(runs)):
        if counters.get(b + '.' + n, 0) == 0:
            inconclusive.append('monitor never reached: %s.%s' % (b, n))
    # findings
    known = [f for f in load_findings()['findings'] if f.get('property') == pid and f.get('status') == 'known']
    new = []
    for p, x in viol:
        hit = next((f for f in known if f.get('bin', p['bin']) == p['bin'] and re.fullmatch(f['key'], x['key']) and re.search(f.get('match', ''), x['msg'])), None)
        if hit: hit['seen'] = True
        else: new.append((p, x))
    for f in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    ev = dict(property=pid, tier=tier, seed=seed, level=chk['level'], wall_s=round(time.time() - t0, 2), violations=len(new),
              assumptions=chk.get('assumptions', []),
              coverage=dict(evaluations=tot['evaluations'], distinct_nontrivial=len(distinct), rule=chk['rule'], samples=samples[:12] or ['none'],
                            nontrivial_cases=tot['nontrivial'], observed_events=counters, observed_maxima=maxima, build_s=round(t_build, 1),
                            builds=sorted({p['bin'] + ':' + p.get('variant', 'plain') for p in parts}), inconclusive=inconclusive))
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    if new:
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        with open(rp, 'w') as f:
            for p, x in new[:20]:
                v = p.get('variant', 'plain')
                f.write('property %s  key=%s\n%s\n' % (pid, x['key'], x['msg']))
                f.write('replay: %s %s --prop %s --seed %d --tier %s --only %d -v   (build: bin/check.py %s; part %s:%s)\n\n' % (' '.join('%s=%s' % e for e in VARIANTS[v].get('env', {}).items()), exes[(p['bin'], v)], p.get('prop', pid), seed, tier, x['case'], pid, p['bin'], v))
        for p, x in new[:3]:
            print('%s: %s case %s [%s] %s' % (pid, p['bin'], x['case'], x['key'], x['msg'][:700]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if inconclusive:
        for i in inconclusive: print('INCONCLUSIVE property=%s: %s' % (pid, i))
        return 2
    print('%s held: %d executions, %d distinct non-trivial, %.1f s (build %.1f s)' % (pid, tot['evaluations'], len(distinct), time.time() - t0, t_build))
    return 0

if __name__ == '__main__':
    sys.exit(main())
