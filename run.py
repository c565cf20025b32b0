#!/usr/bin/env python3
"""Builds /repo's current library sources together with a monitor harness, runs the workload and decides one property.

  run.py ID            quick check (VERIF_TIER=quick) or thorough (VERIF_TIER=thorough)
  run.py --replay F    re-run the case recorded in a replay file
  run.py --setup       verify that the tool chain works

exit 0: held on everything explored; exit 1 + VIOLATION line: violated; exit 2: no verdict (build or harness failure).
"""
import concurrent.futures as cf, glob, json, os, re, shutil, subprocess, sys, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, ROOT)
from checks import CHECKS, PUBLIC, VARIANTS, WRAPPED  # noqa: E402

NCPU = min(8, os.cpu_count() or 8)
ENV = dict(os.environ, LC_ALL='C',
           ASAN_OPTIONS='abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=1:symbolize=1:quarantine_size_mb=64',
           UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=99',
           MSAN_OPTIONS='exitcode=99:abort_on_error=0:allocator_may_return_null=1:poison_in_malloc=1',
           TSAN_OPTIONS='halt_on_error=1:exitcode=99:second_deadlock_stack=1:report_signal_unsafe=0:die_after_fork=0')
BASE_CFLAGS = ['-std=gnu11', '-g', '-DHAVE_CONFIG_H', '-w']


class NoVerdict(Exception):
    pass


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, env=ENV, **kw)


def build_multi(check, bdir, inc):
    """the library in every configuration of check['builds'], with renamed symbols; returns objects and the source of their table"""
    libsrc = sorted(glob.glob(os.path.join(REPO, 'src', '*.c')))
    jobs, parts = [], []
    for k, b in enumerate(check['builds']):
        od = os.path.join(bdir, 'b%d' % k)
        os.makedirs(od, exist_ok=True)
        cc = b.get('cc', 'gcc')
        objs = []
        for s in libsrc:
            o = os.path.join(od, os.path.basename(s)[:-2] + '.o')
            jobs.append((k, [cc] + BASE_CFLAGS + b['flags'] + inc + ['-c', s, '-o', o]))
            objs.append(o)
        if b.get('wrap'):
            objs.append(os.path.join(od, 'wrap.o'))
            jobs.append((k, [cc] + BASE_CFLAGS + b['flags'] + inc + ['-c', os.path.join(ROOT, 'config', b['wrap'] + '.c'), '-o', objs[-1]]))
        parts.append(objs)
    failed = set()
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for (k, j), r in zip(jobs, ex.map(sh, [j for _, j in jobs])):
            if r.returncode:
                if not check['builds'][k].get('optional'):
                    raise NoVerdict('compile failed: %s\n%s' % (' '.join(j), r.stdout[-3000:]))
                if k not in failed:
                    print('note: build "%s" left out, it does not compile' % check['builds'][k]['name'])
                failed.add(k)
    out, decl, rows = [], ['#define API_NO_MACROS', '#include "c19.h"', '#define NULL ((void *) 0)'], []
    with open(os.path.join(bdir, 'keep'), 'w') as f:
        f.write('\n'.join(PUBLIC + ['wrap_' + n for n in WRAPPED]) + '\n')
    for k, b in enumerate(check['builds']):
        if k in failed:
            continue
        od = os.path.join(bdir, 'b%d' % k)
        attr = b.get('attr', {})
        tail = '%s, %d, %d, %d, %d, %d }' % (json.dumps(b['cpu']) if b.get('cpu') else 'NULL', attr.get('best', 0), attr.get('medium', 1), attr.get('fast', 1),
                                             attr.get('maxch', 128), attr.get('exact', 1))
        if b.get('shared'):
            vs = os.path.join(od, 'Version_script')
            with open(vs, 'w') as f:
                f.write(open(os.path.join(REPO, 'src', 'Version_script.in')).read().replace('@PACKAGE@', 'libsamplerate'))
            so = shared = os.path.join(od, 'libsamplerate.so')
            cmds = [[b.get('cc', 'gcc'), '-shared'] + parts[k] + ['-Wl,--version-script=' + vs, '-o', so, '-lm']]
            rows.append('{ %s, NULL, %s, ' % (json.dumps(b['name']), json.dumps(so)) + tail)
        else:
            o, p = os.path.join(od, 'all.o'), os.path.join(od, 'renamed.o')
            ren = os.path.join(od, 'rename')
            with open(ren, 'w') as f:
                wr = WRAPPED if b.get('wrap') else []
                f.write(''.join('%s b%d_%s%s\n' % (n, k, 'raw_' if n in wr else '', n) for n in PUBLIC) + ''.join('wrap_%s b%d_%s\n' % (n, k, n) for n in wr))
            cmds = [['ld', '-r', '-o', o] + parts[k], ['objcopy', '--keep-global-symbols=' + os.path.join(bdir, 'keep'), o],
                    ['objcopy', '--redefine-syms=' + ren, o, p]]
            out.append(p)
            decl += ['extern __typeof__ (%s) b%d_%s ;' % (n, k, n) for n in PUBLIC]
            decl.append('static const api_t api%d = { %s } ;' % (k, ', '.join('.%s = b%d_%s' % (n[4:], k, n) for n in PUBLIC)))
            rows.append('{ %s, &api%d, NULL, ' % (json.dumps(b['name']), k) + tail)
        for c in cmds:
            r = sh(c)
            if r.returncode:
                raise NoVerdict('failed: %s\n%s' % (' '.join(c), r.stdout[-3000:]))
    # programs that use the library as it is installed: public header, shared library
    users = []
    for k, cmd in enumerate(check.get('users', [])):
        o, so = os.path.join(bdir, 'user%d.o' % k), os.path.join(bdir, 'user%d.so' % k)
        cmd = cmd.split()
        f = os.path.join(ROOT, 'harness', 'user.cpp' if '++' in cmd[0] else 'user.c')
        if sh([cmd[0], '-x', 'c++' if '++' in cmd[0] else 'c', '-c', os.devnull, '-o', o]).returncode:
            raise NoVerdict('%s does not work' % cmd[0])
        r = sh(cmd + ['-w', '-O1', '-fPIC', '-I' + os.path.join(REPO, 'include'), '-c', f, '-o', o])
        if r.returncode == 0:
            r = sh([cmd[0], '-shared', '-Wl,--no-undefined', o, shared, '-o', so])
        users.append('{ %s, %s, %s }' % (json.dumps(' '.join(cmd)), 'NULL' if r.returncode else json.dumps(so),
                                         json.dumps(' | '.join(r.stdout.split('\n'))[:600].encode('ascii', 'replace').decode().replace('\t', ' '))))
    decl.append('const user_t users [] = { %s } ;\nconst int nusers = %d ;' % (', '.join(users + ['{ NULL, NULL, NULL }']), len(users)))
    src = os.path.join(bdir, 'builds.c')
    with open(src, 'w') as f:
        f.write('\n'.join(decl) + '\nconst build_t builds [] = {\n%s\n} ;\nconst int nbuilds = %d ;\n' % (',\n'.join(rows), len(rows)))
    return out, src


def build(pid, check, variants, bdir):
    """compile library + harness for every variant, all objects in parallel"""
    libsrc = sorted(glob.glob(os.path.join(REPO, 'src', '*.c')))
    if not libsrc:
        raise NoVerdict('no sources in %s/src' % REPO)
    inc = ['-I' + os.path.join(ROOT, 'config'), '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(ROOT, 'harness')]
    jobs, objs = [], {}
    if any(VARIANTS[v].get('best') for v in variants) or 'builds' in check:
        gen = os.path.join(bdir, 'gen')
        os.makedirs(gen, exist_ok=True)
        r = sh(['gcc', '-O2', os.path.join(ROOT, 'ref', 'gen_best.c'), '-o', os.path.join(gen, 'gen_best'), '-lm'])
        if r.returncode == 0:
            with open(os.path.join(gen, 'high_qual_coeffs.h'), 'w') as f:
                r = subprocess.run([os.path.join(gen, 'gen_best')], stdout=f)
        if r.returncode:
            raise NoVerdict('generating the filter table failed')
        inc.append('-I' + gen)
    multi, extra = build_multi(check, bdir, inc) if 'builds' in check else ([], None)
    for v in variants:
        d = VARIANTS[v]
        od = os.path.join(bdir, v)
        os.makedirs(od, exist_ok=True)
        objs[v] = list(multi)
        if extra:
            o = os.path.join(od, 'builds.o')
            jobs.append([d['cc']] + BASE_CFLAGS + d['cflags'] + inc + ['-c', extra, '-o', o])
            objs[v].append(o)
        for s in [] if extra else libsrc:
            o = os.path.join(od, 'lib_' + os.path.basename(s)[:-2] + '.o')
            jobs.append([d['cc']] + BASE_CFLAGS + d['cflags'] + d.get('libcflags', []) + inc + ['-c', s, '-o', o])
            objs[v].append(o)
        for s in ['vh.c', 'model.c'] + check['src']:
            o = os.path.join(od, 'h_' + s[:-2] + '.o')
            jobs.append([d['cc']] + BASE_CFLAGS + d['cflags'] + ['-I' + os.path.join(ROOT, 'ref')] + check.get('cflags', []) + inc +
                        ['-c', os.path.join(ROOT, 'harness', s), '-o', o])
            objs[v].append(o)
    # a library that was changed so that it no longer fits the stand-in filter table is checked without the best converter
    optional = {v for v in variants if VARIANTS[v].get('best') and len(variants) > 1}
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for j, r in zip(jobs, ex.map(sh, jobs)):
            if r.returncode:
                v = os.path.basename(os.path.dirname(j[-1]))
                if v not in optional or '/lib_' not in j[-1]:
                    raise NoVerdict('compile failed: %s\n%s' % (' '.join(j), r.stdout[-3000:]))
                print('note: variant %s left out, the library does not compile with the stand-in filter table' % v)
                variants = [x for x in variants if x != v]
    links = []
    bins = {}
    for v in variants:
        d = VARIANTS[v]
        bins[v] = os.path.join(bdir, v, 'monitor')
        links.append([d['cc']] + d['cflags'] + objs[v] + check.get('ldflags', {}).get(v, check.get('ldflags', {}).get('*', [])) + ['-o', bins[v], '-lm', '-lpthread', '-ldl'])
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for j, r in zip(links, ex.map(sh, links)):
            if r.returncode:
                raise NoVerdict('link failed: %s\n%s' % (' '.join(j), r.stdout[-3000:]))
    return bins


class Result:
    def __init__(self):
        self.lock = threading.Lock()
        self.viol = []          # dicts
        self.stats = {}
        self.sigs = set()
        self.samples = []
        self.cov = {}
        self.err = []
        self.stop = False
        self.procs = set()


def crash_key(out):
    m = re.search(r'(AddressSanitizer|MemorySanitizer|ThreadSanitizer|LeakSanitizer): ([\w-]+)', out)
    if m:
        kind = m.group(1)[0].lower() + 'san:' + m.group(2)
    else:
        m = re.search(r'runtime error: ([^\n]*)', out)
        if m:
            kind = 'ubsan:' + re.sub(r'[-+]?\d[\d.e+-]*|0x[0-9a-f]+', 'N', m.group(1))[:60]
        else:
            m = re.search(r"Assertion `([^']*)' failed", out)
            kind = 'assert:' + m.group(1) if m else 'crash'
    return kind


def vseed(seed, v):
    return seed + 1000003 * (1 + sorted(VARIANTS).index(v))


def parse(res, v, out):
    """returns (done, hang_case)"""
    done, hang = False, None
    with res.lock:
        for line in out.split('\n'):
            f = line.split('\t')
            if f[0] == 'VIOL' and len(f) >= 4:
                res.viol.append({'variant': v, 'case': int(f[1]), 'key': f[2], 'msg': f[3]})
            elif f[0] == 'STAT' and len(f) == 3:
                k = v + '.' + f[1]
                res.stats[k] = res.stats.get(k, 0) + float(f[2])
            elif f[0] == 'SIG':
                res.sigs.add(f[1])
            elif f[0] == 'SAMPLE':
                if len(res.samples) < 40:
                    res.samples.append(f[1])
            elif f[0] == 'COV' and len(f) == 2:
                old = res.cov.get(v)
                new = int(f[1], 2) if f[1] else 0
                res.cov[v] = (len(f[1]), (old[1] if old else 0) | new)
            elif f[0] == 'HANG':
                hang = int(f[1])
            elif f[0] == 'DONE':
                done = True
    return done, hang


def run_chunk(res, bins, bdir, v, frm, to, step, seed, thorough, extra, cpu, timeout, tag):
    """run cases frm, frm+step, ... < to; crashes are violations, the run resumes after them (twice at most)"""
    restarts = 0
    retried_hang = None
    retried_crash = None
    while frm < to and not res.stop:
        prog = os.path.join(bdir, 'prog-%s-%s' % (v, tag))
        cmd = [bins[v], '--seed', str(vseed(seed, v)), '--from', str(frm), '--to', str(to), '--step', str(step), '--prog', prog, '--cpu', str(cpu)] + extra
        if thorough:
            cmd.append('--thorough')
        try:
            pr = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=ENV, cwd=bdir)
            with res.lock:
                res.procs.add(pr)
            try:
                sout, serr = pr.communicate(timeout=timeout)
            except subprocess.TimeoutExpired:
                pr.kill()
                pr.communicate()
                raise
            finally:
                with res.lock:
                    res.procs.discard(pr)
            r = subprocess.CompletedProcess(cmd, pr.returncode, sout, serr)
        except subprocess.TimeoutExpired:
            res.err.append('wall clock limit of %d s for %s: inconclusive' % (timeout, ' '.join(cmd)))
            return
        done, hang = parse(res, v, r.stdout)
        if res.stop and not done:
            return
        if done and r.returncode == 0:
            return
        if r.returncode in (2, 3, -9):
            res.err.append('harness failure (exit %d): %s\n%s' % (r.returncode, ' '.join(cmd), r.stderr[-2000:]))
            return
        try:
            with open(prog, 'rb') as f:
                case = int.from_bytes(f.read(8), 'little')
        except OSError:
            res.err.append('no progress file: %s\n%s' % (' '.join(cmd), r.stderr[-2000:]))
            return
        if hang is not None:
            if retried_hang != hang:      # run the case once more, with twice the CPU time
                retried_hang = hang
                cpu *= 2
                frm = hang
                continue
            with res.lock:
                res.viol.append({'variant': v, 'case': hang, 'key': 'hang', 'msg': 'the case does not finish within %g s of CPU time (twice)' % cpu})
            case = hang
        else:
            text = r.stderr
            if retried_crash is None and crash_key(text) == 'crash' and not text.strip() and r.returncode < 0 and r.returncode not in (-11, -6, -8, -4, -7):
                retried_crash = case      # killed from outside by an unusual signal: try once more
                frm = case
                continue
            msg = ' '.join(text.strip().split('\n')[:14]) if text.strip() else 'signal %d' % -r.returncode
            with res.lock:
                res.viol.append({'variant': v, 'case': case, 'key': crash_key(text) if text.strip() else 'signal:%d' % -r.returncode,
                                 'msg': re.sub(r'\s+', ' ', msg)[:1800], 'report': text[-6000:]})
        restarts += 1
        if restarts > 1:
            return
        frm = case + step


def known_findings():
    out = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) match=/(.*?)/ :: (.*)', line.strip())
            if m:
                out.append({'property': m.group(1), 'key': m.group(2), 're': re.compile(m.group(3)), 'what': m.group(4)})
    return out


def replay(path):
    rp = json.load(open(path))
    check = CHECKS[rp['property']]
    bdir = os.path.join(ROOT, '.build', rp['property'] + '-replay')
    os.makedirs(bdir, exist_ok=True)
    bins = build(rp['property'], check, [rp['variant']], bdir)
    cmd = [bins[rp['variant']], '--seed', str(rp['seed']), '--from', str(rp['case']), '--to', str(rp['case'] + 1)] + rp.get('extra', [])
    if rp['tier'] == 'thorough':
        cmd.append('--thorough')
    print(' '.join(cmd), flush=True)
    rc = subprocess.call(cmd, env=ENV)
    return rc


def main():
    if sys.argv[1:2] == ['--replay']:
        return replay(sys.argv[2])
    if sys.argv[1:2] == ['--setup']:
        for c in ('gcc', 'clang'):
            if shutil.which(c) is None:
                print('missing', c)
                return 2
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        return 0
    pid = sys.argv[1]
    check = CHECKS[pid]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    thorough = tier == 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    bdir = os.path.join(ROOT, '.build', '%s-%d' % (pid, os.getpid()))
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    try:
        plan = check['thorough' if thorough else 'quick']      # {variant: fraction of the cases}
        res = Result()
        try:
            bins = build(pid, check, list(plan), bdir)
        except NoVerdict as e:
            print('ERROR:', e)
            return 2
        tb = time.time() - t0
        tasks = []
        chunks = check.get('chunks', 24)
        plan = {v: plan[v] for v in plan if v in bins}
        for v, frac in plan.items():
            r = sh([bins[v], '--count'] + (['--thorough'] if thorough else []) + (['--light'] if v != 'R' else []))
            if r.returncode:
                print('ERROR: count failed\n' + r.stdout)
                return 2
            n = int(r.stdout.split()[-1])
            n = max(1, int(n * frac))
            k = min(n, chunks)
            for j in range(k):
                tasks.append((v, j, n, k, ['--light'] if v != 'R' else []))
        cpu = check.get('cpu', {}).get(tier, 60)
        with cf.ThreadPoolExecutor(check.get('workers', NCPU)) as ex:
            fs = []
            for v, j, n, k, extra in tasks:
                fs.append(ex.submit(run_chunk, res, bins, bdir, v, j, n, k, seed, thorough, extra, cpu, 3600 * 4 if thorough else 800, j))
            left, first = set(fs), None
            while left:
                done, left = cf.wait(left, timeout=2, return_when=cf.FIRST_COMPLETED)
                for f in done:
                    f.result()
                if res.viol and first is None:
                    first = time.time()
                if len(res.viol) >= 3 or (first and time.time() - first > 60):
                    res.stop = True     # there is a verdict: do not wait for what else may hang
                    if first and time.time() - first > 60:
                        with res.lock:
                            for pr in res.procs:
                                pr.kill()
    finally:
        shutil.rmtree(bdir, ignore_errors=True)

    kf = [k for k in known_findings() if k['property'] == pid]
    new, known = [], {}
    for x in res.viol:
        for k in kf:
            if k['key'] == x['key'] and k['re'].search(x['msg']):
                known[k['what']] = known.get(k['what'], 0) + 1
                break
        else:
            new.append(x)
    for k in kf:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    tot = lambda name: int(sum(v for k, v in res.stats.items() if k.split('.', 1)[1] == name))
    evals = tot(check.get('evaluations', 'cases'))
    cov = {'evaluations': evals, 'distinct_nontrivial': len(res.sigs), 'rule': check['rule'], 'samples': res.samples[:8],
           'variants': {v: VARIANTS[v]['what'] for v in plan}, 'monitor_counts': {k: int(v) if v == int(v) else v for k, v in sorted(res.stats.items())}}
    if check.get('exhaustive') and not new and not res.err:
        cov['exhaustive'] = True
    if res.cov:
        cov['library_edges'] = {v: {'hit': bin(b).count('1'), 'total': n} for v, (n, b) in res.cov.items()}
    if check.get('coverage'):
        cov.update(check['coverage'])
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': check['level'], 'coverage': cov, 'assumptions': check.get('assumptions', []),
          'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for e in res.err:
        print('ERROR:', e)
    if new:
        rd = os.path.join(ROOT, 'replays')
        os.makedirs(rd, exist_ok=True)
        for x in new[:3]:
            path = os.path.join(rd, '%s-%s-%d-%d.json' % (pid, x['variant'], seed, x['case']))
            rp = {'property': pid, 'tier': tier, 'seed': vseed(seed, x['variant']), 'verif_seed': seed, 'variant': x['variant'], 'case': x['case'], 'key': x['key'], 'msg': x['msg'], 'report': x.get('report', ''),
                  'extra': ['--light'] if x['variant'] != 'R' else []}
            with open(path, 'w') as f:
                json.dump(rp, f, indent=1)
            print('%s case %d (%s): %s' % (x['key'], x['case'], x['variant'], x['msg'][:700]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if res.err:
        return 2
    if evals < check.get('min_evals', 1) or len(res.sigs) < check.get('min_sigs', 1):
        print('ERROR: the run observed too little (%d evaluations, %d distinct)' % (evals, len(res.sigs)))
        return 2
    print('%s held: %d evaluations, %d distinct non-trivial, %.1f s (build %.1f s), %s' %
          (pid, evals, len(res.sigs), time.time() - t0, tb, tier))
    return 0


if __name__ == '__main__':
    sys.exit(main())
