"""Runs one check: dump the current source, discharge its obligations, run its bounded stand-in, write evidence.

usage: driver.py ID [--tier quick|thorough] [--replay FILE]
exit 0: held on everything explored; 1: VIOLATION line printed; 2: nothing could be decided."""
import sys, os, time, json, subprocess, hashlib, importlib, pickle, shutil, tempfile, signal
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('KVC_REPO', '/repo')
sys.path.insert(0, ROOT)
BUILD = os.path.join(ROOT, 'build')
NCPU = os.cpu_count() or 4
BASE = ['-std=c++20', '-DNDEBUG', '-DCGAL_USE_BOOST_MP=1', '-DCGAL_USE_GMPXX=1', '-DCMAKE_OVERRIDDEN_DEFAULT_ENT_BACKEND=3',
        '-I' + REPO + '/include', '-I' + ROOT + '/inst/shim', '-include', ROOT + '/inst/shim/kigumi_verif_shim.h']
LINK = ['-lgmpxx', '-lgmp', '-lmpfr', '-lboost_container', '-lpthread']

def digest(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f: h.update(f.read())
    return h.hexdigest()[:20]
def tree(*dirs):
    out = []
    for d in dirs:
        for r, ds, fs in os.walk(d):
            ds[:] = [x for x in ds if x not in ('.git', '_build', 'build', '__pycache__')]
            out += [os.path.join(r, f) for f in fs if f.endswith(('.h', '.hpp', '.cc', '.py'))]
    return out
def sh(cmd, log, timeout=800, **kw):
    with open(log, 'w') as f:
        try: return subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, **kw).returncode
        except subprocess.TimeoutExpired: return 124

def build_kdump():
    src = os.path.join(ROOT, 'kvc/kdump.cc')
    out = os.path.join(BUILD, 'kdump-' + digest([src]))
    if not os.path.exists(out):
        tmp = '%s.%d' % (out, os.getpid())
        rc = sh(['clang++-18', '-std=c++17', '-fno-rtti', '-O0', '-I/usr/lib/llvm-18/include', src, '-o', tmp,
                 '/usr/lib/llvm-18/lib/libclang-cpp.so.18.1', '/usr/lib/llvm-18/lib/libLLVM-18.so'], os.path.join(BUILD, 'kdump.log'))
        if rc: return None
        os.replace(tmp, out)
    return out
def repo_sources(): return tree(os.path.join(REPO, 'include'), os.path.join(REPO, 'cli'))
def dump(tus):
    """dump of each translation unit -> [json paths] or None"""
    kd = build_kdump()
    if kd is None: return None, 'the dumper does not compile'
    outs = []; jobs = []
    for name, flags in tus:
        src = os.path.join(ROOT, 'inst', name)
        key = digest(repo_sources() + tree(os.path.join(ROOT, 'inst')) + [os.path.join(ROOT, 'kvc/kdump.cc')], REPO + name + ' '.join(flags))
        out = os.path.join(BUILD, 'dump-%s-%s.json' % (name.replace('/', '_'), key)); outs.append(out)
        if os.path.exists(out): continue
        tmp = '%s.%d' % (out, os.getpid())
        f = open(tmp, 'w')
        e = open(os.path.join(BUILD, 'dump-%s.log' % name.replace('/', '_')), 'w')
        jobs.append((subprocess.Popen([kd, src, REPO + '/,' + ROOT + '/inst/', '--'] + BASE + flags + ['-I/usr/lib/llvm-18/lib/clang/18/include'], stdout=f, stderr=e), tmp, out, f, e))
    bad = None
    for p, tmp, out, f, e in jobs:
        p.wait(); f.close(); e.close()
        if p.returncode: bad = open(e.name).read()[-2000:]; os.unlink(tmp)
        else: os.replace(tmp, out)
    if bad is not None: return None, 'the current source does not parse: ' + bad
    for o in os.listdir(BUILD):     # keep the cache small
        if o.startswith('dump-') and o.endswith('.json'):
            p = os.path.join(BUILD, o)
            if p not in outs and time.time() - os.path.getmtime(p) > 3600: os.unlink(p)
    return outs, ''

# ------------------------------------------------------------------ bounded stand-in
class Harness:
    """compiles harness/<id>.cc against the real headers and runs it"""
    def __init__(self, spec, cid, tier, seed, work, only=None):
        self.spec = spec; self.cid = cid; self.tier = tier; self.seed = seed; self.work = work; self.only = only
        self.status = 'none'; self.info = {}; self.detail = ''; self.log = ''
    def start(self):
        self.pid = os.fork()
        if self.pid: return
        try:
            self.run()
            with open(os.path.join(self.work, 'harness.pickle'), 'wb') as f: pickle.dump((self.status, self.info, self.detail, self.log), f)
        finally: os._exit(0)
    def join(self):
        try: os.waitpid(self.pid, 0)
        except ChildProcessError: pass
        try: self.status, self.info, self.detail, self.log = pickle.load(open(os.path.join(self.work, 'harness.pickle'), 'rb'))
        except Exception as e: self.status = 'nobuild'; self.detail = 'harness driver: %r' % (e,)
    def run(self):
        s = self.spec
        try:
            srcs = [os.path.join(ROOT, 'harness', x) if not x.startswith('/') else x for x in s['src']]
            objs = []; procs = []
            for i, x in enumerate(srcs):
                o = os.path.join(self.work, 'h%d.o' % i); objs.append(o)
                log = open(os.path.join(self.work, 'cc%d.log' % i), 'w')
                procs.append((subprocess.Popen(['clang++-18'] + BASE + ['-DBOOST_CONTAINER_DYN_LINK', '-DBOOST_CONTAINER_NO_LIB', '-I' + ROOT + '/harness', '-I' + REPO + '/cli', s.get('opt', '-O1'), '-w']
                              + s.get('flags', []) + (s.get('srcflags', {}).get(os.path.basename(x), [])) + ['-c', x, '-o', o], stdout=log, stderr=subprocess.STDOUT), log))
            bad = False
            for p, log in procs:
                p.wait(); log.close()
                if p.returncode: bad = True; self.detail += open(log.name).read()[-1500:]
            if bad: self.status = 'nobuild'; return
            exe = os.path.join(self.work, 'h')
            if sh(['clang++-18'] + s.get('flags', []) + objs + ['-o', exe] + s.get('link', []) + LINK, os.path.join(self.work, 'ld.log')):
                self.status = 'nobuild'; self.detail = open(os.path.join(self.work, 'ld.log')).read()[-1500:]; return
            out = os.path.join(self.work, 'replay.txt'); inf = os.path.join(self.work, 'info.json')
            env = dict(os.environ)
            env.update({'H_SEED': str(self.seed), 'H_TIER': self.tier, 'H_REPLAY': out, 'H_INFO': inf, 'H_SECONDS': str(s.get('seconds', 40) if self.tier == 'quick' else s.get('thorough_seconds', 400)),
                        'H_DIR': self.work, 'H_REPO': REPO, 'TSAN_OPTIONS': 'exitcode=66 halt_on_error=1', 'ASAN_OPTIONS': 'detect_leaks=0', 'UBSAN_OPTIONS': 'print_stacktrace=0'})
            if self.only: env['H_ONLY'] = self.only
            lim = 420 if self.tier == 'quick' else 3000
            rc = sh([exe], os.path.join(self.work, 'run.log'), timeout=lim, env=env, cwd=self.work)
            self.log = open(os.path.join(self.work, 'run.log'), errors='replace').read()[-6000:]
            if os.path.exists(inf):
                try: self.info = json.load(open(inf))
                except ValueError: pass
            if rc == 0: self.status = 'ok'
            elif rc == 124: self.status = 'hang'; self.detail = 'the harness did not end in %d s' % lim
            else: self.status = 'fail'; self.detail = (open(out, errors='replace').read() if os.path.exists(out) else '') + '\n--- output (exit status %d)\n' % rc + self.log
        except Exception as e:
            self.status = 'nobuild'; self.detail = repr(e)

# ------------------------------------------------------------------ proofs
def run_units(mod, P, deadline, tier, only=None):
    from kvc.unit import run_unit
    us = mod.units(P)
    res = {}
    def fork(u, nproc, fd):
        sys.setrecursionlimit(20000)
        try:
            u.timeout = max(5, min(u.timeout, deadline - time.time()))
            r = run_unit(P, u, nproc=nproc)
            data = pickle.dumps(r)
        except BaseException as e:
            data = pickle.dumps({'unit': u.name, 'status': 'unsupported', 'detail': 'engine: %r' % (e,)})
        with open(fd, 'wb') as f: f.write(data)
        os._exit(0)
    tmp = tempfile.mkdtemp(prefix='kvcu')
    def batch(lst, width, nproc):
        todo = list(lst); live = {}
        while todo or live:
            while todo and len(live) < width:
                i, u = todo.pop(0)
                fd = os.path.join(tmp, str(i))
                pid = os.fork()
                if pid == 0: fork(u, nproc, fd)
                live[pid] = (i, u, fd)
            pid, st = os.wait()
            if pid not in live: continue
            i, u, fd = live.pop(pid)
            try: res[i] = pickle.load(open(fd, 'rb'))
            except Exception: res[i] = {'unit': u.name, 'status': 'unsupported', 'detail': 'proof process died (status %d)' % st}
    idx = list(enumerate(us))
    if only is not None:
        u = us[only]; u.timeout = 10**6
        try: batch([(only, u)], 1, max(2, NCPU - 1))
        finally: shutil.rmtree(tmp, ignore_errors=True)
        return us, [res[only]]
    try:
        batch([x for x in idx if not x[1].heavy], max(2, NCPU - 1), 1)
        batch([x for x in idx if x[1].heavy], 1, max(2, NCPU - 1))
    finally: shutil.rmtree(tmp, ignore_errors=True)
    return us, [res[i] for i in range(len(us))]

TRUSTED = ['clang 18 front end (the AST is the one clang compiles)', 'kvc verification-condition generator (kvc/engine.py)', 'built-in contracts of std/boost/CGAL types (kvc/lib.py), the ones used are listed under library_contracts',
           'z3 and cvc5', 'verified at the instantiation K = Epeck, FaceData = an opaque type']

def main():
    a = sys.argv[1:]
    cid = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    only = None
    if '--replay' in a:
        for line in open(a[a.index('--replay') + 1]):
            if line.startswith('case '): only = line.split()[1]; break
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True); os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    sys.setrecursionlimit(20000)
    mod = importlib.import_module('checks.' + cid)
    work = tempfile.mkdtemp(prefix='kvc-%s-' % cid)
    try: return check(cid, mod, tier, seed, work, only, t0)
    finally: shutil.rmtree(work, ignore_errors=True)

def check(cid, mod, tier, seed, work, only, t0):
    hspec = getattr(mod, 'HARNESS', None)
    h = Harness(hspec, cid, tier, seed, work, only) if hspec else None
    if h: h.start()
    results = []; units = []; perr = ''
    if only is None and hasattr(mod, 'units'):
        tus = getattr(mod, 'TUS', [('all.cc', [])])
        outs, perr = dump(tus)
        if outs:
            from kvc.prog import Prog, Unsupported
            try:
                P = Prog(outs[0]) if len(outs) == 1 else [Prog(o) for o in outs]
                if len(outs) > 1: P = mod.merge(P)
                units, results = run_units(mod, P, t0 + (600 if tier == 'quick' else 1500), tier)
            except (Unsupported, KeyError, AttributeError, IndexError, TypeError, ValueError) as e:
                perr = 'the proof script does not fit the current source: %r' % (e,)
    if h: h.join()
    if not (h and h.status in ('fail', 'hang')):
        # an obligation can be missed for lack of time on a busy machine: one more try with four times the limits
        from kvc import smt
        for i, r in enumerate(results):
            left = t0 + (780 if tier == 'quick' else 2400) - time.time()
            if r['status'] in ('unproved', 'timeout') and left > 30:
                smt.SCALE = 4.0
                try: results[i] = run_units(mod, P, time.time() + left, tier, only=i)[1][0]
                finally: smt.SCALE = 1.0
                results[i]['retried'] = True
    obls = [o for r in results for o in r.get('obls', ())]
    failed = [r for r in results if r['status'] in ('refuted', 'unproved')]
    open_ = [r for r in results if r['status'] not in ('proved', 'refuted', 'unproved')]
    known = load_known(cid)
    rp = os.path.join(ROOT, 'build', 'replay'); os.makedirs(rp, exist_ok=True)
    rc = 0; viol = 0
    for k in known: print('KNOWN-FINDING: property=%s %s' % (cid, k))
    if h and h.status in ('fail', 'hang'):
        path = os.path.join(rp, cid + '.txt')
        with open(path, 'w') as f:
            f.write(h.detail + '\n')
            for r in failed: f.write('failed obligation: %s\n' % r['detail'])
            f.write('\nreplay: python3-vt %s/kvc/driver.py %s --replay %s\n' % (ROOT, cid, path))
        if h.status == 'fail':
            print('failing input: ' + h.detail[:600].replace('\n', '\n  '))
            print('VIOLATION property=%s replay=%s' % (cid, path)); rc = 1; viol = 1
        else:
            print('VIOLATION property=%s replay=%s' % (cid, path)); rc = 1; viol = 1
    elif failed:
        path = os.path.join(rp, cid + '.obligation.txt')
        with open(path, 'w') as f:
            for r in failed: f.write('obligation not discharged (%s)\n%s\n\n' % (r['status'], r['detail']))
            f.write('bounded stand-in: %s\n' % (h.status if h else 'none'))
        print('failed obligation: ' + failed[0]['detail'][:400].replace('\n', '\n  '))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (cid, path)); rc = 1; viol = 1
    elif (perr or open_ or not results) and not (h and h.status == 'ok') and only is None:
        print('UNDECIDED property=%s %s %s' % (cid, perr, '; '.join('%s: %s' % (r['unit'], r['detail'][:200]) for r in open_))); rc = 2
    if h and h.status == 'nobuild': print('note: the bounded stand-in does not build against the current tree: ' + h.detail[:700])
    nd = sum(1 for o in obls if o[1] == 'proved')
    byback = {}
    for o in obls:
        if o[1] == 'proved': byback[o[2]] = byback.get(o[2], 0) + 1
    hi = h.info if h else {}
    asm = set(getattr(mod, 'ASSUME', []))
    for r in results: asm |= set(r.get('assumptions', ()))
    cov = {'obligations': len(obls), 'discharged': nd,
           'checker_cmd': 'python3-vt kvc/driver.py %s --tier %s' % (cid, tier),
           'trusted_base': TRUSTED,
           'by_back_end': byback, 'solver_s': round(sum(r.get('solver_s', 0) for r in results), 2),
           'distinct_obligations': len({o[0] for o in obls}),
           'units': [{'unit': r['unit'], 'status': r['status'], 'obligations': len(r.get('obls', ())), 'paths': r.get('paths', 0), 'wall_s': round(r.get('wall_s', 0), 2),
                      'functions': r.get('functions', []), 'callee_contracts': r.get('contracts', []),
                      **({'detail': r['detail'][:600]} if r['status'] != 'proved' else {})} for r in results],
           'functions_under_contract': sorted({f for r in results if r['status'] == 'proved' for f in r.get('functions', ())}),
           'library_contracts': sorted({f for r in results for f in r.get('lib', ())}),
           'loop_invariants': {k: v for r in results for k, v in r.get('invariants', {}).items()},
           'not_decided_by_proof': [r['unit'] + ': ' + r['detail'][:300] for r in open_] + ([perr] if perr else []),
           'bounded': getattr(mod, 'BOUNDED', []),
           'samples': hi.get('samples', [])[:5] or [o[0] for o in obls[:3]]}
    if h:
        cov['bounded_stand_in'] = {'status': h.status, 'evaluations': hi.get('evaluations', 0), 'distinct_nontrivial': hi.get('distinct_nontrivial', 0), 'rule': hi.get('rule', ''), 'wall_s': hi.get('wall_s', 0), 'counts': hi.get('counts', {})}
        cov['evaluations'] = hi.get('evaluations', 0); cov['distinct_nontrivial'] = hi.get('distinct_nontrivial', 0); cov['rule'] = hi.get('rule', '')
    level = getattr(mod, 'LEVEL', 'proof')
    ev = {'property': cid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': sorted(asm), 'wall_s': round(time.time() - t0, 2), 'violations': viol}
    if only is None:
        with open(os.path.join(ROOT, 'evidence', cid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    if rc == 0:
        print('%s held: %d/%d obligations discharged in %d units%s; bounded stand-in: %s, %d cases; %.0f s' % (cid, nd, len(obls), len(results), '' if not open_ else ' (%d undecided, bounded only)' % len(open_), h.status if h else 'none', hi.get('evaluations', 0), time.time() - t0))
    return rc

def load_known(cid):
    p = os.path.join(ROOT, 'known_findings.txt'); out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: property=%s ' % cid): out.append(line.split(' ', 2)[2])
    return out

if __name__ == '__main__': sys.exit(main())
