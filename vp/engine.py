"""Solver driver: real /repo sources -> LLVM IR -> C (tool/ir2c) -> CBMC, with native replay of every assignment."""
import os, re, sys, json, time, shutil, subprocess, tempfile, threading, hashlib, signal, resource
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
SRC = REPO + '/src'
NCPU = max(2, min(8, os.cpu_count() or 8))
LLVM = '/usr/lib/llvm-18/bin/'
MEMTOTAL = 26


# external data that only logging and never a verdict depends on
ALLOW_EXT = {'stderr', 'stdout', 't8_package_id'}


class ToolError(Exception):
    pass


def sh(cmd, timeout=600, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, errors='replace', **kw)
    return p


def must(cmd, what, timeout=600):
    p = sh(cmd, timeout)
    if p.returncode:
        raise ToolError('%s failed: %s\n%s' % (what, ' '.join(cmd), (p.stdout + p.stderr)[-3000:]))
    return p


_tool_lock = threading.Lock()


def build_tool():
    """tool/ir2c.cpp -> build/ir2c (rebuilt when the source is newer)"""
    out = VERIF + '/build/ir2c'
    src = VERIF + '/tool/ir2c.cpp'
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()
    stamp = out + '.sha'
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h:
        return out
    os.makedirs(VERIF + '/build', exist_ok=True)
    fl = sh([LLVM + 'llvm-config', '--cxxflags', '--ldflags']).stdout.split()
    fl = [f for f in fl if not f.startswith('-std') and f != '-fno-exceptions']
    tmp = out + '.%d' % os.getpid()
    must(['clang++', '-std=c++17', '-O1', '-w', src, '-o', tmp] + fl + ['-frtti', '-lLLVM-18'], 'building ir2c')
    os.replace(tmp, out)
    open(stamp, 'w').write(h)
    return out


_mpi = None


def base_flags():
    global _mpi
    if _mpi is None:
        _mpi = sh(['mpicc', '--showme:compile']).stdout.split()
    return (['-include', VERIF + '/env/compat.h', '-I' + SRC, '-I' + REPO, '-I' + VERIF + '/harness', '-I' + VERIF + '/models'] + _mpi +
            ['-DT8_ENABLE_MPI=1', '-DT8_ENABLE_MPIIO=1', '-DT8_CMAKE_BUILD', '-w', '-O1', '-Xclang', '-disable-llvm-passes',
             '-g1', '-fno-exceptions', '-fwrapv', '-fno-strict-aliasing', '-fno-threadsafe-statics', '-c', '-emit-llvm'])


class Unit:
    """One harness instance: sources, case split, bounds."""

    def __init__(self, name, harness, defs=(), srcs=(), models=(), cases=None, unwind=40, timeout=400, inline=2000, hflags=(),
                 replay_mpi=False, opt=True, note='', cbmc=(), unwindset='', native_models=(), solver='cadical', vac=False, rec=2, fsa=64, mem=2):
        self.mem = mem  # memory one query is expected to need, in GB: bounds how many run side by side
        self.fsa = fsa
        self.rec = rec  # bound on recursion depth (int or function of the case), default: unwind
        self.vac = vac  # single cases may be empty (but not all of them)
        self.name, self.harness, self.defs = name, harness, list(defs)
        self.srcs, self.models, self.cases = list(srcs), list(models), cases or [()]
        self.unwind, self.timeout, self.inline = unwind, timeout, inline
        self.replay_mpi, self.note, self.cbmc, self.unwindset = replay_mpi, note, list(cbmc), unwindset
        self.native_models = list(native_models)
        self.hflags = list(hflags)
        self.solver = solver
        self.cfile = self.exe = None
        self.functions = []


class Engine:
    def __init__(self, prop, tier, budget):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.deadline = self.t0 + budget
        self.dir = tempfile.mkdtemp(prefix='vp_%s_' % prop, dir='/tmp')
        self.bc, self.bclock = {}, threading.Lock()
        self.results, self.errors, self.violations = [], [], []
        self.procs, self.plock, self.stop = set(), threading.Lock(), False
        self.memc, self.memused = threading.Condition(), 0
        self.planned = 0

    # ---- subprocess with kill-on-stop
    def run(self, cmd, timeout, mem_gb=12):
        def pre():
            os.setsid()
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        if self.stop:
            return None, '', ''
        of = tempfile.TemporaryFile(mode='w+', dir=self.dir, errors='replace')
        p = subprocess.Popen(cmd, stdout=of, stderr=subprocess.STDOUT, text=True, preexec_fn=pre)
        with self.plock:
            self.procs.add(p)
        rc = None
        try:
            rc = p.wait(timeout=max(1, min(timeout, self.deadline - time.time())))
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
            rc = 'timeout'
        finally:
            with self.plock:
                self.procs.discard(p)
        of.seek(0)
        return rc, of, p

    def run_mem(self, cmd, timeout, mem):
        with self.memc:
            while self.memused and self.memused + mem > MEMTOTAL and not self.stop:
                self.memc.wait(1)
            self.memused += mem
        try:
            return self.run(cmd, timeout, max(12, mem))
        finally:
            with self.memc:
                self.memused -= mem
                self.memc.notify_all()

    def kill_all(self):
        self.stop = True
        with self.plock:
            for p in list(self.procs):
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except Exception:
                    pass

    # ---- compilation
    def compile(self, path, defs=(), extra=()):
        key = (path, tuple(defs), tuple(extra))
        with self.bclock:
            ent = self.bc.get(key)
            if ent is None:
                ent = self.bc[key] = {'lock': threading.Lock(), 'out': None, 'err': None}
        with ent['lock']:
            if ent['err']:
                raise ToolError(ent['err'])
            if ent['out'] is None:
                out = '%s/%s_%s.bc' % (self.dir, re.sub(r'\W', '_', os.path.basename(path)), hashlib.md5(repr(key).encode()).hexdigest()[:10])
                isc = path.endswith('.c')
                cmd = (['clang'] if isc else ['clang++', '-std=c++20']) + base_flags() + ['-D' + d for d in defs] + list(extra) + [path, '-o', out]
                try:
                    must(cmd, 'compiling ' + path)
                except ToolError as e:
                    ent['err'] = str(e)
                    raise
                ent['out'] = out
            return ent['out']

    def build(self, u):
        src = lambda s: s if s.startswith('/') else SRC + '/' + s
        h = self.compile(VERIF + '/harness/' + u.harness, u.defs, u.hflags)
        real = [self.compile(src(s)) for s in u.srcs]
        mods = [self.compile(VERIF + '/models/' + m, u.defs if m.endswith('.inc.c') else ()) for m in u.models]
        nmods = [self.compile(VERIF + '/models/' + m) for m in u.native_models]
        b = self.dir + '/' + re.sub(r'\W', '_', u.name)
        for attempt in (0, 1):
            must([LLVM + 'llvm-link', h] + real + mods + ['-o', b + '.all.bc'], 'llvm-link ' + u.name)
            must([LLVM + 'opt', '-passes=internalize,globaldce,default<O2>', '-internalize-public-api-list=vp_harness', '-vectorize-loops=false',
                  '-vectorize-slp=false', '-inline-threshold=%d' % u.inline, b + '.all.bc', '-o', b + '.opt.bc'], 'opt ' + u.name)
            p = sh([VERIF + '/build/ir2c', b + '.opt.bc'])
            if p.returncode:
                raise ToolError('ir2c %s: %s' % (u.name, p.stderr[-2000:]))
            u.unresolved = re.findall(r'unresolved external (\S+)', p.stderr)
            miss = [x for x in u.unresolved if 't8' in x]
            if attempt or not miss:
                break
            # code moved: look for the missing functions in the rest of the library
            more = self.find_defs(miss, set(src(s) for s in u.srcs))
            if not more:
                break
            real += [self.compile(m) for m in more]
        open(b + '.c', 'w').write(p.stdout)
        ext = [g for g in re.findall(r'external global (\S+)', p.stderr) if g not in ALLOW_EXT]
        if ext:
            raise ToolError('%s: unmodelled external data %s' % (u.name, ext))
        u.recursive = re.findall(r'recursive (\S+)', p.stderr)
        u.cfile = b + '.c'
        # functions of /repo that the query encodes: subprograms with debug info from /repo in the reachable module
        must([LLVM + 'llvm-link', h] + real + nmods + ['-o', b + '.nat.bc'], 'llvm-link ' + u.name)
        must([LLVM + 'opt', '-passes=internalize,globaldce', '-internalize-public-api-list=vp_harness', b + '.nat.bc', '-o', b + '.nat2.bc'], 'opt ' + u.name)
        d = sh([LLVM + 'llvm-nm', '--defined-only', '-C', b + '.nat2.bc'])
        hn = set(l.split(None, 2)[-1] for l in sh([LLVM + 'llvm-nm', '--defined-only', '-C', h]).stdout.splitlines() if ' ' in l.strip())
        names = []
        for l in d.stdout.splitlines():
            f = l.split(None, 2)
            if len(f) == 3 and f[1] in 'tTW' and 't8' in f[2] and not f[2].startswith('vp_'):
                names.append(f[2])
        u.functions = sorted(set(names))
        u.exe = b + '.exe'
        must(['clang++', '-O1', '-w', b + '.nat2.bc', self.replay_rt(), '-o', u.exe, '-Wl,--unresolved-symbols=ignore-all', '-z', 'lazy',
              '-lp4est', '-lsc', '-lmpi', '-lm', '-lz'], 'native link ' + u.name)

    def find_defs(self, names, have):
        """source files of the library that define the named functions"""
        out = []
        ids = set()
        for n in names:
            d = sh(['c++filt', n]).stdout.strip().split('(')[0].split('::')[-1]
            ids.add(re.sub(r'<.*', '', d))
        rx = re.compile(r'\b(%s)\s*\(' % '|'.join(re.escape(i) for i in ids))
        for d, _, fs in os.walk(SRC):
            for f in sorted(fs):
                path = os.path.join(d, f)
                if f.endswith(('.c', '.cxx')) and path not in have and rx.search(open(path, errors='replace').read()):
                    try:
                        bc = self.compile(path)
                    except ToolError:
                        continue
                    nm = sh([LLVM + 'llvm-nm', '--defined-only', '-j', bc]).stdout.split()
                    if set(nm) & set(names):
                        out.append(path)
        return out

    def replay_rt(self):
        with self.bclock:
            ent = self.bc.setdefault('rt', {'lock': threading.Lock(), 'out': None})
        with ent['lock']:
            if ent['out'] is None:
                out = self.dir + '/replay_rt.o'
                must(['clang++', '-std=c++17', '-O1', '-w'] + (_mpi or []) + ['-c', VERIF + '/env/replay_rt.cpp', '-o', out], 'replay runtime')
                ent['out'] = out
            return ent['out']

    # ---- one query
    def query(self, u, case):
        unwind = unwind0 = u.unwind(case) if callable(u.unwind) else u.unwind
        rec = u.rec(case) if callable(u.rec) else u.rec
        mem = u.mem(case) if callable(u.mem) else u.mem
        while True:
            defs = ['-DVP_CASE%d=%d' % (i, v) for i, v in enumerate(case)]
            cmd = ['cbmc', '-I', VERIF + '/tool', u.cfile, '--no-standard-checks', '--no-malloc-may-fail', '--unwind', str(unwind), '--unwinding-assertions',
                   '--sat-solver', u.solver, '--trace', '--verbosity', '8', '--max-field-sensitivity-array-size', str(u.fsa)] + defs + u.cbmc
            us = ([u.unwindset] if u.unwindset else []) + (['%s:%d' % (f, rec) for f in u.recursive] if rec else [])
            if us:
                cmd += ['--unwindset', ','.join(us)]
            t = time.time()
            rc, of, _ = self.run_mem(cmd, u.timeout, mem)
            if rc in (-9, -6, 6) and mem < MEMTOTAL and not self.stop and time.time() < self.deadline:
                mem = min(MEMTOTAL, max(mem * 4, 13))  # out of memory: again, with less beside it
                continue
            dt = time.time() - t
            if rc is None or self.stop:
                return None
            r = {'unit': u.name, 'case': list(case), 'unwind': unwind, 'wall': dt, 'rc': rc, 'ok': [], 'fail': [], 'traces': {}, 'vars': 0, 'clauses': 0, 'steps': 0, 'solver': 0.0}
            self.parse(of, r)
            of.close()
            if rc == 'timeout':
                r['err'] = 'timeout after %.0fs' % dt
            elif rc not in (0, 10):
                r['err'] = 'cbmc exit %s' % rc
            uw = [x for x in r['fail'] if x['kind'] == 'unwind']
            real = [x for x in r['fail'] if x['kind'] in ('vp', 'abort')]
            if uw and not real and unwind < max(80, 4 * unwind0) and (not rec or rec < 64) and time.time() < self.deadline:
                if rec and all(x['id'].endswith('.recursion') for x in uw):
                    rec *= 2
                else:
                    unwind *= 2
                continue
            if uw and not real:
                r['err'] = 'unwinding bound %d too small' % unwind
            return r

    @staticmethod
    def parse(of, r):
        cur = None
        tail = []
        for line in of:
            m = re.match(r'\[(\S+)\] .*?(VP|VPWITNESS|VP_ABORT|VP_UNREACHABLE|VP_TRAP|VP_UB|VP_UNRESOLVED|unwinding assertion)( .*)?: (SUCCESS|FAILURE|UNKNOWN|ERROR)\s*$', line)
            if m:
                kind = {'VP': 'vp', 'VPWITNESS': 'witness', 'unwinding assertion': 'unwind', 'VP_UNRESOLVED': 'unresolved'}.get(m.group(2), 'abort')
                d = {'id': m.group(1), 'kind': kind, 'label': (m.group(2) if kind == 'abort' else '') + (m.group(3) or '')}
                if m.group(4) in ('UNKNOWN', 'ERROR'):
                    r['unk'] = r.get('unk', 0) + 1
                else:
                    r['ok' if m.group(4) == 'SUCCESS' else 'fail'].append(d)
                continue
            m = re.match(r'Trace for (\S+):', line)
            if m:
                cur = r['traces'].setdefault(m.group(1), [])
                continue
            if cur is not None:
                m = re.match(r'\s+VP_REC=(\d+)', line)
                if m:
                    cur.append(int(m.group(1)))
                    continue
                m = re.match(r'\s+VP_RECD=.*\(([01 ]+)\)', line)
                if m:
                    cur.append(int(m.group(1).replace(' ', ''), 2))
                continue
            m = re.match(r'(\d+) variables, (\d+) clauses', line)
            if m:
                r['vars'], r['clauses'] = max(r['vars'], int(m.group(1))), max(r['clauses'], int(m.group(2)))
            m = re.match(r'size of program expression: (\d+) steps', line)
            if m:
                r['steps'] = int(m.group(1))
            m = re.match(r'Runtime Solver: ([\d.e+-]+)s', line)
            if m:
                r['solver'] += float(m.group(1))
            tail.append(line)
            if len(tail) > 12:
                tail.pop(0)
        r['tail'] = ''.join(tail)[-800:]

    def replay(self, u, case, vals, path):
        with open(path, 'w') as f:
            for c in case:
                f.write('c %d\n' % c)
            for v in vals:
                f.write('v %d\n' % v)
        env = dict(os.environ, VP_REPLAY_MPI='1', OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1') if u.replay_mpi else {k: v for k, v in os.environ.items() if k != 'VP_REPLAY_MPI'}
        try:
            p = subprocess.run([u.exe, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60, env=env, errors='replace', cwd=self.dir)
        except subprocess.TimeoutExpired:
            return 'timeout', ''
        return p.returncode, p.stdout

    # ---- everything
    def go(self, units):
        build_tool()
        base_flags()
        pend = []
        with ThreadPoolExecutor(NCPU) as ex:
            blds = {ex.submit(self.build, u): u for u in units}
            q = {}
            for f in as_completed(blds):
                u = blds[f]
                try:
                    f.result()
                except Exception as e:
                    self.errors.append('%s: %s' % (u.name, e))
                    self.planned += len(u.cases)
                    continue
                self.planned += len(u.cases)
                for c in u.cases:
                    q[ex.submit(self.query, u, c)] = (u, c)
            for f in as_completed(q):
                u, c = q[f]
                try:
                    r = f.result()
                except Exception as e:
                    self.errors.append('%s %s: %r' % (u.name, c, e))
                    continue
                if r is None:
                    continue
                self.judge(u, c, r)
                if self.violations and not os.environ.get('VP_KEEP_GOING'):
                    self.kill_all()
                    for g in q:
                        g.cancel()

    def judge(self, u, c, r):
        self.results.append(r)
        if os.environ.get('VP_VERBOSE'):
            print('  %-40s case=%-12s %6.1fs solver=%.1f vars=%d ok=%d fail=%s %s' % (u.name, c, r['wall'], r['solver'], r['vars'], len(r['ok']),
                  [x['label'] for x in r['fail'] if x['kind'] != 'witness'], r.get('err', '')), flush=True)
        bad = [x for x in r['fail'] if x['kind'] in ('vp', 'abort')]
        unres = [x for x in r['fail'] if x['kind'] == 'unresolved']
        wits = [x for x in r['fail'] if x['kind'] == 'witness']
        nowit = [x for x in r['ok'] if x['kind'] == 'witness' and not x['label'].strip().startswith('opt:')]
        r['replayed'] = 0
        nerr = len(self.errors)
        rp = '%s/%s_%s' % (self.dir, re.sub(r'\W', '_', u.name), '_'.join(map(str, c)))
        for i, x in enumerate(bad):
            vals = r['traces'].get(x['id'])
            if vals is None:
                continue
            rc, out = self.replay(u, c, vals, rp + '.cex%d' % i)
            if rc == 10 or (isinstance(rc, int) and rc < 0) or (x['kind'] == 'abort' and rc not in (0, 77, 78)):
                r['replayed'] += 1
                self.violations.append({'unit': u.name, 'case': list(c), 'label': x['label'].strip(), 'values': vals, 'file': rp + '.cex%d' % i, 'exe': u.exe, 'out': out[-1500:], 'rc': rc, 'u': u})
            else:
                self.errors.append('%s %s: counterexample for "%s" does not reproduce natively (rc=%s): %s' % (u.name, c, x['label'].strip(), rc, out[-500:]))
        if bad and not any('values' in v for v in self.violations) and not self.errors:
            self.errors.append('%s %s: failing assertion without usable trace' % (u.name, c))
        if unres:
            self.errors.append('%s %s: reaches unmodelled external function: %s' % (u.name, c, [x['label'] for x in unres]))
        if 'err' in r and not bad:
            self.errors.append('%s %s: %s %s' % (u.name, c, r['err'], r['tail'] if r['rc'] != 'timeout' else ''))
        elif r.get('unk') and not bad:
            self.errors.append('%s %s: %d undecided assertions' % (u.name, c, r['unk']))
        elif not bad and u.vac and not wits:
            r['vacuous'] = True
        elif not bad and ((nowit and not any(x['label'].strip().startswith('opt:') for x in wits)) or not wits):
            self.errors.append('%s %s: vacuous: witness not reachable %s' % (u.name, c, [x['label'] for x in nowit]))
        elif not bad:
            for i, x in enumerate(wits):
                vals = r['traces'].get(x['id'], [])
                rc, out = self.replay(u, c, vals, rp + '.wit%d' % i)
                if rc == 0:
                    r['replayed'] += 1
                    r.setdefault('sample', {'unit': u.name, 'case': list(c), 'witness': x['label'].strip(), 'inputs': vals[:24]})
                else:
                    self.errors.append('%s %s: witness "%s" does not replay natively (rc=%s): %s' % (u.name, c, x['label'], rc, out[-400:]))
        if len(self.errors) > nerr:
            r['undecided'] = True


def main(prop, units, info, tier):
    """run a check, write evidence, print the verdict, return exit code"""
    budget = info.get('budget', {}).get(tier, 780 if tier == 'quick' else 6 * 3600)
    e = Engine(prop, tier, budget)
    try:
        e.go(units)
        for u in units:
            rs = [r for r in e.results if r['unit'] == u.name]
            if u.vac and rs and not e.violations and all(r.get('vacuous') for r in rs):
                e.errors.append('%s: every case is vacuous' % u.name)
        known = load_known(prop)
        new, old = [], []
        for v in e.violations:
            k = next((k for k in known if re.search(k['unit'], v['unit']) and re.search(k['label'], v['label'])), None)
            (old if k else new).append((v, k))
        write_evidence(e, prop, units, info, tier, len(new))
        seen = set()
        for v, k in old:
            if k['text'] not in seen:
                seen.add(k['text'])
                print('KNOWN-FINDING: property=%s %s' % (prop, k['text']))
        if new:
            rd = VERIF + '/build/replay/%s' % prop
            shutil.rmtree(rd, ignore_errors=True)
            os.makedirs(rd)
            for i, (v, _) in enumerate(new[:4]):
                shutil.copy(v['file'], rd + '/cex%d.txt' % i)
                shutil.copy(v['exe'], rd + '/cex%d.exe' % i)
                with open(rd + '/cex%d.sh' % i, 'w') as f:
                    f.write('#!/bin/sh\n# %s %s: %s\n%sexec "$(dirname "$0")/cex%d.exe" "$(dirname "$0")/cex%d.txt"\n' % (v['unit'], v['case'], v['label'], 'VP_REPLAY_MPI=1 ' if v['u'].replay_mpi else '', i, i))
                os.chmod(rd + '/cex%d.sh' % i, 0o755)
                print('counterexample %d: unit=%s case=%s assertion="%s" inputs=%s\n  native replay: rc=%s %s' % (i, v['unit'], v['case'], v['label'], v['values'][:32], v['rc'], v['out'].strip().replace('\n', ' | ')[-300:]))
            print('VIOLATION property=%s replay=%s' % (prop, rd + '/cex0.sh'))
            return 1
        if e.errors:
            # a query without a verdict is not part of what was explored: say so; without most of them there is no answer
            dec = len([r for r in e.results if 'err' not in r and not r.get('undecided')])
            for x in e.errors[:12]:
                print('UNDECIDED: ' + ''.join(ch for ch in x[:600] if ch.isprintable()))
            if dec * 2 < e.planned or os.environ.get('VP_STRICT'):
                print('CHECK-ERROR: %d of %d queries decided' % (dec, e.planned))
                return 2
            print('%d of %d queries decided; the property held on those' % (dec, e.planned))
        n = sum(len([a for a in r['ok'] if a['kind'] != 'unwind']) for r in e.results)
        print('OK property=%s queries=%d assertions=%d solver=%.1fs wall=%.1fs' % (prop, len(e.results), n, sum(r['solver'] for r in e.results), time.time() - e.t0))
        return 0
    finally:
        e.kill_all()
        if os.environ.get('VP_KEEP'):
            print('scratch: ' + e.dir)
        else:
            shutil.rmtree(e.dir, ignore_errors=True)


def load_known(prop):
    p = VERIF + '/known_findings.json'
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get('findings', []) if k['property'] == prop and k.get('status') == 'known']


def write_evidence(e, prop, units, info, tier, nviol):
    rs = e.results
    fn = sorted(set(f for u in units for f in u.functions))
    bounds = [{'unit': u.name, 'cases': [list(c) for c in u.cases][:60], 'unwind': u.unwind if not callable(u.unwind) else 'per case', 'note': u.note} for u in units]
    oks = sum(len([a for a in r['ok'] if a['kind'] in ('vp', 'abort')]) for r in rs)
    allv = oks + sum(len([a for a in r['fail'] if a['kind'] in ('vp', 'abort')]) for r in rs)
    cov = {
        'explanation': 'Bounded symbolic model checking: real sources -> LLVM IR -> C -> CBMC/SAT. states = propositional variables over all queries (symbolic state bits), '
                       'transitions = SSA steps executed symbolically; every query covers all values of its symbolic inputs within the stated bounds.',
        'states': sum(r['vars'] for r in rs), 'transitions': sum(r['steps'] for r in rs),
        'traces_validated_against_impl': sum(r.get('replayed', 0) for r in rs),
        'queries': len(rs), 'queries_planned': e.planned, 'queries_with_verdict': len([r for r in rs if 'err' not in r and not r.get('undecided')]),
        'assertions_checked': allv, 'assertions_discharged': oks,
        'unwinding_assertions_discharged': sum(len([a for a in r['ok'] if a['kind'] == 'unwind']) for r in rs),
        'solver_time_s': round(sum(r['solver'] for r in rs), 2), 'clauses': sum(r['clauses'] for r in rs),
        'functions_encoded': fn, 'functions_encoded_count': len(fn), 'bounds': bounds,
        'outside_bounds': info.get('outside', ''),
        'samples': [r['sample'] for r in rs if 'sample' in r][:8] or [{'note': 'no witness sample (run ended early)'}],
        'errors': e.errors[:10],
    }
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking', 'coverage': cov,
          'assumptions': info.get('assumptions', []), 'wall_s': round(time.time() - e.t0, 2), 'violations': nviol}
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    tmp = VERIF + '/evidence/.%s.%d' % (prop, os.getpid())
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.replace(tmp, VERIF + '/evidence/%s.json' % prop)
