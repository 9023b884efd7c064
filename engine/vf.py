#!/usr/bin/env python3
"""Contract checker driver: /repo sources -> clang IR -> ir2c -> CBMC.

usage: vf.py check <PROPERTY>     (exit 0 / 1 / 2, see DESIGN.md)
       vf.py run <file.cc> <harness> [...]   (developer mode)
       vf.py setup
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
ENGINE = os.path.join(VERIF, 'engine')
MODEL = os.path.join(VERIF, 'model')
HARN = os.path.join(VERIF, 'harness')
LLVM = '/usr/lib/llvm-18/bin'
BUILD = os.path.join(VERIF, 'build')
CXXFLAGS = ('-std=c++20 -O1 -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -fno-exceptions '
            '-fno-threadsafe-statics -gline-tables-only -D_GLIBCXX_EXTERN_TEMPLATE=0 '
            '-fsanitize=signed-integer-overflow,shift,float-cast-overflow,unreachable,return,bool '
            '-fsanitize-trap=all -Wno-everything -DVF_CBMC').split()
PASSES = ('internalize,globaldce,cgscc(inline),function(sroa,early-cse<memssa>,simplifycfg,instcombine<no-verify-fixpoint>),'
          'cgscc(inline),function(sroa,early-cse<memssa>,jump-threading,correlated-propagation,simplifycfg,instcombine<no-verify-fixpoint>,gvn,dse,adce,simplifycfg,instcombine<no-verify-fixpoint>),globaldce')
CBMC_FLAGS = '--no-standard-checks --pointer-check --unwinding-assertions --drop-unused-functions --slice-formula --object-bits 12 '.split()
T0 = time.time()


def log(*a):
    print(f'[{time.time() - T0:7.1f}s]', *a, flush=True)


class EngineError(Exception):
    pass


def run(cmd, timeout=None, mem_gb=None, **kw):
    def lim():
        os.setsid()
        if mem_gb:
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * 2**30),) * 2)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=lim, **kw)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, err = p.communicate()
        return None, out, err
    return p.returncode, out, err


_ir2c_lock = threading.Lock()


def ir2c_path():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(ENGINE, 'ir2c.cc')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    exe = os.path.join(BUILD, 'ir2c-' + h)
    with _ir2c_lock:
        if not os.path.exists(exe):
            flags = subprocess.check_output([LLVM + '/llvm-config', '--cxxflags'], text=True).split()
            flags = [f for f in flags if not f.startswith('-std=') and f != '-fno-exceptions']
            ld = subprocess.check_output([LLVM + '/llvm-config', '--ldflags'], text=True).split()
            tmp = exe + '.tmp%d' % os.getpid()
            subprocess.check_call(['g++', '-std=c++17', '-O1', '-o', tmp, src] + flags + ld + ['-lLLVM-18'])
            os.rename(tmp, exe)
    return exe


# ----------------------------------------------------------------- harnesses
class Harness:
    def __init__(self, path, name, attrs, sources, defs, overrides, gens):
        self.gens = gens
        self.path, self.name, self.attrs, self.sources, self.defs = path, name, attrs, sources, defs
        self.overrides = overrides

    @property
    def splits(self):
        if 'split' not in self.attrs:
            return [None]
        lo, hi = self.attrs['split'].split()[:2]
        return list(range(int(lo), int(hi) + 1))

    @property
    def props(self):
        return self.attrs.get('prop', '').split()


def parse_harness_file(path):
    txt = open(path).read()
    srcs, defs, ovr = [], [], []
    for m in re.finditer(r'^// VF-SOURCES:(.*)$', txt, re.M):
        srcs += m.group(1).split()
    for m in re.finditer(r'^// VF-DEFS:(.*)$', txt, re.M):
        defs += m.group(1).replace('@VERIF@', VERIF).split()
    for m in re.finditer(r'^// VF-OVERRIDE:(.*)$', txt, re.M):
        ovr += m.group(1).split()
    base = {}
    for m in re.finditer(r'^// VF-ATTR:[ \t]*(\w+)[ \t]*(.*)$', txt, re.M):
        base[m.group(1)] = m.group(2).strip()
    gens = [m.group(1).split() for m in re.finditer(r'^// VF-GEN:(.*)$', txt, re.M)]
    res = []
    for m in re.finditer(r'((?:^//.*\n)*)^VF_HARNESS\((\w+)\)', txt, re.M):
        attrs = dict(base)
        for a in re.finditer(r'^// @(\w+)[ \t]*(.*)$', m.group(1), re.M):
            attrs[a.group(1)] = (attrs.get(a.group(1), '') + ' ' + a.group(2)).strip() if a.group(1) != 'fs' else a.group(2).strip()
        res.append(Harness(path, m.group(2), attrs, srcs, defs, ovr, gens))
    return res


def all_harnesses():
    r = []
    for f in sorted(os.listdir(HARN)):
        if f.endswith('.cc'):
            r += parse_harness_file(os.path.join(HARN, f))
    return r


# ------------------------------------------------------------------- pipeline
class Workspace:
    def __init__(self):
        base = os.environ.get('VF_TMP', '/tmp')
        self.dir = tempfile.mkdtemp(prefix='vf.', dir=base)
        self.lock = threading.Lock()
        self.bc = {}

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def generate(self, gen):
        """VF-GEN: out.inc generator.cc sources...: the output of a program built from /repo's sources."""
        out = os.path.join(self.dir, gen[0])
        with self.lock:
            if os.path.exists(out):
                return
            exe = out + '.exe'
            srcs = [os.path.join(VERIF if x.startswith('model/') else REPO, x) for x in gen[1:]]
            rc, o, e = run(['clang++-18', '-std=c++20', '-O0', '-w', '-DVF_NATIVE', '-I' + MODEL, '-I' + REPO] + srcs + ['-o', exe], timeout=300)
            if rc != 0:
                raise EngineError('generator: ' + e.decode()[:2000])
            rc, o, e = run([exe], timeout=60)
            if rc != 0:
                raise EngineError('generator run: ' + e.decode()[:2000])
            open(out, 'wb').write(o)

    def compile_bc(self, src, defs, pic):
        key = (src, tuple(defs), pic)
        with self.lock:
            fut = self.bc.get(key)
            if fut is None:
                fut = self.bc[key] = cf.Future()
                mine = True
            else:
                mine = False
        if mine:
            out = os.path.join(self.dir, hashlib.sha256(repr(key).encode()).hexdigest()[:16] + '.bc')
            cmd = ['clang++-18'] + CXXFLAGS + (['-fPIC', '-fsemantic-interposition'] if pic else []) + defs + ['-I' + self.dir, '-I' + MODEL, '-I' + HARN, '-I' + REPO, '-emit-llvm', '-c', src, '-o', out]
            rc, o, e = run(cmd, timeout=300)
            if rc != 0:
                fut.set_exception(EngineError(f'compile failed: {src}\n{e.decode()[:3000]}'))
            else:
                fut.set_result(out)
        return fut.result()

    def to_c(self, h, split=None):
        def src(x):
            return x if x.startswith('/') else os.path.join(VERIF if x.startswith('model/') else REPO, x)
        for g in h.gens:
            self.generate(g)
        srcs = [h.path] + [src(x) for x in h.sources]
        with cf.ThreadPoolExecutor(8) as ex:
            bcs = list(ex.map(lambda x: self.compile_bc(x, h.defs, bool(h.overrides)), srcs))
            obcs = list(ex.map(lambda x: self.compile_bc(src(x), h.defs, True), h.overrides))
        b = os.path.join(self.dir, h.name + ('' if split is None else '.%d' % split))
        if split is not None:
            with open(b + '.split.ll', 'w') as f:
                f.write('define i32 @vf_split() { ret i32 %d }\n' % split)
            bcs.append(b + '.split.ll')
        rc, o, e = run([LLVM + '/llvm-link'] + bcs + ['--override=' + x for x in obcs] + ['-o', b + '.all.bc'])
        if rc != 0:
            raise EngineError('llvm-link: ' + e.decode()[:2000])
        force = []
        if 'outline' in h.attrs:  # keep these functions out of line: smaller functions for the verifier
            rc, o, e = run([LLVM + '/llvm-nm', '--defined-only', b + '.all.bc'])
            names = [l.split()[-1] for l in o.decode().splitlines()]
            force = ['-force-attribute=%s:noinline' % n for n in names if re.search(h.attrs['outline'], n) and n != h.name]
        rc, o, e = run([LLVM + '/opt', '-passes=' + ('forceattrs,' if force else '') + PASSES] + force + ['-internalize-public-api-list=' + h.name,
                        '--inline-threshold=' + h.attrs.get('inline', '2000'), b + '.all.bc', '-o', b + '.bc'], timeout=300)
        if rc != 0:
            raise EngineError('opt: ' + e.decode()[:2000])
        if os.environ.get('VF_KEEP'):
            run([LLVM + '/llvm-dis', b + '.bc', '-o', b + '.ll'])
        rc, o, e = run([ir2c_path(), b + '.bc', h.name, b + '.c'], timeout=120)
        if rc != 0:
            raise EngineError('ir2c: ' + e.decode()[:2000])
        funcs = [l[5:] for l in o.decode().splitlines() if l.startswith('FUNC ')]
        externs = [l[7:] for l in o.decode().splitlines() if l.startswith('EXTERN ')]
        return b + '.c', funcs, externs


class MemGate:
    """Admits verifier runs while their memory limits fit the machine."""

    def __init__(self, total):
        self.free, self.cv = total, threading.Condition()

    def acquire(self, n):
        with self.cv:
            self.cv.wait_for(lambda: self.free >= n)
            self.free -= n

    def release(self, n):
        with self.cv:
            self.free += n
            self.cv.notify_all()


GATE = MemGate(27)
HINTS_FILE = os.path.join(ENGINE, 'hints.json')
HINTS = json.load(open(HINTS_FILE)) if os.path.exists(HINTS_FILE) else {}


def cbmc(cfile, extra, timeout, mem_gb=12, slice_=True):
    cmd = ['cbmc', '-I', ENGINE, cfile, '--function', 'vf_main'] + [f for f in CBMC_FLAGS if slice_ or f != '--slice-formula'] + extra + ['--json-ui', '--verbosity', '4']
    t = time.time()
    rc, o, e = run(cmd, timeout=timeout, mem_gb=mem_gb)
    dt = time.time() - t
    if rc is None:
        return None, None, dt, 'timeout'
    try:
        j = json.loads(o)
    except Exception:
        return None, None, dt, 'unparsable cbmc output rc=%s: %s %s' % (rc, o[-500:], e[-500:])
    res = None
    msgs = []
    for x in j:
        if 'result' in x:
            res = x['result']
        if x.get('messageType') == 'ERROR':
            msgs.append(x.get('messageText', ''))
    if res is None:
        return None, None, dt, 'cbmc error rc=%s: %s %s' % (rc, ' '.join(msgs)[:1500], e[-300:])
    return res, cmd, dt, ''


def prove1(ws, h, split, deadline, verbose=False):
    """One verifier instance: dict(status= proved|failed|undecided, ...)."""
    r = dict(harness=h.name, file=os.path.basename(h.path), status='undecided', obligations=0, discharged=0,
             covers=0, covers_hit=0, solver_s=0.0, reason='', failed=[], split=split, functions=[], externs=[], unwind={},
             bound=h.attrs.get('bound', ''))
    try:
        cfile, r['functions'], r['externs'] = ws.to_c(h, split)
    except EngineError as e:
        r['reason'] = str(e)
        return r
    unwind = int(h.attrs.get('unwind', '3'))
    maxunwind = int(h.attrs.get('maxunwind', '300'))
    hkey = h.name if split is None else '%s.%d' % (h.name, split)
    uset = dict(HINTS.get(hkey, {}))
    mem = float(h.attrs.get('mem', '3.3'))
    extra = ['--max-field-sensitivity-array-size', h.attrs.get('fs', '600')] + h.attrs.get('cbmc', '').split()
    while True:
        left = deadline - time.time()
        if left < 3:
            r['reason'] = 'time budget exhausted'
            return r
        ex = ['--unwind', str(unwind)] + extra
        if uset:
            ex += ['--unwindset', ','.join(f'{k}:{v}' for k, v in uset.items())]
        GATE.acquire(mem)
        try:
            left = deadline - time.time()
            if left < 3:
                r['reason'] = 'time budget exhausted'
                return r
            res, cmd, dt, err = cbmc(cfile, ex, min(left, float(h.attrs.get('timeout', '1e9'))), mem * 1.3)
        finally:
            GATE.release(mem)
        r['solver_s'] += dt
        if res is None:
            r['reason'] = err
            return r
        grow = []
        for p in res:
            m = re.match(r'(.*)\.unwind\.(\d+)$', p['property'])
            if m and p['status'] == 'FAILURE':
                loop = re.search(r'loop (\d+)$', p['description'])
                grow.append(m.group(1) + '.' + (loop.group(1) if loop else m.group(2)))
            if '.recursion' in p['property'] and p['status'] == 'FAILURE':
                r['reason'] = 'recursion bound'
        if verbose:
            log(hkey, 'cbmc %.1fs' % dt, 'unwind-grow', grow)
        if not grow:
            break
        for g in grow:
            cur = uset.get(g, unwind)
            uset[g] = min(maxunwind, cur + max(3, cur)) if cur < maxunwind else cur + 1
            if cur >= maxunwind:
                r['reason'] = 'loop %s not bounded within %d iterations' % (g, maxunwind)
                r['unwind'] = uset
                return r
    unk = [p['property'] for p in res if p['status'] not in ('SUCCESS', 'FAILURE')]
    r['unwind'] = uset
    r['hkey'] = hkey
    if unk:
        r['reason'] = 'solver gave no answer on %d obligations' % len(unk)
        return r
    r['cmd'] = ' '.join(cmd).replace(ws.dir, '$WS')
    r['extra'] = ex
    r['cfile'] = cfile
    for p in res:
        d = p['description']
        if d.startswith('COVER:'):
            r['covers'] += 1
            if p['status'] == 'FAILURE':
                r['covers_hit'] += 1
            else:
                r['failed'].append(dict(kind='vacuous', name=d, prop=p['property']))
            continue
        r['obligations'] += 1
        if p['status'] == 'SUCCESS':
            r['discharged'] += 1
        else:
            loc = p.get('sourceLocation', {})
            r['failed'].append(dict(kind='obligation', name=d, prop=p['property'],
                                    where='%s:%s' % (loc.get('file', '?'), loc.get('line', '?'))))
    real = [f for f in r['failed'] if f['kind'] == 'obligation']
    if real:
        r['status'] = 'failed'
    elif r['covers_hit'] < r['covers'] and not h.attrs.get('allowvacuous'):
        r['status'] = 'failed'
    elif r['covers'] == 0 or r['obligations'] == 0:
        r['reason'] = 'vacuity guard: no covers or obligations'
    else:
        r['status'] = 'proved'
    return r


def prove(ws, h, deadline, verbose=False):
    """All case-split instances of a harness, merged."""
    sp = h.splits
    if len(sp) == 1:
        return prove1(ws, h, sp[0], deadline, verbose)
    with cf.ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(lambda k: prove1(ws, h, k, deadline, verbose), sp))
    m = dict(rs[0])
    for k in ('obligations', 'discharged', 'covers', 'covers_hit', 'solver_s'):
        m[k] = sum(r[k] for r in rs)
    m['unwind'] = {}
    m['failed'] = [dict(f, split=r['split']) for r in rs for f in r['failed'] if f['kind'] == 'obligation']
    # a cover has to be reachable in at least one case of the split
    vac = [{f['name'] for f in r['failed'] if f['kind'] == 'vacuous'} for r in rs]
    vacuous = set.intersection(*vac) if vac else set()
    m['parts'] = rs
    m['functions'] = sorted({f for r in rs for f in r['functions']})
    m['externs'] = sorted({f for r in rs for f in r['externs']})
    if any(f['kind'] == 'obligation' for f in m['failed']):
        m['status'] = 'failed'
    elif any(r['status'] == 'undecided' and not r['reason'].startswith('vacuity guard') for r in rs):
        m['status'] = 'undecided'
        m['reason'] = '; '.join(sorted({'split %s: %s' % (r['split'], r['reason'][:200]) for r in rs if r['status'] == 'undecided'}))
    elif vacuous:
        m['status'] = 'failed'
        m['failed'] += [dict(kind='vacuous', name=n, prop='') for n in sorted(vacuous)]
    else:
        m['status'], m['reason'] = 'proved', ''
    return m


def counterexample(ws, h, r, f, timeout):
    """Draw list of the CBMC trace violating obligation f, or None."""
    left = max(5, timeout)
    if 'parts' in r:
        r = next(x for x in r['parts'] if x['split'] == f.get('split'))
    # unsliced, so that every draw is in the trace
    res, cmd, dt, err = cbmc(r['cfile'], r['extra'] + ['--property', f['prop'], '--trace'], left, slice_=False)
    if res is None:
        return None, err
    for p in res:
        if p['property'] == f['prop'] and 'trace' in p:
            draws = []
            for s in p['trace']:
                if s.get('stepType') == 'assignment' and s.get('lhs') == 'vf_choice' and not s.get('hidden', False):
                    b = s['value'].get('binary')
                    draws.append(int(b, 2) if b else int(re.sub(r'[a-zA-Z]+$', '', s['value']['data'])))
                elif s.get('stepType') == 'assignment' and s.get('lhs') == 'vf_choice':
                    b = s['value'].get('binary')
                    draws.append(int(b, 2))
            # first assignment is the static initialiser
            return draws, p['trace']
    return None, 'no trace'


# --------------------------------------------------------------------- native
def native_build(ws, path):
    hs = parse_harness_file(path)
    srcs = sorted({s for h in hs for s in h.sources})
    out = os.path.join(ws.dir, 'native-' + os.path.basename(path)[:-3])
    objs = []
    for h in hs:
        for g in h.gens:
            ws.generate(g)
    flags = ['-I' + ws.dir, '-std=c++20', '-O1', '-fPIC', '-fsemantic-interposition', '-g', '-DVF_NATIVE', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
             '-fno-sanitize=vptr,alignment,null', '-I' + MODEL, '-I' + HARN, '-I' + REPO] + (hs[0].defs if hs else [])
    reg = os.path.join(ws.dir, os.path.basename(path)[:-3] + '.reg.cc')
    with open(reg, 'w') as f:
        f.write('extern "C" {\n' + ''.join(f'void {h.name}();\n' for h in hs) + '}\n')
        f.write('struct VfReg { const char* n; void (*f)(); };\nextern const VfReg vf_registry[];\nconst VfReg vf_registry[] = {' +
                ''.join('{"%s", %s},' % (h.name, h.name) for h in hs) + '{0, 0}};\n')
    jobs = []
    ovr = sorted({os.path.join(VERIF, x) for h in hs for x in h.overrides})
    for s in [path, os.path.join(ENGINE, 'native.cc'), reg] + ovr + [os.path.join(VERIF if x.startswith('model/') else REPO, x) for x in srcs]:
        o = os.path.join(ws.dir, hashlib.sha256((s + out).encode()).hexdigest()[:16] + '.o')
        objs.append(o)
        jobs.append(['clang++-18'] + flags + ['-c', s, '-o', o])
    with cf.ThreadPoolExecutor(8) as ex:
        for (rc, o, e), c in zip(ex.map(lambda c: run(c, timeout=400), jobs), jobs):
            if rc != 0:
                raise EngineError('native compile: %s\n%s' % (c[-3], e.decode()[:2000]))
    rc, o, e = run(['clang++-18', '-fsanitize=address,undefined', '-Wl,--allow-multiple-definition', '-o', out] + objs)
    if rc != 0:
        raise EngineError('native link: ' + e.decode()[:2000])
    return out


def native_run(exe, args, timeout, cwd):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4000', UBSAN_OPTIONS='print_stacktrace=0')
    return run([exe] + args, timeout=timeout, env=env, cwd=cwd)


# ---------------------------------------------------------------------- check
def load_known(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k['property'] == prop and k.get('status') == 'known']


def check(prop):
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    hs = [h for h in all_harnesses() if prop in h.props]
    if tier == 'quick':
        hs = [h for h in hs if h.attrs.get('tier', 'quick') != 'thorough']
    if not hs:
        print('no harness for', prop)
        return 2
    ir2c_path()
    budget = float(os.environ.get('VF_BUDGET', '600' if tier == 'quick' else '3000'))
    deadline = T0 + budget
    ws = Workspace()
    results = []
    try:
        # longest first
        hs.sort(key=lambda h: -float(h.attrs.get('cost', '1')))
        with cf.ThreadPoolExecutor(int(os.environ.get('VF_JOBS', '8'))) as ex:
            for r in ex.map(lambda h: prove(ws, h, deadline), hs):
                results.append(r)
                log('%-10s %-40s obligations %d/%d covers %d/%d solver %.1fs %s' % (
                    r['status'], r['harness'], r['discharged'], r['obligations'], r['covers_hit'], r['covers'], r['solver_s'],
                    r['reason'][:300].replace('\n', ' ')))
        return conclude(ws, prop, tier, seed, hs, results)
    finally:
        if os.environ.get('VF_KEEP'):
            log('workspace', ws.dir)
        else:
            ws.close()


def conclude(ws, prop, tier, seed, hs, results):
    byname = {h.name: h for h in hs}
    violations = []
    standins = []
    native = {}

    def get_native(path):
        if path not in native:
            try:
                native[path] = native_build(ws, path)
            except EngineError as e:
                native[path] = None
                log('native build failed:', str(e)[:1500])
        return native[path]

    outdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(outdir, exist_ok=True)
    for r in results:
        h = byname[r['harness']]
        if r['status'] == 'proved':
            continue
        exe = get_native(h.path) if 'nonative' not in h.attrs else None
        if r['status'] == 'failed':
            real = [f for f in r['failed'] if f['kind'] == 'obligation']
            info = dict(property=prop, harness=h.name, harness_file=os.path.relpath(h.path, VERIF), failed=r['failed'],
                        confirmed=False, draws=None, native_output='', how_to_replay='python3 engine/vf.py replay <this file>')
            for f in real[:4]:
                draws, tr = counterexample(ws, h, r, f, 120)
                if draws is None:
                    info.setdefault('verifier_output', '')
                    info['verifier_output'] += str(tr)[:2000]
                    continue
                info.setdefault('cbmc_counterexample', {})[f['name']] = draws
                if exe:
                    rc, out = replay_draws(exe, h.name, draws, ws)
                    if rc == 1:
                        info.update(confirmed=True, draws=draws, native_output=out, obligation=f['name'])
                        break
            if not info['confirmed'] and exe:
                rc, out, draws = random_search(exe, h.name, seed, 40, ws)
                if rc == 1:
                    info.update(confirmed=True, draws=draws, native_output=out, obligation='found by native search of the same contract')
            violations.append(info)
        else:
            # undecided: bounded stand-in, never counted as proved
            st = dict(harness=h.name, reason=r['reason'][:600])
            if exe:
                rc, out, draws = random_search(exe, h.name, seed, 30, ws)
                st['native_random'] = out[-300:]
                if rc == 1:
                    violations.append(dict(property=prop, harness=h.name, harness_file=os.path.relpath(h.path, VERIF), failed=[],
                                           confirmed=True, draws=draws, native_output=out, obligation='native contract run',
                                           how_to_replay='python3 engine/vf.py replay <this file>'))
                st['standin'] = 'bounded random execution of the contract on the real code (30 s)'
            else:
                st['standin'] = 'none'
            standins.append(st)
    write_evidence(prop, tier, seed, hs, results, standins, violations)
    known = load_known(prop)
    code = 0
    for k in known:
        pass
    shown = set()
    for v in violations:
        m = None
        for k in known:
            if k['harness'] == v['harness'] and all(any(kf in f['name'] for kf in k['obligations']) for f in v['failed'] if f['kind'] == 'obligation') and v['failed']:
                m = k
        if m:
            if id(m) not in shown:
                print('KNOWN-FINDING: property=%s %s' % (prop, m['what']))
                shown.add(id(m))
            continue
        path = os.path.join(outdir, '%s-%s.json' % (prop, v['harness']))
        json.dump(v, open(path, 'w'), indent=1, default=str)
        log('FAILED', v['harness'], [f['name'] + ' @ ' + f.get('where', '') for f in v['failed']][:6], (v.get('native_output') or '')[:600])
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if v['confirmed'] else ' no-failing-input-found'), flush=True)
        code = 1
    return code


def replay_draws(exe, name, draws, ws):
    p = os.path.join(ws.dir, name + '.draws')
    best = (0, '')
    for d in (draws, draws[1:]):
        open(p, 'w').write('\n'.join(str(x) for x in d) + '\n')
        rc, o, e = native_run(exe, ['replay', name, p], 60, ws.dir)
        txt = (o + e).decode(errors='replace')
        if rc not in (0, 77, None):
            draws[:] = d
            return 1, txt[-3000:]
        if rc is None:
            best = (2, 'timeout')
    return best


def random_search(exe, name, seed, secs, ws):
    dump = os.path.join(ws.dir, name + '.rnd')
    rc, o, e = native_run(exe, ['random', name, str(seed), str(secs), dump], secs + 60, ws.dir)
    txt = (o + e).decode(errors='replace')
    if rc in (0, 77):
        return 0, txt[-500:], None
    if rc is None:
        return 2, 'timeout ' + txt[-500:], None
    draws = []
    if os.path.exists(dump):
        draws = [int(x) for x in open(dump).read().split()]
    # confirm
    p = os.path.join(ws.dir, name + '.draws')
    open(p, 'w').write('\n'.join(str(x) for x in draws) + '\n')
    rc2, o2, e2 = native_run(exe, ['replay', name, p], 60, ws.dir)
    if rc2 in (0, 77, None):
        return 2, 'not reproducible: ' + txt[-800:], None
    return 1, (o2 + e2).decode(errors='replace')[-3000:], draws


def write_evidence(prop, tier, seed, hs, results, standins, violations):
    complete = [r for r in results if not r['bound']]
    bounded = [r for r in results if r['bound']]
    ob = sum(r['obligations'] for r in complete)
    di = sum(r['discharged'] for r in complete)
    level = manifest_level(prop)
    assumptions = set()
    for r in results:
        for x in r['externs']:
            assumptions.add(('uninterpreted ' if x.startswith('math:') else 'external, unconstrained result: ') + x)
    fns = sorted({f for r in results for f in r['functions'] if not re.match(r'^(h_|vf_|std::|absl::|void std::|.*\bstd::_)', f)})
    cov = dict(
        obligations=ob, discharged=di,
        checker_cmd='python3 engine/vf.py check %s  (clang++-18 -emit-llvm | opt | ir2c | cbmc 6.11 SAT back end; see engine/vf.py)' % prop,
        trusted_base=['clang 18 front end and IR passes', 'engine/ir2c.cc (IR to C translation)', 'CBMC 6.11.0 + MiniSat',
                      'libstdc++ (compiled, not assumed)', 'model/absl headers (stand-ins for Abseil)', 'allocation never fails'],
        back_end='cbmc 6.11.0 (bit-precise SAT)',
        contracts=[dict(harness=r['harness'], status=r['status'], bound=r['bound'] or 'none (all inputs)', obligations=r['obligations'],
                        discharged=r['discharged'], covers='%d/%d' % (r['covers_hit'], r['covers']), solver_s=round(r['solver_s'], 2),
                        unwind=r['unwind'], undecided_reason=r['reason'][:400],
                        requires_ensures=next((h.attrs.get('desc', '') for h in hs if h.name == r['harness']), ''))
                   for r in results],
        bounded_contracts=dict(count=len(bounded), obligations=sum(r['obligations'] for r in bounded),
                               discharged=sum(r['discharged'] for r in bounded),
                               note='obligations of contracts checked under a stated input-size bound; not counted as proved'),
        undecided=standins, functions_under_contract=fns, assumptions=sorted(assumptions),
        solver_time_s=round(sum(r['solver_s'] for r in results), 2), violations=len(violations))
    if level == 'other':
        cov['explanation'] = ('Bounded contract checking: every input within the stated size bounds is covered symbolically by CBMC on the real code; '
                              'scalars are unrestricted, container/string lengths are limited as listed per contract.')
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time() - T0, 1))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)


def manifest_level(prop):
    try:
        m = json.load(open(os.path.join(VERIF, 'MANIFEST.json')))
        for c in m['checks']:
            if c['property'] == prop:
                return c['level']
    except Exception:
        pass
    return 'proof'


def replay_cmd(path):
    v = json.load(open(path))
    ws = Workspace()
    try:
        exe = native_build(ws, os.path.join(VERIF, v['harness_file']))
        if not v.get('draws'):
            print('no confirmed failing input; failed obligations:', json.dumps(v['failed'], indent=1))
            return 1
        rc, out = replay_draws(exe, v['harness'], v['draws'], ws)
        print(out)
        return rc
    finally:
        ws.close()


def dev(path, names):
    ws = Workspace()
    try:
        if not os.path.exists(path):
            path = os.path.join(HARN, path)
        hs = [h for h in parse_harness_file(path) if not names or h.name in names]
        dl = time.time() + float(os.environ.get('VF_BUDGET', '600'))
        with cf.ThreadPoolExecutor(int(os.environ.get('VF_JOBS', '8'))) as ex:
            futs = {ex.submit(prove, ws, h, dl, bool(os.environ.get('VF_V'))): h for h in hs}
            for f in cf.as_completed(futs):
                r = f.result()
                log('%-10s %-36s ob %d/%d cov %d/%d solver %.1fs unw %s %s' % (r['status'], r['harness'], r['discharged'], r['obligations'],
                    r['covers_hit'], r['covers'], r['solver_s'], r['unwind'], r['reason'][:1500]))
                for x in r['failed'][:12]:
                    log('    FAILED', x['name'], x.get('where', ''), 'split %s' % x.get('split'), x.get('prop'))
                if os.environ.get('VF_HINTS'):
                    for q in r.get('parts', [r]):
                        if q.get('hkey') and q['status'] == 'proved':
                            HINTS[q['hkey']] = q['unwind']
                    json.dump(HINTS, open(HINTS_FILE, 'w'), indent=0, sort_keys=True)
                ext = [e for e in r['externs']]
                if ext:
                    log('    externs:', ext)
                if r['status'] == 'failed' and os.environ.get('VF_CEX'):
                    h = futs[f]
                    for x in [x for x in r['failed'] if x['kind'] == 'obligation'][:1]:
                        d, tr = counterexample(ws, h, r, x, 200)
                        log('    draws', d)
                        if d:
                            exe = native_build(ws, h.path)
                            log('    replay', replay_draws(exe, h.name, d, ws))
        if os.environ.get('VF_NATIVE_SECS'):
            exe = native_build(ws, path)
            for h in hs:
                log('native', h.name, random_search(exe, h.name, 1, int(os.environ['VF_NATIVE_SECS']), ws))
    finally:
        if os.environ.get('VF_KEEP'):
            log('workspace', ws.dir)
        else:
            ws.close()


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'setup':
        print(ir2c_path())
    elif a[0] == 'check':
        sys.exit(check(a[1]))
    elif a[0] == 'replay':
        sys.exit(replay_cmd(a[1]))
    elif a[0] == 'run':
        dev(a[1], a[2:])
