"""av: contract-based deductive verification of /repo.

usage: python3-vt run.py <PROPERTY> [--tier quick|thorough] [--only SUBSTR] [-v]
"""
import argparse
import collections
import glob
import hashlib
import json
import multiprocessing as mp
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('AV_REPO', '/repo')
sys.path.insert(0, HERE)

CLANG = shutil.which('clang++-18') or shutil.which('clang++')
OPT = shutil.which('opt-18') or shutil.which('opt')
INCS = ['-I' + os.path.join(ROOT, 'contracts/shadow'), '-I' + os.path.join(ROOT, 'contracts'),
        '-I' + REPO, '-I' + REPO + '/alsfvm/include', '-I' + REPO + '/alsutils/include', '-I' + REPO + '/alsuq/include',
        '-isystem', '/usr/lib/x86_64-linux-gnu/openmpi/include', '-isystem', '/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi',
        '-isystem', '/usr/include/python3.12', '-isystem', '/usr/include/hdf5/openmpi']
DEFS = ['-DALSVINN_USE_MPI', '-DBOOST_LOG_DYN_LINK', '-DCOMPILING_ALSVINN', '-DMPICH_SKIP_MPICXX', '-DOMPI_SKIP_MPICXX', '-DNDEBUG']
BASE = ['-std=gnu++14', '-w', '-ferror-limit=5'] + DEFS + INCS
IRFLAGS = ['-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-S', '-emit-llvm', '-D_GLIBCXX_EXTERN_TEMPLATE=0',
           '-fno-threadsafe-statics', '-DAV_VERIFY']
PASSES = 'function(mem2reg,early-cse,simplifycfg,instsimplify)'


class CompileError(Exception):
    pass


def sh(cmd, timeout=300, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, **kw)


def compile_ir(src, outdir, extra=()):
    key = hashlib.sha1((src + ' '.join(extra)).encode()).hexdigest()[:12]
    out = os.path.join(outdir, os.path.basename(src) + '.' + key + '.ll')
    if os.path.exists(out):
        return out
    tmp = out + '.%d' % os.getpid()
    r = sh([CLANG] + BASE + IRFLAGS + list(extra) + [src, '-o', tmp + '.0'])
    if r.returncode:
        raise CompileError(src + '\n' + r.stderr[-3000:])
    r = sh([OPT, '-S', '-passes=' + PASSES, tmp + '.0', '-o', tmp])
    if r.returncode:
        raise CompileError(src + '\n' + r.stderr[-3000:])
    os.rename(tmp, out)
    os.unlink(tmp + '.0')
    return out


def tu_meta(path):
    txt = open(path).read()
    srcs = []
    for m in re.finditer(r'//\s*AV-SOURCES:\s*(.*)', txt):
        srcs += m.group(1).split()
    opts = {}
    for m in re.finditer(r'//\s*AV-OPT\s+(\S+)\s*:\s*(.*)', txt):
        opts.setdefault(m.group(1), {}).update(dict(x.split('=') for x in m.group(2).split()))
    names = re.findall(r'^AV_CONTRACT\(\s*(\w+)\s*,\s*(\w+)\s*\)', txt, re.M)
    return srcs, opts, names


class Resolver:
    """finds the repository source that defines a missing symbol"""

    def __init__(self, outdir):
        self.outdir = outdir
        self.cache = {}
        self.files = None
        self.mods = {}

    def sources(self):
        if self.files is None:
            self.files = []
            for d in ('alsfvm/src', 'alsutils/src', 'alsuq/src'):
                for dp, _, fs in os.walk(os.path.join(REPO, d)):
                    self.files += [os.path.join(dp, f) for f in fs if f.endswith('.cpp')]
        return self.files

    def __call__(self, name, kind):
        if name in self.cache:
            return self.cache[name]
        self.cache[name] = None
        dm = sh(['c++filt', name]).stdout.strip()
        dm = re.sub(r'^(vtable for|typeinfo for|typeinfo name for|guard variable for|non-virtual thunk to|virtual thunk to) ', '', dm)
        dm0 = re.sub(r'\(.*', '', dm)
        flat = re.sub(r'<[^<>]*>', '', dm0)
        while '<' in flat and re.search(r'<[^<>]*>', flat):
            flat = re.sub(r'<[^<>]*>', '', flat)
        parts = [p for p in flat.split()[-1].split('::') if p]
        cands = []
        for p in reversed(parts):
            for f in self.sources():
                if os.path.basename(f) == p + '.cpp' and f not in cands:
                    cands.append(f)
        fn = parts[-1]
        if not cands:
            for f in self.sources():
                try:
                    if re.search(r'\b%s\s*\(' % re.escape(fn), open(f, errors='replace').read()):
                        cands.append(f)
                except OSError:
                    pass
        import ir
        for f in cands[:6]:
            try:
                ll = compile_ir(f, self.outdir)
            except (CompileError, subprocess.TimeoutExpired):
                continue
            m = self.mods.get(ll)
            if m is None:
                m = self.mods[ll] = ir.Module(ll)
            if name in m.funcs or name in m.globals and m.global_init(name)[1] is not None or name in m.aliases:
                self.cache[name] = m
                return m
        return None


def run_contract(sym, modules, outdir, opts, tlimit):
    """executes one contract symbolically and discharges its obligations; returns a result dict"""
    import engine
    import prove as PV
    t0 = time.time()
    res = {'contract': sym, 'obligations': [], 'status': 'ok', 'note': '', 'functions': {}, 'assumptions': [], 'covers': {}}
    E = engine.Engine(modules, Resolver(outdir), opts)
    E.contract = sym
    E.deadline = t0 + tlimit * 0.6
    try:
        st = engine.State()
        f = E.find_func(sym, modules[0])
        outs = E.call_func(st, f, [])
        res['paths'] = len(outs)
    except engine.Unsupported as e:
        res['status'] = 'unsupported'
        res['note'] = '%s: %s' % (type(e).__name__, e)
        res['where'] = getattr(e, 'av_stack', None) or []
    except RecursionError:
        res['status'] = 'unsupported'
        res['note'] = 'recursion'
    except (KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError, NotImplementedError) as e:
        import traceback
        res['status'] = 'unsupported'
        res['note'] = 'internal: ' + traceback.format_exc()[-1500:]
        res['where'] = getattr(e, 'av_stack', None) or []
    res['symex_s'] = time.time() - t0
    # obligations
    groups = collections.OrderedDict()
    for o in E.obligations:
        groups.setdefault((o.label, o.kind), []).append(o)
    dl = t0 + tlimit
    for (label, kind), obs in groups.items():
        r = {'label': label, 'kind': kind, 'paths': len(obs), 'status': 'proved', 'backends': {}, 'time': 0.0}
        if res['status'] == 'unsupported':
            r['status'] = 'unknown'
            r['note'] = 'not all paths were generated'
        t1 = time.time()
        for o in obs:
            if time.time() > dl:
                r['status'] = 'unknown'
                r['note'] = 'time limit'
                break
            try:
                q = PV.prove(o.pc, o.goal, min(dl, time.time() + float(opts.get('oblig', 120))))
            except RecursionError:
                q = PV.Result('unknown', note='recursion')
            except Exception as e:
                import traceback
                q = PV.Result('unknown', note='prover exception ' + traceback.format_exc()[-600:])
            if q.status == 'failed' and any('after!' in str(b) for b in [o.goal] + list(o.pc)):
                # the counterexample is about a value that a loop leaves behind and of which nothing is known
                q = PV.Result('unknown', q.backend, None, 'refuted with a loop-carried value of which nothing is known')
            r['weak'] = r.get('weak', False) or (q.status == 'failed' and PV.has_extremum([o.goal] + list(o.pc)))
            if q.status == 'failed' and E.abstracted:
                # the counterexample may be one the callee's code cannot produce
                q = PV.Result('unknown', q.backend, None, 'refuted with a callee known only through its contract')
            r['backends'][q.backend] = r['backends'].get(q.backend, 0) + 1
            if q.status != 'proved':
                if r['status'] != 'failed':
                    r['status'] = q.status
                    r['note'] = q.note
                    r['goal'] = str(o.goal)[:3000]
                    r['pc'] = [str(b)[:400] for b in o.pc][:60]
                    r['where'] = o.where
                    r['model'] = model_values(q.model)
                if q.status == 'failed':
                    break
        r['time'] = time.time() - t1
        res['obligations'].append(r)
    if E.throws and not res['obligations'] and res['status'] == 'ok':
        # a contract that demands rejection: every path ends in the exception
        res['obligations'].append({'label': 'every path ends in the demanded exception', 'kind': 'throw', 'paths': len(E.throws),
                                   'status': 'proved', 'backends': {'path': len(E.throws)}, 'time': 0.0})
    for k, pcs in E.covers.items():
        ok = any(PV.check(pc, 3000) != 'unsat' for pc in pcs)
        res['covers'][k] = bool(ok)
    res['functions'] = E.functions
    res['assumptions'] = sorted(E.assumptions)
    res['throws'] = len(E.throws)
    res['loops'] = E.loops_summarised
    res['stats'] = dict(PV.STATS)
    res['bounds_ok'] = getattr(E, 'bounds_ok', 0)
    res['wall'] = time.time() - t0
    return res


def model_values(mm):
    """counterexample as name -> number"""
    if not mm:
        return {}
    zt, m = mm
    if m is None:
        return {}
    import z3
    from terms import ATOMS
    out = {}

    def num(v):
        try:
            if z3.is_int_value(v):
                return v.as_long()
            if z3.is_rational_value(v):
                return float(v.numerator_as_long()) / float(v.denominator_as_long())
            if z3.is_algebraic_value(v):
                v = v.approx(20)
                return float(v.numerator_as_long()) / float(v.denominator_as_long())
            if z3.is_true(v):
                return 1
            if z3.is_false(v):
                return 0
        except Exception:
            pass
        return None
    for d in m.decls():
        nm = d.name()
        if d.arity() == 0:
            v = num(m[d])
            if v is None:
                continue
            g = re.match(r'a(\d+)$', nm)
            if g:
                a = ATOMS[int(g.group(1))]
                if a.kind == 'sym' and not a.args[1]:
                    out[a.args[0]] = v
            elif nm.startswith(('v_', 'b_')):
                out[nm[2:]] = v
        elif nm.startswith('A_') or nm.startswith('I'):
            base = re.sub(r'^A_|^I', '', nm)
            base = re.sub(r'_\d+$', '', base)
            fi = m[d]
            try:
                for i in range(fi.num_entries()):
                    e = fi.entry(i)
                    idx = [str(num(e.arg_value(j))) for j in range(e.num_args())]
                    out['%s[%s]' % (base, ','.join(idx))] = num(e.value())
            except Exception:
                pass
    return {k: v for k, v in out.items() if v is not None and '!' not in k}


def worker(job):
    sym, outdir, opts, tlimit = job
    signal.alarm(int(tlimit + 60))
    try:
        return run_contract(sym, G['mods'][sym], outdir, opts, tlimit)
    except BaseException as e:
        import traceback
        return {'contract': sym, 'obligations': [], 'status': 'unsupported', 'note': 'internal: ' + traceback.format_exc()[-1500:],
                'functions': {}, 'assumptions': [], 'covers': {}, 'wall': 0, 'stats': {}, 'symex_s': 0, 'throws': 0, 'loops': 0, 'bounds_ok': 0}


G = {}


class Native:
    def __init__(self, outdir):
        self.outdir = outdir
        self.exes = {}

    def obj(self, src):
        o = os.path.join(self.outdir, 'n_' + hashlib.sha1(src.encode()).hexdigest()[:12] + '.o')
        if not os.path.exists(o):
            r = sh([CLANG] + BASE + ['-O1', '-g1', '-fsanitize=address', '-fno-sanitize-address-use-odr-indicator', '-DAV_NATIVE', '-c', src, '-o', o], timeout=400)
            if r.returncode:
                raise CompileError(src + '\n' + r.stderr[-3000:])
        return o

    def build(self, tu):
        if tu in self.exes:
            return self.exes[tu]
        srcs, _, _ = tu_meta(tu)
        allsrc = [tu] + [p for p in (os.path.join(REPO, s) for s in srcs) if os.path.exists(p)] + [os.path.join(ROOT, 'contracts/av_native.cpp')]
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(6) as ex:
            objs = list(ex.map(self.obj, allsrc))
        exe = os.path.join(self.outdir, os.path.basename(tu) + '.exe')
        base = [CLANG, '-fsanitize=address', '-rdynamic', '-Wl,-z,muldefs']
        tried = set(allsrc)
        for _ in range(6):
            # objects (variables, vtables) must be linked; functions that are never called need not be
            r = sh(base + ['-Wl,--unresolved-symbols=report-all', '-Wl,--no-demangle'] + objs + ['-o', exe + '.t', '-ldl', '-lpthread'], timeout=300)
            und = sorted(set(re.findall(r"undefined reference to `(_Z\w+)'", r.stderr)))
            dm = sh(['c++filt'] + und).stdout.split('\n') if und else []
            more = []
            for u, d in zip(und, dm):
                if '(' in d and not d.startswith(('vtable for', 'typeinfo for')) or not re.search('alsfvm|alsuq|alsutils', d):
                    continue
                d = re.sub(r'^(vtable|typeinfo|typeinfo name) for ', '', d)
                parts = re.sub(r'<.*', '', re.sub(r'\[abi:\w+\]', '', d)).split('::')
                for q in reversed(parts):
                    c = [f for d2 in ('alsfvm/src', 'alsutils/src', 'alsuq/src') for f in glob.glob(os.path.join(REPO, d2, '**', q + '.cpp'), recursive=True)
                         if all(x.lower() in f.lower() for x in parts[1:-2])] or \
                        [f for d2 in ('alsfvm/src', 'alsutils/src', 'alsuq/src') for f in glob.glob(os.path.join(REPO, d2, '**', q + '.cpp'), recursive=True)]
                    if c:
                        if c[0] not in tried and not d.endswith(('Exception',)):
                            tried.add(c[0])
                            more.append(c[0])
                        break
            if not more:
                break
            objs += [self.obj(x) for x in more]
        r = sh(base + ['-Wl,--unresolved-symbols=ignore-all'] + objs + ['-o', exe, '-ldl', '-lpthread'], timeout=300)
        if r.returncode:
            raise CompileError('link ' + tu + '\n' + r.stderr[-3000:])
        self.exes[tu] = exe
        return exe

    def run(self, tu, sym, tries, seed, values, secs):
        exe = self.build(tu)
        args = [exe, sym, str(tries), str(seed), '-', str(secs)]
        if values:
            vf = os.path.join(self.outdir, sym + '.values')
            with open(vf, 'w') as f:
                for k, v in values.items():
                    f.write('%s %r\n' % (k, v))
            args[4] = vf
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:detect_odr_violation=0:allocator_may_return_null=1:max_allocation_size_mb=3000')
        try:
            r = subprocess.run(args, capture_output=True, text=True, timeout=secs + 60, env=env, cwd=self.outdir)
        except subprocess.TimeoutExpired:
            return None, 'native run timed out', args
        out = r.stdout + r.stderr[-1500:]
        m = re.search(r'NATIVE-VIOLATION label=(.*?) what=(.*)', r.stdout)
        t = re.search(r' try=(\d+) inputs:', m.group(2)) if m else None
        if t and t.group(1) != '0':
            # the failing run must fail in a fresh process, too
            n = t.group(1)
            r2 = subprocess.run(args[:2] + [str(int(n) + 1)] + args[3:] + [n], capture_output=True, text=True, timeout=secs + 60, env=env, cwd=self.outdir)
            if 'NATIVE-VIOLATION' not in r2.stdout:
                return None, 'NATIVE-UNSTABLE a failure that depends on the runs before it: ' + out, args
        if m:
            return (m.group(1), m.group(2)), out, args
        return None, out, args


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default='')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--debug', action='store_true')
    ap.add_argument('--native-only', action='store_true')
    ap.add_argument('--no-native', action='store_true')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('-j', type=int, default=max(2, min(8, os.cpu_count() or 4)))
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    os.environ.setdefault('PYTHONHASHSEED', '0')
    outdir = tempfile.mkdtemp(prefix='av_')
    code = 2
    try:
        code = check_property(a, outdir, seed, t0)
    except CompileError as e:
        print('av: cannot compile: %s' % e, file=sys.stderr)
    finally:
        if not a.keep:
            shutil.rmtree(outdir, ignore_errors=True)
        else:
            print('kept', outdir)
    sys.stdout.flush()
    os._exit(code)


def known_findings(prop):
    out = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            m = re.match(r'finding:\s*property=(\S+)\s+contract=(\S+)\s+label="([^"]*)"\s+(.*)', ln)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def check_property(a, outdir, seed, t0):
    prop = a.prop
    thorough = a.tier == 'thorough'
    tus = sorted(glob.glob(os.path.join(ROOT, 'contracts', prop + '_*.cpp')))
    if not tus:
        print('av: no contracts for ' + prop, file=sys.stderr)
        return 2
    meta = {tu: tu_meta(tu) for tu in tus}
    srcs = []
    for tu in tus:
        for s in [tu] + [os.path.join(REPO, x) for x in meta[tu][0]]:
            if s not in srcs:
                srcs.append(s)
    support = os.path.join(ROOT, 'contracts/support.cpp')
    srcs.append(support)
    from concurrent.futures import ThreadPoolExecutor
    lls = {}
    errs = []

    def comp(s):
        try:
            return compile_ir(s, outdir)
        except CompileError as e:
            errs.append(str(e))
            return None
    with ThreadPoolExecutor(a.j) as ex:
        for s, ll in zip(srcs, ex.map(comp, srcs)):
            lls[s] = ll
    import ir
    mods = {}
    for s, ll in lls.items():
        if ll:
            mods[s] = ir.Module(ll)
    lost = [tu for tu in tus if tu not in mods]
    for e in errs:
        print('av: not compiled (its contracts are left undecided): ' + e[:600], file=sys.stderr)
    tus = [tu for tu in tus if tu in mods]
    if not tus or support not in mods:
        raise CompileError(errs[0])
    jobs = []
    tu_of = {}
    values_usable = {}   # native=0: rounding errors of random runs are not bounded, so only refuted obligations are replayed
    G['mods'] = {}
    total = float(os.environ.get('AV_BUDGET', 2400 if thorough else 560))
    for tu in tus:
        for p, n in meta[tu][2]:
            sym = 'av_contract__%s__%s' % (p, n)
            if a.only and not re.search(a.only, sym):
                continue
            tu_of[sym] = tu
            G['mods'][sym] = [mods[tu]] + [mods[x] for x in (os.path.join(REPO, y) for y in meta[tu][0]) if x in mods] + [mods[support]]
            o = dict(meta[tu][1].get('*', {}))
            for k, d in meta[tu][1].items():
                if k != '*' and re.fullmatch(k, n):
                    o.update(d)
            if a.debug:
                o['debug'] = True
            tl = float(o.get('time', 300)) * (4 if thorough else 1)
            values_usable[sym] = o.get('native') != '0'
            jobs.append((sym, outdir, o, min(tl, total)))
    jobs.sort(key=lambda j: -float(j[2].get('weight', 1)))
    t1 = time.time()
    results = []
    if a.native_only:
        results = [{'contract': j[0], 'obligations': [], 'status': 'unsupported', 'note': 'native only', 'functions': {}, 'assumptions': [],
                    'covers': {}, 'wall': 0, 'stats': {}, 'symex_s': 0, 'throws': 0, 'loops': 0, 'bounds_ok': 0} for j in jobs]
    elif len(jobs) == 1 or a.j == 1:
        for j in jobs:
            results.append(worker(j))
            if a.v:
                show(results[-1])
    else:
        with mp.Pool(a.j, maxtasksperchild=1) as pool:
            for r in pool.imap_unordered(worker, jobs, chunksize=1):
                results.append(r)
                if a.v:
                    show(r)
    results.sort(key=lambda r: r['contract'])
    # ---------------- judge
    native = Native(outdir)
    rdir = os.path.join(ROOT, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    kf = known_findings(prop)
    violations = []
    bounded = [{'contract': n, 'reason': 'the contract does not compile against the current code', 'stand_in': ''}
               for tu in lost for p, n in meta[tu][2]]
    vac = []
    used_kf = set()
    ntries = 200000 if thorough else 20000
    left = lambda: max(5.0, (t0 + (3000 if thorough else 840)) - time.time())
    for r in results:
        sym = r['contract']
        short = sym.split('__', 2)[2]
        bad = [o for o in r['obligations'] if o['status'] != 'proved']
        nocover = False
        if r['status'] == 'ok' and not any(o['status'] == 'failed' for o in r['obligations']) and (not r['obligations'] or not r['covers']):
            if r['throws']:
                # the code rejects every admissible input before the contract's ensures clauses are reached
                nocover = True
                r['obligations'].append({'label': 'an admissible input is accepted', 'kind': 'cover', 'paths': r['throws'], 'status': 'failed',
                                         'backends': {}, 'time': 0.0, 'note': 'every path ends in an exception'})
            else:
                vac.append(short + (': no obligations' if not r['obligations'] else ': no coverage point is reached'))
        for c, ok in r['covers'].items():
            if not ok:
                vac.append(short + ': precondition excludes "%s"' % c)
        if r['status'] == 'ok' and not bad:
            continue
        is_kf = lambda label: next((k for k in kf if k[0] == short and k[1] == label), None)
        failed = [o for o in bad if o['status'] == 'failed']
        unknown = [o for o in bad if o['status'] == 'unknown']
        for o in list(failed):
            k = is_kf(o['label'])
            if k:
                used_kf.add(k)
                failed.remove(o)
                bad.remove(o)
        if r['status'] == 'ok' and not bad:
            continue
        reported = False
        errtxt = ''
        attempts = []
        for o in failed:
            attempts.append((o, o.get('model') or {}))
        if not attempts or unknown or r['status'] != 'ok':
            attempts.append((None, {}))
        hit = None
        attempts_out = ''
        for o, vals in attempts:
            if a.no_native or o is None and not values_usable.get(sym, True):
                break
            try:
                v, out, args = native.run(tu_of[sym], sym, ntries, seed, vals, min(left() / 2, 60 if not thorough else 300))
            except CompileError as e:
                errtxt = str(e)
                v, out, args = None, errtxt, []
            attempts_out = out
            if not v and vals and 'NATIVE-INCOMPLETE not enough memory' in (out or '') and (None, {}) not in attempts:
                attempts.append((None, {}))
            if v and is_kf(v[0]):
                used_kf.add(is_kf(v[0]))
                v = None
            mc = re.search(r'covers=0 thrown=(\d+)', out or '')
            if not v and nocover and mc and int(mc.group(1)) > 0:
                v = ('an admissible input is accepted', 'all %s runs on admissible inputs end in an exception' % mc.group(1))
            if v:
                hit = (o, v, out, args)
                break
        rp = os.path.join(rdir, '%s_%s.txt' % (prop, short))
        if hit:
            with open(rp, 'w') as f:
                f.write('property %s contract %s\nreplayed on the compiled code of %s: ensures "%s" fails\n%s\n\n' %
                        (prop, short, REPO, hit[1][0], hit[2][:8000]))
                f.write('rerun: python3-vt %s/av/run.py %s --only %s --native-only\n\n' % (ROOT, prop, sym))
                f.write(json.dumps(r, indent=1, default=str)[:60000])
            violations.append((rp, '', short, hit[1][0]))
        elif any(not o.get('weak') for o in failed):
            failed = [o for o in failed if not o.get('weak')]
            with open(rp, 'w') as f:
                f.write('property %s contract %s\nobligation(s) refuted by the verifier: %s\nno failing input was found by the native replay\n\n' %
                        (prop, short, ', '.join(o['label'] for o in failed)))
                f.write(json.dumps(r, indent=1, default=str)[:60000])
            violations.append((rp, ' no-failing-input-found', short, failed[0]['label']))
        else:
            bounded.append({'contract': short, 'reason': r['note'] or '; '.join(['%s: %s' % (o['label'], o.get('note', '')) for o in unknown] + ['%s: refuted only for the known instances of a maximum' % o['label'] for o in failed])[:300],
                            'stand_in': attempts_out.strip().split('\n')[0][:200] if attempts_out else ''})
    for k in kf:
        if k not in used_kf and not a.only:
            pass
    for k in sorted(used_kf):
        print('KNOWN-FINDING: property=%s %s' % (prop, k[2]))
    for rp, tail, short, label in violations:
        print('av: %s: %s' % (short, label))
        print('VIOLATION property=%s replay=%s%s' % (prop, rp, tail))
    if not a.only:
        write_evidence(prop, a, results, violations, bounded, vac, seed, time.time() - t0, tus, meta, used_kf)
    for b in bounded:
        print('av: %s: not proved (%s); bounded native stand-in: %s' % (b['contract'], b['reason'].strip().split('\n')[-1][:160], b['stand_in'] or 'none'), file=sys.stderr)
    nob = sum(len(r['obligations']) for r in results)
    npr = sum(1 for r in results for o in r['obligations'] if o['status'] == 'proved')
    print('av: %s: %d contracts, %d obligations, %d discharged, %d bounded, %.1f s' % (prop, len(results), nob, npr, len(bounded), time.time() - t0))
    if a.v:
        for b in bounded:
            print('  bounded:', b)
    if violations:
        return 1
    if vac:
        print('av: vacuous: ' + '; '.join(vac), file=sys.stderr)
        return 2
    return 0


def show(r):
    n = len(r['obligations'])
    p = sum(1 for o in r['obligations'] if o['status'] == 'proved')
    print('%-45s %-11s %d/%d  throws %d loops %d bounds %d covers %s  %.1fs (sx %.1f) %s' % (
        r['contract'].split('__', 1)[1], r['status'], p, n, r['throws'], r['loops'], r['bounds_ok'],
        ''.join('+' if v else '-' for v in r['covers'].values()), r['wall'], r['symex_s'], r['note'][:2000]))
    if r['status'] != 'ok' and r.get('where'):
        print('    at', ' <- '.join(r['where'][-5:][::-1])[:600])
    for o in r['obligations']:
        if o['status'] != 'proved' and r['status'] == 'ok':
            print('   ', o['status'], o['label'], o.get('note', '')[:300], '%.1fs' % o['time'], o.get('where', '')[:200])
            if os.environ.get('AV_SHOW'):
                print('      goal', o.get('goal', '')[:1500])
                print('      pc', o.get('pc'))
                print('      model', o.get('model'))
    sys.stdout.flush()


def write_evidence(prop, a, results, violations, bounded, vac, seed, wall, tus, meta, used_kf):
    obs = [o for r in results for o in r['obligations']]
    disch = [o for o in obs if o['status'] == 'proved']
    back = collections.Counter()
    for o in disch:
        for k, v in o['backends'].items():
            back[k] += v
    funcs = collections.Counter()
    for r in results:
        for k in r['functions']:
            if re.search(r'alsfvm|alsuq|alsutils', k):
                funcs[k] += 1
    names = sorted(funcs)
    try:
        dm = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
    except OSError:
        dm = names
    asm = set()
    for r in results:
        asm |= set(r['assumptions'])
    asm |= STD_ASSUMPTIONS
    st = collections.Counter()
    for r in results:
        for k, v in r['stats'].items():
            st[k] += v
    kfn = len(used_kf)
    ev = {
        'property': prop, 'tier': 'thorough' if a.tier == 'thorough' else 'quick', 'seed': seed,
        'level': level_of(prop),
        'coverage': {
            'kind': 'proof',
            'obligations': len(obs), 'discharged': len(disch),
            'checker_cmd': 'python3-vt %s/av/run.py %s --tier %s' % (ROOT, prop, a.tier),
            'trusted_base': ['clang 18 (C++ to LLVM IR, -O0 + mem2reg/early-cse/simplifycfg)', 'av/ir.py, av/engine.py (VC generation)',
                             'av/prove.py (rational normal form)', 'z3 4.x python bindings', 'cvc5 1.1.2'],
            'contracts': len(results), 'path_obligations': sum(o['paths'] for o in obs),
            'memory_safety_checks_discharged_in_line': sum(r['bounds_ok'] for r in results),
            'loops_summarised_by_inductive_invariants': sum(r['loops'] for r in results),
            'backends': dict(back), 'solver_seconds': {k: round(v, 2) for k, v in st.items() if k.endswith('_s')},
            'functions_under_contract_or_inlined': [d for d in dm if d][:400],
            'bounded_stand_ins': bounded, 'known_findings_hit': kfn,
            'labels': sorted({'%s: %s' % (r['contract'].split('__', 2)[2], o['label']) for r in results for o in r['obligations']})[:600],
        },
        'assumptions': sorted(asm), 'wall_s': round(wall, 2),
        'violations': len(violations),
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


STD_ASSUMPTIONS = {
    'floating-point arithmetic is treated as real arithmetic (rounding, overflow, NaN and infinities from arithmetic are not modelled)',
    'machine integers are treated as mathematical integers with the stated width conversions (no overflow of sizes)',
    'divisors that the contract does not constrain are non-zero where they occur in an algebraic identity',
    'the C++ standard library is verified through its compiled headers; allocation succeeds',
    'logging, timers, exception texts and OpenMP pragmas are dropped by the extraction headers (contracts/shadow)',
}


def level_of(prop):
    try:
        m = json.load(open(os.path.join(ROOT, 'MANIFEST.json')))
        for c in m['checks']:
            if c['property'] == prop:
                return c['level']
    except Exception:
        pass
    return 'proof'


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    main()
