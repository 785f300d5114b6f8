"""Runs one property: extract IR from /repo, discharge obligations, run the bounded native harness, report."""
import os, sys, json, time, subprocess, tempfile, shutil, hashlib, importlib, traceback, re
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor, FIRST_COMPLETED, wait as fwait
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BASE = ['-DHAVE_CONFIG_H', '-D_GNU_SOURCE', '-D_USE_MATH_DEFINES', '-msse', '-msse2', '-mfpmath=sse',
        '-I' + REPO, '-I' + REPO + '/libhfst/src', '-I' + REPO + '/libhfst/src/parsers', '-I' + REPO + '/back-ends', '-I' + REPO + '/back-ends/foma', '-I' + VERIF + '/harness']
NCPU = os.cpu_count() or 4

class Unit:
    """a translation unit to be extracted: real sources of /repo, included as they are, plus explicit template instantiations"""
    def __init__(self, name, code, std='c++20', flags=(), passes='sroa,simplifycfg'):
        self.name, self.code, self.std, self.flags, self.passes = name, code.replace('/repo/', REPO + '/'), std, list(flags), passes
class Harness:
    def __init__(self, src, repo_srcs=(), std='c++20', flags=(), libs=(), args=(), timeout=600, san=True, opt='-O1', parts=1, thorough_args=None, c_srcs=()):
        self.src, self.repo_srcs, self.std, self.flags, self.libs, self.args, self.timeout, self.san, self.opt = src, list(repo_srcs), std, list(flags), list(libs), list(args), timeout, san, opt
        self.parts, self.thorough_args, self.c_srcs = parts, thorough_args, list(c_srcs)

def extract(u, wd):
    src = os.path.join(wd, u.name + '.cc')
    open(src, 'w').write(u.code)
    lang = ['-std=' + u.std]
    llf, lay = os.path.join(wd, u.name + '.ll'), os.path.join(wd, u.name + '.lay')
    opt = os.path.join(wd, u.name + '.o.ll')
    t = time.time()
    with open(lay, 'w') as lf:
        r = subprocess.run(['clang++-18'] + lang + BASE + u.flags + ['-O0', '-Xclang', '-disable-O0-optnone', '-w', '-S', '-emit-llvm', src, '-o', llf, '-Xclang', '-fdump-record-layouts-canonical'], stdout=lf, stderr=subprocess.PIPE, text=True)
    if r.returncode: return {'unit': u.name, 'error': r.stderr[-3000:]}
    r = subprocess.run(['opt-18', '-S', '-passes=' + u.passes, llf, '-o', opt], capture_output=True, text=True)
    if r.returncode: return {'unit': u.name, 'error': r.stderr[-3000:]}
    os.unlink(llf)
    return {'unit': u.name, 'll': opt, 'lay': lay, 'time': time.time() - t}

_mods = {}
def load_unit(llp, lay):
    if llp not in _mods:
        from . import ll, ctype as C
        _mods[llp] = (ll.load(llp), open(lay).read())
    return _mods[llp]

def run_contract(prop, idx, llp, lay, tier):
    """in a worker process"""
    t0 = time.time()
    out = {'idx': idx, 'status': 'undecided', 'obls': [], 'error': None}
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        from . import ll, ctype as C, sym, contract, portfolio
        mod, laytxt = load_unit(llp, lay)
        m = importlib.import_module('props.' + prop)
        cons = m.contracts()
        con = cons[idx]
        out['fn'] = con.fn; out['name'] = con.name
        for k in portfolio.stats: portfolio.stats[k] = 0
        L = C.Layouts(laytxt)
        ex = sym.Engine(mod, L, timeout_ms=con.timeout, budget_s=con.budget * (3 if tier == 'thorough' else 1))
        for k, c in enumerate(cons):
            if c.callable and (c.unit == con.unit or ex.find_fn(c.fn)): ex.contracts[C.canon(c.fn)] = c
        err = None
        try:
            ctx = con.verify(ex)
            out['cover'] = con.cover; out['paths'] = con.npaths; out['reach'] = con.reach
        except (sym.Unsupported, sym.Budget) as e: err = '%s: %s' % (type(e).__name__, e)
        out['error'] = err
        out['obls'] = [dict(name=o.name, status=o.status, n=o.n, time=round(o.time, 3), detail=o.detail) for o in ex.obls]
        for o, d in zip(ex.obls, out['obls']):
            if o.status == 'refuted' and o.model is not None:
                d['model'] = model_text(o.model)
                if con.witness:
                    try: d['witness'] = con.witness(ctx if not err else con.ctx, o.model)
                    except Exception as e: d['witness_error'] = repr(e)
        # BMC re-run: a precise counterexample for what the inductive proof could not settle
        if con.unroll_k and (not con.loop_facts or con.bmc_facts) and (ex.loop_info or ex.contracted) and (err or any(o['status'] == 'undecided' for o in out['obls'])):
            try:
                ex2 = sym.Engine(mod, C.Layouts(laytxt), timeout_ms=min(con.timeout, 5000), budget_s=con.budget)
                con2 = m.contracts()[idx]
                for k, c in enumerate(m.contracts()):
                    if c.callable and c.exact and (c.unit == con.unit or ex2.find_fn(c.fn)): ex2.contracts[C.canon(c.fn)] = c
                ex2.unroll = con.unroll_k
                con2.bmc = True
                con2.verify(ex2)
            except (sym.Unsupported, sym.Budget) as e: out['bmc_error'] = str(e)
            out['bmc_k'] = con.unroll_k
            for o in ex2.obls:
                if o.status == 'refuted':
                    d = dict(name=o.name, status='refuted', n=o.n, time=round(o.time, 3), detail='bounded unrolling k=%d; ' % con.unroll_k + o.detail, model=model_text(o.model))
                    if con2.witness:
                        try: d['witness'] = con2.witness(con2.ctx, o.model)
                        except Exception as e: d['witness_error'] = repr(e)
                    out['obls'] = [x for x in out['obls'] if x['name'] != o.name] + [d]
        out['inlined'] = sorted(ex.inlined); out['modelled'] = sorted(ex.modelled); out['contracted'] = sorted(ex.contracted)
        out['loops'] = [list(x[:2]) + [len(x[2])] for x in ex.invariants]
        out['stats'] = dict(portfolio.stats)
    except MemoryError: out['error'] = 'out of memory'
    except Exception as e:
        out['error'] = 'internal: ' + ''.join(traceback.format_exc())[-1500:]
    out['time'] = round(time.time() - t0, 2)
    return out

def run_lemmas(prop):
    t0 = time.time(); out = {'idx': 9999, 'fn': 'lemmas', 'name': 'lemmas over the contracts', 'status': '', 'obls': [], 'error': None}
    try:
        import z3
        m = importlib.import_module('props.' + prop)
        for n, f in m.lemmas():
            t = time.time(); s = z3.Solver(); s.set('timeout', 60000); s.add(z3.Not(f)); r = s.check()
            out['obls'].append(dict(name=n, status={'unsat': 'proved', 'sat': 'refuted'}.get(str(r), 'undecided'), n=1, time=round(time.time() - t, 3), detail='' if str(r) == 'unsat' else str(r), model=model_text(s.model()) if str(r) == 'sat' else ''))
    except Exception as e: out['error'] = 'internal: ' + ''.join(traceback.format_exc())[-1500:]
    out['time'] = round(time.time() - t0, 2); out['stats'] = {'z3': sum(1 for o in out['obls'] if o['status'] == 'proved'), 'z3_time': time.time() - t0}
    return out

def model_text(m):
    if m is None: return ''
    try:
        s = []
        for d in m.decls():
            if '!' in d.name() or d.arity() == 0:
                v = str(m[d]).replace('\n', ' ')
                s.append('%s = %s' % (d.name(), v[:200]))
        return '\n'.join(s[:120])
    except Exception as e: return repr(e)

def compile_one(cmd):
    t = time.time()
    r = subprocess.run(cmd, capture_output=True, text=True)
    return r.returncode, r.stderr[-4000:], time.time() - t

def build_harness(h, wd):
    """compile the current /repo sources and the harness; objects are cached by the hash of the preprocessed text"""
    cache = os.path.join(VERIF, '.build'); os.makedirs(cache, exist_ok=True)
    san = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr'] if h.san else []
    jobs = []
    def job(src, extra, lang):
        cc = (['g++', '-fno-access-control'] if lang != 'c' else ['gcc']) + ['-w', h.opt, '-g0'] + san + BASE + h.flags + extra
        pp = subprocess.run(cc + ['-E', '-P', src], capture_output=True)
        if pp.returncode: return None, pp.stderr.decode(errors='replace')[-3000:]
        k = hashlib.sha256(('\0'.join(cc)).encode() + pp.stdout).hexdigest()[:24]
        o = os.path.join(cache, k + '.o')
        if not os.path.exists(o):
            tmp = o + '.%d.tmp' % os.getpid()
            r = subprocess.run(cc + ['-c', src, '-o', tmp], capture_output=True, text=True)
            if r.returncode: return None, r.stderr[-3000:]
            os.rename(tmp, o)
        return o, None
    todo = [(os.path.join(VERIF, 'harness', h.src), ['-std=' + h.std], 'c++')]
    for s in h.repo_srcs:
        p = os.path.join(REPO, s)
        if s.endswith('.c'): todo.append((p, [], 'c'))
        else:
            std = h.std
            try:
                if 'fst/fstlib.h' in open(p, errors='replace').read(): std = 'c++17'
            except OSError: pass
            todo.append((p, ['-std=' + std], 'c++'))
    with ThreadPoolExecutor(NCPU) as tp: res = list(tp.map(lambda a: job(*a), todo))
    for o, e in res:
        if o is None: return None, e
    exe = os.path.join(wd, 'harness.' + re.sub(r'\W', '_', h.src))
    link = ['g++', '-o', exe] + san + [o for o, e in res]
    r = subprocess.run(link + h.libs + ['-Wl,--no-demangle'], capture_output=True, text=True)
    if r.returncode: return None, r.stderr[-3000:]
    if any('unresolved-symbols=ignore-all' in l for l in h.libs):
        # functions of source files left out: a call of one of them ends the run with a distinct status
        r = subprocess.run(link + [l for l in h.libs if 'unresolved-symbols' not in l] + ['-Wl,--warn-unresolved-symbols', '-Wl,--no-demangle'], capture_output=True, text=True)
        und = sorted(set(re.findall(r"undefined reference to [`']([^'`]+)'", r.stderr)))
        stub = exe + '.s'
        with open(stub, 'w') as f:
            f.write('.text\n.globl vh_missing\nvh_missing:\nandq $-16,%rsp\nmovq %rdi,%rbx\ncall puts@PLT\nxorl %edi,%edi\ncall fflush@PLT\nmovl $77,%edi\ncall _exit@PLT\n')
            for k, u in enumerate(und): f.write('.globl "%s"\n"%s":\nleaq .Lm%d(%%rip),%%rdi\njmp vh_missing\n.section .rodata\n.Lm%d: .string "NOT LINKED %s"\n.text\n' % (u, u, k, k, u))
            f.write('.section .note.GNU-stack,"",@progbits\n')
        r = subprocess.run(link + [stub] + h.libs, capture_output=True, text=True)
        if r.returncode: return None, r.stderr[-3000:]
    return exe, None

GRACE = 30; LIMIT = 720

def run_harness(exe, args, wd, timeout, inp=None):
    env = dict(os.environ); env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:allocator_may_return_null=1'; env['UBSAN_OPTIONS'] = 'print_stacktrace=1'
    try:
        r = subprocess.run([exe] + args, capture_output=True, timeout=timeout, cwd=wd, env=env, input=inp)
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode(errors='replace')
    out = r.stdout.decode('utf-8', errors='replace'); err = r.stderr.decode('utf-8', errors='replace')
    if r.returncode == 0: return 'pass', out
    if r.returncode == 77 and 'NOT LINKED' in out and 'FAIL ' not in out: return 'nobuild', 'calls a function of a source file that is not linked: ' + out[-500:]
    return 'fail', out[-6000:] + '\n--- stderr\n' + err[-6000:] + '\nexit status %d' % r.returncode

def load_findings():
    p = os.path.join(VERIF, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('KNOWN-FINDING:'):
                m = re.match(r'KNOWN-FINDING: property=(\S+) id=(\S+) (.*)', l)
                if m: out.append(m.groups())
    return out

def main(prop, tier):
    t0 = time.time()
    sys.path.insert(0, VERIF)
    m = importlib.import_module('props.' + prop)
    seed = int(os.environ.get('VERIF_SEED', '1'))
    wd = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    try:
        return _main(prop, tier, m, wd, seed, t0)
    finally: shutil.rmtree(wd, ignore_errors=True)

def _main(prop, tier, m, wd, seed, t0):
    units = m.units(); cons = m.contracts()
    harnesses = getattr(m, 'harnesses', lambda: [])()
    ext = {}; hres = []
    tp = ThreadPoolExecutor(NCPU)
    hf = [tp.submit(build_harness, h, wd) for h in harnesses]
    if cons:
        for r in tp.map(lambda u: extract(u, wd), units): ext[r['unit']] = r
    results = []
    mpc = mp.get_context('fork')
    def harness_job(h, exe, part):
        a = list(h.args)
        if tier == 'thorough' and h.thorough_args is not None: a = list(h.thorough_args)
        if h.parts > 1: a = a + ['part=%d/%d' % (part, h.parts)]
        d = os.path.join(wd, 'run_%s_%d' % (re.sub(r'\W', '_', h.src), part)); os.makedirs(d, exist_ok=True)
        return run_harness(exe, ['tier=' + tier, 'seed=%d' % seed, 'dir=' + d] + a, d, h.timeout * (4 if tier == 'thorough' else 1))
    with ProcessPoolExecutor(max_workers=NCPU, mp_context=mpc, max_tasks_per_child=None) as pp:
        futs = []
        order = sorted(range(len(cons)), key=lambda i: -cons[i].cost)
        for i in order:
            c = cons[i]
            if c.trusted or not os.environ.get('IRV_ONLY', '') in c.fn: continue
            e = ext.get(c.unit)
            if e is None or 'error' in e:
                results.append({'idx': i, 'fn': c.fn, 'name': c.name, 'obls': [], 'error': 'extraction failed: ' + (e or {}).get('error', '?')[-400:], 'time': 0}); continue
            futs.append(pp.submit(run_contract, prop, i, e['ll'], e['lay'], tier))
        if hasattr(m, 'lemmas'): futs.append(pp.submit(run_lemmas, prop))
        hjobs = []
        for h, f in zip(harnesses, hf):
            exe, err = f.result()
            for part in range(h.parts):
                hjobs.append((h, exe, err, part, tp.submit(harness_job, h, exe, part) if exe else None))
        # once a failing input is known the obligations only add detail: they get GRACE seconds more; no run goes on past LIMIT
        def bad(f):
            if not f or not f.done(): return False
            st, out = f.result(); fl = re.findall(r'^FAIL (.*)$', out, re.M); ks = [x for x in load_findings() if x[0] == prop]
            return st == 'fail' and (not fl or any(not any(re.match(r'^%s(\W|$)' % re.escape(x[1]), y) for x in ks) for y in fl))
        pend = set(futs); stop = None
        while pend:
            done, pend = fwait(pend, timeout=2, return_when=FIRST_COMPLETED)
            for f in done:
                try: results.append(f.result())
                except Exception as e: results.append({'idx': -1, 'fn': '?', 'name': '?', 'obls': [], 'error': 'worker died: %r' % e, 'time': 0})
            if stop is None and tier == 'quick' and any(bad(j[4]) for j in hjobs): stop = max(time.time(), t0 + 60) + GRACE
            if pend and time.time() > (min(stop or 1e18, t0 + LIMIT) if tier == 'quick' else 1e18):
                have = {r['idx'] for r in results}
                for i in order:
                    if i not in have and not cons[i].trusted and os.environ.get('IRV_ONLY', '') in cons[i].fn: results.append({'idx': i, 'fn': cons[i].fn, 'name': cons[i].name, 'obls': [], 'error': 'not finished when the run was ended' + (' (a failing input is known)' if stop else ''), 'time': 0})
                for f in pend: f.cancel()
                for q in list(pp._processes.values()): q.terminate()
                break
        for h, exe, err, part, f in hjobs:
            hres.append((h, part, exe) + (f.result() if f else ('nobuild', err)))
    # ---------------------------------------------------------------- report
    violations = []; known = []
    findings = [f for f in load_findings() if f[0] == prop]
    replay_dir = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(replay_dir, exist_ok=True)
    def vio(tag, text, found):
        p = os.path.join(replay_dir, '%s_%d.txt' % (prop, len(violations)))
        open(p, 'w').write(text)
        violations.append((tag, p, found))
    checks_run = 0; cases = 0
    for h, part, exe, status, out in hres:
        cases += sum(int(x) for x in re.findall(r'^CASES (\d+)', out, re.M)) if status == 'pass' else 0
        if status == 'fail':
            fails = re.findall(r'^FAIL (.*)$', out, re.M)
            kn = [(f, x) for f in fails for x in findings if re.match(r'^%s(\W|$)' % re.escape(x[1]), f)]
            unk = [f for f in fails if not any(f == k[0] for k in kn)]
            for f, x in kn: known.append(x[2])
            if unk or not fails:
                vio('harness %s' % h.src, 'Bounded native check (current /repo sources compiled with %s) failed on a concrete input.\nre-run: python3-vt /verif/check.py %s\nharness: /verif/harness/%s args %s\n\n%s' % ('ASan+UBSan' if h.san else 'g++', prop, h.src, h.args, out), True)
    # failed obligations
    for r in results:
        for o in r['obls']:
            if o['status'] != 'refuted': continue
            txt = 'Failed obligation\nfunction: %s\nobligation: %s\ndetail: %s\nverifier model:\n%s\n' % (r['fn'], o['name'], o.get('detail'), o.get('model', ''))
            w = o.get('witness')
            spurious = None
            if w is not None:
                # replay the counterexample natively
                for h, part, exe, status, out in hres:
                    if exe is None or part: continue
                    if h.src != w.get('harness', h.src): continue
                    d = os.path.join(wd, 'replay'); os.makedirs(d, exist_ok=True)
                    st, o2 = run_harness(exe, ['replay', 'dir=' + d] + w['args'], d, 60)
                    txt += '\nnative replay of the counterexample: %s %s -> %s\n%s\n' % (h.src, w['args'], st, o2)
                    if st == 'fail': spurious = False
                    elif st == 'pass': spurious = True
                    break
            o['spurious'] = spurious
            if spurious is True: o['status'] = 'undecided'; o['detail'] = 'counterexample does not replay on the real code; ' + o.get('detail', ''); continue
            vio('obligation %s / %s' % (r['name'], o['name']), txt, spurious is False)
    if any(v[2] for v in violations):   # a failing input is known: the failed obligations go into its replay file
        first = next(v for v in violations if v[2])
        with open(first[1], 'a') as f:
            for tag, p, found in violations:
                if not found: f.write('\n===== also: %s\n%s' % (tag, open(p).read())); os.unlink(p)
        violations[:] = [v for v in violations if v[2]]
    n_ob = sum(len(r['obls']) for r in results); n_ok = sum(1 for r in results for o in r['obls'] if o['status'] == 'proved')
    n_err = sum(1 for r in results if r.get('error'))
    n_ob += n_err
    bmc = [r['name'] for r in results if r.get('error')]
    stats = {'z3': 0, 'cvc5': 0, 'z3_time': 0, 'cvc5_time': 0}
    for r in results:
        for k in stats: stats[k] += r.get('stats', {}).get(k, 0)
    inl, modl = set(), set()
    for r in results: inl |= set(r.get('inlined', [])); modl |= set(r.get('modelled', []))
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': n_ob, 'discharged': n_ok,
            'checker_cmd': 'python3-vt /verif/check.py %s %s' % (prop, tier),
            'trusted_base': ['clang-18 C++ -> LLVM IR lowering, opt-18 sroa/simplifycfg', 'z3, cvc5', '/verif/irv (IR parser, symbolic executor, VC generator)',
                             'models of the C++ standard library in /verif/irv/stdmodel.py (used here: %s)' % ', '.join(sorted(modl))[:2500]],
            'functions_under_contract': [{'function': r.get('fn'), 'contract': r.get('name'), 'obligations': len(r['obls']), 'discharged': sum(1 for o in r['obls'] if o['status'] == 'proved'),
                                          'vc_instances': sum(o['n'] for o in r['obls']), 'paths': r.get('paths'), 'time_s': r.get('time'), 'undecided_reason': r.get('error'),
                                          'undecided': [o['name'] + ': ' + str(o.get('detail'))[:200] for o in r['obls'] if o['status'] == 'undecided'],
                                          'precondition_satisfiable': r.get('cover'), 'reachable_return': r.get('reach'), 'callees_by_contract': r.get('contracted', []), 'loops_invariants': r.get('loops', [])} for r in sorted(results, key=lambda r: r['idx'])],
            'callees_executed_from_their_own_IR': sorted(inl)[:200],
            'backends': {'z3_discharged': stats['z3'], 'cvc5_discharged': stats['cvc5'], 'z3_s': round(stats['z3_time'], 2), 'cvc5_s': round(stats['cvc5_time'], 2)},
            'bounded_stand_in': [{'harness': h.src, 'label': 'bounded, not counted as proved', 'bound': getattr(m, 'BOUND', ''), 'status': st, 'part': part, 'summary': out[:1500] if st == 'pass' else out[-1500:]} for h, part, exe, st, out in hres],
            'bounded_cases': cases,
        },
        'assumptions': ['machine integers are modelled exactly (explicit wrap); IEEE addition is an uninterpreted function, comparisons are IEEE', 'single-threaded execution; allocation succeeds; containers and strings shorter than 2^48'] + ['assumed contract of %s: %s' % (c.fn, c.trusted) for c in cons if c.trusted] + list(getattr(m, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 2), 'violations': len(violations),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    for r in sorted(results, key=lambda r: r['idx']):
        bad = [o for o in r['obls'] if o['status'] != 'proved']
        print('%-70s %d/%d %ss %s' % (r['name'][:70], len(r['obls']) - len(bad), len(r['obls']), r['time'], (r.get('error') or '')[:300]))
        for o in bad: print('    %s: %s %s' % (o['status'], o['name'], str(o.get('detail'))[:300]))
    for h, part, exe, st, out in hres:
        print('harness %s[%d]: %s %s' % (h.src, part, st, ' | '.join(out.strip().split('\n')[-3:])[:300] if st == 'pass' else out[-2500:]))
    for k in sorted(set(known)): print('KNOWN-FINDING: property=%s %s' % (prop, k))
    print('obligations %d discharged %d; wall %.1fs' % (n_ob, n_ok, time.time() - t0))
    for tag, p, found in violations[:5]:
        print('# ' + tag)
        print('VIOLATION property=%s replay=%s%s' % (prop, p, '' if found else ' no-failing-input-found'))
    return 1 if violations else 0
