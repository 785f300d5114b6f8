"""Discharging one verification condition: z3, then cvc5 (byte strings as cvc5 Strings), then z3 with more time."""
import z3, subprocess, tempfile, os, time, re

USE_CVC5 = True
stats = {'z3': 0, 'cvc5': 0, 'z3_time': 0.0, 'cvc5_time': 0.0}

def prove(ex, hyps, goal, timeout=None):
    """'unsat' (= proved), 'sat' + model, 'unknown'"""
    neg = z3.Not(goal)
    tmo = timeout or ex.S.timeout
    fs = [h for h in hyps] + [neg]
    def z(fs, tm, model=True):
        t = time.time(); r, m = ex.S.check(fs, tm, model=model); stats['z3_time'] += time.time() - t
        if r == 'unsat': stats['z3'] += 1
        return r, m
    r, m = z(fs, min(2500, tmo))
    if r != 'unknown': return r, m
    qf = [f for f in fs if not has_quant(f)]
    if len(qf) < len(fs):        # often enough without the quantified hypotheses
        r2, m2 = z(qf, min(1000, tmo), False)
        if r2 == 'unsat': return 'unsat', None
    rel = relevant(fs, neg)
    if len(rel) < len(fs):
        r2, m2 = z(rel, min(2500, tmo), False)
        if r2 == 'unsat': return 'unsat', None
    r = abstract_strings(ex, ex.S.axioms + fs, neg, tmo // 2, (0, 7, 23))
    if r == 'unsat': return 'unsat', None
    if USE_CVC5:
        t = time.time()
        r = cvc5_check(ex.S.axioms + fs, tmo // 1000 + 2)
        stats['cvc5_time'] += time.time() - t
        if r == 'unsat': stats['cvc5'] += 1; return 'unsat', None
    if tmo > 2500:
        r, m = z(fs, tmo)
        if r != 'unknown': return r, m
    return 'unknown', None

def has_quant(f):
    from .sym import has_quant as h
    return h(f)
def consts(e, cache={}):
    k = e.get_id()
    if k in cache and cache[k][0].eq(e): return cache[k][1]
    out = set(); seen = set(); st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
        elif z3.is_app(x): st.extend(x.children())
    cache[k] = (e, out)
    return out
def relevant(fs, goal):
    S = set(consts(goal))
    ch = True
    cs = [(f, consts(f)) for f in fs]
    used = [False] * len(cs)
    while ch:
        ch = False
        for i, (f, c) in enumerate(cs):
            if not used[i] and (c & S):
                used[i] = True; S |= c; ch = True
    return [f for i, (f, c) in enumerate(cs) if used[i]]

_ops = {}
def seq_ops(f):
    """does f use operations on sequences (other than equality)?"""
    k = f.get_id()
    if k in _ops and _ops[k][0].eq(f): return _ops[k][1]
    seen = set(); st = [f]; r = False
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x):
            n = x.decl().name()
            if (n.startswith('seq.') or n.startswith('str.')) and x.decl().kind() != z3.Z3_OP_UNINTERPRETED and n != 'seq.empty': r = True; break
        st.extend(x.children())
    _ops[k] = (f, r)
    return r
def has_seq(f):
    return 'Seq' in f.sexpr() if f is not None else False
def abstract_strings(ex, fs, neg, tmo, seeds=(0,)):
    """strings as an uninterpreted sort: hypotheses that use string operations are dropped (sound)"""
    if seq_ops(neg): return 'unknown'
    keep = [f for f in fs if not seq_ops(f)]
    s = z3.Solver()
    for f in keep: s.add(f)
    txt = s.to_smt2()
    txt = txt.replace('(as seq.empty (Seq Int))', 'str!empty').replace('(check-sat)', '')
    txt = re.sub(r'\(Seq\s+Int\)', 'Str', txt)
    if 'seq.' in txt: return 'unknown'
    txt = '(declare-sort Str 0)\n(declare-fun str!empty () Str)\n' + txt
    t = time.time(); r = None
    for seed in seeds:
        s2 = z3.Solver(ctx=z3.Context()); s2.set('rlimit', int(tmo * 1800)); s2.set('timeout', int(tmo * 4)); s2.set('random_seed', seed)
        try:
            s2.from_string(txt)
            r = s2.check()
        except z3.Z3Exception as e:
            if DEBUG: print('abstract_strings', str(e)[:300])
            return 'unknown'
        if r != z3.unknown: break
    stats['z3_time'] += time.time() - t
    if DEBUG: print('abstract_strings', r)
    if r == z3.unsat: stats['z3'] += 1; return 'unsat'
    if r == z3.unknown and len(seeds) > 1:
        t = time.time(); q = run_cvc5('(set-logic ALL)\n' + txt + '\n(check-sat)\n', 3); stats['cvc5_time'] += time.time() - t
        if q == 'unsat': stats['cvc5'] += 1; return 'unsat'
    return 'unknown'

REN = {'seq.len': 'str.len', 'seq.++': 'str.++', 'seq.extract': 'str.substr', 'seq.indexof': 'str.indexof', 'seq.contains': 'str.contains',
       'seq.prefixof': 'str.prefixof', 'seq.suffixof': 'str.suffixof', 'seq.replace': 'str.replace', 'seq.replace_all': 'str.replace_all', 'seq.at': 'str.at'}
TOK = re.compile(r';[^\n]*|"(?:[^"]|"")*"|\|[^|]*\||[()]|[^\s()|"]+')
def to_strings(txt):
    """rewrite (Seq Int) into String; None if something is outside the fragment"""
    out = []
    stack = [[]]
    for t in TOK.findall(txt):
        if t[0] == ';': continue
        if t == '(': stack.append([])
        elif t == ')':
            x = stack.pop(); stack[-1].append(x)
        else: stack[-1].append(t)
    def conv(x):
        # iterative for depth
        if isinstance(x, str):
            return REN.get(x, x)
        if x == ['Seq', 'Int']: return 'String'
        if len(x) == 3 and x[0] == 'as' and x[1] == 'seq.empty': return '""'
        if len(x) == 3 and x[0] in ('seq.nth', 'seq.nth_i', 'seq.nth_u'): return ['str.to_code', ['str.at', conv(x[1]), conv(x[2])]]
        if len(x) == 2 and x[0] == 'seq.unit': return ['str.from_code', conv(x[1])]
        if x and isinstance(x[0], str) and x[0].startswith('seq.') and x[0] not in REN: raise ValueError(x[0])
        if len(x) >= 1 and isinstance(x[0], list) and len(x[0]) == 3 and x[0][0] == '_' and str(x[0][1]).startswith('seq.'): raise ValueError('indexed seq')
        return [conv(y) for y in x]
    def show(x, buf):
        if isinstance(x, str): buf.append(x)
        else:
            buf.append('(')
            for y in x: show(y, buf)
            buf.append(')')
    buf = []
    for x in stack[0]:
        show(conv(x), buf); buf.append('\n')
    return ' '.join(buf)

def cvc5_check(fs, tmo):
    s = z3.Solver()
    for f in fs: s.add(f)
    txt = s.to_smt2().replace('(check-sat)', '').replace('seq.nth_i', 'seq.nth').replace('seq.nth_u', 'seq.nth')
    for cand in (True, False):
        t2 = txt
        if cand and '(Seq Int)' in txt:
            try: t2 = to_strings(txt)
            except (ValueError, RecursionError): continue
        elif cand: continue
        r = run_cvc5('(set-logic ALL)\n' + t2 + '\n(check-sat)\n', tmo)
        if r == 'unsat': return r
        if cand and r == 'sat': return 'unknown'
    return 'unknown'
def run_cvc5(txt, tmo):
    fd, p = tempfile.mkstemp(suffix='.smt2'); os.write(fd, txt.encode()); os.close(fd)
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % (tmo * 1000), '--strings-exp', p], capture_output=True, text=True, timeout=tmo + 5)
        o = r.stdout.strip().split('\n')[0] if r.stdout.strip() else ''
        if DEBUG:
            print('cvc5', o, r.stderr[:300], r.stdout[:300])
            if o != 'unsat': open('/tmp/last_fail.smt2', 'w').write(txt)
        return o if o in ('sat', 'unsat') else 'unknown'
    except Exception:
        return 'unknown'
    finally:
        os.unlink(p)
DEBUG = bool(os.environ.get('IRV_DEBUG'))
