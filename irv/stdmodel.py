"""Trusted contracts for the C++ standard library, C library and C++ runtime.

Everything here is an assumption of the verification (listed in the evidence);
everything else in the code under verification is executed from its own IR."""
import z3, re
from . import ctype as C
from .sym import *
from . import sym

MODELS = {}
def m(*keys):
    def deco(f):
        for k in keys: MODELS[k] = f
        return f
    return deco

USED = set()

def model(ex, st, dem, args, instr):
    fn = C.parse_fname(dem)
    f = MODELS.get((fn.cls, fn.meth)) or MODELS.get((fn.cls, '*'))
    if f is None: return None
    r = f(ex, st, fn, args, instr)
    if r is not None: USED.add('%s::%s' % (fn.cls, fn.meth)); ex.modelled.add('%s::%s' % (fn.cls, fn.meth))
    return r

def R(st, v=None): return [Outcome(st, 'ret', v)]
def throw(ex, st, ti): return Outcome(st, 'throw', (ti, None))

STR = ('str',)
SEQ = z3.SeqSort(z3.IntSort())
EMPTY = z3.Empty(SEQ)
def seq_of_bytes(bs):
    if not bs: return EMPTY
    u = [z3.Unit(I(b)) for b in bs]
    return u[0] if len(u) == 1 else z3.Concat(*u)
def U(c): return z3.Unit(c)
def cat(a, b):
    if a.eq(EMPTY): return b
    if b.eq(EMPTY): return a
    return z3.Concat(a, b)
def slen(s): return z3.Length(s)

# total order on strings through an (assumed, existing) order embedding into the reals
srank = z3.Function('srank', SEQ, z3.RealSort())
def str_lt(st, a, b):
    st.assume((srank(a) == srank(b)) == (a == b))
    return srank(a) < srank(b)

def getstr(ex, st, p):
    if not isinstance(p, Ptr): raise Unsupported('string object %r' % (p,))
    g = ex.get(st, p)
    if g is None: raise Unsupported('uninitialised string %r' % p)
    if g[0][0] != 'str': raise Unsupported('expected string, found %r' % (g[0],))
    ex.bounds(st, p)
    return g[1]
def putstr(ex, st, p, s):
    if p.steps: ex.bounds(st, p)
    ex.put(st, p, STR, s)

def cstring(ex, st, p):
    """value of the NUL-terminated string at p"""
    if isinstance(p, Null):
        ex.safe(st, 'C string pointer non-null', FALSE); raise Dead()
    if not isinstance(p, Ptr): raise Unsupported('C string at %r' % (p,))
    if not p.steps:
        lf = ex.region(st, p.rid).get(p.off)
        if lf is not None and lf.ct[0] == 'conststr': return seq_of_bytes(lf.v[:lf.v.index(0)])
        if lf is not None and lf.ct[0] == 'cstr': return lf.v
        raise Unsupported('C string at %r' % p)
    k, idx, c, o = p.steps[-1]
    if k == 'char':
        ct, s = ex.get(st, Ptr(p.rid, p.off, p.steps[:-1]))
        if ct[0] == 'conststr':
            if is_c(idx): 
                bs = s[cv(idx):]; return seq_of_bytes(bs[:bs.index(0)])
            raise Unsupported('C string at symbolic literal offset')
        n = z3.IndexOf(s, U(I(0)), idx)
        if ex.must(st, n < 0):
            if is_c(idx) and cv(idx) == 0: return s
            ex.safe(st, 'string data access in bounds', z3.And(idx >= 0, idx <= slen(s)))
            return z3.Extract(s, idx, slen(s) - idx)
        ex.safe(st, 'string data access in bounds', z3.And(idx >= 0, idx <= slen(s)))
        return z3.Extract(s, idx, z3.If(n < 0, slen(s) - idx, n - idx))
    raise Unsupported('C string at %r' % p)

def chars(ex, st, p, n):
    """n bytes at p as a Seq"""
    if isinstance(p, Ptr) and not p.steps:
        lf = ex.region(st, p.rid).get(p.off)
        if lf is not None and lf.ct[0] == 'conststr' and is_c(n): return seq_of_bytes(lf.v[:cv(n)])
        if lf is not None and lf.ct[0] == 'cstr':
            return z3.Extract(cat(lf.v, U(I(0))), I(0), n)
    if isinstance(p, Ptr) and p.steps and p.steps[-1][0] == 'char':
        ct, s = ex.get(st, Ptr(p.rid, p.off, p.steps[:-1]))
        idx = p.steps[-1][1]
        if ct[0] == 'str':
            ex.safe(st, 'string data range in bounds', z3.And(idx >= 0, n >= 0, idx + n <= slen(s)))
            return z3.Extract(s, idx, n)
        if ct[0] == 'conststr' and is_c(idx) and is_c(n): return seq_of_bytes(ct and s[cv(idx):cv(idx)+cv(n)])
    if isinstance(p, Ptr) and p.steps and p.steps[-1][0] == 'buf' and is_c(n):
        out = EMPTY
        for k in range(cv(n)):
            q = ex.pindex(st, p, I(k), 64, 1)
            out = cat(out, U(ex.get(st, q)[1]))
        return out
    if isinstance(p, Ptr) and is_c(n):
        # the bytes of a scalar object (little endian)
        out = EMPTY; k = 0
        while k < cv(n):
            g = ex.get(st, ex.padd(p, k))
            if g is None or g[0][0] not in ('int', 'float'): raise Unsupported('bytes at %r' % (p,))
            v = g[1]; v = ex.f2b(st, v) if g[0][0] == 'float' else v; sz = ex.L.size(g[0]); out = cat(out, le_bytes(v, sz)); k += sz
        if k == cv(n): return out
    raise Unsupported('bytes at %r' % (p,))
def le_bytes(v, n):
    us = [U(z3.simplify((v / 256**k) % 256)) if n > 1 else U(v) for k in range(n)]
    return us[0] if n == 1 else z3.Concat(*us)
def le_value(s, i, n):
    # the callers' bounds obligations place i..i+n inside s: read through to what it is cut from
    while z3.is_app(s) and s.decl().kind() == z3.Z3_OP_SEQ_EXTRACT: s, i = s.arg(0), s.arg(1) + i
    return z3.Sum([s[z3.simplify(i + I(k))] * 256**k for k in range(n)])

def npos(ix): return z3.If(ix < 0, I(NPOS), ix)
def clampfind(s, pat, pos):
    """std::string::find(pat,pos) for pos possibly > size"""
    return z3.If(pos > slen(s), I(NPOS), npos(z3.IndexOf(s, pat, pos)))

# find_first_of/last_of etc. with a single character reduce to (last) index;
# general sets are given by defining properties (no quantifier needed at use sites
# except through the spec helper below).

def strarg(ex, st, ty, p):
    """argument of C++ type ty denoting a string (string, char const*, char)"""
    if ty.startswith('std::basic_string') or ty.startswith('std::string'): return getstr(ex, st, p)
    if ty.startswith('char const*') or ty == 'char*': return cstring(ex, st, p)
    if ty == 'char': return U(p)
    raise Unsupported('string argument ' + ty)

BS = 'std::basic_string'

@m((BS, 'basic_string'))
def _(ex, st, fn, a, ins):
    p = [x for x in fn.params]
    if fn.clsargs and fn.clsargs[0] != 'char': raise Unsupported('basic_string<%s>' % fn.clsargs[0])
    if not p or p[0].startswith('std::allocator'): putstr(ex, st, a[0], EMPTY); return R(st)
    if p[0].startswith(BS):
        s = getstr(ex, st, a[1])
        ints = [x for x in p[1:] if x == 'unsigned long']
        if not ints:
            putstr(ex, st, a[0], s)
            if p[0].endswith('&&'): putstr(ex, st, a[1], EMPTY)
            return R(st)
        pos = a[2]; n = a[3] if len(ints) > 1 else I(NPOS)
        return substr_outs(ex, st, s, pos, n, lambda st2, r: putstr(ex, st2, a[0], r))
    if p[0] == 'char const*':
        if len(p) > 1 and p[1] == 'unsigned long': putstr(ex, st, a[0], chars(ex, st, a[1], a[2])); return R(st)
        if len(p) > 1 and p[1] == 'char const*':
            putstr(ex, st, a[0], range_seq(ex, st, a[1], a[2])); return R(st)
        putstr(ex, st, a[0], cstring(ex, st, a[1])); return R(st)
    if p[0] == 'unsigned long' and len(p) > 1 and p[1] == 'char':
        if is_c(a[1]) and cv(a[1]) < 64:
            putstr(ex, st, a[0], seq_rep(a[2], cv(a[1]))); return R(st)
        raise Unsupported('string(n,c)')
    if fn.targs and len(p) >= 2 and p[0] == p[1]:
        # iterator range
        putstr(ex, st, a[0], range_seq(ex, st, a[1], a[2])); return R(st)
    if p[0] == 'char const* const&' and p[1:3] == ['unsigned long', 'unsigned long']:
        q = ex.get(st, a[1])[1]
        return substr_outs(ex, st, cstring(ex, st, q), a[2], a[3], lambda st2, r: putstr(ex, st2, a[0], r))
    raise Unsupported('string ctor ' + fn.full)
def seq_rep(c, n):
    r = EMPTY
    for _ in range(n): r = cat(r, U(c))
    return r
def range_seq(ex, st, b, e):
    if isinstance(b, Ptr) and isinstance(e, Ptr) and b.steps and b.steps[-1][0] == 'char':
        n = ex.ptr_diff(st, e, b)
        return chars(ex, st, b, n)
    raise Unsupported('iterator range')
def substr_outs(ex, st, s, pos, n, k):
    outs = []
    bad = pos > slen(s)
    if not ex.must(st, z3.Not(bad)):
        s2 = st.fork(); s2.assume(bad)
        if ex.feasible(s2): outs.append(throw(ex, s2, '_ZTISt12out_of_range'))
        st.assume(z3.Not(bad))
        if not ex.feasible(st): return outs
    ln = slen(s) - pos
    if is_c(n) and cv(n) == NPOS: cnt = ln
    elif ex.must(st, n <= ln): cnt = n
    elif ex.must(st, n >= ln): cnt = ln
    else: cnt = z3.If(n < ln, n, ln)
    if z3.is_app_of(s, z3.Z3_OP_SEQ_EXTRACT) and (cnt is n or cnt is ln) and not is_c(n):
        k(st, z3.Extract(s.arg(0), z3.simplify(s.arg(1) + pos), z3.simplify(cnt)))   # an extract of an extract that fits
    else: k(st, z3.Extract(s, pos, cnt))
    outs.append(Outcome(st, 'ret', None))
    return outs

@m((BS, '~basic_string'))
def _(ex, st, fn, a, ins): return R(st)

@m((BS, 'operator='), (BS, 'assign'))
def _(ex, st, fn, a, ins):
    if len(a) == 2:
        s = strarg(ex, st, fn.params[0], a[1])
        putstr(ex, st, a[0], s)
        if fn.params[0].endswith('&&'): putstr(ex, st, a[1], EMPTY)
        return R(st, a[0])
    if fn.params[0] == 'char const*' and fn.params[1] == 'unsigned long':
        putstr(ex, st, a[0], chars(ex, st, a[1], a[2])); return R(st, a[0])
    if fn.params[0].startswith(BS) and len(a) == 4:
        s = getstr(ex, st, a[1])
        outs = substr_outs(ex, st, s, a[2], a[3], lambda st2, r: putstr(ex, st2, a[0], r))
        for o in outs:
            if o.kind == 'ret': o.val = a[0]
        return outs
    raise Unsupported('string assign')
@m((BS, 'size'), (BS, 'length'))
def _(ex, st, fn, a, ins):
    s = getstr(ex, st, a[0])
    st.assume(slen(s) < 2**48)
    return R(st, z3.simplify(slen(s)))
@m((BS, 'empty'))
def _(ex, st, fn, a, ins): return R(st, z3.simplify(slen(getstr(ex, st, a[0])) == 0))
@m((BS, 'clear'))
def _(ex, st, fn, a, ins): putstr(ex, st, a[0], EMPTY); return R(st)
@m((BS, 'reserve'), (BS, 'shrink_to_fit'))
def _(ex, st, fn, a, ins): return R(st)
@m((BS, 'c_str'), (BS, 'data'), (BS, 'begin'), (BS, 'cbegin'))
def _(ex, st, fn, a, ins):
    getstr(ex, st, a[0])
    return R(st, ex.step(a[0], ('char', I(0), None, 0)))
@m((BS, 'end'), (BS, 'cend'))
def _(ex, st, fn, a, ins):
    return R(st, ex.step(a[0], ('char', slen(getstr(ex, st, a[0])), None, 0)))
@m((BS, 'operator[]'))
def _(ex, st, fn, a, ins):
    s = getstr(ex, st, a[0])
    return R(st, ex.step(a[0], ('char', a[1], None, 0)))
@m((BS, 'front'))
def _(ex, st, fn, a, ins): return R(st, ex.step(a[0], ('char', I(0), None, 0)))
@m((BS, 'back'))
def _(ex, st, fn, a, ins):
    s = getstr(ex, st, a[0])
    ex.safe(st, 'back() of non-empty string', slen(s) > 0)
    return R(st, ex.step(a[0], ('char', slen(s) - 1, None, 0)))
@m((BS, 'at'))
def _(ex, st, fn, a, ins):
    s = getstr(ex, st, a[0]); outs = []
    ok = z3.And(a[1] >= 0, a[1] < slen(s))
    if not ex.must(st, ok):
        s2 = st.fork(); s2.assume(z3.Not(ok))
        if ex.feasible(s2): outs.append(throw(ex, s2, '_ZTISt12out_of_range'))
        st.assume(ok)
        if not ex.feasible(st): return outs
    return outs + R(st, ex.step(a[0], ('char', a[1], None, 0)))
@m((BS, 'push_back'))
def _(ex, st, fn, a, ins):
    putstr(ex, st, a[0], cat(getstr(ex, st, a[0]), U(a[1]))); return R(st)
@m((BS, 'pop_back'))
def _(ex, st, fn, a, ins):
    s = getstr(ex, st, a[0]); ex.safe(st, 'pop_back of non-empty string', slen(s) > 0)
    putstr(ex, st, a[0], z3.Extract(s, I(0), slen(s) - 1)); return R(st)
@m((BS, 'append'), (BS, 'operator+='))
def _(ex, st, fn, a, ins):
    s = getstr(ex, st, a[0]); p = fn.params
    if len(p) == 1:
        putstr(ex, st, a[0], cat(s, strarg(ex, st, p[0], a[1]))); return R(st, a[0])
    if p[0] == 'char const*' and p[1] == 'unsigned long':
        putstr(ex, st, a[0], cat(s, chars(ex, st, a[1], a[2]))); return R(st, a[0])
    if p[0] == 'unsigned long' and p[1] == 'char' and is_c(a[1]) and cv(a[1]) < 64:
        putstr(ex, st, a[0], cat(s, seq_rep(a[2], cv(a[1])))); return R(st, a[0])
    if p[0].startswith(BS) and len(p) == 3:
        t = getstr(ex, st, a[1])
        outs = substr_outs(ex, st, t, a[2], a[3], lambda st2, r: putstr(ex, st2, a[0], cat(s, r)))
        for o in outs:
            if o.kind == 'ret': o.val = a[0]
        return outs
    if len(p) == 2 and p[0] == p[1]:
        putstr(ex, st, a[0], cat(s, range_seq(ex, st, a[1], a[2]))); return R(st, a[0])
    raise Unsupported('string append ' + fn.full)
@m((BS, 'substr'))
def _(ex, st, fn, a, ins):
    s = getstr(ex, st, a[1])
    return substr_outs(ex, st, s, a[2], a[3], lambda st2, r: putstr(ex, st2, a[0], r))
@m((BS, 'find'))
def _(ex, st, fn, a, ins):
    s = getstr(ex, st, a[0])
    if len(fn.params) == 3: pat = chars(ex, st, a[1], a[3])
    else: pat = strarg(ex, st, fn.params[0], a[1])
    pos = a[2] if len(a) > 2 else I(0)
    st.assume(slen(s) < 2**48)
    if is_c(pos) and cv(pos) == 0: r = npos(z3.IndexOf(s, pat, pos))
    else: r = clampfind(s, pat, pos)
    return R(st, name_it(ex, st, r, 'find'))
def name_it(ex, st, t, nm):
    if is_c(z3.simplify(t)): return z3.simplify(t)
    v = fresh(z3.IntSort(), nm); st.assume(v == t); st.assume([v >= 0, v <= NPOS]); return v
@m((BS, 'rfind'), (BS, 'find_last_of'))
def _(ex, st, fn, a, ins):
    s = getstr(ex, st, a[0]); pat = strarg(ex, st, fn.params[0], a[1])
    if fn.meth == 'find_last_of' and fn.params[0] != 'char' and not ex.must(st, slen(pat) == 1): raise Unsupported('find_last_of set')
    if fn.meth == 'rfind' and not ex.must(st, slen(pat) == 1): raise Unsupported('rfind')
    pos = a[2] if len(a) > 2 else I(NPOS)
    st.assume(slen(s) < 2**48)
    if not (is_c(pos) and cv(pos) == NPOS): s = z3.Extract(s, I(0), z3.If(pos + 1 < slen(s), pos + 1, slen(s)))
    # r is the last position: defined by properties rather than by the solver's last-index operator
    r = fresh(z3.IntSort(), 'rfind')
    st.assume(z3.Or(z3.And(r == NPOS, z3.Not(z3.Contains(s, pat))),
                    z3.And(r >= 0, r < slen(s), s[r] == pat[0], z3.Not(z3.Contains(z3.Extract(s, r + 1, slen(s) - r - 1), pat)))))
    return R(st, r)
@m((BS, 'compare'))
def _(ex, st, fn, a, ins):
    s = getstr(ex, st, a[0])
    if len(a) == 2:
        t = strarg(ex, st, fn.params[0], a[1])
        r = fresh(z3.IntSort(), 'cmp'); sr = signed(r, 32)
        lt = str_lt(st, s, t)
        st.assume([r >= 0, r < 2**32, (r == 0) == (s == t), (sr < 0) == lt])
        return R(st, r)
    if len(a) == 4:
        t = strarg(ex, st, fn.params[2], a[3])
        outs = []
        def k(st2, sub):
            r = fresh(z3.IntSort(), 'cmp'); st2.assume([r >= 0, r < 2**32, (r == 0) == (sub == t), (signed(r, 32) < 0) == str_lt(st2, sub, t)])
            st2.ghost = dict(st2.ghost); st2.ghost['$r'] = r
        outs = substr_outs(ex, st, s, a[1], a[2], k)
        for o in outs:
            if o.kind == 'ret': o.val = o.st.ghost.pop('$r')
        return outs
    raise Unsupported('string compare')
@m((BS, 'erase'))
def _(ex, st, fn, a, ins):
    s = getstr(ex, st, a[0])
    if fn.params and fn.params[0] == 'unsigned long':
        pos, n = a[1], a[2]
        def k(st2, sub): putstr(ex, st2, a[0], cat(z3.Extract(s, I(0), pos), z3.Extract(s, pos + slen(sub), slen(s) - pos - slen(sub))))
        outs = substr_outs(ex, st, s, pos, n, k)
        for o in outs:
            if o.kind == 'ret': o.val = a[0]
        return outs
    raise Unsupported('string erase(iterator)')
@m((BS, 'replace'))
def _(ex, st, fn, a, ins):
    s = getstr(ex, st, a[0]); p = fn.params
    if p[0] == 'unsigned long' and p[1] == 'unsigned long':
        if len(p) == 3: t = strarg(ex, st, p[2], a[3])
        elif len(p) == 4 and p[2] == 'unsigned long' and is_c(a[3]): t = seq_rep(a[4], cv(a[3]))
        elif len(p) == 4 and p[2] == 'char const*': t = chars(ex, st, a[3], a[4])
        else: raise Unsupported('string replace')
        pos = a[1]
        def k(st2, sub): putstr(ex, st2, a[0], cat(cat(z3.Extract(s, I(0), pos), t), z3.Extract(s, pos + slen(sub), slen(s) - pos - slen(sub))))
        outs = substr_outs(ex, st, s, pos, a[2], k)
        for o in outs:
            if o.kind == 'ret': o.val = a[0]
        return outs
    raise Unsupported('string replace')
@m((BS, 'insert'))
def _(ex, st, fn, a, ins):
    s = getstr(ex, st, a[0]); p = fn.params
    if p[0] == 'unsigned long':
        if len(p) == 2: t = strarg(ex, st, p[1], a[2])
        elif p[1] == 'unsigned long' and is_c(a[2]): t = seq_rep(a[3], cv(a[2]))
        else: raise Unsupported('string insert')
        pos = a[1]
        outs = substr_outs(ex, st, s, pos, I(0), lambda st2, sub: putstr(ex, st2, a[0], cat(cat(z3.Extract(s, I(0), pos), t), z3.Extract(s, pos, slen(s) - pos))))
        for o in outs:
            if o.kind == 'ret': o.val = a[0]
        return outs
    raise Unsupported('string insert(iterator)')
@m((BS, 'swap'))
def _(ex, st, fn, a, ins):
    x, y = getstr(ex, st, a[0]), getstr(ex, st, a[1]); putstr(ex, st, a[0], y); putstr(ex, st, a[1], x); return R(st)
@m((BS, 'starts_with'))
def _(ex, st, fn, a, ins):
    raise Unsupported('starts_with')

@m(('std', 'operator+'))
def _(ex, st, fn, a, ins):
    # sret first
    if len(a) == 3 and any('basic_string' in x for x in fn.params):
        x = strarg(ex, st, fn.params[0], a[1]); y = strarg(ex, st, fn.params[1], a[2])
        putstr(ex, st, a[0], cat(x, y)); return R(st)
    return None
def _streq(ex, st, fn, a):
    return strarg(ex, st, fn.params[0], a[0]), strarg(ex, st, fn.params[1], a[1])
@m(('std', 'operator=='))
def _(ex, st, fn, a, ins):
    if any(x.startswith(BS) for x in fn.params):
        x, y = _streq(ex, st, fn, a); return R(st, x == y)
    if 'Rb_tree' in fn.params[0]:
        return R(st, ex.ptr_eq(st, itv(ex, st, a[0]), itv(ex, st, a[1])))
    if fn.params[0].startswith('std::vector'):
        return veceq(ex, st, fn, a, False)
    return None
@m(('std', 'operator!='))
def _(ex, st, fn, a, ins):
    if any(x.startswith(BS) for x in fn.params):
        x, y = _streq(ex, st, fn, a); return R(st, x != y)
    if 'Rb_tree' in fn.params[0]:
        return R(st, z3.Not(ex.ptr_eq(st, itv(ex, st, a[0]), itv(ex, st, a[1]))))
    return None
@m(('std', 'operator<'))
def _(ex, st, fn, a, ins):
    if any(x.startswith(BS) for x in fn.params):
        x, y = _streq(ex, st, fn, a); return R(st, str_lt(st, x, y))
    return None
@m(('std', 'operator>'))
def _(ex, st, fn, a, ins):
    if any(x.startswith(BS) for x in fn.params):
        x, y = _streq(ex, st, fn, a); return R(st, str_lt(st, y, x))
    return None
@m(('std', 'operator<=>'))
def _(ex, st, fn, a, ins):
    if any(x.startswith(BS) for x in fn.params):
        x, y = _streq(ex, st, fn, a)
        return R(st, z3.If(x == y, I(0), z3.If(str_lt(st, x, y), I(255), I(1))))
    return None
def veceq(ex, st, fn, a, neg):
    return None

# ------------------------------------------------------------------ vector
def vT(ex, fn):
    t = C.parse(fn.clsargs[0])
    return ('vec', t)
BITREF = 'std::_Bit_reference'
def dflt(ex, ct):
    """value-initialised T"""
    k = ct[0]
    if k in ('int', 'ptr'): return I(0)
    if k == 'float': return z3.FPVal(0.0, z3.Float32())
    if k == 'double': return z3.FPVal(0.0, z3.Float64())
    if k == 'str': return EMPTY
    if k == 'vec': return empty_vec(ex, ct)
    if k in ('map', 'set'): return empty_map(ex, ct)
    if k == 'struct':
        s = ex.L.sort(ct)
        return s.constructor(0)(*[dflt(ex, c) for o, c, n in ex.L.leaves(ct)])
    raise Unsupported('default value of %r' % (ct,))
_dconst = {}
def garbage(ex, ct):
    """canonical unspecified contents of unused array slots"""
    s = ex.L.sort(ct)
    key = (s.sexpr())
    if key not in _dconst: _dconst[key] = z3.Const('slot_' + C.sname(ct), s)
    return _dconst[key]
def empty_vec(ex, ct): return ex.vmk(ct, I(0), z3.K(z3.IntSort(), garbage(ex, ct[1])))
def getvec(ex, st, p, ct=None):
    if not isinstance(p, Ptr): raise Unsupported('vector object %r' % (p,))
    g = ex.get(st, p)
    if g is None: raise Unsupported('uninitialised vector %r' % p)
    if g[0][0] != 'vec': raise Unsupported('expected vector, found %r' % (g[0],))
    if p.steps: ex.bounds(st, p)
    if ct is not None and g[0] != ct and C.ctname(g[0]) != C.ctname(ct): raise Unsupported('vector type %r vs %r' % (g[0], ct))
    n = ex.vget(g[0], g[1], 'len')
    if not is_c(n): st.assume(z3.And(n >= 0, n < 2**48))
    return g
def putvec(ex, st, p, ct, v): ex.put(st, p, ct, v)
def is_default_constructible_trivial(ex, ct):
    return ct[0] in ('int', 'ptr', 'float', 'double', 'str', 'vec', 'map', 'set')

def vecmodel(cls):
    @m((cls, 'vector'), (cls, 'deque'), (cls, 'list'))
    def ctor(ex, st, fn, a, ins):
        if fn.meth != cls.split('::')[-1]: return None
        ct = vT(ex, fn); p = fn.params
        if not p or p[0].startswith('std::allocator'):
            putvec(ex, st, a[0], ct, empty_vec(ex, ct)); return R(st)
        if p[0].startswith(cls):
            g = getvec(ex, st, a[1], ct); putvec(ex, st, a[0], g[0], g[1])
            if p[0].endswith('&&'): putvec(ex, st, a[1], g[0], empty_vec(ex, g[0]))
            return R(st)
        if p[0] == 'unsigned long' and (len(p) == 1 or p[1].startswith('std::allocator')):
            if not is_default_constructible_trivial(ex, ct[1]): raise Unsupported('vector(n) of %r' % (ct[1],))
            putvec(ex, st, a[0], ct, ex.vmk(ct, a[1], z3.K(z3.IntSort(), dflt(ex, ct[1])))); return R(st)
        if p[0] == 'unsigned long' and len(p) >= 2:
            v = ex.read_obj(st, a[2], ct[1])
            putvec(ex, st, a[0], ct, ex.vmk(ct, a[1], z3.K(z3.IntSort(), ex.to_z3(ct[1], v)))); return R(st)
        if len(p) >= 2 and p[0] == p[1] and fn.targs:
            b, e = iterval(ex, st, a[1]), iterval(ex, st, a[2])
            putvec(ex, st, a[0], ct, subvec(ex, st, b, e, ct)); return R(st)
        raise Unsupported('vector ctor ' + fn.full)
    @m((cls, '~vector'), (cls, '~deque'), (cls, '~list'))
    def dtor(ex, st, fn, a, ins): return R(st)
    @m((cls, 'size'))
    def size(ex, st, fn, a, ins):
        g = getvec(ex, st, a[0], vT(ex, fn)); return R(st, ex.vget(g[0], g[1], 'len'))
    @m((cls, 'empty'))
    def empty(ex, st, fn, a, ins):
        g = getvec(ex, st, a[0], vT(ex, fn)); return R(st, z3.simplify(ex.vget(g[0], g[1], 'len') == 0))
    @m((cls, 'operator[]'))
    def idx(ex, st, fn, a, ins):
        ct = vT(ex, fn); getvec(ex, st, a[0], ct)
        if fn.clsargs[0] == 'bool' and cls == 'std::vector':
            e = ex.step(a[0], ('elem', a[1], ct[1], 0)); ex.bounds(st, e)
            if fn.const: return R(st, z3.simplify(ex.to_z3(ct[1], ex.get(st, e)[1]) != 0))
            return R(st, ('agg', [e, I(0)]))
        return R(st, ex.step(a[0], ('elem', a[1], ct[1], 0)))
    @m((cls, 'at'))
    def at(ex, st, fn, a, ins):
        ct = vT(ex, fn); g = getvec(ex, st, a[0], ct); outs = []
        ok = z3.And(a[1] >= 0, a[1] < ex.vget(g[0], g[1], 'len'))
        if not ex.must(st, ok):
            s2 = st.fork(); s2.assume(z3.Not(ok))
            if ex.feasible(s2): outs.append(throw(ex, s2, '_ZTISt12out_of_range'))
            st.assume(ok)
            if not ex.feasible(st): return outs
        e = ex.step(a[0], ('elem', a[1], ct[1], 0))
        if fn.clsargs[0] == 'bool' and cls == 'std::vector':
            return outs + R(st, z3.simplify(ex.to_z3(ct[1], ex.get(st, e)[1]) != 0) if fn.const else ('agg', [e, I(0)]))
        return outs + R(st, e)
    @m((cls, 'front'))
    def front(ex, st, fn, a, ins):
        ct = vT(ex, fn); return R(st, ex.step(a[0], ('elem', I(0), ct[1], 0)))
    @m((cls, 'back'))
    def back(ex, st, fn, a, ins):
        ct = vT(ex, fn); g = getvec(ex, st, a[0], ct)
        return R(st, ex.step(a[0], ('elem', z3.simplify(ex.vget(g[0], g[1], 'len') - 1), ct[1], 0)))
    @m((cls, 'push_back'), (cls, 'emplace_back'))
    def push_back(ex, st, fn, a, ins):
        ct = vT(ex, fn); g = getvec(ex, st, a[0], ct)
        if fn.meth == 'emplace_back':
            if len(a) != 2: raise Unsupported('emplace_back')
            pt = C.parse(fn.params[0])
            if pt[0] == 'ptr' and C.ctname(pt[1]) != C.ctname(g[0][1]): raise Unsupported('emplace_back of %r' % (pt,))
        n = ex.vget(g[0], g[1], 'len'); arr = ex.vget(g[0], g[1], 'arr')
        ex.bounds(st, a[1])
        v = ex.read_obj(st, a[1], g[0][1])
        putvec(ex, st, a[0], g[0], ex.vmk(g[0], z3.simplify(n + 1), z3.Store(arr, n, v)))
        if fn.meth == 'emplace_back': return R(st, ex.step(a[0], ('elem', n, ct[1], 0)))
        return R(st)
    @m((cls, 'pop_back'))
    def pop_back(ex, st, fn, a, ins):
        g = getvec(ex, st, a[0], vT(ex, fn)); n = ex.vget(g[0], g[1], 'len')
        ex.safe(st, 'pop_back of non-empty vector', n > 0)
        putvec(ex, st, a[0], g[0], ex.vmk(g[0], z3.simplify(n - 1), ex.vget(g[0], g[1], 'arr'))); return R(st)
    @m((cls, 'clear'))
    def clear(ex, st, fn, a, ins):
        ct = vT(ex, fn); putvec(ex, st, a[0], ct, empty_vec(ex, ct)); return R(st)
    @m((cls, 'reserve'), (cls, 'shrink_to_fit'))
    def reserve(ex, st, fn, a, ins): return R(st)
    @m((cls, 'resize'))
    def resize(ex, st, fn, a, ins):
        g = getvec(ex, st, a[0], vT(ex, fn)); n = ex.vget(g[0], g[1], 'len'); arr = ex.vget(g[0], g[1], 'arr')
        if len(fn.params) == 2: v = b2i(a[2]) if fn.params[1] == 'bool' else ex.read_obj(st, a[2], g[0][1])
        else:
            if not is_default_constructible_trivial(ex, g[0][1]): raise Unsupported('resize of %r' % (g[0][1],))
            v = dflt(ex, g[0][1])
        return R(fill_outs(ex, st, a[0], g[0], n, arr, a[1], v))
    @m((cls, 'operator='))
    def assign(ex, st, fn, a, ins):
        if not fn.params[0].startswith(cls): raise Unsupported('vector = ' + fn.params[0])
        g = getvec(ex, st, a[1], vT(ex, fn)); putvec(ex, st, a[0], g[0], g[1])
        if fn.params[0].endswith('&&'): putvec(ex, st, a[1], g[0], empty_vec(ex, g[0]))
        return R(st, a[0])
    @m((cls, 'assign'))
    def assign2(ex, st, fn, a, ins):
        ct = vT(ex, fn)
        if fn.params[0] == 'unsigned long':
            v = ex.read_obj(st, a[2], ct[1]); putvec(ex, st, a[0], ct, ex.vmk(ct, a[1], z3.K(z3.IntSort(), v))); return R(st)
        raise Unsupported('vector assign')
    @m((cls, 'swap'))
    def swap(ex, st, fn, a, ins):
        x = getvec(ex, st, a[0], vT(ex, fn)); y = getvec(ex, st, a[1]); putvec(ex, st, a[0], *y); putvec(ex, st, a[1], *x); return R(st)
    if cls == 'std::vector':
        @m((cls, 'begin'), (cls, 'data'), (cls, 'cbegin'))
        def begin(ex, st, fn, a, ins):
            ct = vT(ex, fn); getvec(ex, st, a[0], ct); return R(st, ex.step(a[0], ('elem', I(0), ct[1], 0)))
        @m((cls, 'end'), (cls, 'cend'))
        def end(ex, st, fn, a, ins):
            ct = vT(ex, fn); g = getvec(ex, st, a[0], ct); return R(st, ex.step(a[0], ('elem', ex.vget(g[0], g[1], 'len'), ct[1], 0)))
        @m((cls, 'insert'))
        def insert(ex, st, fn, a, ins):
            ct = vT(ex, fn); g = getvec(ex, st, a[0], ct); n = ex.vget(g[0], g[1], 'len'); arr = ex.vget(g[0], g[1], 'arr')
            pos = iterval(ex, st, a[1])
            if not isinstance(pos, Ptr) or pos.steps[-1][0] != 'elem': raise Unsupported('insert position')
            k = pos.steps[-1][1]
            if len(fn.params) == 3 and fn.params[1] == 'unsigned long':
                v = ex.read_obj(st, a[3], g[0][1]); cnt = a[2]
                if ex.must(st, n == 0):
                    putvec(ex, st, a[0], g[0], ex.vmk(g[0], cnt, z3.K(z3.IntSort(), v))); return R(st, pos)
                return R(insert_gap(ex, st, a[0], g, k, cnt, lambda j: v), pos)
            if len(fn.params) == 2:
                v = ex.read_obj(st, a[2], g[0][1])
                if ex.must(st, k == n):
                    putvec(ex, st, a[0], g[0], ex.vmk(g[0], z3.simplify(n + 1), z3.Store(arr, n, v))); return R(st, pos)
                return R(insert_gap(ex, st, a[0], g, k, I(1), lambda j: v), pos)
            if len(fn.params) == 3 and fn.params[1] == fn.params[2]:
                b, e = iterval(ex, st, a[2]), iterval(ex, st, a[3])
                src = subvec(ex, st, b, e, g[0])
                cnt = ex.vget(g[0], src, 'len'); sarr = ex.vget(g[0], src, 'arr')
                if ex.must(st, n == 0):
                    putvec(ex, st, a[0], g[0], src); return R(st, pos)
                return R(insert_gap(ex, st, a[0], g, k, cnt, lambda j: z3.Select(sarr, j)), pos)
            raise Unsupported('vector insert')
        @m((cls, 'erase'))
        def erase(ex, st, fn, a, ins):
            ct = vT(ex, fn); g = getvec(ex, st, a[0], ct); n = ex.vget(g[0], g[1], 'len'); arr = ex.vget(g[0], g[1], 'arr')
            pos = iterval(ex, st, a[1]); k = pos.steps[-1][1]
            if len(fn.params) == 2:
                e = iterval(ex, st, a[2]).steps[-1][1]
                ex.safe(st, 'erase range valid', z3.And(0 <= k, k <= e, e <= n))
            else:
                ex.safe(st, 'erase position valid', z3.And(k >= 0, k < n)); e = k + 1
            na = fresh(arr.sort(), 'erased'); j = z3.Int('j!er')
            st.assume(z3.ForAll([j], na[j] == z3.If(j < k, arr[j], arr[j + (e - k)])))
            putvec(ex, st, a[0], g[0], ex.vmk(g[0], z3.simplify(n - (e - k)), na))
            return R(st, ex.step(a[0], ('elem', k, ct[1], 0)))
def insert_gap(ex, st, p, g, k, cnt, f):
    n = ex.vget(g[0], g[1], 'len'); arr = ex.vget(g[0], g[1], 'arr')
    na = fresh(arr.sort(), 'ins'); j = z3.Int('j!ins')
    st.assume(z3.ForAll([j], na[j] == z3.If(j < k, arr[j], z3.If(j < k + cnt, f(j - k), arr[j - cnt]))))
    putvec(ex, st, p, g[0], ex.vmk(g[0], n + cnt, na)); return st
def fill_outs(ex, st, p, ct, n, arr, m_, v):
    """resize to m_ with fill value v"""
    if ex.must(st, m_ <= n):
        putvec(ex, st, p, ct, ex.vmk(ct, m_, arr)); return st
    d = z3.simplify(m_ - n)
    if is_c(d) and 0 <= cv(d) <= 8:
        for i in range(cv(d)): arr = z3.Store(arr, z3.simplify(n + i), v)
        putvec(ex, st, p, ct, ex.vmk(ct, m_, arr)); return st
    if ex.must(st, n == 0):
        putvec(ex, st, p, ct, ex.vmk(ct, m_, z3.K(z3.IntSort(), v))); return st
    na = fresh(arr.sort(), 'resized'); j = z3.Int('j!rs')
    st.assume(z3.ForAll([j], na[j] == z3.If(z3.And(j >= n, j < m_), v, arr[j])))
    putvec(ex, st, p, ct, ex.vmk(ct, m_, na)); return st
def subvec(ex, st, b, e, ct):
    if not (isinstance(b, Ptr) and b.steps and b.steps[-1][0] == 'elem'): raise Unsupported('iterator range')
    g = ex.get(st, Ptr(b.rid, b.off, b.steps[:-1]))
    lo, hi = b.steps[-1][1], e.steps[-1][1]
    arr = ex.vget(g[0], g[1], 'arr')
    if C.ctname(g[0]) != C.ctname(ct): raise Unsupported('range of other type')
    if is_c(lo) and cv(lo) == 0: return ex.vmk(ct, hi, arr)
    na = fresh(arr.sort(), 'sub'); j = z3.Int('j!sv')
    st.assume(z3.ForAll([j], na[j] == arr[j + lo]))
    return ex.vmk(ct, z3.simplify(hi - lo), na)
def iterval(ex, st, x):
    """iterator argument passed by value: pointer itself, or pointer to the iterator object"""
    if isinstance(x, Ptr) and x.steps and x.steps[-1][0] in ('elem', 'node', 'char', 'buf'): return x
    if isinstance(x, Ptr):
        g = ex.get(st, x)
        if g is not None and isinstance(g[1], Ptr): return g[1]
    return x
for _c in ('std::vector', 'std::deque', 'std::list'): vecmodel(_c)

# stack/queue adaptors over deque (sequence leaf directly)
def adT(fn): return ('vec', C.parse(fn.clsargs[0]))
@m(('std::stack', 'stack'))
def _(ex, st, fn, a, ins):
    ct = adT(fn)
    if not fn.params: putvec(ex, st, a[0], ct, empty_vec(ex, ct)); return R(st)
    raise Unsupported('stack ctor')
@m(('std::stack', '~stack'))
def _(ex, st, fn, a, ins): return R(st)
@m(('std::stack', 'push'))
def _(ex, st, fn, a, ins):
    g = getvec(ex, st, a[0]); n = ex.vget(g[0], g[1], 'len')
    putvec(ex, st, a[0], g[0], ex.vmk(g[0], z3.simplify(n + 1), z3.Store(ex.vget(g[0], g[1], 'arr'), n, ex.read_obj(st, a[1], g[0][1])))); return R(st)
@m(('std::stack', 'pop'))
def _(ex, st, fn, a, ins):
    g = getvec(ex, st, a[0]); n = ex.vget(g[0], g[1], 'len'); ex.safe(st, 'pop of non-empty stack', n > 0)
    putvec(ex, st, a[0], g[0], ex.vmk(g[0], z3.simplify(n - 1), ex.vget(g[0], g[1], 'arr'))); return R(st)
@m(('std::stack', 'top'))
def _(ex, st, fn, a, ins):
    g = getvec(ex, st, a[0]); return R(st, ex.step(a[0], ('elem', z3.simplify(ex.vget(g[0], g[1], 'len') - 1), g[0][1], 0)))
@m(('std::stack', 'empty'))
def _(ex, st, fn, a, ins):
    g = getvec(ex, st, a[0]); return R(st, z3.simplify(ex.vget(g[0], g[1], 'len') == 0))
@m(('std::stack', 'size'))
def _(ex, st, fn, a, ins):
    g = getvec(ex, st, a[0]); return R(st, ex.vget(g[0], g[1], 'len'))

# --------------------------------------------------------------- map / set
STRING_ORDERS = ('hfst::implementations::string_comparison',)   # proved to be the byte-wise order in C03
def okcmp(t):
    t = C.norm(t); return t.startswith('std::less<') or t in STRING_ORDERS
def mT(fn):
    if fn.cls == 'std::map': 
        if len(fn.clsargs) > 2 and not okcmp(fn.clsargs[2]): raise Unsupported('map with custom comparator')
        return ('map', C.parse(fn.clsargs[0]), C.parse(fn.clsargs[1]))
    if len(fn.clsargs) > 1 and not okcmp(fn.clsargs[1]): raise Unsupported('set with custom comparator')
    return ('set', C.parse(fn.clsargs[0]))
def empty_map(ex, ct):
    s = ex.L.sort(ct); ks = ex.L.sort(ct[1]); vs = ex.L.sort(ct[2]) if ct[0] == 'map' else z3.BoolSort()
    vg = garbage(ex, ct[2]) if ct[0] == 'map' else FALSE
    return s.map(z3.K(ks, FALSE), z3.K(ks, vg), I(0), z3.K(z3.IntSort(), garbage(ex, ct[1])), z3.K(ks, I(0)))
def getmap(ex, st, p, ct=None):
    if not isinstance(p, Ptr): raise Unsupported('map object %r' % (p,))
    g = ex.get(st, p)
    if g is None: raise Unsupported('uninitialised map %r' % p)
    if g[0][0] not in ('map', 'set'): raise Unsupported('expected map, found %r' % (g[0],))
    if p.steps: ex.bounds(st, p)
    st.assume(z3.And(ex.mget(g[0], g[1], 'size') >= 0, ex.mget(g[0], g[1], 'size') < 2**48))
    return g
def map_key_facts(ex, st, g, k):
    """instance of the enumeration axioms at key k"""
    ct, v = g
    dom, keys, idx, size = (ex.mget(ct, v, w) for w in ('dom', 'keys', 'idx', 'size'))
    st.assume(z3.Implies(dom[k], z3.And(idx[k] >= 0, idx[k] < size, keys[idx[k]] == k)))
def map_pos_facts(ex, st, g, i):
    ct, v = g
    dom, keys, idx, size = (ex.mget(ct, v, w) for w in ('dom', 'keys', 'idx', 'size'))
    st.assume(z3.Implies(z3.And(i >= 0, i < size), z3.And(dom[keys[i]], idx[keys[i]] == i)))
def map_insert(ex, st, g, k, val=None):
    """functional insert (key may be present: then unchanged unless val given)"""
    ct, v = g; s = ex.L.sort(ct)
    dom, vv, size, keys, idx = (ex.mget(ct, v, w) for w in ('dom', 'val', 'size', 'keys', 'idx'))
    nk = fresh(keys.sort(), 'keys'); ni = fresh(idx.sort(), 'idx')
    if not ex.must(st, z3.Not(dom[k])): st.assume(z3.Implies(dom[k], z3.And(nk == keys, ni == idx)))
    nv = vv if val is None else z3.Store(vv, k, val)
    return s.map(z3.Store(dom, k, TRUE), nv, z3.If(dom[k], size, size + 1), nk, ni)
def mapmodel(cls):
    base = cls.split('::')[-1]
    @m((cls, base))
    def ctor(ex, st, fn, a, ins):
        ct = mT(fn); p = fn.params
        if not p or p[0].startswith('std::allocator') or p[0].startswith('std::less'):
            ex.put(st, a[0], ct, empty_map(ex, ct)); return R(st)
        if p[0].startswith(cls):
            g = getmap(ex, st, a[1]); ex.put(st, a[0], g[0], g[1])
            if p[0].endswith('&&'): ex.put(st, a[1], g[0], empty_map(ex, g[0]))
            return R(st)
        raise Unsupported('%s ctor %s' % (cls, p))
    @m((cls, '~' + base))
    def dtor(ex, st, fn, a, ins): return R(st)
    @m((cls, 'operator='))
    def assign(ex, st, fn, a, ins):
        mT(fn)
        g = getmap(ex, st, a[1]); ex.put(st, a[0], g[0], g[1])
        if fn.params[0].endswith('&&'): ex.put(st, a[1], g[0], empty_map(ex, g[0]))
        return R(st, a[0])
    @m((cls, 'size'))
    def size(ex, st, fn, a, ins):
        g = getmap(ex, st, a[0]); return R(st, ex.mget(g[0], g[1], 'size'))
    @m((cls, 'empty'))
    def empty(ex, st, fn, a, ins):
        g = getmap(ex, st, a[0]); return R(st, z3.simplify(ex.mget(g[0], g[1], 'size') == 0))
    @m((cls, 'clear'))
    def clear(ex, st, fn, a, ins):
        ct = mT(fn); ex.put(st, a[0], ct, empty_map(ex, ct)); return R(st)
    @m((cls, 'count'), (cls, 'contains'))
    def count(ex, st, fn, a, ins):
        ct = mT(fn); g = getmap(ex, st, a[0]); k = ex.read_obj(st, a[1], ct[1]); map_key_facts(ex, st, g, k)
        d = ex.mget(g[0], g[1], 'dom')[k]
        return R(st, d if fn.meth == 'contains' else z3.If(d, I(1), I(0)))
    @m((cls, 'find'))
    def find(ex, st, fn, a, ins):
        ct = mT(fn); g = getmap(ex, st, a[0]); k = ex.read_obj(st, a[1], ct[1]); map_key_facts(ex, st, g, k)
        pos = z3.If(ex.mget(g[0], g[1], 'dom')[k], ex.mget(g[0], g[1], 'idx')[k], ex.mget(g[0], g[1], 'size'))
        pv = fresh(z3.IntSort(), 'pos'); st.assume(pv == pos)
        return R(st, ex.step(a[0], ('node', pv, ct, 0)))
    @m((cls, 'begin'), (cls, 'cbegin'))
    def begin(ex, st, fn, a, ins):
        g = getmap(ex, st, a[0]); return R(st, ex.step(a[0], ('node', I(0), g[0], 0)))
    @m((cls, 'end'), (cls, 'cend'))
    def end(ex, st, fn, a, ins):
        g = getmap(ex, st, a[0]); return R(st, ex.step(a[0], ('node', ex.mget(g[0], g[1], 'size'), g[0], 0)))
    @m((cls, 'operator[]'))
    def sub(ex, st, fn, a, ins):
        ct = mT(fn); g = getmap(ex, st, a[0]); ct = g[0]; k = ex.read_obj(st, a[1], ct[1]); map_key_facts(ex, st, g, k)
        dom = ex.mget(g[0], g[1], 'dom'); vv = ex.mget(g[0], g[1], 'val')
        outs = []
        pct = ex.pair_ct(ct)[2]; voff = ex.L.fields(pct)[1][0]
        mk = lambda: ex.step(a[0], ('kv', k, pct, voff))
        if ex.must(st, dom[k]): return R(st, mk())
        absent = ex.must(st, z3.Not(dom[k]))
        for o in default_construct(ex, st, ct[2]):
            if o.kind != 'ret': outs.append(o); continue
            ex.put(o.st, a[0], ct, map_insert(ex, o.st, g, k, o.val if absent else z3.If(dom[k], vv[k], o.val))); o.val = mk(); outs.append(o)
        return outs
    @m((cls, 'at'))
    def at(ex, st, fn, a, ins):
        ct = mT(fn); g = getmap(ex, st, a[0]); ct = g[0]; k = ex.read_obj(st, a[1], ct[1]); map_key_facts(ex, st, g, k)
        d = ex.mget(g[0], g[1], 'dom')[k]; outs = []
        if not ex.must(st, d):
            s2 = st.fork(); s2.assume(z3.Not(d))
            if ex.feasible(s2): outs.append(throw(ex, s2, '_ZTISt12out_of_range'))
            st.assume(d)
            if not ex.feasible(st): return outs
        pct = ex.pair_ct(ct)[2]
        return outs + R(st, ex.step(a[0], ('kv', k, pct, ex.L.fields(pct)[1][0])))
    @m((cls, 'insert'))
    def insert(ex, st, fn, a, ins):
        ct = mT(fn); p = fn.params
        if len(p) == 1 and not p[0].startswith('std::initializer_list'):
            g = getmap(ex, st, a[0]); ct = g[0]
            if ct[0] == 'set':
                k = ex.read_obj(st, a[1], ct[1]); map_key_facts(ex, st, g, k)
                isnew = z3.Not(ex.mget(ct, g[1], 'dom')[k]); nm = map_insert(ex, st, g, k)
                ex.put(st, a[0], ct, nm); pos = ex.mget(ct, nm, 'idx')[k]
                map_key_facts(ex, st, (ct, nm), k)
                return R(st, ('agg', [ex.step(a[0], ('node', pos, ct, 0)), b2i(isnew)]))
            pct = ex.pair_ct(ct)[2]
            pt = C.parse(p[0]); pt = pt[1] if pt[0] == 'ptr' else pt
            if pt not in [pct] and C.ctname(pt) != C.ctname(pct):
                if not (pt[0] == 'struct' and pt[1] in C.PAIRS): raise Unsupported('map insert of %r' % (pt,))
                A, B = C.PAIRS[pt[1]]
                if C.ctname(A) != C.ctname(ct[1]) or C.ctname(B) != C.ctname(ct[2]): raise Unsupported('map insert converting %r' % (pt,))
            k = ex.read_obj(st, a[1], ct[1]); v = ex.read_obj(st, ex.padd(a[1], ex.L.fields(pct)[1][0]), ct[2])
            map_key_facts(ex, st, g, k)
            d = ex.mget(ct, g[1], 'dom')[k]; vv = ex.mget(ct, g[1], 'val')
            nm = map_insert(ex, st, g, k, z3.If(d, vv[k], v))
            ex.put(st, a[0], ct, nm); map_key_facts(ex, st, (ct, nm), k)
            return R(st, ('agg', [ex.step(a[0], ('node', ex.mget(ct, nm, 'idx')[k], ct, 0)), b2i(z3.Not(d))]))
        if len(p) == 2 and p[0] == p[1]:
            # range insert of a whole container of the same type
            b, e = iterval(ex, st, a[1]), iterval(ex, st, a[2])
            if isinstance(b, Ptr) and b.steps[-1][0] == 'node' and is_c(b.steps[-1][1]) and cv(b.steps[-1][1]) == 0:
                src = ex.get(st, Ptr(b.rid, b.off, b.steps[:-1]))
                if not ex.must(st, e.steps[-1][1] == ex.mget(src[0], src[1], 'size')): raise Unsupported('partial range insert')
                g = getmap(ex, st, a[0])
                if src[0] != g[0] or ct[0] != 'set': raise Unsupported('range insert types')
                s = ex.L.sort(g[0]); d1 = ex.mget(g[0], g[1], 'dom'); d2 = ex.mget(src[0], src[1], 'dom')
                nd = z3.Map(z3.Or(TRUE, FALSE).decl(), d1, d2)
                f, w = ex.fresh_of(g[0], 'union')
                st.assume(w); n = ex.mget(g[0], f, 'size')
                st.assume([n >= ex.mget(g[0], g[1], 'size'), n <= ex.mget(g[0], g[1], 'size') + ex.mget(src[0], src[1], 'size')])
                ex.put(st, a[0], g[0], s.map(nd, ex.mget(g[0], g[1], 'val'), n, ex.mget(g[0], f, 'keys'), ex.mget(g[0], f, 'idx')))
                return R(st)
        raise Unsupported('%s insert %s' % (cls, p))
    @m((cls, 'erase'))
    def erase(ex, st, fn, a, ins):
        ct = mT(fn); g = getmap(ex, st, a[0]); ct = g[0]; s = ex.L.sort(ct)
        dom, vv, size = (ex.mget(ct, g[1], w) for w in ('dom', 'val', 'size'))
        p = fn.params
        byit = 'iterator' in p[0]
        if byit:
            it = iterval(ex, st, a[1]); i = it.steps[-1][1]; map_pos_facts(ex, st, g, i)
            ex.safe(st, 'erase of a valid iterator', z3.And(i >= 0, i < size))
            k = ex.mget(ct, g[1], 'keys')[i]
        else: k = ex.read_obj(st, a[1], ct[1]); map_key_facts(ex, st, g, k)
        f, w = ex.fresh_of(ct, 'er')
        nm = s.map(z3.Store(dom, k, FALSE), vv, z3.If(dom[k], size - 1, size), ex.mget(ct, f, 'keys'), ex.mget(ct, f, 'idx'))
        ex.put(st, a[0], ct, nm)
        if byit: return R(st, ex.step(a[0], ('node', fresh(z3.IntSort(), 'nextit'), ct, 0)))
        return R(st, z3.If(dom[k], I(1), I(0)))
    @m((cls, 'swap'))
    def swap(ex, st, fn, a, ins):
        x = getmap(ex, st, a[0]); y = getmap(ex, st, a[1]); ex.put(st, a[0], *y); ex.put(st, a[1], *x); return R(st)
for _c in ('std::map', 'std::set'): mapmodel(_c)

def default_construct(ex, st, ct):
    """value-initialise an object of type ct as a map does; runs the real default constructor for classes"""
    if ct[0] == 'struct' and ct[1] not in C.PAIRS:
        nm = ct[1].split('::')[-1]
        nm = nm.split('<')[0]
        ctor = '%s::%s()' % (ct[1], nm)
        for cand, sym_ in ex.mod.bydem.items():
            if C.norm(cand) == ctor:
                p = ex.alloc(st, 'dflt')
                outs = ex.call_function(st, sym_, [p])
                for o in outs:
                    if o.kind == 'ret': o.val = ex.read_obj(o.st, p, ct)
                return outs
        raise Unsupported('no default constructor for ' + ct[1])
    return R(st, dflt(ex, ct))

def itv(ex, st, p):
    g = ex.get(st, p)
    if g is None or not isinstance(g[1], Ptr): raise Unsupported('iterator at %r' % (p,))
    return g[1]
for _it in ('std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator'):
    @m((_it, 'operator->'), (_it, 'operator*'))
    def _(ex, st, fn, a, ins):
        it = itv(ex, st, a[0]); i = it.steps[-1][1]
        base = Ptr(it.rid, it.off, it.steps[:-1])
        g = getmap(ex, st, base); map_pos_facts(ex, st, g, i)
        ex.safe(st, 'dereferenced iterator is valid', z3.And(i >= 0, i < ex.mget(g[0], g[1], 'size')))
        k = ex.mget(g[0], g[1], 'keys')[i]
        return R(st, ex.step(base, ('kv', k, ex.pair_ct(g[0])[2] if g[0][0] == 'map' else g[0][1], 0)))
    @m((_it, 'operator++'))
    def _(ex, st, fn, a, ins):
        post = len(fn.params or []) == 1
        it = itv(ex, st, a[0]); k, i, c, o = it.steps[-1]
        n = Ptr(it.rid, it.off, it.steps[:-1] + ((k, z3.simplify(i + 1), c, o),))
        ex.put(st, a[0], ('ptr', C.VOID), n)
        return R(st, it if post else a[0])
    @m((_it, 'operator--'))
    def _(ex, st, fn, a, ins):
        post = len(fn.params or []) == 1
        it = itv(ex, st, a[0]); k, i, c, o = it.steps[-1]
        n = Ptr(it.rid, it.off, it.steps[:-1] + ((k, z3.simplify(i - 1), c, o),))
        ex.put(st, a[0], ('ptr', C.VOID), n)
        return R(st, it if post else a[0])
    @m((_it, 'operator=='))
    def _(ex, st, fn, a, ins): return R(st, ex.ptr_eq(st, itv(ex, st, a[0]), itv(ex, st, a[1])))
    @m((_it, 'operator!='))
    def _(ex, st, fn, a, ins): return R(st, z3.Not(ex.ptr_eq(st, itv(ex, st, a[0]), itv(ex, st, a[1]))))

# ------------------------------------------------------------- misc std
@m(('std::allocator', '*'), ('std::__new_allocator', '*'))
def _(ex, st, fn, a, ins):
    if fn.meth in ('allocator', '~allocator', '__new_allocator', '~__new_allocator'): return R(st)
    return None
for _e in ('overflow_error', 'runtime_error', 'logic_error', 'invalid_argument', 'out_of_range', 'length_error', 'range_error', 'domain_error'):
    @m(('std::' + _e, _e), ('std::' + _e, '~' + _e))
    def _(ex, st, fn, a, ins): return R(st)
@m(('std', '__throw_out_of_range'), ('std', '__throw_out_of_range_fmt'))
def _(ex, st, fn, a, ins): return [throw(ex, st, '_ZTISt12out_of_range')]
@m(('std', '__throw_length_error'))
def _(ex, st, fn, a, ins): return [throw(ex, st, '_ZTISt12length_error')]
@m(('std', 'terminate'), ('', '__clang_call_terminate'), ('', 'abort'), ('', 'exit'), ('', '_exit'))
def _(ex, st, fn, a, ins): return [Outcome(st, 'terminate', fn.meth)]

@m((BITREF, 'operator bool'))
def _(ex, st, fn, a, ins):
    e = ex.get(st, a[0])[1]; return R(st, z3.simplify(ex.to_z3(('int', 8, False, 'bool'), ex.get(st, e)[1]) != 0))
@m((BITREF, 'operator='))
def _(ex, st, fn, a, ins):
    e = ex.get(st, a[0])[1]; ct = ('int', 8, False, 'bool')
    if fn.params and fn.params[0] == 'bool': v = a[1]
    else: v = z3.simplify(ex.to_z3(ct, ex.get(st, ex.get(st, a[1])[1])[1]) != 0)
    ex.put(st, e, ct, b2i(v)); return R(st, a[0])
def model_c(ex, st, name, args): return None
def cfun(name):
    def deco(f): MODELS[('', name)] = f; return f
    return deco
@cfun('__cxa_allocate_exception')
def _(ex, st, fn, a, ins): return R(st, ex.alloc(st, 'exc'))
@cfun('__cxa_free_exception')
def _(ex, st, fn, a, ins): return R(st)
@cfun('__cxa_throw')
def _(ex, st, fn, a, ins):
    ti = a[1]
    nm = ti.rid[1:] if isinstance(ti, Ptr) else (ti.name if isinstance(ti, FnPtr) else None)
    return [Outcome(st, 'throw', (nm, a[0]))]
@cfun('__cxa_begin_catch')
def _(ex, st, fn, a, ins):
    st.ghost = dict(st.ghost); st.ghost['$caught'] = st.ghost.get('$caught', ()) + (st.ghost.get('$inflight'),)
    return R(st, a[0])
@cfun('__cxa_end_catch')
def _(ex, st, fn, a, ins):
    st.ghost = dict(st.ghost); st.ghost['$caught'] = st.ghost.get('$caught', ())[:-1]
    return R(st)
@cfun('__cxa_rethrow')
def _(ex, st, fn, a, ins):
    c = st.ghost.get('$caught', ())
    if c: return [Outcome(st, 'throw', c[-1])]
    return [Outcome(st, 'terminate', 'throw with no active exception')]
@cfun('__assert_fail')
def _(ex, st, fn, a, ins): return [Outcome(st, 'terminate', 'assertion failed')]
@cfun('strlen')
def _(ex, st, fn, a, ins): return R(st, slen(cstring(ex, st, a[0])))
@cfun('strcmp')
def _(ex, st, fn, a, ins):
    x, y = cstring(ex, st, a[0]), cstring(ex, st, a[1])
    r = fresh(z3.IntSort(), 'strcmp')
    st.assume([r >= 0, r < 2**32, (r == 0) == (x == y), (signed(r, 32) < 0) == str_lt(st, x, y)])
    return R(st, r)
@cfun('strdup')
def _(ex, st, fn, a, ins):
    s = cstring(ex, st, a[0]); p = ex.alloc(st, 'strdup'); st.mem[p.rid] = {0: Leaf(('str',), s)}
    return R(st, ex.step(p, ('char', I(0), None, 0)))
@cfun('free')
def _(ex, st, fn, a, ins): return R(st)
def _new(ex, st, fn, a, ins): return R(st, ex.alloc(st, 'new'))
MODELS[('', 'operator new')] = _new
def _del(ex, st, fn, a, ins): return R(st)
MODELS[('', 'operator delete')] = _del
MODELS[('', 'operator new[]')] = lambda ex, st, fn, a, ins: None
MODELS[('', 'operator delete[]')] = _del
@cfun('__cxa_guard_acquire')
def _(ex, st, fn, a, ins): raise Unsupported('function-local static')
@cfun('__cxa_atexit')
def _(ex, st, fn, a, ins): return R(st, I(0))

# --------------------------------------------------------------- string keyed by an equivalent comparator
# --------------------------------------------------------------- streams: an output stream is the sequence of bytes written so far
ITOA = z3.Function('decimal_text', z3.IntSort(), SEQ); FTOA = z3.Function('float_text', z3.Float32(), SEQ); DTOA = z3.Function('double_text', z3.Float64(), SEQ)
def osput(ex, st, p, t):
    if not isinstance(p, Ptr): raise Unsupported('stream %r' % (p,))
    if p.rid.startswith('@'): return            # std::cerr, std::cout: diagnostics
    g = ex.get(st, p)
    if g is None or g[0][0] != 'str': raise Unsupported('stream object %r' % (p,))
    ex.put(st, p, STR, cat(g[1], t))
def itext(ex, st, v, bits, sg):
    if sg: v = signed(v, bits)
    if is_c(z3.simplify(v) if z3.is_expr(v) else v):
        c = cv(z3.simplify(v)); return seq_of_bytes(str(c).encode())
    t = ITOA(v); st.assume([slen(t) >= 1, z3.Implies(v >= 0, z3.And(t[0] >= 48, t[0] <= 57))]); return t
INTT = {'int': (32, True), 'unsigned int': (32, False), 'long': (64, True), 'unsigned long': (64, False), 'short': (16, True), 'unsigned short': (16, False), 'long long': (64, True), 'unsigned long long': (64, False)}
def osins(ex, st, fn, a, ty, v):
    if ty in INTT: return itext(ex, st, v, *INTT[ty])
    if ty == 'bool': return z3.If(v if z3.is_bool(v) else v != 0, seq_of_bytes(b'1'), seq_of_bytes(b'0'))
    if ty == 'float': return FTOA(v)
    if ty == 'double': return DTOA(v)
    if ty in ('char', 'signed char', 'unsigned char'): return U(v)
    if ty.startswith('char const*') or ty.startswith(BS) or ty.startswith('std::string'): return strarg(ex, st, ty, v)
    return None
@m(('std', 'operator<<'))
def _(ex, st, fn, a, ins):
    if not fn.params or 'ostream' not in fn.params[0]: return None
    t = osins(ex, st, fn, a, fn.params[1], a[1])
    if t is None: return None
    osput(ex, st, a[0], t); return R(st, a[0])
def _osmember(ex, st, fn, a, ins):
    if fn.meth == 'operator<<':
        ty = fn.params[0]
        if '(*)' in ty or 'basic_ostream<' in ty:
            f = a[1]
            nm = ex.mod.dem.get(getattr(f, 'name', None), getattr(f, 'name', '')) if isinstance(f, FnPtr) else ''
            if 'endl' in str(nm): osput(ex, st, a[0], seq_of_bytes(b'\n')); return R(st, a[0])
            if 'flush' in str(nm): return R(st, a[0])
            return None
        t = osins(ex, st, fn, a, ty, a[1])
        if t is None: return None
        osput(ex, st, a[0], t); return R(st, a[0])
    if fn.meth == 'put': osput(ex, st, a[0], U(a[1])); return R(st, a[0])
    if fn.meth == 'write': osput(ex, st, a[0], chars(ex, st, a[1], a[2])); return R(st, a[0])
    if fn.meth == 'flush': return R(st, a[0])
    return None
for _c in ('std::basic_ostream', 'std::ostream'): MODELS[(_c, '*')] = _osmember
def _oss(ex, st, fn, a, ins):
    if fn.meth.startswith('~'): return R(st)
    if fn.meth in ('basic_ostringstream', 'ostringstream'):
        if fn.params and fn.params[0].startswith(BS): putstr(ex, st, a[0], getstr(ex, st, a[1]))
        else: ex.put(st, a[0], STR, EMPTY)
        return R(st)
    if fn.meth == 'str':
        if len(a) == 2 and not fn.params: putstr(ex, st, a[0], ex.get(st, a[1])[1]); return R(st)
        if fn.params: ex.put(st, a[0], STR, getstr(ex, st, a[1])); return R(st)
    return None
for _c in ('std::basic_ostringstream', 'std::ostringstream', 'std::__cxx11::basic_ostringstream', 'std::basic_stringstream'): MODELS[(_c, '*')] = _oss
MODELS[('', 'hfst_set_exception')] = lambda ex, st, fn, a, ins: R(st)
# --------------------------------------------------------------- input streams: the bytes, how many are read, eof and fail marks
# offset 0 holds a virtual table pointer whose virtual base offset leads to offset 8, where std::basic_ios is asked
IS_IOS, IS_ALL, IS_EOF, IS_FAIL, IS_POS = 8, 64, 96, 97, 104
B8 = ('int', 8, False)
def new_istream(ex, st, p, name, content=None):
    """content None: an arbitrary stream (the same bytes, if there was one here before)"""
    vt = ex.alloc(st, 'istream_vtable'); reg = {}
    for o in range(0, 64, 8): reg[o] = Leaf(('int', 64, False), I(IS_IOS))
    st.mem[vt.rid] = reg
    old = st.mem.get(p.rid, {}).get(IS_ALL)
    if content is not None: v, n, e, f = content, I(0), I(0), I(0)
    else:
        v, w = (old.v, []) if old is not None else ex.fresh_of(STR, name)
        st.assume(w); n, e, f = fresh(z3.IntSort(), name + '_pos'), fresh(z3.IntSort(), name + '_eof'), fresh(z3.IntSort(), name + '_fail')
        st.assume([e >= 0, e <= 1, f >= 0, f <= 1, n >= 0, n <= slen(v)])
    st.mem[p.rid] = {0: Leaf(('ptr', C.VOID), Ptr(vt.rid, 64)), IS_ALL: Leaf(STR, v), IS_EOF: Leaf(B8, e), IS_FAIL: Leaf(B8, f), IS_POS: Leaf(('int', 64, False), n)}
def istate(ex, st, p):
    reg = st.mem[p.rid]
    if IS_ALL not in reg: raise Unsupported('input stream %r' % (p,))
    return tuple(reg[o].v for o in (IS_ALL, IS_POS, IS_EOF, IS_FAIL))
def iset(ex, st, p, pos=None, eof=None, fail=None):
    reg = dict(st.mem[p.rid])
    for o, ct, v in ((IS_POS, ('int', 64, False), pos), (IS_EOF, B8, eof), (IS_FAIL, B8, fail)):
        if v is not None: reg[o] = Leaf(ct, z3.simplify(v))
    st.mem[p.rid] = reg
def isplit(ex, st, c):
    "both outcomes of a condition, where possible"
    a, b = st.fork(), st; a.assume(c); b.assume(z3.Not(c))
    return [(s, w) for s, w in ((a, True), (b, False)) if ex.feasible(s)]
def bad(ex, st, p): _, _, e, f = istate(ex, st, p); return z3.Or(e != 0, f != 0)
def iput(ex, st, p, n, S, at):
    "the n bytes of S from at on stored at p"
    if isinstance(p, Ptr) and p.steps and p.steps[-1][0] == 'char':
        v = z3.Extract(S, at, n)
        base = Ptr(p.rid, p.off, p.steps[:-1]); ct, s = ex.get(st, base); i = p.steps[-1][1]
        ex.safe(st, 'string data range in bounds', z3.And(i >= 0, n >= 0, i + n <= slen(s)))
        ex.put(st, base, ct, v if ex.must(st, z3.And(i == 0, n == slen(s))) else z3.Concat(z3.Extract(s, I(0), i), v, z3.Extract(s, i + n, slen(s) - i - n))); return
    if not (isinstance(p, Ptr) and is_c(n)): raise Unsupported('read into %r' % (p,))
    g = ex.get(st, p)
    if g is not None and g[0][0] in ('int', 'float') and ex.L.size(g[0]) == cv(n): ct = g[0]
    elif g is None: ct = ('int', 8 * cv(n), False)
    else: raise Unsupported('read into %r' % (p,))
    for k in range(cv(n)): st.assume([S[z3.simplify(at + k)] >= 0, S[z3.simplify(at + k)] < 256])
    x = le_value(S, at, cv(n))
    ex.put(st, p, ct, ex.b2f(st, x) if ct[0] == 'float' else x)
def _ismember(ex, st, fn, a, ins):
    p = a[0]
    if not isinstance(p, Ptr) or IS_ALL not in st.mem.get(p.rid, {}): return None
    if fn.meth == 'read':
        n = a[2]; outs = []
        for s, b in isplit(ex, st, bad(ex, st, p)):
            if b: iset(ex, s, p, fail=I(1)); outs.append(Outcome(s, 'ret', p)); continue
            S, at, _, _ = istate(ex, s, p)
            for s2, full in isplit(ex, s, slen(S) - at >= n):
                if full: iput(ex, s2, a[1], n, S, at); iset(ex, s2, p, pos=at + n)
                else:
                    g = fresh(SEQ, 'partly_read'); s2.assume(slen(g) == n); iput(ex, s2, a[1], n, g, I(0)); iset(ex, s2, p, pos=slen(S), eof=I(1), fail=I(1))
                outs.append(Outcome(s2, 'ret', p))
        return outs
    if fn.meth in ('get', 'peek') and len(a) == 1:
        outs = []
        for s, b in isplit(ex, st, bad(ex, st, p)):
            if b: iset(ex, s, p, fail=I(1)); outs.append(Outcome(s, 'ret', I(2**32 - 1))); continue
            S, at, _, _ = istate(ex, s, p)
            for s2, e in isplit(ex, s, at == slen(S)):
                if e: iset(ex, s2, p, eof=I(1), fail=I(1) if fn.meth == 'get' else None); outs.append(Outcome(s2, 'ret', I(2**32 - 1))); continue
                s2.assume([S[at] >= 0, S[at] < 256])
                if fn.meth == 'get': iset(ex, s2, p, pos=at + 1)
                outs.append(Outcome(s2, 'ret', S[at]))
        return outs
    return None
for _c in ('std::basic_istream', 'std::istream'): MODELS[(_c, '*')] = _ismember
def _ios(ex, st, fn, a, ins):
    p = a[0]
    if not isinstance(p, Ptr) or IS_ALL not in st.mem.get(p.rid, {}): return None
    _, _, e, f = istate(ex, st, p)
    if fn.meth in ('operator!', 'fail'): return R(st, f != 0)
    if fn.meth == 'operator bool': return R(st, f == 0)
    if fn.meth == 'eof': return R(st, e != 0)
    if fn.meth == 'good': return R(st, z3.And(e == 0, f == 0))
    return None
for _c in ('std::basic_ios', 'std::ios'): MODELS[(_c, '*')] = _ios
LINE_TEXT = z3.Function('text_up_to', SEQ, z3.IntSort(), z3.IntSort(), SEQ); LINE_NEXT = z3.Function('place_after', SEQ, z3.IntSort(), z3.IntSort(), z3.IntSort())
def getline_outs(ex, st, fn, a, ins):
    p = a[0]
    if not isinstance(p, Ptr) or IS_ALL not in st.mem.get(p.rid, {}): return None
    delim = a[2] if len(a) > 2 else I(10); outs = []
    for s, b in isplit(ex, st, bad(ex, st, p)):
        if b: iset(ex, s, p, fail=I(1)); outs.append(Outcome(s, 'ret', p)); continue
        S, at, _, _ = istate(ex, s, p)
        if getattr(ex.cur, 'opaque_lines', False):
            # std::getline by name only: what holds for any function 'text up to the delimiter' holds for the real one
            for s2, no in isplit(ex, s, LINE_NEXT(S, at, delim) < 0):
                s2.assume(z3.Not(z3.Contains(LINE_TEXT(S, at, delim), U(delim))))
                if no: putstr(ex, s2, a[1], LINE_TEXT(S, at, delim)); iset(ex, s2, p, pos=slen(S), eof=I(1), fail=z3.If(at == slen(S), I(1), I(0)))
                else: putstr(ex, s2, a[1], LINE_TEXT(S, at, delim)); iset(ex, s2, p, pos=LINE_NEXT(S, at, delim))
                outs.append(Outcome(s2, 'ret', p))
            continue
        i = z3.IndexOf(S, U(delim), at)
        for s2, no in isplit(ex, s, i < 0):
            if no: putstr(ex, s2, a[1], z3.Extract(S, at, slen(S) - at)); iset(ex, s2, p, pos=slen(S), eof=I(1), fail=z3.If(at == slen(S), I(1), I(0)))
            else: putstr(ex, s2, a[1], z3.Extract(S, at, i - at)); iset(ex, s2, p, pos=i + 1)
            outs.append(Outcome(s2, 'ret', p))
    return outs
MODELS[('std', 'getline')] = getline_outs
@cfun('clock')
def _(ex, st, fn, a, ins):
    v, w = ex.fresh_of(('int', 64, True), 'clock'); st.assume(w); return R(st, v)
@cfun('malloc')
def _(ex, st, fn, a, ins):
    n = a[0]; p = ex.alloc(st, 'malloc'); s = fresh(SEQ, 'malloc'); st.assume(slen(s) == n); st.mem[p.rid] = {0: Leaf(STR, s)}
    return R(st, ex.step(p, ('char', I(0), None, 0)))
