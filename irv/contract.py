"""Function contracts."""
import z3, time, traceback
from .sym import *
from . import ctype as C
from . import sym, stdmodel

class Ctx:
    """names of a contract: parameters in a given state"""
    def __init__(self, ex, con, st, args, names):
        self.ex, self.con, self.args, self.names = ex, con, args, names
        self.pre = st.fork()
    applying = False
    def all(self, sort, f, name='y'):
        """for all y: f(y) - a fresh constant when proved, a quantifier when used"""
        if not self.applying: return f(fresh(sort, name))
        y = z3.Const(name + '!q', sort)
        return z3.ForAll([y], f(y))
    def ptr(self, path):
        nm, _, rest = path.partition('.')
        p = self.arg(nm); ct = self.con.ptypes[nm]
        if ct[0] == 'ptr': ct = ct[1]
        if not rest: return p, ct
        if rest.startswith('->'): pass
        o = self.ex.L.offset(ct, rest)
        return self.ex.padd(p, o), self.ex.L.field_ct(ct, rest)
    def arg(self, nm):
        return self.args[self.names.index(nm)]
    def stream(self, st, nm): return stdmodel.istate(self.ex, st, self.arg(nm))
    def text(self, nm):
        p = self.arg(nm); return self.ex.get(self.pre.fork(), Ptr(p.rid, p.off, p.steps[:-1]))[1], p.steps[-1][1]
    def cursor(self, st, nm):
        "text pointed into, and where, by the pointer that nm points to"
        q = self.ex.get(st.fork(), self.arg(nm))[1]; return self.ex.get(st.fork(), Ptr(q.rid, q.off, q.steps[:-1]))[1], q.steps[-1][1]
    def old(self, path): return self.at(self.pre, path)
    def at(self, st, path):
        nm, _, rest = path.partition('.')
        if self.con.ptypes[nm][0] != 'ptr' and not rest: return self.arg(nm)
        p, ct = self.ptr(path)
        return self.ex.read_obj(st.fork(), p, ct)
    # convenience on containers
    def vlen(self, v): return v.sort().accessor(0, 0)(v) if not (z3.is_app(v) and v.decl().eq(v.sort().constructor(0))) else v.arg(0)
    def varr(self, v): return v.sort().accessor(0, 1)(v) if not (z3.is_app(v) and v.decl().eq(v.sort().constructor(0))) else v.arg(1)
    def m(self, v, what):
        k = {'dom': 0, 'val': 1, 'size': 2, 'keys': 3, 'idx': 4}[what]
        if z3.is_app(v) and v.decl().eq(v.sort().constructor(0)): return v.arg(k)
        return v.sort().accessor(0, k)(v)
    def g(self, st, gname):
        """value of a global"""
        ex = self.ex
        return ex.read_obj(st.fork(), ex.glob(st, ex.find_global(gname)), C.parse(self.con.globals[gname]))
    def f(self, ctname, v, field):
        ct = C.parse(ctname) if isinstance(ctname, str) else ctname
        return self.ex.sfield_by_name(ct, v, field)

class Contract:
    check_safety = True
    inline_at_call = False
    loop_candidates = None
    ret = None            # 'bool' | CT | 'void' | 'sret' handled automatically
    sret = None           # CT of a class returned by value
    static = None
    budget = 120
    unroll_k = 3
    globals = {}
    def __init__(self, fn, unit=None, name=None, names=(), requires=None, ensures=None, modifies=(), on_throw=None, ret=None, sret=None,
                 check_safety=True, loop_candidates=None, globals=None, budget=120, setup=None, on_terminate=None, inline_at_call=False, unroll_k=3, argtypes=None, timeout=10000, only_on_ret=None, callable=True, exact=False, cost=1, witness=None, throw_outs=None, reveal=None, loop_facts=None, bmc_facts=None, trusted=None, result=None, auto_ms=None, auto_bounds=True, opaque_lines=False, virtuals=None, abstract='second', anywhere=False, auto=True):
        self.auto = auto   # generic loop-invariant candidates
        self.anywhere = anywhere  # char pointers may point into the middle of a string
        self.abstract = abstract   # retry loop-invariant checks with string terms abstracted
        self.auto_bounds = auto_bounds; self.opaque_lines = opaque_lines; self.virtuals = virtuals
        self.auto_ms = auto_ms   # time limit for the generic loop-invariant candidates
        self.trusted, self.result = trusted, result
        self.loop_facts, self.bmc_facts = loop_facts, bmc_facts
        self.reveal = reveal
        self.unit, self.callable, self.exact, self.cost, self.witness = unit, callable, exact, cost, witness
        self.bmc = False; self.ctx = None; self.reach = None; self.func = None
        if throw_outs: self.throw_outs = lambda ex, st, ctx: throw_outs(ex, st, ctx)
        self.fn = fn; self.name = name or fn; self.pnames = names
        self._req, self._ens, self.modifies, self._thr = requires, ensures, modifies, on_throw
        self.ret, self.sret = ret, sret
        self.check_safety = check_safety
        self.loop_candidates = loop_candidates
        self.globals = globals or {}
        self.budget = budget; self._setup = setup; self._term = on_terminate; self.inline_at_call = inline_at_call; self.unroll_k = unroll_k
        self.argtypes = argtypes or {}; self.timeout = timeout
    # ---------------------------------------------------------------
    def bind(self, ex):
        f = C.parse_fname(self.fn)
        name = ex.find_fn(self.fn)
        if name is None: return None
        func = ex.mod.funcs[ex.resolve(name)]
        n = len(func.args)
        names, types = [], {}
        ps = [C.parse(p) for p in (f.params or [])]
        k = 0
        if any(a[2] for a in func.args): names.append('$ret'); types['$ret'] = ('ptr', self.sret or ('opaque', '?')); k += 1
        if n - k == len(ps) + 1:
            names.append('this'); types['this'] = ('ptr', C.parse('::'.join(f.path)))
        elif n - k != len(ps): raise Unsupported('parameter mismatch for ' + self.fn)
        for i, p in enumerate(ps):
            nm = self.pnames[i] if i < len(self.pnames) else 'p%d' % i
            names.append(nm); types[nm] = self.argtypes.get(nm, p)
        for (t, _, _), a in zip(func.args, names):
            if t.k == 'ptr' and types[a][0] not in ('ptr', 'callback'): types[a] = ('ptr', types[a])   # class passed by (hidden) reference
        self.anames, self.ptypes, self.func = names, types, func
        return func
    def initial(self, ex):
        st = State()
        args = []
        for (t, nm, sr), a in zip(self.func.args, self.anames):
            ct = self.ptypes[a]
            if a == '$ret': p = ex.alloc(st, 'sret'); args.append(p); continue
            if ct[0] == 'callback': args.append(FnPtr('$callback')); continue
            if t.k == 'ptr':
                if ct[0] != 'ptr':
                    # class passed by (hidden) reference
                    p = ex.alloc(st, a); self.ptypes[a] = ('ptr', ct); ct = ('ptr', ct)
                else: p = ex.alloc(st, a)
                pt = ct[1]
                if pt == ('chars',):
                    # bytes, from an arbitrary place in a buffer on
                    v, w = ex.fresh_of(('str',), a); st.assume(w); i = fresh(z3.IntSort(), a + '_at')
                    st.assume([i >= 0, i <= z3.Length(v)]); ex.put(st, p, ('str',), v); args.append(ex.step(p, ('char', i, None, 0))); continue
                if pt == ('cursor',):
                    # pointer to a pointer into a NUL-terminated string
                    v, w = ex.fresh_of(('str',), a); st.assume(w); st.assume(z3.Not(z3.Contains(v, z3.Unit(I(0))))); i = fresh(z3.IntSort(), a + '_at')
                    st.assume([i >= 0, i <= z3.Length(v)]); q = ex.alloc(st, a + '_text'); ex.put(st, q, ('str',), v)
                    st.mem[p.rid] = {0: Leaf(('ptr', ('int', 8, True)), ex.step(q, ('char', i, None, 0)))}; args.append(p); continue
                if pt == ('istream',): stdmodel.new_istream(ex, st, p, a); args.append(p); continue
                if pt == ('int', 8, True) and a not in self.argtypes:
                    # char const*: NUL-terminated string, from an arbitrary place on
                    v, w = ex.fresh_of(('str',), a); st.assume(w); st.assume(z3.Not(z3.Contains(v, z3.Unit(I(0)))))
                    i = fresh(z3.IntSort(), a + '_at') if self.anywhere else I(0)
                    st.assume([i >= 0, i <= z3.Length(v)])
                    ex.put(st, p, ('str',), v); args.append(ex.step(p, ('char', i, None, 0))); continue
                if pt[0] == 'struct' and not ex.L.known(pt): args.append(p); continue
                if pt[0] == 'opaque': args.append(p); continue
                v, w = ex.fresh_of(pt, a); st.assume(w)
                ex.write_obj(st, p, pt, v)
                args.append(p)
            elif t.k == 'int':
                if t.n == 1: args.append(fresh(z3.BoolSort(), a))
                else:
                    v, w = ex.fresh_of(('int', t.n, False), a); st.assume(w); args.append(v)
            elif t.k in ('float', 'double'):
                args.append(fresh(z3.Float32() if t.k == 'float' else z3.Float64(), a))
            else: raise Unsupported('parameter type %r' % t)
        if self._setup: self._setup(ex, st, args, self)
        return st, args
    def requires(self, ctx): return self._req(ctx) if self._req else []
    def ensures(self, ctx, st, ret): return self._ens(ctx, st, ret) if self._ens else []
    # ---------------------------------------------------------------
    def verify(self, ex):
        """run the body, generate and discharge obligations"""
        ex.cur = self; ex.fn_stack = []
        for g, t in self.globals.items(): ex.global_types[g] = C.parse(t)
        if self.bind(ex) is None: raise Unsupported('function not found: ' + self.fn)
        st, args = self.initial(ex)
        for g in self.globals:
            n = ex.find_global(g)
            if n is None: raise Unsupported('global not found: ' + g)
            ex.glob(st, n)
        ctx = Ctx(ex, self, st, args, self.anames)
        for c in self.requires(ctx): st.assume(c)
        if self.reveal:
            for c in self.reveal(ctx): st.assume(c)
        if self.bmc and self.bmc_facts:
            for c in self.bmc_facts(ctx, ex.unroll): st.assume(c)
        r, _ = ex.S.check(st.pc, timeout=2000)
        self.cover = r
        if r == 'unsat': raise Unsupported('vacuous precondition')
        ctx.pre = st.fork(); self.ctx = ctx
        outs = ex.run_function(st, self.func, list(args))
        self.npaths = len(outs); self.nret = 0
        for o in outs:
            if o.kind == 'ret':
                self.nret += 1
                ret = o.val
                if self.reach is None and not self.bmc:
                    r, _ = ex.S.check(o.st.pc, timeout=1500)
                    if r != 'unsat': self.reach = r
                for nm, c in self.ensures(ctx, o.st, ret): ex.oblige(o.st, 'post: ' + nm, c)
                self.frame(ex, ctx, o.st)
            elif o.kind == 'throw':
                cl = self._thr(ctx, o.st, o.val) if self._thr else [('no exception escapes (%s)' % (o.val[0] if o.val else None), FALSE)]
                for nm, c in cl: ex.oblige(o.st, 'throws: ' + nm, c)
            else:
                cl = self._term(ctx, o.st, o.val) if self._term else [('never terminates abnormally (%s)' % o.val, FALSE)]
                for nm, c in cl: ex.oblige(o.st, 'no abort: ' + nm, c)
        if self.nret == 0 and not self._thr and not self.bmc: raise Unsupported('no returning path (vacuous)')
        return ctx
    def frame(self, ex, ctx, st):
        """everything reachable from the parameters/globals and not in `modifies` is unchanged"""
        if self.modifies == '*': return
        allowed = set()
        for m in self.modifies:
            if m.startswith('heap:'): allowed.add((m, None)); continue
            if m.startswith('@'):
                n = ex.find_global(m[1:]); allowed.add(('@' + n, None)); continue
            p, ct = ctx.ptr(m)
            if ct in (('istream',), ('cursor',)): allowed.add((p.rid, None)); continue
            if ct[0] == 'struct' and ex.L.known(ct):
                for o, c, n in ex.L.leaves(ct): allowed.add((p.rid, p.off + o))
            else: allowed.add((p.rid, p.off))
        for rid, reg in ctx.pre.mem.items():
            if rid.startswith('sret'): continue
            for off, lf in reg.items():
                if (rid, off) in allowed or (rid, None) in allowed: continue
                if lf.ct[0] == 'conststr': continue
                n = st.mem[rid].get(off)
                if n is None: ex.oblige(st, 'frame: %s+%d kept' % (rid.split('#')[0], off), FALSE); continue
                if n.v is lf.v: continue
                a, b = ex.to_z3(lf.ct, lf.v), ex.to_z3(n.ct, n.v)
                if lf.ct[0] in ('map', 'set'):
                    g = z3.And(ex.mget(lf.ct, a, 'dom') == ex.mget(lf.ct, b, 'dom'), ex.mget(lf.ct, a, 'val') == ex.mget(lf.ct, b, 'val'), ex.mget(lf.ct, a, 'size') == ex.mget(lf.ct, b, 'size'))
                else: g = a == b
                ex.oblige(st, 'frame: %s unchanged' % self.leafname(ex, rid, off), g)
    def leafname(self, ex, rid, off):
        nm = rid.split('#')[0]
        ct = self.ptypes.get(nm)
        if ct and ct[0] == 'ptr' and ct[1][0] == 'struct' and ex.L.known(ct[1]):
            for o, c, n in ex.L.leaves(ct[1]):
                if o == off: return nm + '.' + n
        return '%s+%d' % (nm, off)
    # ---------------------------------------------------------------
    def apply(self, ex, st, args):
        """use at a call site"""
        self.bind(ex)
        if not self.exact: st.precise = False
        for g, t in self.globals.items():
            ex.global_types.setdefault(g, C.parse(t))
            n = ex.find_global(g)
            if n is not None: ex.glob(st, n)
        ctx = Ctx(ex, self, st, args, self.anames)
        for n, c in enumerate(self.requires(ctx)):
            ex.oblige(st, 'pre of callee %s [%d]' % (self.name, n), c); st.assume(c)
        for m in self.modifies:
            if m.startswith('heap:'):
                if m in st.mem or m in ex.heap_ct:
                    lf = ex.region(st, m)[0]; st.mem[m] = {0: Leaf(lf.ct, fresh(lf.v.sort(), 'heap'))}
                continue
            if m.startswith('@'):
                p = ex.glob(st, ex.find_global(m[1:])); ct = C.parse(self.globals[m[1:]])
            else: p, ct = ctx.ptr(m)
            if ct == ('istream',): stdmodel.new_istream(ex, st, p, m); continue
            if ct == ('cursor',):
                lf = ex.get(st, p)[1]; k = lf.steps[-1]; n = fresh(z3.IntSort(), 'at')
                ex.put(st, p, ('ptr', ('int', 8, True)), Ptr(lf.rid, lf.off, lf.steps[:-1] + ((k[0], n) + k[2:],))); continue
            v, w = ex.fresh_of(ct, 'post'); st.assume(w); ex.write_obj(st, p, ct, v)
        ret = None
        if '$ret' in self.anames:
            v, w = ex.fresh_of(self.sret, 'ret'); st.assume(w); ex.write_obj(st, args[0], self.sret, v)
        elif self.ret == 'bool': ret = fresh(z3.BoolSort(), 'ret')
        elif isinstance(self.ret, tuple) or (self.ret and self.ret != 'void'):
            ct = C.parse(self.ret) if isinstance(self.ret, str) else self.ret
            v, w = ex.fresh_of(ct, 'ret'); st.assume(w)
            ret = v if ct[0] != 'ptr' else ex.dec_ptr(v, ct[1])
        outs = []
        for o in (self.throw_outs(ex, st, ctx) if hasattr(self, 'throw_outs') else []): outs.append(o)
        ctx.applying = True
        for st, ret in (self.result(ex, st, ctx) if self.result else [(st, ret)]):
            for nm, c in self.ensures(ctx, st, ret): st.assume(c)
            outs.append(Outcome(st, 'ret', ret))
        return outs
