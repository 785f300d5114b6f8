"""Symbolic execution of LLVM IR, function by function, for deductive verification.

 * machine integers: mathematical Int terms kept in canonical unsigned range [0,2^n),
   every wrap is explicit;
 * floats: IEEE terms (comparison exact, addition uninterpreted unless requested);
 * std::string -> Seq(Int); std::vector/list/deque -> (len, Array); std::map/set -> (dom,val,size,enumeration);
 * objects are flattened into typed leaves by byte offset (clang's record layouts);
 * loops: havoc of what the body changes + inductive invariants found by Houdini;
 * calls: contract if there is one, trusted model for the C++ standard library,
   otherwise the callee's own IR is executed (helpers need no annotation).
"""
import z3, re, time, struct as _struct, sys
from . import ctype as C
from . import ll

sys.setrecursionlimit(20000)

class Unsupported(Exception):
    pass
class Budget(Exception):
    pass

NPOS = 2**64 - 1
I = z3.IntVal
def is_c(x): return z3.is_int_value(x)
def cv(x): return x.as_long()
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)

class Ptr:
    __slots__ = ('rid', 'off', 'steps')
    def __init__(self, rid, off=0, steps=()):
        self.rid, self.off, self.steps = rid, off, steps
    def __repr__(self): return 'Ptr(%s+%s%s)' % (self.rid, self.off, ''.join('/%s[%s]+%s' % (s[0], s[1], s[3]) for s in self.steps))
class Null:
    def __repr__(self): return 'NULL'
NULL = Null()
class FnPtr:
    def __init__(self, name): self.name = name
class VTab(FnPtr):
    "the virtual function table of an object, by the static class of the object"
    def __init__(self, cls, k=0): self.cls, self.k, self.name = cls, k, '$vtable'
class Undef:
    def __repr__(self): return 'undef'
UNDEF = Undef()

class Leaf:
    __slots__ = ('ct', 'v')
    def __init__(self, ct, v): self.ct, self.v = ct, v
    def __repr__(self): return '%s:%s' % (self.ct, self.v)

class State:
    __slots__ = ('mem', 'pc', 'env', 'active', 'exc', 'precise', 'trace', 'ghost', 'depth')
    def __init__(self):
        self.mem = {}; self.pc = []; self.env = {}; self.active = (); self.exc = None; self.precise = True; self.trace = (); self.ghost = {}; self.depth = 0
    def fork(self):
        s = State(); s.mem = dict(self.mem); s.pc = list(self.pc); s.env = dict(self.env); s.active = self.active
        s.exc = self.exc; s.precise = self.precise; s.trace = self.trace; s.ghost = dict(self.ghost); s.depth = self.depth
        return s
    def assume(self, c):
        if isinstance(c, (list, tuple)):
            for x in c: self.assume(x)
            return self
        if c is True or z3.is_true(c): return self
        self.pc.append(c); return self

class Outcome:
    """end of a function: kind in ret/throw/terminate"""
    __slots__ = ('st', 'kind', 'val')
    def __init__(self, st, kind, val=None): self.st, self.kind, self.val = st, kind, val

_fresh = [0]
def fresh(sort, name='v'):
    _fresh[0] += 1
    return z3.Const('%s!%d' % (name, _fresh[0]), sort)

def ite(c, a, b):
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    return z3.If(c, a, b)

def signed(x, n):
    if is_c(x):
        v = cv(x); return I(v - 2**n if v >= 2**(n-1) else v)
    return z3.If(x >= 2**(n-1), x - 2**n, x)
def unsigned_of(x, n):
    """map a mathematical int in signed range to canonical"""
    if is_c(x): return I(cv(x) % 2**n)
    return z3.If(x < 0, x + 2**n, x)
def b2i(b):
    if z3.is_true(b): return I(1)
    if z3.is_false(b): return I(0)
    return z3.If(b, I(1), I(0))
def i2b(x):
    if is_c(x): return z3.BoolVal(cv(x) % 2 == 1)
    if z3.is_app_of(x, z3.Z3_OP_ITE):
        a, b = x.arg(1), x.arg(2)
        if is_c(a) and is_c(b):
            if cv(a) % 2 == 1 and cv(b) % 2 == 0: return x.arg(0)
            if cv(a) % 2 == 0 and cv(b) % 2 == 1: return z3.Not(x.arg(0))
    return x != 0 if getattr(x, '_isbool', False) else (x % 2 == 1)

class Obligation:
    __slots__ = ('name', 'fn', 'status', 'time', 'backend', 'model', 'precise', 'detail', 'n')
    def __init__(self, fn, name): self.fn, self.name, self.status, self.time, self.backend, self.model, self.precise, self.detail, self.n = fn, name, 'open', 0.0, 'z3', None, True, '', 0

def limits(s, ms):
    """effort in solver steps (about ms milliseconds on an idle machine), so that a busy machine decides the same; time only as a backstop"""
    s.set('rlimit', int(ms * 1800)); s.set('timeout', int(ms * 4))
class Solver:
    def __init__(self, timeout_ms=10000):
        self.timeout = timeout_ms; self.queries = 0; self.time = 0.0; self.feas_cache = {}
        self.axioms = []
    def check(self, fs, timeout=None, model=False):
        t = time.time()
        s = z3.Solver()
        limits(s, timeout or self.timeout)
        for f in self.axioms: s.add(f)
        for f in fs: s.add(f)
        r = s.check()
        self.queries += 1
        self.time += time.time() - t
        if r == z3.sat: return 'sat', (s.model() if model else None)
        if r == z3.unsat: return 'unsat', None
        return 'unknown', None

_hq = {}
def has_quant(f):
    k = f.get_id()
    if k in _hq and _hq[k][0].eq(f): return _hq[k][1]
    seen = set(); st = [f]; r = False
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): r = True; break
        st.extend(x.children())
    _hq[k] = (f, r)
    return r
ADDR_BASE = 10**6

class Engine:
    def __init__(self, mod, layouts, timeout_ms=10000, budget_s=600):
        self.mod, self.L = mod, layouts
        self.S = Solver(timeout_ms)
        self.contracts = {}       # demangled name -> Contract
        self.known_ptr = {}       # addr int -> Ptr
        self.ptr_addr = {}
        self.obls = []
        self.rcount = 0
        self.fn_stack = []
        self.inlined = set(); self.modelled = set(); self.contracted = set()
        self.deadline = time.process_time() + budget_s
        self.cur = None           # contract under verification
        self.max_paths = 4000
        self.paths = 0
        self.fadd = z3.Function('fadd', z3.Float32(), z3.Float32(), z3.Float32())
        self.fop = {}
        self.regname = {}
        self.global_types = {}
        self.quant_budget = None
        from . import stdmodel
        self.models = stdmodel

        self.loop_info = []; self.invariants = []; self.oblmap = {}
        self._normdem = {}
        for n in list(mod.alias) + list(mod.funcs): self._normdem.setdefault(C.canon(mod.dem.get(n, n)), n)
        for n in mod.funcs:
            if mod.funcs[n].defined: self._normdem[C.canon(mod.dem.get(n, n))] = n
        self.heap_ct = {}; self.heap_init_v = {}; self.ginit = {}
    def find_fn(self, dem):
        return self._normdem.get(C.canon(dem))
    def find_global(self, dem):
        d = C.norm(dem)
        for n in self.mod.globals:
            if C.norm(self.mod.dem.get(n, n)) == d: return n
        return None
    # ------------------------------------------------------------ memory
    def new_region(self, name='r'):
        self.rcount += 1
        rid = '%s#%d' % (name, self.rcount)
        return rid
    def alloc(self, st, name='r'):
        rid = self.new_region(name); st.mem[rid] = {}
        return Ptr(rid)
    def region(self, st, rid):
        if rid not in st.mem:
            if rid.startswith('heap:'):
                ct = self.heap_ct[rid]
                st.mem[rid] = {0: Leaf(('arr', ct, None), self.heap_init(rid, ct))}
            else:
                raise Unsupported('no region ' + rid)
        return st.mem[rid]
    heap_ct = {}
    heap_init_v = {}
    def heap_init(self, rid, ct):
        if rid not in self.heap_init_v:
            self.heap_init_v[rid] = z3.Const('H_' + C.sname(ct), z3.ArraySort(z3.IntSort(), self.L.sort(ct)))
        return self.heap_init_v[rid]
    def heap_ptr(self, addr, ct):
        rid = 'heap:' + C.ctname(ct)
        self.heap_ct[rid] = ct
        return Ptr(rid, 0, (('heap', addr, ct, 0),))
    def enc_ptr(self, p):
        """pointer value -> Int term (for storage inside SMT values)"""
        if isinstance(p, Null): return I(0)
        if isinstance(p, Undef): return fresh(z3.IntSort(), 'undefptr')
        if isinstance(p, Ptr):
            if p.rid.startswith('heap:') and len(p.steps) == 1 and p.steps[0][3] == 0: return p.steps[0][1]
            key = (p.rid, p.off, tuple((s[0], s[1].get_id() if z3.is_expr(s[1]) else s[1], s[3]) for s in p.steps))
            if key not in self.ptr_addr:
                a = -(len(self.ptr_addr) + 1)
                self.ptr_addr[key] = a; self.known_ptr[a] = p
            return I(self.ptr_addr[key])
        if z3.is_expr(p): return p
        raise Unsupported('enc_ptr %r' % (p,))
    def dec_ptr(self, t, ct):
        if isinstance(t, (Ptr, Null, Undef, FnPtr)): return t
        if ct[0] == 'vtab': return VTab(ct[1])
        t = z3.simplify(t) if not is_c(t) else t
        if is_c(t):
            v = cv(t)
            if v == 0: return NULL
            if v in self.known_ptr: return self.known_ptr[v]
        return self.heap_ptr(t, ct)
    def to_z3(self, ct, v):
        if ct[0] == 'ptr' or isinstance(v, (Ptr, Null)): return self.enc_ptr(v)
        if isinstance(v, Undef): return self.fresh_of(ct, 'undef')[0]
        if z3.is_expr(v) and z3.is_bool(v): return b2i(v)
        return v

    def fresh_of(self, ct, name='v'):
        """fresh value + well-formedness facts"""
        v = fresh(self.L.sort(ct), name)
        return v, self.wf(ct, v)
    def wf(self, ct, v, depth=0):
        k = ct[0]
        if k == 'int': return [v >= 0, v < (2 if len(ct) > 3 else 2**ct[1])]
        if k == 'ptr': return [v >= 0]
        if k == 'vec':
            s = self.L.sort(ct); return [s.len(v) >= 0, s.len(v) < 2**48]
        if k in ('map', 'set'):
            s = self.L.sort(ct); return [s.size(v) >= 0, s.size(v) < 2**48]
        if k == 'str': return [z3.Length(v) < 2**48]
        if k == 'struct':
            out = []
            s = self.L.sort(ct)
            for n, (o, c, nm) in enumerate(self.L.leaves(ct)):
                out += self.wf(c, s.accessor(0, n)(v), depth + 1)
            return out
        return []
    # struct datatype access
    def sfield(self, ct, v, off):
        s = self.L.sort(ct)
        for n, (o, c, nm) in enumerate(self.L.leaves(ct)):
            if o == off:
                if z3.is_app(v) and v.decl().eq(s.constructor(0)): return c, v.arg(n)
                return c, s.accessor(0, n)(v)
        raise Unsupported('field +%d of %s' % (off, ct))
    def sfield_by_name(self, ct, v, name):
        return self.sfield(ct, v, self.L.offset(ct, name))[1]
    def supd(self, ct, v, off, nv):
        s = self.L.sort(ct); args = []; hit = False
        for n, (o, c, nm) in enumerate(self.L.leaves(ct)):
            if o == off: args.append(nv); hit = True
            else: args.append(self.sfield(ct, v, o)[1])
        if not hit: raise Unsupported('field +%d of %s' % (off, ct))
        return s.constructor(0)(*args)
    def vget(self, ct, v, what):
        s = self.L.sort(ct)
        acc = {'len': 0, 'arr': 1}[what]
        if z3.is_app(v) and v.decl().eq(s.constructor(0)): return v.arg(acc)
        return s.accessor(0, acc)(v)
    def vmk(self, ct, n, a): return self.L.sort(ct).vec(n, a)
    def mget(self, ct, v, what):
        s = self.L.sort(ct)
        acc = {'dom': 0, 'val': 1, 'size': 2, 'keys': 3, 'idx': 4}[what]
        if z3.is_app(v) and v.decl().eq(s.constructor(0)): return v.arg(acc)
        return s.accessor(0, acc)(v)

    # location -> (ct, value) of the leaf object there
    def get(self, st, p, want=None):
        if not p.steps:
            reg = self.region(st, p.rid)
            lf = reg.get(p.off)
            if lf is None:
                return None
            return lf.ct, lf.v
        kind, idx, ct, inner = p.steps[-1]
        base = Ptr(p.rid, p.off, p.steps[:-1])
        g = self.get(st, base)
        if g is None: raise Unsupported('uninitialised container at %r' % base)
        cct, cv_ = g
        if kind == 'elem':
            if cct[0] != 'vec': raise Unsupported('elem of %r' % (cct,))
            e = z3.Select(self.vget(cct, cv_, 'arr'), idx); ect = cct[1]
        elif kind in ('heap', 'buf'):
            e = z3.Select(cv_, idx); ect = ct
        elif kind == 'kv':
            # pair<const K,V> node; struct view
            K = cct[1]
            if cct[0] == 'set':
                e, ect = idx, K
            else:
                _, _, pct = self.pair_ct(cct)
                voff = self.L.fields(pct)[1][0]
                if inner < voff:
                    if K[0] == 'struct': c, v = self.sfield(K, idx, inner); return c, v
                    return K, idx
                e = z3.Select(self.mget(cct, cv_, 'val'), idx); ect = cct[2]; inner = inner - voff
        elif kind == 'char':
            return ('int', 8, True), cv_[idx]
        else: raise Unsupported('get step ' + kind)
        if ect[0] == 'struct':
            return self.sfield(ect, e, inner)
        if inner != 0: raise Unsupported('inner offset %d of %r' % (inner, ect))
        return ect, e
    def pair_ct(self, mct):
        nm = 'std::pair<%s, %s>' % (C.ctname(mct[1]), C.ctname(mct[2]))
        C.PAIRS[nm] = (mct[1], mct[2])
        return mct[1], mct[2], ('struct', nm)
    def put(self, st, p, ct, v):
        if not p.steps:
            reg = dict(self.region(st, p.rid))
            if ct[0] == 'int' or ct[0] == 'ptr' or ct[0] in ('float', 'double'):
                sz = self.L.size(ct)
                old = reg.get(p.off)
                if old is not None and old.ct[0] in ('int',) and ct[0] == 'int' and old.ct[1] > ct[1]:
                    # narrower store into a wider scalar
                    self._split(reg, p.off, old)
                elif old is None:
                    # store into the middle of a wider int?
                    for o in range(p.off - 1, p.off - 8, -1):
                        l = reg.get(o)
                        if l is not None:
                            ls = self.L.size(l.ct)
                            if ls and l.ct[0] == 'int' and o + ls > p.off: self._split(reg, o, l)
                            break
                for o in range(p.off + 1, p.off + (sz or 1)):
                    if o in reg and reg[o].ct[0] in ('int', 'ptr', 'float'): del reg[o]
                if old is not None and old.ct[0] == ct[0] == 'int' and old.ct[1] == ct[1]: ct = old.ct
                if old is not None and old.ct[0] == 'ptr' and ct[0] == 'ptr' and ct[1] == C.VOID: ct = old.ct
            elif ct[0] in ('str', 'vec', 'map', 'set'):
                sz = self.L.size(ct)
                for o in [o for o in reg if p.off <= o < p.off + sz]: del reg[o]
            reg[p.off] = Leaf(ct, v); st.mem[p.rid] = reg
            return
        kind, idx, ect_, inner = p.steps[-1]
        base = Ptr(p.rid, p.off, p.steps[:-1])
        g = self.get(st, base)
        if g is None: raise Unsupported('uninitialised container at %r' % base)
        cct, cval = g
        def upd(ect, e, inner):
            if ect[0] == 'struct': 
                fct, _ = self.sfield(ect, e, inner)
                return self.supd(ect, e, inner, self.to_z3(fct, v))
            if inner != 0: raise Unsupported('put inner')
            return self.to_z3(ect, v)
        if kind == 'elem':
            arr = self.vget(cct, cval, 'arr'); ect = cct[1]
            ne = upd(ect, z3.Select(arr, idx), inner)
            self.put(st, base, cct, self.vmk(cct, self.vget(cct, cval, 'len'), z3.Store(arr, idx, ne)))
        elif kind in ('heap', 'buf'):
            ne = upd(ect_, z3.Select(cval, idx), inner)
            self.put(st, base, cct, z3.Store(cval, idx, ne))
        elif kind == 'kv':
            if cct[0] == 'set': raise Unsupported('store into set element')
            _, _, pct = self.pair_ct(cct)
            voff = self.L.fields(pct)[1][0]
            if inner < voff: raise Unsupported('store into map key')
            val = self.mget(cct, cval, 'val')
            ne = upd(cct[2], z3.Select(val, idx), inner - voff)
            s = self.L.sort(cct)
            self.put(st, base, cct, s.map(self.mget(cct, cval, 'dom'), z3.Store(val, idx, ne), self.mget(cct, cval, 'size'), self.mget(cct, cval, 'keys'), self.mget(cct, cval, 'idx')))
        elif kind == 'char':
            s = cval
            n = z3.Length(s)
            ch = self.to_z3(('int', 8, True), v)
            self.put(st, base, cct, z3.Concat(z3.Extract(s, I(0), idx), z3.Unit(ch), z3.Extract(s, idx + 1, n - idx - 1)))
        else: raise Unsupported('put step ' + kind)
    def _split(self, reg, off, leaf):
        n = leaf.ct[1] // 8
        v = leaf.v
        if not z3.is_expr(v): del reg[off]; return
        for i in range(n):
            b = I((cv(v) >> (8*i)) & 255) if is_c(v) else (v / (256**i)) % 256
            reg[off + i] = Leaf(('int', 8, False), b)

    # whole objects
    def read_obj(self, st, p, ct):
        if ct[0] == 'struct' and self.L.known(ct):
            if p.steps:
                kind, idx, ect, inner = p.steps[-1]
                if kind in ('elem', 'heap', 'buf') and inner == 0 and ect == ct:
                    g = self.get(st, Ptr(p.rid, p.off, p.steps[:-1]))
                    if kind == 'elem': return z3.Select(self.vget(g[0], g[1], 'arr'), idx)
                    return z3.Select(g[1], idx)
                if kind == 'kv':
                    g = self.get(st, Ptr(p.rid, p.off, p.steps[:-1]))
                    if g[0][0] == 'set' and g[0][1] == ct: return idx
            args = []
            for o, c, n in self.L.leaves(ct):
                args.append(self.read_leaf(st, self.padd(p, o), c))
            return self.L.sort(ct).constructor(0)(*args)
        return self.read_leaf(st, p, ct)
    def read_leaf(self, st, p, ct):
        g = self.get(st, p)
        if g is None:
            v = self.load_scalar_parts(st, p, ct)
            if v is not None: return v
            v, w = self.fresh_of(ct, 'uninit'); st.assume(w)
            if not p.steps: self.put(st, p, ct, v)
            return v
        gct, v = g
        if ct[0] in ('int', 'float', 'ptr') and gct[0] in ('int', 'float', 'ptr') and gct[:2] != ct[:2]:
            if not (gct[0] == 'ptr' and ct[0] == 'ptr'):
                v = self.convert_load(st, p, gct, v, ct)
        return self.to_z3(ct, v)
    def write_obj(self, st, p, ct, v):
        if ct[0] == 'struct' and self.L.known(ct):
            if p.steps:
                kind, idx, ect, inner = p.steps[-1]
                if kind in ('elem', 'heap', 'buf') and inner == 0 and ect == ct:
                    base = Ptr(p.rid, p.off, p.steps[:-1])
                    cct, cval = self.get(st, base)
                    if kind == 'elem':
                        self.put(st, base, cct, self.vmk(cct, self.vget(cct, cval, 'len'), z3.Store(self.vget(cct, cval, 'arr'), idx, v)))
                    else:
                        self.put(st, base, cct, z3.Store(cval, idx, v))
                    return
            for o, c, n in self.L.leaves(ct):
                self.put(st, self.padd(p, o), c, self.sfield(ct, v, o)[1])
            return
        self.put(st, p, ct, v)
    def padd(self, p, n):
        if n == 0: return p
        if isinstance(p, Null): raise Unsupported('null + %d' % n)
        if p.steps:
            k, i, c, o = p.steps[-1]
            if k == 'char': return Ptr(p.rid, p.off, p.steps[:-1] + ((k, z3.simplify(i + n), c, o),))
            return Ptr(p.rid, p.off, p.steps[:-1] + ((k, i, c, o + n),))
        return Ptr(p.rid, p.off + n, p.steps)
    def step(self, p, s): return Ptr(p.rid, p.off, p.steps + (s,))

    # ---------------------------------------------------- obligations
    def oblige(self, st, name, cond, hyp=()):
        """record and try to discharge pc => cond"""
        if self.quiet: return True
        fn = self.cur.name if self.cur else '?'
        key = (fn, name)
        ob = self.oblmap.get(key)
        if ob is None:
            ob = Obligation(fn, name); ob.status = 'proved'; self.oblmap[key] = ob; self.obls.append(ob)
        ob.n += 1
        cond_s = z3.simplify(cond) if z3.is_expr(cond) else z3.BoolVal(bool(cond))
        if z3.is_true(cond_s): return True
        t = time.time()
        r, m = self.prove(list(st.pc) + list(hyp), cond)
        ob.time += time.time() - t
        if r == 'unsat': return True
        if r == 'sat' and st.precise:
            if ob.status != 'refuted': ob.status = 'refuted'; ob.model = m; ob.detail = 'path: ' + ' -> '.join(st.trace[-12:])
        elif ob.status != 'refuted':
            ob.status = 'undecided'; ob.detail = ('imprecise counterexample' if r == 'sat' else 'solver unknown') + ' path: ' + ' -> '.join(st.trace[-12:])
        return False
    oblmap = None
    def prove(self, hyps, goal, timeout=None):
        from . import portfolio
        return portfolio.prove(self, hyps, goal, timeout)
    def feasible(self, st, c=None):
        fs = [f for f in (st.pc if c is None else st.pc + [c]) if not has_quant(f)]
        if getattr(self.cur, 'abstract', '') == 'first': return self.light(fs) != 'unsat'
        r, _ = self.S.check(fs, timeout=700)
        return r != 'unsat'
    def light(self, fs):
        "without the hypotheses about the contents of strings"
        from . import portfolio
        for x in reversed(fs[-1:]):
            if portfolio.seq_ops(x): return self.S.check(fs, timeout=700)[0]
        return portfolio.abstract_strings(self, fs[:-1], fs[-1], 700)
    def must(self, st, c):
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        fs = [f for f in st.pc if not has_quant(f)] + [z3.Not(c)]
        if getattr(self.cur, 'abstract', '') == 'first': return self.light(fs) == 'unsat'
        r, _ = self.S.check(fs, timeout=700)
        return r == 'unsat'
    def tick(self):
        if time.process_time() > self.deadline: raise Budget('time budget')

    # ------------------------------------------------------- values
    def val(self, st, v, ty):
        k = v[0]
        if k == 'reg':
            try: return st.env[v[1]]
            except KeyError: raise Unsupported('undefined register %' + v[1])
        if k == 'int':
            if ty.k == 'int':
                if ty.n == 1: return z3.BoolVal(v[1] != 0)
                return I(v[1] % 2**ty.n)
            return I(v[1])
        if k == 'null': return NULL
        if k == 'undef': return UNDEF
        if k == 'zero':
            if ty.k == 'int': return I(0)
            if ty.k == 'ptr': return NULL
            if ty.k in ('float','double'): return z3.FPVal(0.0, z3.Float32() if ty.k == 'float' else z3.Float64())
            return ('agg', [])
        if k == 'fp': return self.fpval(v[1], ty)
        if k == 'glob': return self.glob(st, v[1])
        if k == 'cgep':
            b = self.val(st, v[2][0][1], v[2][0][0])
            return self.gep(st, v[1], b, [(t, self.val(st, x, t)) for t, x in v[2][1:]])
        if k == 'ccast':
            x = self.val(st, v[3], v[2])
            return x
        raise Unsupported('value %r' % (v,))
    def fpval(self, s, ty):
        if s.startswith('0x'):
            d = _struct.unpack('>d', bytes.fromhex(s[2:].rjust(16, '0')))[0]
        else: d = float(s)
        so = z3.Float32() if ty.k == 'float' else z3.Float64()
        if d != d: return z3.fpNaN(so)
        if d in (float('inf'), float('-inf')): return z3.fpInfinity(so, d < 0)
        return z3.FPVal(d, so)
    def glob(self, st, name):
        if name in self.mod.funcs or name in self.mod.alias: return FnPtr(name)
        rid = '@' + name
        if rid not in st.mem:
            g = self.mod.globals.get(name)
            if g is None: raise Unsupported('global ' + name)
            self.init_global(st, rid, name, g)
        return Ptr(rid)
    def init_global(self, st, rid, name, g):
        st.mem[rid] = {}
        if g['const'] and g['init'] is not None and g['init'][0] == 'cstr':
            bs = cstr_bytes(g['init'][1])
            st.mem[rid] = {0: Leaf(('conststr',), bs)}
            return
        if g['const'] and g['init'] is not None and g['init'][0] == 'zero' and g['ty'].k == 'arr':
            st.mem[rid] = {0: Leaf(('conststr',), bytes(g['ty'].n))}
            return
        if g['const'] and g['init'] is not None and g['init'][0] == 'agg' and g['ty'].k == 'arr' and g['ty'].a.k == 'int':
            arr = z3.K(z3.IntSort(), I(0))
            for n, (t, x) in enumerate(g['init'][1]): arr = z3.Store(arr, I(n), self.val(st, x, t))
            st.mem[rid] = {0: Leaf(('arr', ('int', g['ty'].a.n, False), g['ty'].n), arr)}
            return
        dem = self.mod.dem.get(name, name)
        ct = self.global_types.get(C.norm(dem))
        if g['const'] and g['init'] is not None and g['init'][0] in ('int', 'fp') and g['ty'].k in ('int', 'float', 'double'):
            st.mem[rid] = {0: Leaf(self.lct(g['ty']), self.val(st, g['init'], g['ty']))}; return
        if ct is None:
            # namespace-scope string constants (hfst::internal_*): the value their initialiser gives them
            m = re.match(r'^_ZN?4hfstL\d+internal_', name)
            if m:
                for fn in self.mod.funcs.values():
                    if not fn.defined or not fn.name.startswith('__cxx_global_var_init'): continue
                    for ln in fn.lines:
                        k = re.search(r'basic_string\w*EPKc\w*\(ptr [^@]*@%s, ptr [^@]*@([\w.]+)' % re.escape(name), ln)
                        if k is None: k = re.search(r'@_ZNSt7__cxx1112basic_string\w*C[12]I?\w*EPKc\w*\(ptr [^@]*@%s, ptr [^@]*@([\w.]+)' % re.escape(name), ln)
                        if k:
                            lit = self.mod.globals.get(k.group(1))
                            if lit is not None and lit['const'] and lit['init'] is not None and lit['init'][0] == 'cstr':
                                bs = cstr_bytes(lit['init'][1])
                                from .stdmodel import seq_of_bytes
                                st.mem[rid] = {0: Leaf(('str',), seq_of_bytes(bs[:bs.index(0)]))}; self.modelled.add('initialisers of hfst::internal_* constants'); return
            if g['ty'] is not None and g['ty'].k in ('int', 'float', 'double'):
                ct = self.lct(g['ty'])
            else:
                return   # untyped external object (e.g. std::cerr): usable only by models
        v, w = self.fresh_of(ct, 'g_' + dem.split('::')[-1])
        # same initial value on every path
        if rid in self.ginit: v, w = self.ginit[rid]
        else: self.ginit[rid] = (v, w)
        st.assume(w)
        p = Ptr(rid)
        if ct[0] == 'struct': self.write_obj(st, p, ct, v)
        else: st.mem[rid] = {0: Leaf(ct, v)}
    ginit = {}
    def lct(self, ty):
        if ty.k == 'int': return ('int', max(8, ty.n), False)
        if ty.k == 'float': return ('float',)
        if ty.k == 'double': return ('double',)
        if ty.k == 'ptr': return ('ptr', C.VOID)
        raise Unsupported('leaf type %r' % ty)

    # --------------------------------------------------------- gep
    def gep(self, st, sty, p, idx):
        if isinstance(p, Null):
            if all(is_c(i) and cv(i) == 0 for t, i in idx): return p
            raise Unsupported('gep null')
        if isinstance(p, VTab) and len(idx) == 1 and is_c(idx[0][1]): return VTab(p.cls, p.k + cv(idx[0][1]))
        if isinstance(p, (Undef, FnPtr)): raise Unsupported('gep on %r' % p)
        if z3.is_expr(p): raise Unsupported('gep on int')
        cur = sty
        first = True
        for t, i in idx:
            n = t.n
            if first:
                sz = self.mod.size(cur); first = False
                p = self.pindex(st, p, i, n, sz)
                continue
            if cur.k == 'named': cur = self.mod.types[cur.n]
            if cur.k == 'struct':
                if not is_c(i): raise Unsupported('symbolic field')
                offs, _, _ = self.mod.struct_layout(cur)
                p = self.padd(p, offs[cv(i)]); cur = cur.a[cv(i)]
            elif cur.k in ('arr', 'vec'):
                cur = cur.a
                p = self.pindex(st, p, i, n, self.mod.size(cur))
            else: raise Unsupported('gep into %r' % cur)
        return p
    def pindex(self, st, p, i, n, sz):
        """p + i*sz where i is an n-bit (signed) integer"""
        if is_c(i):
            k = cv(signed(i, n))
            if k == 0: return p
            s = I(k)
        else:
            s = signed(i, n)
            # loop indices are almost always known non-negative: drop the sign case split when provable
            if z3.is_app_of(s, z3.Z3_OP_ITE) and self.must(st, i < 2**(n-1)): s = i
        if p.steps:
            k, x, c, o = p.steps[-1]
            if k in ('elem', 'buf', 'heap'):
                es = self.L.size(c)
                if es == sz and o == 0 and k != 'heap':
                    return Ptr(p.rid, p.off, p.steps[:-1] + ((k, z3.simplify(x + s), c, o),))
                if is_c(s): return self.padd(p, cv(s) * sz)
            elif k == 'char' and sz == 1:
                return Ptr(p.rid, p.off, p.steps[:-1] + ((k, z3.simplify(x + s), c, o),))
            raise Unsupported('pointer arithmetic on %r' % p)
        # flat region
        reg = self.region(st, p.rid)
        lf = reg.get(p.off)
        if lf is not None and lf.ct[0] == 'conststr':
            return self.step(p, ('char', s, None, 0))
        if lf is not None and lf.ct[0] == 'arr' and self.L.size(lf.ct[1]) == sz:
            return self.step(p, ('buf', s, lf.ct[1], 0))
        if is_c(s): return self.padd(p, cv(s) * sz)
        raise Unsupported('symbolic index into %r' % p)

    # -------------------------------------------------- load/store
    def bounds(self, st, p):
        """memory-safety obligation for dereferencing p"""
        for n, s in enumerate(p.steps):
            kind, idx, ct, inner = s
            base = Ptr(p.rid, p.off, p.steps[:n])
            if kind == 'elem':
                g = self.get(st, base)
                ln = self.vget(g[0], g[1], 'len')
                self.safe(st, 'vector element access in bounds', z3.And(idx >= 0, idx < ln))
            elif kind == 'char':
                g = self.get(st, base)
                if g[0][0] == 'conststr': self.safe(st, 'string literal access in bounds', z3.And(idx >= 0, idx < len(g[1])))
                else: self.safe(st, 'string data access in bounds', z3.And(idx >= 0, idx <= z3.Length(g[1])))
            elif kind == 'heap':
                self.safe(st, 'pointer non-null', idx != 0)
            elif kind == 'buf':
                g = self.get(st, base)
                if g[0][2] is not None: self.safe(st, 'array access in bounds', z3.And(idx >= 0, idx < g[0][2]))
    def safe(self, st, name, c):
        if self.cur is not None and not self.cur.check_safety:
            st.assume(c); return
        if self.quiet: st.assume(c); return
        self.oblige(st, 'safety: ' + name, c)
        st.assume(c)
    quiet = False
    effects = False
    unroll = None
    unroll_cut = 0
    def load(self, st, p, ty):
        if isinstance(p, Null):
            self.safe(st, 'pointer non-null', FALSE); raise Dead()
        if isinstance(p, VTab) and ty.k == 'ptr': return FnPtr(self.virtual(p))
        if not isinstance(p, Ptr): raise Unsupported('load from %r' % (p,))
        self.bounds(st, p)
        if p.steps and p.steps[-1][0] == 'char':
            return self.load_char(st, p, ty)
        if not p.steps:
            lf = self.region(st, p.rid).get(p.off)
            if lf is not None and lf.ct[0] == 'conststr':
                return self.load_char(st, self.step(p, ('char', I(0), None, 0)), ty)
            if lf is not None and lf.ct[0] == 'arr':
                return self.load(st, self.step(p, ('buf', I(0), lf.ct[1], 0)), ty)
        want = self.lct(ty)
        g = self.get(st, p)
        if g is None:
            v = self.load_scalar_parts(st, p, want)
            if v is None:
                if ty.k == 'ptr': raise Unsupported('load of uninitialised pointer at %r' % p)
                v, w = self.fresh_of(want, 'uninit'); st.assume(w)
                if not p.steps: self.put(st, p, want, v)
            if ty.k == 'int' and ty.n == 1: return i2b(v)
            return v
        ct, v = g
        if isinstance(v, Undef):
            v, w = self.fresh_of(ct if ct[0] != 'ptr' else want, 'undef'); st.assume(w)
        if ty.k == 'ptr':
            if isinstance(v, (Ptr, Null, FnPtr)): return v
            if ct[0] == 'ptr': return self.dec_ptr(v, ct[1])
            if ct[0] == 'int' and ct[1] == 64: return self.dec_ptr(v, C.VOID)
            if ct[0] in ('vec','str','map','set'): raise Unsupported('raw access to %r' % (ct,))
            raise Unsupported('load ptr from %r' % (ct,))
        if ct[0] in ('vec','str','map','set','opaque','arr'): raise Unsupported('raw access to %r' % (ct,))
        if ct[0] == 'int' and want[0] == 'int' and ct[1] == want[1]:
            st.assume(self.range_fact(v, 1 if len(ct) > 3 else ct[1]))
            if ty.n == 1: return i2b(v)
            return v
        if ct[0] == want[0] and ct[0] in ('float', 'double'): return v
        return self.convert_load(st, p, ct, v, want)
    def range_fact(self, v, bits):
        if is_c(v): return True
        if z3.is_const(v): return True      # fresh constants carry their facts already
        return z3.And(v >= 0, v < 2**bits)
    def convert_load(self, st, p, ct, v, want):
        if isinstance(v, (Ptr, Null)):
            if want == ('int', 64, False): return self.enc_ptr(v)
            raise Unsupported('partial load of pointer')
        if ct[0] == 'int' and want[0] == 'int' and ct[1] > want[1]:
            return z3.simplify(v % 2**want[1])
        if ct[0] == 'int' and want[0] == 'int' and ct[1] < want[1]:
            x = self.load_scalar_parts(st, p, want)
            if x is not None: return x
        if ct[0] == 'float' and want == ('int', 32, False): return self.f2b(st, v)
        if ct[0] == 'int' and ct[1] == 32 and want[0] == 'float': return self.b2f(st, v)
        if want[0] == 'int' and want[1] == 64:
            x = self.load_scalar_parts(st, p, want)
            if x is not None: return x
        raise Unsupported('load %r as %r' % (ct, want))
    def load_scalar_parts(self, st, p, want):
        """assemble a scalar from narrower leaves, or take a slice of a wider one"""
        if p.steps: return None
        reg = self.region(st, p.rid)
        n = self.L.size(want)
        if n is None: return None
        # slice of wider
        for o in range(p.off - 1, p.off - 8, -1):
            l = reg.get(o)
            if l is not None:
                s = self.L.size(l.ct) if l.ct[0] in ('int',) else None
                if s and o + s >= p.off + n and z3.is_expr(l.v):
                    x = z3.simplify((l.v / 2**(8*(p.off-o))) % 2**(8*n))
                    if want[0] == 'float': return self.b2f(st, x)
                    return x
                break
        # concatenation
        if want[0] == 'int' or want[0] == 'float':
            tot = I(0); o = p.off; miss = False
            got = False
            while o < p.off + n:
                l = reg.get(o)
                if l is None or l.ct[0] not in ('int', 'float'):
                    # padding or uninitialised bytes
                    u, w = self.fresh_of(('int', 8, False), 'pad'); st.assume(w)
                    tot = tot + u * 2**(8*(o-p.off)); o += 1; continue
                s = self.L.size(l.ct)
                v = l.v
                if isinstance(v, Undef): v, w = self.fresh_of(l.ct, 'undef'); st.assume(w)
                if l.ct[0] == 'float': v = self.f2b(st, v)
                got = True
                tot = tot + v * 2**(8*(o-p.off)); o += s
            if not got: return None
            tot = z3.simplify(tot)
            if want[0] == 'float': return self.b2f(st, tot)
            return tot
        return None
    _f2b = z3.Function('f2b', z3.Float32(), z3.IntSort())
    _b2f = z3.Function('b2f', z3.IntSort(), z3.Float32())
    def f2b(self, st, f):
        if z3.is_app(f) and f.decl().eq(self._b2f): return f.arg(0)
        b = self._f2b(f); st.assume([b >= 0, b < 2**32, self._b2f(b) == f]); return b
    def b2f(self, st, b):
        if is_c(b):
            f = _struct.unpack('<f', _struct.pack('<I', cv(b) % 2**32))[0]
            if f == f and abs(f) != float('inf'): return z3.FPVal(f, z3.Float32())
        b = z3.simplify(b)
        if z3.is_app(b) and b.decl().eq(self._f2b): return b.arg(0)
        return self._b2f(b)
    def load_char(self, st, p, ty):
        base = Ptr(p.rid, p.off, p.steps[:-1]); idx = p.steps[-1][1]
        ct, s = self.get(st, base)
        if (ty.k == 'int' and ty.n in (16, 32, 64) or ty.k == 'float') and ct[0] == 'str':
            n = ty.n // 8 if ty.k == 'int' else 4
            self.safe(st, 'string data range in bounds', z3.And(idx >= 0, idx + n <= z3.Length(s)))
            bs = [s[z3.simplify(idx + k)] for k in range(n)]
            for b in bs: st.assume([b >= 0, b < 256])
            v = z3.Sum([b * 256**k for k, b in enumerate(bs)])
            return self.b2f(st, v) if ty.k == 'float' else v
        if ty.k != 'int' or ty.n != 8: raise Unsupported('load %r from string data' % ty)
        if ct[0] == 'conststr':
            if is_c(idx):
                k = cv(idx)
                if not (0 <= k < len(s)): raise Dead()
                return I(s[k])
            r = I(0)
            for n, b in enumerate(s): r = z3.If(idx == n, I(b), r)
            return r
        c = z3.If(idx == z3.Length(s), I(0), s[idx])
        if self.must(st, idx < z3.Length(s)): c = s[idx]
        st.assume(z3.And(c >= 0, c < 256))
        return c
    def store(self, st, p, ty, v):
        if isinstance(p, Null):
            self.safe(st, 'pointer non-null', FALSE); raise Dead()
        if not isinstance(p, Ptr): raise Unsupported('store to %r' % (p,))
        self.bounds(st, p)
        if ty.k == 'int' and ty.n == 1: v = b2i(v)
        if ty.k == 'struct':
            if isinstance(v, tuple) and v[0] == 'agg':
                offs, _, _ = self.mod.struct_layout(ty)
                for o, t, x in zip(offs, ty.a, v[1]): self.store(st, self.padd(p, o), t, x)
                return
            raise Unsupported('store aggregate')
        ct = self.lct(ty)
        if not p.steps:
            lf = self.region(st, p.rid).get(p.off)
            if lf is not None and lf.ct[0] == 'arr':
                return self.store(st, self.step(p, ('buf', I(0), lf.ct[1], 0)), ty, v)
            if lf is not None and lf.ct[0] in ('str','vec','map','set') and ty.k == 'ptr':
                raise Unsupported('raw store into %r' % (lf.ct,))
        if p.steps:
            g = self.get(st, p)
            if g[0][0] != ct[0] or (ct[0] == 'int' and g[0][1] != ct[1]):
                if g[0][0] == 'float' and ct == ('int', 32, False): v = self.b2f(st, v)
                else: raise Unsupported('store %r into %r' % (ct, g[0]))
            self.put(st, p, g[0], self.to_z3(g[0], v))
            return
        self.put(st, p, ct, v)

    # ------------------------------------------------ arithmetic
    def binop(self, st, o, n, a, b, fl):
        if isinstance(a, Undef): a, w = self.fresh_of(('int', n, False), 'undef'); st.assume(w)
        if isinstance(b, Undef): b, w = self.fresh_of(('int', n, False), 'undef'); st.assume(w)
        if isinstance(a, (Ptr, Null)) or isinstance(b, (Ptr, Null)):
            if o == 'sub':
                d = self.ptr_diff(st, a, b)
                return unsigned_of(d, 64)
            raise Unsupported('arithmetic on pointer')
        if n == 1:
            if o == 'xor': return z3.simplify(z3.Xor(a, b))
            if o == 'and': return z3.simplify(z3.And(a, b))
            if o == 'or': return z3.simplify(z3.Or(a, b))
            raise Unsupported('i1 ' + o)
        M = 2**n
        if o in ('and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            if is_c(a) and is_c(b):
                x, y = cv(a), cv(b)
                if o == 'and': return I(x & y)
                if o == 'or': return I(x | y)
                if o == 'xor': return I(x ^ y)
                if o == 'shl': return I((x << y) % M)
                if o == 'lshr': return I(x >> y)
                if o == 'udiv' and y: return I(x // y)
                if o == 'urem' and y: return I(x % y)
        if o == 'add':
            if is_c(a) and is_c(b): return I((cv(a) + cv(b)) % M)
            if is_c(a): a, b = b, a
            if is_c(b) and cv(b) >= M // 2:
                k = M - cv(b)
                return z3.If(a >= k, a - k, a - k + M) if not self.must(st, a >= k) else z3.simplify(a - k)
            s = z3.simplify(a + b)
            if self.must(st, s < M): return s
            return z3.If(s < M, s, s - M)
        if o == 'sub':
            if is_c(a) and is_c(b): return I((cv(a) - cv(b)) % M)
            s = z3.simplify(a - b)
            if self.must(st, s >= 0): return s
            return z3.If(s >= 0, s, s + M)
        if o == 'mul':
            if is_c(a) and is_c(b): return I((cv(a) * cv(b)) % M)
            if is_c(b): a, b = b, a
            if is_c(a):
                k = cv(a)
                if k == M - 1: return z3.If(b == 0, I(0), M - b)
                if k == 0: return I(0)
                if k == 1: return b
                if self.must(st, b * k < M): return b * k
            return (a * b) % M
        if o == 'udiv':
            if is_c(b) and cv(b): return a / b
        if o == 'urem':
            if is_c(b) and cv(b): return a % b
        if o == 'sdiv' and is_c(b):
            k = cv(signed(b, n)); sa = signed(a, n)
            if self.must(st, a < M // 2) and k > 0: return a / k
            q = z3.If(sa >= 0, sa / abs(k), -((-sa) / abs(k)))
            if k < 0: q = -q
            return unsigned_of(q, n)
        if o == 'srem' and is_c(b):
            k = abs(cv(signed(b, n))); sa = signed(a, n)
            if self.must(st, a < M // 2): return a % k
            return unsigned_of(z3.If(sa >= 0, sa % k, -((-sa) % k)), n)
        if o == 'shl' and is_c(b): return (a * 2**cv(b)) % M
        if o == 'lshr' and is_c(b): return a / 2**cv(b)
        if o == 'ashr' and is_c(b):
            return unsigned_of(signed(a, n) / 2**cv(b), n)
        if o in ('and', 'or', 'xor'):
            if is_c(a): a, b = b, a
            if is_c(b): return self.bitmask(o, n, a, cv(b))
            # general: go through bit-vectors
            f = {'and': lambda x, y: x & y, 'or': lambda x, y: x | y, 'xor': lambda x, y: x ^ y}[o]
            return z3.BV2Int(f(z3.Int2BV(a, n), z3.Int2BV(b, n)))
        raise Unsupported('binop ' + o)
    def bitmask(self, o, n, a, m):
        M = 2**n
        bit = lambda i: (a / 2**i) % 2
        if o == 'and':
            if m == 0: return I(0)
            if m == M - 1: return a
            # runs of ones
            r = None; i = 0
            while i < n:
                if (m >> i) & 1:
                    j = i
                    while j < n and (m >> j) & 1: j += 1
                    t = a if i == 0 else a / 2**i
                    if j < n: t = t % 2**(j - i)
                    t = t * 2**i if i else t
                    r = t if r is None else r + t
                    i = j
                else: i += 1
            return r
        if o == 'or':
            if m == 0: return a
            return a + m - self.bitmask('and', n, a, m)
        if o == 'xor':
            if m == M - 1: return (M - 1) - a
            return a + m - 2 * self.bitmask('and', n, a, m)
    def ptr_diff(self, st, a, b):
        """byte distance a-b as a mathematical integer"""
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.rid == b.rid:
            if a.off == b.off and len(a.steps) == len(b.steps) and a.steps:
                ka, kb = a.steps[-1], b.steps[-1]
                if self.same_steps(a.steps[:-1], b.steps[:-1]) and ka[0] == kb[0] and ka[0] in ('elem', 'buf', 'char'):
                    sz = 1 if ka[0] == 'char' else self.L.size(ka[2])
                    return (ka[1] - kb[1]) * sz + (ka[3] - kb[3])
            if not a.steps and not b.steps: return I(a.off - b.off)
        raise Unsupported('pointer difference %r %r' % (a, b))
    def same_steps(self, x, y):
        return len(x) == len(y) and all(p[0] == q[0] and p[3] == q[3] and (p[1] is q[1] or (z3.is_expr(p[1]) and z3.is_expr(q[1]) and z3.simplify(p[1]).eq(z3.simplify(q[1])))) for p, q in zip(x, y))
    def ptr_eq(self, st, a, b):
        if isinstance(a, Null) and isinstance(b, Null): return TRUE
        if isinstance(a, FnPtr) and isinstance(b, FnPtr): return z3.BoolVal(a.name == b.name)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Null):
                if isinstance(y, Ptr):
                    if len(y.steps) == 1 and y.steps[0][0] == 'heap' and y.steps[0][3] == 0: return y.steps[0][1] == 0
                    if y.steps and y.steps[-1][0] == 'node': raise Unsupported('node == null')
                    return FALSE
                if z3.is_expr(y): return y == 0
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.rid != b.rid: return FALSE
            if a.off == b.off and len(a.steps) == len(b.steps):
                cs = []
                for p, q in zip(a.steps, b.steps):
                    if p[0] != q[0]: raise Unsupported('ptr_eq')
                    if p[3] != q[3]: return FALSE
                    cs.append(p[1] == q[1])
                return z3.simplify(z3.And(*cs)) if cs else TRUE
            if not a.steps and not b.steps: return FALSE
        raise Unsupported('pointer comparison %r %r' % (a, b))
    def icmp(self, st, pred, ty, a, b):
        if ty.k == 'ptr' or isinstance(a, (Ptr, Null, FnPtr)) or isinstance(b, (Ptr, Null, FnPtr)):
            if pred == 'eq': return self.ptr_eq(st, a, b)
            if pred == 'ne': return z3.simplify(z3.Not(self.ptr_eq(st, a, b)))
            d = self.ptr_diff(st, a, b)
            return {'ult': d < 0, 'ule': d <= 0, 'ugt': d > 0, 'uge': d >= 0}[pred]
        if isinstance(a, Undef): a, w = self.fresh_of(('int', ty.n, False), 'undef'); st.assume(w)
        if isinstance(b, Undef): b, w = self.fresh_of(('int', ty.n, False), 'undef'); st.assume(w)
        if ty.n == 1:
            if pred == 'eq': return z3.simplify(a == b)
            if pred == 'ne': return z3.simplify(a != b)
        n = ty.n
        if pred in ('slt', 'sle', 'sgt', 'sge'):
            a, b = signed(a, n), signed(b, n)
        c = {'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: a < b, 'ule': lambda: a <= b, 'ugt': lambda: a > b, 'uge': lambda: a >= b,
                'slt': lambda: a < b, 'sle': lambda: a <= b, 'sgt': lambda: a > b, 'sge': lambda: a >= b}[pred]()
        return z3.simplify(c)
    def fcmp(self, pred, a, b):
        un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        base = {'eq': z3.fpEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ}
        if pred == 'ord': return z3.Not(un)
        if pred == 'uno': return un
        if pred == 'one': return z3.And(z3.Not(un), z3.Not(z3.fpEQ(a, b)))
        if pred == 'une': return z3.Not(z3.fpEQ(a, b))
        if pred[0] == 'o': return base[pred[1:]](a, b)
        if pred[0] == 'u': return z3.Or(un, base[pred[1:]](a, b))
        raise Unsupported('fcmp ' + pred)
    def fbin(self, o, a, b):
        key = (o, a.sort().name() if hasattr(a.sort(), 'name') else str(a.sort()))
        if o == 'fadd' and a.sort() == z3.Float32(): return self.fadd(a, b)
        f = self.fop.get((o, str(a.sort())))
        if f is None: f = self.fop[(o, str(a.sort()))] = z3.Function(o + str(len(self.fop)), a.sort(), a.sort(), a.sort())
        return f(a, b)
    def cast(self, st, o, ty, x, to):
        if isinstance(x, Undef): return UNDEF
        if o == 'zext':
            if ty.n == 1: return b2i(x)
            return x
        if o == 'sext':
            if ty.n == 1: return z3.If(x, I(2**to.n - 1), I(0))
            if is_c(x): return I(cv(signed(x, ty.n)) % 2**to.n)
            if self.must(st, x < 2**(ty.n-1)): return x
            return z3.If(x >= 2**(ty.n-1), x + (2**to.n - 2**ty.n), x)
        if o == 'trunc':
            if isinstance(x, (Ptr, Null)): raise Unsupported('trunc ptr')
            if to.n == 1: return i2b(x)
            if is_c(x): return I(cv(x) % 2**to.n)
            if self.must(st, x < 2**to.n): return x
            # sign-extension followed by truncation
            M = 2**to.n
            if self.must(st, z3.Or(x < M, x >= 2**ty.n - M)):
                return z3.If(x < M, x, x - (2**ty.n - M))
            return x % M
        if o in ('ptrtoint', 'inttoptr', 'bitcast'):
            if o == 'bitcast' and ty.k == 'float': return self.f2b(st, x)
            if o == 'bitcast' and to.k == 'float': return self.b2f(st, x)
            return x
        if o == 'fpext': return self.ffun('fpext', x, z3.Float64(), exact=z3.fpFPToFP)
        if o == 'fptrunc':
            if z3.is_app(x) and x.decl().name() == 'fpext': return x.arg(0)
            return self.ffun('fptrunc', x, z3.Float32())
        if o in ('sitofp', 'uitofp'):
            so = z3.Float32() if to.k == 'float' else z3.Float64()
            if is_c(x): return z3.FPVal(cv(signed(x, ty.n)) if o == 'sitofp' else cv(x), so)
            f = z3.Function('%s_%d_%s' % (o, ty.n, to.k), z3.IntSort(), so); return f(x)
        if o in ('fptosi', 'fptoui'):
            f = z3.Function('%s_%d_%s' % (o, to.n, ty.k), x.sort(), z3.IntSort()); r = f(x); st.assume([r >= 0, r < 2**to.n]); return r
        raise Unsupported('cast ' + o)
    def ffun(self, name, x, so, exact=None):
        f = z3.Function(name, x.sort(), so)
        return f(x)

    # ------------------------------------------------ execution
    def resolve(self, name):
        n = name
        while n in self.mod.alias: n = self.mod.alias[n]
        return n
    def call_function(self, st, name, args, instr=None):
        """-> list of Outcome"""
        self.tick()
        name = self.resolve(name)
        dem = self.mod.dem.get(name, name)
        c = self.contracts.get(C.canon(dem))
        if c is not None and (c is not self.cur or self.fn_stack):
            # contract at the call site (also for recursive calls)
            if not (c is self.cur and not self.fn_stack):
                if c.inline_at_call is False:
                    self.contracted.add(dem)
                    return c.apply(self, st, args)
        r = self.models.model(self, st, dem, args, instr)
        if r is not None: return r
        f = self.mod.funcs.get(name)
        if f is None or not f.defined:
            raise Unsupported('external function without model: ' + dem)
        if any(x == name for x in self.fn_stack): raise Unsupported('recursion without contract: ' + dem)
        if len(self.fn_stack) > 60: raise Unsupported('call depth')
        self.inlined.add(dem)
        return self.run_function(st, f, args)
    def run_function(self, st, f, args):
        f.parse(self.mod)
        saved = st.env; sact = st.active
        st.env = {}
        n = 0
        for (t, nm, sr), a in zip(f.args, args):
            if nm is None: nm = str(n)
            st.env[nm] = a; n += 1
        st.active = ()
        self.fn_stack.append(f.name)
        try:
            res = self.run(f, [(st, f.order[0], 0, None)], None)
        finally:
            self.fn_stack.pop()
        out = []
        for o in res['out']:
            o.st.env = dict(saved); o.st.active = sact
            out.append(o)
        return out
    def run(self, f, work, within):
        """worklist execution. within=header of the loop we are confined to.
        result: out (function outcomes), back (states reaching the header), exits (edges leaving the loop)"""
        res = {'out': [], 'back': [], 'exits': []}
        body = f.loops[within] if within is not None else None
        work = list(work)
        while work:
            st, b, ip, prev = work.pop()
            self.tick()
            if ip == 0 and prev is not None or (ip == 0 and b in f.loops and prev is None):
                if within is not None and b == within and prev is not None:
                    res['back'].append((st, prev)); continue
                if within is not None and b not in body:
                    res['exits'].append((st, b, prev)); continue
                if self.unroll is not None and b in f.loops:
                    key = ('$it', len(self.fn_stack), f.name, b)
                    n = st.ghost.get(key, 0) + 1 if (prev in f.loops[b]) else 1
                    if n > self.unroll + 1: self.unroll_cut += 1; continue
                    st.ghost = dict(st.ghost); st.ghost[key] = n
                elif b in f.loops and not (within == b):
                    from . import loops
                    r = loops.summarize(self, f, st, b, prev)
                    res['out'] += r['out']
                    for (s2, b2, p2) in r['exits']: work.append((s2, b2, 0, p2))
                    continue
            try:
                nxt = self.exec_block(f, st, b, ip, prev, res)
                work.extend(nxt)
            except Dead:
                pass
            self.paths = max(self.paths, len(work) + len(res['out']))
            if len(res['out']) + len(work) > self.max_paths: raise Budget('too many paths')
        return res
    def phis(self, f, st, b, prev):
        vals = {}
        for ins in f.blocks[b]:
            if ins.op != 'phi': break
            for v, pb in ins.d['inc']:
                if pb == prev:
                    vals[ins.res] = self.val(st, v, ins.d['ty']); break
            else: raise Unsupported('phi without edge')
        st.env.update(vals)
    def exec_block(self, f, st, b, ip, prev, res):
        ins_list = f.blocks[b]
        if ip == 0:
            if prev is not None and not (st.ghost.get('$phidone') == (f.name, b)): self.phis(f, st, b, prev)
            st.ghost.pop('$phidone', None)
        i = ip
        while i < len(ins_list):
            ins = ins_list[i]; op = ins.op; d = ins.d
            if op == 'phi' or op == 'nop': i += 1; continue
            if op in ('br', 'switch', 'ret', 'unreachable', 'resume', 'invoke'):
                return self.terminator(f, st, b, ins, res, i, prev)
            if op == 'call':
                outs = self.do_call(f, st, ins)
                nxt = []
                for o in outs:
                    if o.kind == 'ret':
                        if ins.res is not None: o.st.env[ins.res] = o.val
                        nxt.append((o.st, b, i + 1, prev))
                    else: res['out'].append(o)
                if len(nxt) == 1 and nxt[0][0] is st: i += 1; continue
                return nxt
            if op == 'select':
                c = self.val(st, d['c'], ll.Ty('int', n=1))
                x = self.val(st, d['a'], d['ty']); y = self.val(st, d['b'], d['ty'])
                if z3.is_true(c): st.env[ins.res] = x
                elif z3.is_false(c): st.env[ins.res] = y
                elif z3.is_expr(x) and z3.is_expr(y): st.env[ins.res] = z3.If(c, x, y)
                else:
                    s2 = st.fork()
                    st.assume(c); st.env[ins.res] = x
                    s2.assume(z3.Not(c)); s2.env[ins.res] = y
                    r = []
                    if self.feasible(st): r.append((st, b, i + 1, prev))
                    if self.feasible(s2): r.append((s2, b, i + 1, prev))
                    return r
                i += 1; continue
            self.simple(f, st, ins)
            i += 1
        raise Unsupported('fell off block')
    def simple(self, f, st, ins):
        op, d = ins.op, ins.d
        if op == 'alloca':
            rid = self.new_region('alloca.' + f.name[:0] + ins.res)
            st.mem[rid] = {}
            ty = d['ty']
            if ty.k == 'arr' and ty.a.k in ('int', 'ptr'):
                ect = self.lct(ty.a)
                arr = fresh(z3.ArraySort(z3.IntSort(), z3.IntSort()), 'buf')
                st.mem[rid] = {0: Leaf(('arr', ect, ty.n), arr)}
            if d['n'] is not None: raise Unsupported('dynamic alloca')
            st.env[ins.res] = Ptr(rid)
        elif op == 'load': st.env[ins.res] = self.load(st, self.val(st, d['p'], ll.Ty('ptr')), d['ty'])
        elif op == 'store': self.store(st, self.val(st, d['p'], ll.Ty('ptr')), d['ty'], self.val(st, d['v'], d['ty']))
        elif op == 'gep':
            st.env[ins.res] = self.gep(st, d['ty'], self.val(st, d['p'], ll.Ty('ptr')), [(t, self.val(st, v, t)) for t, v in d['idx']])
        elif op == 'icmp': st.env[ins.res] = self.icmp(st, d['pred'], d['ty'], self.val(st, d['a'], d['ty']), self.val(st, d['b'], d['ty']))
        elif op == 'fcmp': st.env[ins.res] = z3.simplify(self.fcmp(d['pred'], self.val(st, d['a'], d['ty']), self.val(st, d['b'], d['ty'])))
        elif op == 'bin':
            a, b = self.val(st, d['a'], d['ty']), self.val(st, d['b'], d['ty'])
            if d['ty'].k in ('float', 'double'): st.env[ins.res] = self.fbin(d['o'], a, b)
            elif d['ty'].k != 'int': raise Unsupported('vector op')
            else: st.env[ins.res] = self.binop(st, d['o'], d['ty'].n, a, b, d['fl'])
        elif op == 'fneg': st.env[ins.res] = z3.fpNeg(self.val(st, d['a'], d['ty']))
        elif op == 'cast': st.env[ins.res] = self.cast(st, d['o'], d['ty'], self.val(st, d['a'], d['ty']), d['to'])
        elif op == 'freeze': st.env[ins.res] = self.val(st, d['a'], d['ty'])
        elif op == 'extractvalue':
            a = self.val(st, d['a'], ll.Ty('struct'))
            for k in d['idx']:
                if isinstance(a, Undef): break
                a = a[1][k]
            st.env[ins.res] = a
        elif op == 'insertvalue':
            a = self.val(st, d['a'], d['ty']); n = len(d['ty'].a)
            l = list(a[1]) if isinstance(a, tuple) and a[1] else [UNDEF] * n
            l[d['idx'][0]] = self.val(st, d['b'], ll.Ty('ptr') if d['b'][0] != 'int' else ll.Ty('int', n=32))
            st.env[ins.res] = ('agg', l)
        elif op == 'landingpad':
            e = st.exc
            if e is None: raise Unsupported('landingpad without exception')
            sel = None
            # selector: position (from 1) of the first matching catch clause, 0 for cleanup
            selv = I(0)
            for cl in d['catch']:
                if cl[0] == 'null': selv = I(self.typeid(None)); break
                nm = cl[1] if cl[0] == 'glob' else None
                if nm is not None and self.exc_matches(e[0], nm): selv = I(self.typeid(nm)); break
            st.env[ins.res] = ('agg', [e[1] if e[1] is not None else NULL, selv])
            st.ghost = dict(st.ghost); st.ghost['$inflight'] = e
            st.exc = None
        else: raise Unsupported('instruction ' + ins.text[:80])
    _tid = {}
    def typeid(self, nm):
        if nm not in self._tid: self._tid[nm] = len(self._tid) + 1
        return self._tid[nm]
    def exc_matches(self, ti, nm):
        if ti == nm: return True
        # single inheritance through typeinfo globals
        seen = set()
        work = [ti]
        while work:
            t = work.pop()
            if t in seen: continue
            seen.add(t)
            if t == nm: return True
            g = self.mod.globals.get(t)
            if g and g['init'] and g['init'][0] == 'agg':
                for ty, v in g['init'][1]:
                    if v[0] == 'glob' and v[1].startswith('_ZTI'): work.append(v[1])
            for sub, sup in STD_EXC:
                if t == sub: work.append(sup)
        return False
    def virtual(self, p):
        "the function a virtual call on an object of class p.cls is checked against: the one of the class the contract names, or of the class itself"
        cls = (getattr(self.cur, 'virtuals', None) or {}).get(p.cls, p.cls)
        for nm, g in self.mod.globals.items():
            if nm.startswith('_ZTV') and self.mod.dem.get(nm, '') == 'vtable for ' + cls:
                m = re.findall(r'ptr (null|@"[^"]*"|@[-\w.$]+)', g['text'])
                t = m[p.k + 2].strip('@"') if p.k + 2 < len(m) else 'null'
                if t not in ('null', '__cxa_pure_virtual'):
                    self.modelled.add('virtual calls on %s taken as calls of %s' % (p.cls, cls)); return t
        raise Unsupported('virtual call %d of %s' % (p.k, cls))
    def do_call(self, f, st, ins):
        d = ins.d; cal = d['callee']
        if cal[0] == 'asm': raise Unsupported('inline asm')
        args = [self.val(st, v, t) for t, v in d['args']]
        if cal[0] == 'reg':
            fp = st.env[cal[1]]
            if not isinstance(fp, FnPtr): raise Unsupported('indirect call')
            name = fp.name
        else: name = cal[1]
        if name.startswith('llvm.'): return self.intrinsic(st, name, args, d)
        if name == '$callback': self.modelled.add('callback without effect on the objects of the caller'); return [Outcome(st, 'ret', None)]
        return self.call_function(st, name, args, ins)
    def intrinsic(self, st, name, args, d):
        R = lambda v=None: [Outcome(st, 'ret', v)]
        if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.donothing', 'llvm.va_', 'llvm.stacksave','llvm.stackrestore','llvm.experimental')): return R()
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            if not is_c(args[2]): raise Unsupported('memcpy of symbolic size')
            self.copy_bytes(st, args[0], args[1], cv(args[2])); return R()
        if name.startswith('llvm.memset'):
            if is_c(args[2]) and is_c(args[1]) and isinstance(args[0], Ptr) and not args[0].steps:
                n = cv(args[2]); reg = dict(self.region(st, args[0].rid)); lo = args[0].off
                for o in list(reg):
                    if lo <= o < lo + n:
                        if reg[o].ct[0] == 'arr': 
                            reg[o] = Leaf(reg[o].ct, z3.K(z3.IntSort(), I(cv(args[1])))); 
                        else: del reg[o]
                st.mem[args[0].rid] = reg
                if n <= 64 and lo not in reg:
                    for o in range(lo, lo + n): reg[o] = Leaf(('int', 8, False), I(cv(args[1]) % 256))
                return R()
            raise Unsupported('memset')
        if name.startswith('llvm.eh.typeid.for'):
            a = d['args'][0][1]
            return R(I(self.typeid(a[1] if a[0] == 'glob' else None)))
        m = re.match(r'llvm\.(umax|umin|smax|smin)\.i(\d+)', name)
        if m:
            n = int(m.group(2)); a, b = args
            x, y = (signed(a, n), signed(b, n)) if m.group(1)[0] == 's' else (a, b)
            return R(z3.If(x > y, a, b) if 'max' in m.group(1) else z3.If(x < y, a, b))
        if name.startswith('llvm.expect'): return R(args[0])
        if name.startswith('llvm.trap') or name.startswith('llvm.ubsantrap'): return [Outcome(st, 'terminate', 'trap')]
        m = re.match(r'llvm\.(fabs|abs)', name)
        raise Unsupported('intrinsic ' + name)
    def copy_bytes(self, st, dst, src, n):
        if n == 0: return
        if not isinstance(dst, Ptr) or not isinstance(src, Ptr): raise Unsupported('memcpy')
        leaves = []
        if not src.steps:
            reg = self.region(st, src.rid)
            lf = reg.get(src.off)
            if lf is not None and lf.ct[0] == 'conststr':
                for k in range(n): leaves.append((k, ('int', 8, True), I(lf.v[k])))
            else:
                for o in sorted(reg):
                    if src.off <= o < src.off + n: leaves.append((o - src.off, reg[o].ct, reg[o].v))
        else:
            kind, idx, ect, inner = src.steps[-1]
            if kind == 'kv':
                g = self.get(st, Ptr(src.rid, src.off, src.steps[:-1]))[0]
                ect = self.pair_ct(g)[2] if g[0] == 'map' else g[1]
            if ect is None: raise Unsupported('memcpy from chars')
            if ect[0] == 'struct':
                for o, c, nm in self.L.leaves(ect):
                    if inner <= o < inner + n:
                        leaves.append((o - inner, c, self.get(st, self.padd(src, o - inner))[1]))
            else: leaves.append((0, ect, self.get(st, src)[1]))
        self.bounds(st, src); self.bounds(st, dst)
        if not dst.steps:
            reg = dict(self.region(st, dst.rid))
            for o in list(reg):
                if dst.off <= o < dst.off + n: del reg[o]
            st.mem[dst.rid] = reg
        for o, c, v in leaves: self.put(st, self.padd(dst, o), c, v)
    def terminator(self, f, st, b, ins, res, ip, prev):
        op, d = ins.op, ins.d
        if op == 'br':
            if 'cond' not in d: return [(st, d['targets'][0], 0, b)]
            c = self.val(st, d['cond'], ll.Ty('int', n=1))
            if isinstance(c, Undef): c = fresh(z3.BoolSort(), 'undef')
            c = z3.simplify(c)
            if z3.is_true(c): return [(st, d['targets'][0], 0, b)]
            if z3.is_false(c): return [(st, d['targets'][1], 0, b)]
            s2 = st.fork()
            st.assume(c); s2.assume(z3.Not(c))
            st.trace += ('%s:T' % b,); s2.trace += ('%s:F' % b,)
            r = []
            if self.feasible(st): r.append((st, d['targets'][0], 0, b))
            if self.feasible(s2): r.append((s2, d['targets'][1], 0, b))
            return r
        if op == 'switch':
            v = self.val(st, d['v'], d['ty'])
            n = d['ty'].n
            if is_c(v):
                for k, t in d['cases']:
                    if k % 2**n == cv(v): return [(st, t, 0, b)]
                return [(st, d['default'], 0, b)]
            r = []
            groups = {}
            for k, t in d['cases']: groups.setdefault(t, []).append(v == k % 2**n)
            alln = []
            for t, cs in groups.items():
                s2 = st.fork(); s2.assume(z3.Or(*cs) if len(cs) > 1 else cs[0]); s2.trace += ('%s:case' % b,)
                alln += [z3.Not(x) for x in cs]
                if self.feasible(s2): r.append((s2, t, 0, b))
            st.assume(alln); st.trace += ('%s:default' % b,)
            if self.feasible(st): r.append((st, d['default'], 0, b))
            return r
        if op == 'ret':
            v = None if d['v'] is None else self.val(st, d['v'], d['ty'])
            res['out'].append(Outcome(st, 'ret', v)); return []
        if op == 'unreachable':
            # reached: undefined behaviour
            if not self.quiet and self.cur is not None and self.cur.check_safety:
                if self.feasible(st): self.oblige(st, 'safety: unreachable code is not reached', FALSE)
            return []
        if op == 'resume':
            e = st.ghost.get('$inflight'); res['out'].append(Outcome(st, 'throw', e)); return []
        if op == 'invoke':
            outs = self.do_call(f, st, ins)
            r = []
            for o in outs:
                if o.kind == 'ret':
                    if ins.res is not None: o.st.env[ins.res] = o.val
                    r.append((o.st, d['normal'], 0, b))
                elif o.kind == 'throw':
                    o.st.exc = o.val
                    r.append((o.st, d['unwind'], 0, b))
                else: res['out'].append(o)
            return r
        raise Unsupported('terminator ' + op)

class Dead(Exception):
    pass
STD_EXC = [('_ZTISt14overflow_error', '_ZTISt13runtime_error'), ('_ZTISt11range_error', '_ZTISt13runtime_error'), ('_ZTISt12out_of_range', '_ZTISt11logic_error'), ('_ZTISt11logic_error', '_ZTISt9exception'), ('_ZTISt16invalid_argument', '_ZTISt11logic_error'), ('_ZTISt12length_error', '_ZTISt11logic_error'), ('_ZTISt13runtime_error', '_ZTISt9exception'), ('_ZTISt9bad_alloc', '_ZTISt9exception')]

def cstr_bytes(tok):
    s = tok[2:-1]
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            out.append(int(s[i+1:i+3], 16)); i += 3
        else: out += s[i].encode('utf-8'); i += 1
    return bytes(out)
