"""Loop summarisation: havoc + Houdini inference of inductive invariants."""
import z3, time
from .sym import *
from . import ctype as C

import os
DEBUG = bool(os.environ.get("IRV_DEBUG"))
class LV:
    """a loop-carried variable, named by what it is, not by what it is called in the source"""
    __slots__ = ('name', 'kind', 'ct', 'get', 'entry', 'bound', 'where')
    def __init__(self, name, kind, ct, get, entry, bound=None, where=None):
        self.name, self.kind, self.ct, self.get, self.entry, self.bound, self.where = name, kind, ct, get, entry, bound, where
    def __repr__(self): return '%s:%s' % (self.name, self.kind)

def same(a, b):
    if a is b: return True
    if z3.is_expr(a) and z3.is_expr(b): return a.eq(b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.rid == b.rid and a.off == b.off and len(a.steps) == len(b.steps) and all(x[0] == y[0] and x[3] == y[3] and same(x[1], y[1]) for x, y in zip(a.steps, b.steps))
    if isinstance(a, Null) and isinstance(b, Null): return True
    return False

def havoc_val(ex, st, v, ct, hint):
    """fresh value of the same shape"""
    if isinstance(v, Ptr):
        if not v.steps: raise Unsupported('loop changes a pointer to %s' % v.rid)
        k, i, c, o = v.steps[-1]
        n = fresh(z3.IntSort(), 'it')
        if k in ('heap',): st.assume(n >= 0)
        return Ptr(v.rid, v.off, v.steps[:-1] + ((k, n, c, o),))
    if isinstance(v, Null): return None
    if isinstance(v, Undef): return v
    if z3.is_expr(v):
        if z3.is_bool(v): return fresh(z3.BoolSort(), 'lb')
        n = fresh(v.sort(), 'lv')
        if ct is not None: st.assume(ex.wf(ct, n))
        elif v.sort() == z3.IntSort(): st.assume(n >= 0)
        return n
    raise Unsupported('havoc %r' % (v,))

def joinable(a, b):
    return isinstance(a, Ptr) and isinstance(b, Ptr) and a.rid == b.rid and a.off == b.off and len(a.steps) == len(b.steps) and a.steps and \
        all(x[0] == y[0] and x[3] == y[3] and same(x[1], y[1]) for x, y in zip(a.steps[:-1], b.steps[:-1])) and a.steps[-1][0] == b.steps[-1][0] and a.steps[-1][3] == b.steps[-1][3]

def summarize(ex, f, st, header, prev):
    st0 = st
    if prev is not None: ex.phis(f, st0, header, prev)
    phis = [i for i in f.blocks[header] if i.op == 'phi']
    quiet0 = ex.quiet
    mod_mem = set(); mod_phi = {p.res: p.d['ty'] for p in phis}
    const_phi = set()
    heapify = {}; lvs = []
    def havoc(cands):
        h = st0.fork(); h.precise = False
        for n, ty in mod_phi.items():
            if n in const_phi: continue
            v = st0.env[n]
            ct = ('int', ty.n, False) if ty.k == 'int' and ty.n > 1 else None
            if n in heapify: nv = ex.heap_ptr(fresh(z3.IntSort(), 'hp'), heapify[n]); h.assume(nv.steps[0][1] >= 0)
            else: nv = havoc_val(ex, h, v, ct, n)
            if nv is None: raise Unsupported('loop-carried null pointer')
            h.env[n] = nv
        for rid, off in mod_mem:
            lf = st0.mem[rid].get(off)
            if lf is None: continue
            reg = dict(h.mem[rid])
            ct = lf.ct
            if isinstance(lf.v, (Ptr, Null)):
                nv = havoc_val(ex, h, lf.v, None, 'm')
                if nv is None:
                    raise Unsupported('loop-carried null pointer in memory')
            elif isinstance(lf.v, Undef): nv = lf.v
            elif lf.ct[0] == 'arr':
                nv = fresh(lf.v.sort(), 'lv')
            else: nv = havoc_val(ex, h, lf.v, ct, 'm')
            reg[off] = Leaf(ct, nv); h.mem[rid] = reg
        h.trace = h.trace + ('loop@' + header,)
        for nm, c in cands: h.assume(c(h))
        if lvs and ex.cur is not None and ex.cur.loop_facts is not None: h.assume(ex.cur.loop_facts(ex, f, h, lvs))
        return h
    def body(h):
        h.active = h.active + (header,)
        return ex.run(f, [(h, header, 0, None)], header)
    # --- what does the body change?
    ex.quiet = True
    try:
        for rnd in range(8):
            h = havoc([])
            hm = {r: dict(v) for r, v in h.mem.items()}
            henv = dict(h.env)
            # effects of the body only: loops inside it need no invariants for that, unless the body cannot be followed without them
            eff, ex.effects = ex.effects, True
            try: r = body(h)
            except Unsupported:
                if eff: raise
                ex.effects = False
                h = havoc([]); hm = {r: dict(v) for r, v in h.mem.items()}; henv = dict(h.env)
                r = body(h)
            finally: ex.effects = eff
            new = False
            for bs, bp in r['back']:
                for rid, reg in bs.mem.items():
                    if rid not in hm:
                        if rid.startswith('heap:') or rid.startswith('@'):
                            # region first touched in the body
                            if rid not in st0.mem: 
                                ex.region(st0, rid) if rid.startswith('heap:') else ex.glob(st0, rid[1:])
                                new = True
                        continue
                    for off, lf in reg.items():
                        o = hm[rid].get(off)
                        if o is not None and not same(o.v, lf.v) and (rid, off) not in mod_mem:
                            mod_mem.add((rid, off)); new = True
                    for off, lf in hm[rid].items():
                        if off not in reg and (rid, off) not in mod_mem and off in st0.mem.get(rid, {}):
                            mod_mem.add((rid, off)); new = True
                for ins in phis:
                    for v, pb in ins.d['inc']:
                        if pb == bp:
                            nv = ex.val(bs, v, ins.d['ty']); ov = henv[ins.res]
                            if isinstance(nv, Ptr) and isinstance(st0.env[ins.res], Ptr) and not joinable(nv, st0.env[ins.res]) and not same(nv, ov):
                                raise Unsupported('loop-carried pointer changes its base')
            if not new: break
        else: raise Unsupported('loop effect does not stabilise')
        # --- loop variables
        for ins in phis:
            n = ins.res; ty = ins.d['ty']; v = st0.env[n]
            if isinstance(v, Ptr):
                lvs.append(LV('phi.' + n, 'idx', None, (lambda s, n=n: s.env[n].steps[-1][1]), v.steps[-1][1], bound=contbound(ex, v), where=v))
            elif z3.is_expr(v) and z3.is_bool(v): lvs.append(LV('phi.' + n, 'bool', None, (lambda s, n=n: s.env[n]), v))
            elif z3.is_expr(v): lvs.append(LV('phi.' + n, 'int' if v.sort() == z3.IntSort() else 'float', ('int', getattr(ty, 'n', 0), False), (lambda s, n=n: s.env[n]), v))
        for rid, off in sorted(mod_mem):
            lf = st0.mem[rid].get(off)
            if lf is None: continue
            nm = 'mem.%s+%d' % (rid, off)
            if isinstance(lf.v, Ptr):
                lvs.append(LV(nm, 'idx', None, (lambda s, r=rid, o=off: s.mem[r][o].v.steps[-1][1]), lf.v.steps[-1][1], bound=contbound(ex, lf.v), where=Ptr(rid, off)))
            elif z3.is_expr(lf.v):
                k = {'int': 'int', 'str': 'str', 'vec': 'vec', 'map': 'map', 'set': 'map', 'float': 'float', 'arr': 'arr', 'ptr': 'int'}.get(lf.ct[0])
                if k: lvs.append(LV(nm, k, lf.ct, (lambda s, r=rid, o=off, ct=lf.ct: ex.to_z3(ct, s.mem[r][o].v)), lf.v, where=Ptr(rid, off)))
        cands = auto_candidates(ex, f, st0, lvs, mod_mem) if getattr(ex.cur, 'auto', True) else []
        auto_ms = getattr(ex.cur, 'auto_ms', None); auto = {id(c) for nm, c in cands} if auto_ms else ()
        tmo = lambda c: auto_ms if id(c) in auto else 3000
        if ex.cur is not None and ex.cur.loop_candidates is not None:
            cands += ex.cur.loop_candidates(ex, f, st0, lvs) or []
        if ex.effects: cands = []
        if DEBUG: print("loop", f.name, header, lvs, sorted(mod_mem))
        ex.loop_info.append((f.name, header, len(lvs), len(cands)))
        # --- Houdini
        good = []
        for nm, c in cands:
            try: g = c(st0)
            except (KeyError, AttributeError, z3.Z3Exception, IndexError): continue
            if z3.is_true(z3.simplify(g)) or quick(ex, st0.pc, g, tmo(c)): good.append((nm, c))
        for rnd in range(12):
            ex.tick()
            h = havoc(good)
            r = body(h)
            bad = set()
            for bs, bp in r['back']:
                ex.phis(f, bs, header, bp)
                alive = [(i, nm, c) for i, (nm, c) in enumerate(good) if i not in bad]
                bad |= failing(ex, bs, alive, tmo)
            if not bad: break
            good = [g for i, g in enumerate(good) if i not in bad]
        else: raise Unsupported('Houdini does not converge')
    finally:
        ex.quiet = quiet0
    ex.invariants.append((f.name, header, [n for n, _ in good]))
    if DEBUG: print('invariants', f.name, header, [n for n, _ in good])
    h = havoc(good)
    r = body(h)
    # exits carry the invariants through their path conditions
    for s, b, p in r['exits']: s.active = st0.active
    return {'out': r['out'], 'exits': r['exits']}

def quick(ex, hyps, g, tmo=3000):
    from . import portfolio
    ng = z3.Not(g); how = getattr(ex.cur, 'abstract', 'second')
    if how == 'first' and portfolio.abstract_strings(ex, ex.S.axioms + list(hyps) + [ng], ng, tmo, (0, 7, 23) if tmo > 1000 else (0,)) == 'unsat': return True
    r, _ = ex.S.check(list(hyps) + [ng], timeout=tmo if how != 'first' else max(200, tmo // 8))
    if r == 'unknown' and how == 'second': r = portfolio.abstract_strings(ex, ex.S.axioms + list(hyps) + [ng], ng, tmo)
    return r == 'unsat'

def failing(ex, bs, alive, tmo=lambda c: 3000):
    bad = set()
    todo = []; tms = {}
    for i, nm, c in alive:
        try: todo.append((i, nm, c(bs))); tms[i] = tmo(c)
        except (KeyError, AttributeError, z3.Z3Exception, IndexError): bad.add(i)
    # all together first; use models to discard many at once
    for _ in range(20):
        todo = [t for t in todo if t[0] not in bad]
        if not todo: return bad
        ng = z3.Or(*[z3.Not(g) for i, nm, g in todo]); fs = list(bs.pc) + [ng]; first = getattr(ex.cur, 'abstract', '') == 'first'
        if first:
            from . import portfolio
            if portfolio.abstract_strings(ex, ex.S.axioms + list(bs.pc) + [ng], ng, 2000) == 'unsat': return bad
        r, m = ex.S.check(fs, timeout=1000 if first else 4000, model=True)
        if r == 'unsat': return bad
        if r == 'sat':
            n = 0
            for i, nm, g in todo:
                if z3.is_false(m.eval(g, model_completion=True)): bad.add(i); n += 1
            if n == 0: break
            continue
        break
    for i, nm, g in todo:
        if i in bad: continue
        if not quick(ex, bs.pc, g, tms[i]): bad.add(i)
    return bad

def contbound(ex, p):
    """length of the container an index pointer points into, as a function of the state"""
    k = p.steps[-1][0]
    base = Ptr(p.rid, p.off, p.steps[:-1])
    def f(s):
        ct, v = ex.get(s, base)
        if k == 'elem': return ex.vget(ct, v, 'len')
        if k == 'node': return ex.mget(ct, v, 'size')
        if k == 'char': return I(len(v)) if ct[0] == 'conststr' else z3.Length(v)
        if k == 'buf': return I(ct[2])
        return None
    return f if k in ('elem', 'node', 'char', 'buf') else None

def auto_candidates(ex, f, st0, lvs, mod_mem):
    out = []
    ints = [l for l in lvs if l.kind in ('int', 'idx')]
    # lengths of containers not changed by the loop, and containers pointed into
    bounds = []
    for rid, reg in st0.mem.items():
        if rid.startswith('heap:'): continue
        for off, lf in reg.items():
            if (rid, off) in mod_mem or not z3.is_expr(lf.v): continue
            if lf.ct[0] == 'vec': bounds.append((lambda s, ct=lf.ct, v=lf.v: ex.vget(ct, v, 'len')))
            elif lf.ct[0] == 'str': bounds.append((lambda s, v=lf.v: z3.Length(v)))
            elif lf.ct[0] in ('map', 'set'): bounds.append((lambda s, ct=lf.ct, v=lf.v: ex.mget(ct, v, 'size')))
            elif lf.ct[0] == 'int' and not is_c(lf.v): bounds.append((lambda s, v=lf.v: v))
    for n, v in st0.env.items():
        if z3.is_expr(v) and v.sort() == z3.IntSort() and z3.is_const(v) and not is_c(v): bounds.append((lambda s, v=v: v))
    bounds = bounds[:12] if getattr(ex.cur, 'auto_bounds', True) else []
    for l in ints:
        out.append(('%s >= entry' % l.name, lambda s, l=l: l.get(s) >= l.entry))
        out.append(('%s <= entry' % l.name, lambda s, l=l: l.get(s) <= l.entry))
        if l.bound is not None:
            out.append(('%s <= container size' % l.name, lambda s, l=l: l.get(s) <= l.bound(s)))
            out.append(('%s >= 0' % l.name, lambda s, l=l: l.get(s) >= 0))
        if l.kind == 'int':
            for n, b in enumerate(bounds):
                out.append(('%s <= bound%d' % (l.name, n), lambda s, l=l, b=b: l.get(s) <= b(s)))
    for i in range(len(ints)):
        for j in range(i + 1, len(ints)):
            a, b = ints[i], ints[j]
            out.append(('%s, %s move together' % (a.name, b.name), lambda s, a=a, b=b: a.get(s) - a.entry == b.get(s) - b.entry))
    for l in lvs:
        if l.kind == 'vec':
            ln = lambda s, l=l: ex.vget(l.ct, l.get(s), 'len')
            e = ex.vget(l.ct, l.entry, 'len')
            out.append(('len %s >= entry' % l.name, lambda s, ln=ln, e=e: ln(s) >= e))
            out.append(('len %s == entry' % l.name, lambda s, ln=ln, e=e: ln(s) == e))
            out.append(('%s unchanged' % l.name, lambda s, l=l: l.get(s) == l.entry))
            for a in ints:
                out.append(('len %s follows %s' % (l.name, a.name), lambda s, ln=ln, e=e, a=a: ln(s) - e == a.get(s) - a.entry))
            for n, b in enumerate(bounds):
                out.append(('len %s <= bound%d' % (l.name, n), lambda s, ln=ln, b=b: ln(s) <= b(s)))
        elif l.kind in ('str', 'map', 'float', 'bool', 'arr'):
            out.append(('%s unchanged' % l.name, lambda s, l=l: l.get(s) == l.entry))
    return out
