from irv.api import *
from props.basic import *
TITLE = 'substitution'
def units(): return [IRUnit('bt', SRC)]
I1, J1 = z3.Int('i!r'), z3.Int('j!r')
def rewritten(sub, adds, name, keys=(Y,), part='states'):
    """each transition t is replaced in place by sub(c, t) = (input number, output number); the symbols adds(c, t, Y) come to the alphabet"""
    fold = lambda c: Fold('R_' + name, c, lambda t: adds(c, t, Y), keys)
    def is_new(c, b, u, a, t):
        i, o = sub(c, t)
        return And(b.fld(u, 'in') == i, b.fld(u, 'out') == o, a.fld(t, 'target') == b.fld(u, 'target'), a.fld(t, 'w') == b.fld(u, 'w'))
    def ens(c, st, r):
        a, b = Gr(c, c.pre), Gr(c, st)
        if part == 'alphabet': return [('the alphabet grows by exactly the symbols put in', b.adom[Y] == Or(a.adom[Y], fold(c).U(a.n)))]
        return [('number of states', b.n == a.n), ('number of transitions', Implies(And(S >= 0, S < a.n), b.nt(S) == a.nt(S))), ('each transition is as asked, target and weight kept', Implies(a.ok(S, J), is_new(c, b, b.tr(S, J), a, a.tr(S, J))))]
    def cand(ex, f, st0, lvs):
        c = ex.cur.ctx; a = Gr(c, c.pre); o = []
        o.append(('number of states', lambda s: Gr(c, s).n == a.n))
        o.append(('transition counts', lambda s: ForAll([I1], Implies(And(I1 >= 0, I1 < a.n), Gr(c, s).nt(I1) == a.nt(I1)))))
        def cands(l, e=None):
            def before(s): return S < l.get(s) if e is None else Or(S < e, And(S == e, J < l.get(s)))
            def rest(s):
                b = Gr(c, s); at = (I1 >= l.get(s)) if e is None else Or(I1 > e, And(I1 == e, J1 >= l.get(s)))
                return ForAll([I1, J1], Implies(And(a.ok(I1, J1), at), b.tr(I1, J1) == a.tr(I1, J1)))
            return [('the rest untouched', rest)] + [('done so far', lambda s: Implies(And(a.ok(S, J), before(s)), is_new(c, Gr(c, s), Gr(c, s).tr(S, J), a, a.tr(S, J))))] * (part == 'states') + [('alphabet so far', lambda s: Gr(c, s).adom[Y] == Or(a.adom[Y], fold(c).U(l.get(s)) if e is None else Or(fold(c).U(e), fold(c).V(e, l.get(s)))))] * (part == 'alphabet')
        for l in lvs:
            if l.kind not in ('idx', 'int') or l.name.startswith('mem.@'): continue
            o.append(('not negative [%s]' % l.name, lambda s, l=l: l.get(s) >= 0))
            if l.kind == 'idx': o.append(('at most the number of states [%s]' % l.name, lambda s, l=l: l.get(s) <= a.n))
            if l.kind == 'idx': o += [(n + ' [%s]' % l.name, x) for n, x in cands(l)]
            for q, e in enumerate(x for x in positions(st0, 1) if not sym.is_c(x)): o += [('at most the number of transitions [%s/%d]' % (l.name, q), lambda s, l=l, e=e: l.get(s) <= a.nt(e))] + [(n + ' [%s/%d]' % (l.name, q), x) for n, x in cands(l, e)]
        return o
    def facts(ex, f, h, lvs):
        F = fold(ex.cur.ctx); o = F.facts(h)
        for e in positions(h, 1):
            for l in lvs:
                if l.kind == 'int': o += F.at2(e, l.get(h))
        return o
    return dict(ensures=ens, loop_candidates=cand, loop_facts=facts, globals=GL, modifies=('this.state_vector', 'this.alphabet'), ret='void', auto_ms=200, auto_bounds=False, auto=False, abstract='first', budget=250, callable=False), lambda c: gwf(c, c.pre) + inv_req(c) + coded(c, c.pre) + fold(c).base()
def num(c, t, f): return c.f(BT, t, 'transition_data.%s_number' % f)
def contracts():
    out = []
    P = lambda *a, **k: out.append(Contract(*a, **k))
    # symbol by symbol, both having numbers
    def ssub(c, t):
        k = Cod(c, c.pre); o, n = c.old('old'), c.old('new')
        return tuple(If(And(c.arg(s), k.sym[num(c, t, f)] == o), k.num[n], num(c, t, f)) for s, f in (('in', 'input'), ('out', 'output')))
    def sadd(c, t, y):
        k = Cod(c, c.pre); o = c.old('old')
        return And(y == c.old('new'), Or(*[And(c.arg(s), k.sym[num(c, t, f)] == o) for s, f in (('in', 'input'), ('out', 'output'))]))
    for part in ('states', 'alphabet'):
      d, req = rewritten(ssub, sadd, 'symbol', part=part)
      P(G + '::substitute_(std::string, std::string, bool, bool)', 'bt', name='substitute symbol by symbol: ' + part, names=('old', 'new', 'in', 'out'), requires=lambda c, req=req: req(c) + [c.old('old') != EMPTY, c.old('new') != EMPTY, Cod(c, c.pre).dom[c.old('new')]], **d)
    # by a vector of numbers
    def vsub(c, t):
        v = c.varr(c.old('subst')); no = c.arg('no')
        return tuple(If(v[num(c, t, f)] != no, v[num(c, t, f)], num(c, t, f)) for f in ('input', 'output'))
    def vadd(c, t, y):
        v = c.varr(c.old('subst')); no = c.arg('no'); k = Cod(c, c.pre)
        return Or(*[And(v[num(c, t, f)] != no, k.sym[v[num(c, t, f)]] == y) for f in ('input', 'output')])
    def vreq(c):
        k = Cod(c, c.pre); v = c.old('subst'); x = z3.Int('x!v')
        return [c.vlen(v) == k.max + 1, ForAll([x], Implies(And(x >= 0, x <= k.max), And(c.varr(v)[x] >= 0, Or(c.varr(v)[x] == c.arg('no'), c.varr(v)[x] <= k.max))))]
    for part in ('states', 'alphabet'):
      d, req = rewritten(vsub, vadd, 'vector', part=part)
      P(G + '::substitute_(std::vector<unsigned int> const&, unsigned int)', 'bt', name='substitute symbols by symbols: ' + part, names=('subst', 'no'), requires=lambda c, req=req: req(c) + vreq(c), **d)
    # pairs by pairs
    def found(c, t):
        m = c.old('subst'); D = c.m(m, 'dom'); p = D.sort().domain(); q = p.constructor(0)(num(c, t, 'input'), num(c, t, 'output'))
        v = c.m(m, 'val')[q]; return D[q], v.sort().accessor(0, 0)(v), v.sort().accessor(0, 1)(v)
    def psub(c, t):
        d, i, o = found(c, t); return If(d, i, num(c, t, 'input')), If(d, o, num(c, t, 'output'))
    def padd(c, t, y):
        d, i, o = found(c, t); k = Cod(c, c.pre); return And(d, Or(k.sym[i] == y, k.sym[o] == y))
    def preq(c):
        k = Cod(c, c.pre); m = c.old('subst'); p = z3.Const('p!m', c.m(m, 'dom').sort().domain()); v = c.m(m, 'val')[p]
        return [ForAll([p], Implies(c.m(m, 'dom')[p], And(*[x for n in (0, 1) for x in (v.sort().accessor(0, n)(v) >= 0, v.sort().accessor(0, n)(v) <= k.max)])), patterns=[c.m(m, 'val')[p]])]
    for part in ('states', 'alphabet'):
      d, req = rewritten(psub, padd, 'pairs', part=part)
      P(G + '::substitute_(std::map<std::pair<unsigned int, unsigned int>, std::pair<unsigned int, unsigned int>> const&)', 'bt', name='substitute pairs by pairs: ' + part, names=('subst',), requires=lambda c, req=req: req(c) + preq(c), **d)
    # free insertion of a pair
    def ins(c, st, r):
        a, b, k = Gr(c, c.pre), Gr(c, st), Cod(c, c.pre); t = b.tr(S, a.nt(S)); i, o = c.old('sp.first'), c.old('sp.second')
        return [('number of states', b.n == a.n), ('one transition more in each state', Implies(And(S >= 0, S < a.n), b.nt(S) == a.nt(S) + 1)), ('the others as they were', Implies(a.ok(S, J), b.tr(S, J) == a.tr(S, J))), ('a loop with the pair and the weight', Implies(And(S >= 0, S < a.n), And(b.fld(t, 'target') == S, b.fld(t, 'in') == k.num[i], b.fld(t, 'out') == k.num[o], b.fld(t, 'w') == c.arg('w')))), ('the alphabet has the two symbols more', b.adom[Y] == Or(a.adom[Y], Y == i, Y == o))]
    def icand(ex, f, st0, lvs):
        c = ex.cur.ctx; a = Gr(c, c.pre); k = Cod(c, c.pre); o = []
        for l in lvs:
            if l.kind not in ('idx', 'int') or l.name.startswith('mem.@'): continue
            o += [('not negative [%s]' % l.name, lambda s, l=l: l.get(s) >= 0), ('at most the number of states [%s]' % l.name, lambda s, l=l: l.get(s) <= a.n)]
            for m in lvs:
                if m is not l and m.kind in ('idx', 'int') and not m.name.startswith('mem.@') and l.name < m.name: o.append(('in step [%s %s]' % (l.name, m.name), lambda s, l=l, m=m: l.get(s) == m.get(s)))
            def at(s, l=l):
                b = Gr(c, s); t = b.tr(S, a.nt(S))
                return If(And(S >= 0, S < l.get(s)), And(b.nt(S) == a.nt(S) + 1, Implies(And(J >= 0, J < a.nt(S)), b.tr(S, J) == a.tr(S, J)), b.fld(t, 'target') == S, b.fld(t, 'in') == k.num[c.old('sp.first')], b.fld(t, 'out') == k.num[c.old('sp.second')], b.fld(t, 'w') == c.arg('w')), True)
            def rest(s, l=l): b = Gr(c, s); return ForAll([I1], Implies(And(I1 >= l.get(s), I1 < a.n), b.trs(I1) == a.trs(I1)))
            o += [('done so far [%s]' % l.name, at), ('the rest untouched [%s]' % l.name, rest)]
        return o + [('number of states', lambda s: Gr(c, s).n == a.n)]
    bad = lambda c: Or(c.old('sp.first') == EMPTY, c.old('sp.second') == EMPTY)
    known = lambda c: [Implies(c.old('sp.' + n) != EMPTY, Cod(c, c.pre).dom[c.old('sp.' + n)]) for n in ('first', 'second')]
    P(G + '::insert_freely(std::pair<std::string, std::string> const&, float)', 'bt', name='insert a pair freely', names=('sp', 'w'), requires=lambda c: gwf(c, c.pre) + inv_req(c) + known(c) + [Gr(c, c.pre).n < 2**32], ensures=lambda c, st, r: [('an empty symbol is refused', Not(bad(c)))] + ins(c, st, r), on_throw=lambda c, st, v: [('refused only if a symbol is empty', bad(c))], globals=GL, modifies=('this.state_vector', 'this.alphabet'), loop_candidates=icand, auto_bounds=False, auto=False, abstract='first', budget=200, callable=False)
    out += transition_contracts('bt')
    return out
BOUND = '6000 (120000) random graphs of up to 5 states and 12 transitions over 10 symbols, one substitution or free insertion each, compared with a plain model'
def harnesses(): return [Harness('C10.cc', ['libhfst/src/implementations/' + x + '.cc' for x in ('HfstBasicTransducer', 'HfstBasicTransition', 'HfstTropicalTransducerTransitionData')] + ['libhfst/src/HfstSymbolDefs.cc', 'libhfst/src/HfstExceptionDefs.cc', 'libhfst/src/HfstFlagDiacritics.cc', 'libhfst/src/HfstDataTypes.cc'], libs=['-Wl,--unresolved-symbols=ignore-all'])]
