from irv.api import *
from props.C03 import TD, BT
TITLE = 'orderings'
def units():
    return [IRUnit('td', '#include "/repo/libhfst/src/implementations/HfstTropicalTransducerTransitionData.cc"\n#include "/repo/libhfst/src/implementations/HfstBasicTransition.cc"\n#include "/repo/libhfst/src/HfstExceptionDefs.cc"\n'),
            IRUnit('ci', '#include "/repo/libhfst/src/implementations/compose_intersect/ComposeIntersectFst.cc"\n'),
            IRUnit('loop', '#include "/repo/libhfst/src/implementations/optimized-lookup/find_epsilon_loops.cc"\n')]
CI = 'hfst::implementations::ComposeIntersectFst'
def flt(x, y): return z3.fpLT(x, y)
def num(x): return Not(z3.fpIsNaN(x))
def feq(x, y): return z3.fpEQ(x, y)
def lex(*ks):
    """lexicographic order of (less, equal) pairs"""
    r = FALSE
    for lt, eq in reversed(ks): r = Or(lt, And(eq, r))
    return r
def data(c, p, f): return c.old(p + '.' + f)
def contracts():
    out = []
    P = lambda *a, **k: out.append(Contract(*a, **dict(dict(exact=True), **k)))
    def dlt(c, a, b, w=True, pre=''):
        g = lambda p, f: c.old('%s.%s%s' % (p, pre, f))
        ks = [(g(a, f) < g(b, f), g(a, f) == g(b, f)) for f in ('input_number', 'output_number')]
        if w: ks.append((flt(g(a, 'weight'), g(b, 'weight')), FALSE))
        return lex(*ks)
    P(TD + '::operator<(%s const&) const' % TD, 'td', names=('another',), ret='bool', ensures=lambda c, st, r: [('compares input, output, weight in this order', r == dlt(c, 'this', 'another'))])
    P(TD + '::less_than_ignore_weight(%s const&) const' % TD, 'td', names=('another',), ret='bool', ensures=lambda c, st, r: [('compares input, output in this order', r == dlt(c, 'this', 'another', False))])
    P(BT + '::operator<(%s const&) const' % BT, 'td', names=('another',), ret='bool', ensures=lambda c, st, r: [('compares target, input, output, weight in this order', r == lex((c.old('this.target_state') < c.old('another.target_state'), c.old('this.target_state') == c.old('another.target_state')), (dlt(c, 'this', 'another', True, 'transition_data.'), FALSE)))])
    def ct(c, st, r):
        g = lambda p, f: c.old(p + '.' + f); a, b = 'tr1', 'tr2'
        return [('compares input, output, weight, target in this order', r == lex(*[(g(a, f) < g(b, f), g(a, f) == g(b, f)) for f in ('ilabel', 'olabel')], (flt(g(a, 'weight'), g(b, 'weight')), feq(g(a, 'weight'), g(b, 'weight'))), (g(a, 'target') < g(b, 'target'), FALSE)))]
    P(CI + '::CompareTransitions::operator()(%s::Transition const&, %s::Transition const&) const' % (CI, CI), 'ci', names=('tr1', 'tr2'), ret='bool', ensures=ct, requires=lambda c: [num(c.old('tr1.weight')), num(c.old('tr2.weight'))])
    P(CI + '::Transition::operator==(%s::Transition const&) const' % CI, 'ci', names=('another',), ret='bool', requires=lambda c: [num(c.old('this.weight')), num(c.old('another.weight'))],
      ensures=lambda c, st, r: [('equal in every part', r == And(*[c.old('this.' + f) == c.old('another.' + f) for f in ('ilabel', 'olabel', 'target')], feq(c.old('this.weight'), c.old('another.weight'))))])
    # states of the epsilon-loop search
    TS = 'hfst_ol::TraversalState'
    def idx(c, p): return c.old(p + '.index')
    def fl(c, p): return c.varr(c.old(p + '.flags'))
    def n(c): return c.vlen(c.old('this.flags'))
    first = lambda c, k: And(k >= 0, k < n(c), fl(c, 'this')[k] != fl(c, 'rhs')[k], (lambda j: ForAll([j], Implies(And(j >= 0, j < k), fl(c, 'this')[j] == fl(c, 'rhs')[j])))(z3.Int('j!f')))
    def same(c, upto): j = z3.Int('j!s'); return ForAll([j], Implies(And(j >= 0, j < upto), fl(c, 'this')[j] == fl(c, 'rhs')[j]))
    def tcand(ex, f, st0, lvs):
        c = ex.cur.ctx
        return [('flags equal so far [%s]' % l.name, lambda s, l=l: same(c, l.get(s))) for l in lvs if l.kind in ('int', 'idx')]
    def tlt(c, st, r):
        k = fresh(z3.IntSort(), 'k'); a, b = idx(c, 'this'), idx(c, 'rhs'); x, y = signed(fl(c, 'this')[k], 16), signed(fl(c, 'rhs')[k], 16)
        return [('the index decides first', Implies(a != b, r == (a < b))), ('then the first flag value that differs', Implies(And(a == b, first(c, k)), r == (x < y))), ('equal states are not less', Implies(And(a == b, same(c, n(c))), Not(r)))]
    def teq(c, st, r):
        k = fresh(z3.IntSort(), 'k'); return [('equal states are equal', Implies(And(idx(c, 'this') == idx(c, 'rhs'), same(c, n(c))), r)), ('states that differ are not', Implies(Or(idx(c, 'this') != idx(c, 'rhs'), And(k >= 0, k < n(c), fl(c, 'this')[k] != fl(c, 'rhs')[k])), Not(r)))]
    tr = lambda c: [c.vlen(c.old('this.flags')) == c.vlen(c.old('rhs.flags'))]
    P(TS + '::operator<(hfst_ol::TraversalState const&) const', 'loop', names=('rhs',), ret='bool', requires=tr, ensures=tlt, loop_candidates=tcand, exact=False)
    P(TS + '::operator==(hfst_ol::TraversalState const&) const', 'loop', names=('rhs',), ret='bool', requires=tr, ensures=teq, loop_candidates=tcand, exact=False)
    # sorted sets of composition transitions
    SS = 'hfst::implementations::compose_intersect_utilities::SpaceSavingSet<%s::Transition, %s::CompareTransitions>' % (CI, CI); TT = CI + '::Transition'
    def tl(c, x, y):
        g = lambda v, f: c.f(TT, v, f)
        return lex(*[(g(x, f) < g(y, f), g(x, f) == g(y, f)) for f in ('ilabel', 'olabel')], (flt(g(x, 'weight'), g(y, 'weight')), feq(g(x, 'weight'), g(y, 'weight'))), (g(x, 'target') < g(y, 'target'), FALSE))
    def teq_(c, x, y):
        g = lambda v, f: c.f(TT, v, f)
        return And(*[g(x, f) == g(y, f) for f in ('ilabel', 'olabel', 'target')], feq(g(x, 'weight'), g(y, 'weight')))
    def els(c, st): v = c.at(st, 'this.container_'); return c.vlen(v), c.varr(v)
    def inreq(c):
        n0, a0 = els(c, c.pre); i = z3.Int('i!s'); j = z3.Int('j!s'); x = c.old('x')
        W = lambda v: num(c.f(TT, v, 'weight'))
        return [W(x), ForAll([i], Implies(And(i >= 0, i < n0), W(a0[i]))), ForAll([i, j], Implies(And(i >= 0, i < j, j < n0), tl(c, a0[i], a0[j])))]
    def incand(ex, f, st0, lvs):
        c = ex.cur.ctx; n0, a0 = els(c, c.pre); i = z3.Int('i!c')
        return [('elements passed are less [%s]' % l.name, lambda s, l=l: ForAll([i], Implies(And(i >= 0, i < l.get(s)), tl(c, a0[i], c.old('x'))))) for l in lvs if l.kind in ('idx', 'int')]
    def ins(c, st, r):
        n0, a0 = els(c, c.pre); n1, a1 = els(c, st); x = c.old('x'); i, j = fresh(z3.IntSort(), 'i'), fresh(z3.IntSort(), 'j'); k = z3.Int('k!e')
        return [('no element is lost', Implies(And(i >= 0, i < n0), Or(a1[i] == a0[i], And(i + 1 < n1, a1[i + 1] == a0[i])))), ('the new element is there', Exists([k], And(k >= 0, k < n1, teq_(c, a1[k], x)))),
                ('nothing else is added', Implies(And(i >= 0, i < n1), Or(teq_(c, a1[i], x), And(i < n0, a1[i] == a0[i]), And(i > 0, i <= n0, a1[i] == a0[i - 1])))), ('at most one element more', And(n1 >= n0, n1 <= n0 + 1)),
                ('the elements stay in strictly ascending order', Implies(And(i >= 0, i < j, j < n1), tl(c, a1[i], a1[j])))]
    P(SS + '::insert(%s const&)' % TT, 'ci', names=('x',), ret='void', requires=inreq, ensures=ins, modifies=('this.container_',), loop_candidates=incand, exact=False, callable=False)
    return out
def lemmas():
    """the orders the comparison functions are proved to compute are strict weak orders that tell different elements apart"""
    F = z3.Float32(); out = []
    def order(name, mk, lt, same):
        a, b, c = mk('a'), mk('b'), mk('c'); ok = And(*[num(x) for t in (a, b, c) for x in t if z3.is_fp(x)])
        out.append((name + ': nothing is less than itself', Implies(ok, Not(lt(a, a))))); out.append((name + ': asymmetric', Implies(And(ok, lt(a, b)), Not(lt(b, a)))))
        out.append((name + ': transitive', Implies(And(ok, lt(a, b), lt(b, c)), lt(a, c))))
        out.append((name + ': elements that differ are ordered', Implies(And(ok, Not(lt(a, b)), Not(lt(b, a))), same(a, b))))
    Z = lambda n, *ns: [z3.Int('%s_%s' % (n, k)) for k in ns]
    def alllex(a, b): return lex(*[((flt(x, y), feq(x, y)) if z3.is_fp(x) else (x < y, x == y)) for x, y in zip(a, b)])
    def eq(a, b): return And(*[feq(x, y) if z3.is_fp(x) else x == y for x, y in zip(a, b)])
    order('transition data', lambda n: Z(n, 'i', 'o') + [z3.Const(n + '_w', F)], alllex, eq)
    order('transition data without weight', lambda n: Z(n, 'i', 'o'), alllex, eq)
    order('transitions', lambda n: Z(n, 't', 'i', 'o') + [z3.Const(n + '_w', F)], alllex, eq)
    order('composition transitions', lambda n: Z(n, 'i', 'o') + [z3.Const(n + '_w', F)] + Z(n, 't'), alllex, eq)
    return out
BOUND = 'all pairs and triples of 81 transitions (3 or 4 values per field, 3 weights), 48 traversal states, 2000 (30000) random sorted sets'
ASSUMPTIONS = ['weights are not NaN', 'states of one search have equally many flag values']
def harnesses(): return [Harness('C04.cc', ['libhfst/src/implementations/HfstTropicalTransducerTransitionData.cc', 'libhfst/src/implementations/HfstBasicTransition.cc', 'libhfst/src/HfstExceptionDefs.cc', 'libhfst/src/implementations/compose_intersect/ComposeIntersectFst.cc', 'libhfst/src/implementations/optimized-lookup/find_epsilon_loops.cc'], libs=['-Wl,--unresolved-symbols=ignore-all'])]
