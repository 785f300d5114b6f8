from irv.api import *
from props import C07
TITLE = 'conversion to and from optimized lookup'
def units():
    return [IRUnit('conv', '\n'.join('#include "/repo/libhfst/src/%s"' % f for f in ('HfstDataTypes.cc', 'HfstExceptionDefs.cc', 'implementations/optimized-lookup/convert.cc')) + '''
using namespace hfst_ol;
void vf_use(StatePlaceholder& s, IndexPlaceholders& p, TransitionPlaceholder& t, std::set<SymbolNumber> const& f) {
  s.add_input(1, f); s.add_transition(t); s.number_of_transitions(); s.symbol_offset(1, f); s.input_present(1); s.is_simple(); p.used(1); p.assign(1, 1, 1); p.fits(s, f, 1); p.get_target(1); p.unsuitable(1, 1, 0.5f); }
''', std='c++17')]
N = 'hfst_ol::'; SP, IP, TP, TW = N + 'StatePlaceholder', N + 'IndexPlaceholders', N + 'TransitionPlaceholder', N + 'TransitionW'
Z = z3.IntSort(); NONE = 4294967295; NOS = 65535; START = 2147483648; K, K2 = z3.Ints('K K2')
EMPTYT, ZERO, NONZERO, NONSIMPLE = 0, 1, 2, 3
FS = 'std::set<unsigned short, std::less<unsigned short>, std::allocator<unsigned short>>'
def contracts():
    out = []
    P = lambda *a, **k: out.append(Contract(*a, **k))
    def V(c, st, p='this'): return c.at(st, p + '.symbol_to_transition_placeholder_v')
    def T(c, st, p='this'): return c.at(st, p + '.transition_placeholders')
    def entry(c, v, i): return If(And(i >= 0, i < c.vlen(v)), c.varr(v)[i], I(NONE))
    def present(c, v, i): return entry(c, v, i) != NONE
    def flag(c, i, p='flag_symbols'): return c.m(c.old(p), 'dom')[i]
    def wf(c, p='this'):
        v, t = V(c, c.pre, p), T(c, c.pre, p); i, j = z3.Ints('i!w j!w')
        return [c.vlen(t) < NOS, c.vlen(v) <= NOS, ForAll([i], Implies(And(i >= 0, i < c.vlen(v)), Or(c.varr(v)[i] == NONE, And(c.varr(v)[i] >= 0, c.varr(v)[i] < c.vlen(t))))),
                ForAll([i, j], Implies(And(i >= 0, i < c.vlen(v), j >= 0, j < c.vlen(v), i != j, c.varr(v)[i] != NONE), c.varr(v)[i] != c.varr(v)[j]), patterns=[z3.MultiPattern(c.varr(v)[i], c.varr(v)[j])])]
    # what the type says of the inputs: where it says simple, lookup goes straight to the transitions
    def typed(c, st, ks, fl):
        ty, v = c.at(st, 'this.type'), V(c, st); o = []
        eps = lambda i: Or(i == 0, fl[i])
        return [('a state that counts as empty has no input', lambda i, j: Implies(And(ty == EMPTYT, i >= 0), Not(present(c, v, i)))), ('all inputs of a simple state at index zero are epsilons or flags', lambda i, j: Implies(And(ty == ZERO, i >= 0, present(c, v, i)), eps(i))),
                ('a simple state at another index has one input, neither epsilon nor flag', lambda i, j: Implies(And(ty == NONZERO, i >= 0, j >= 0, present(c, v, i)), And(Not(eps(i)), Implies(present(c, v, j), i == j)))), ('the type is one of the four', lambda i, j: And(ty >= 0, ty <= 3))]
    def typed_pre(c):
        i, j = z3.Ints('i!t j!t'); return [ForAll([i, j], f(i, j)) for _, f in typed(c, c.pre, None, c.m(c.old('flag_symbols'), 'dom'))] + [c.old('this.inputs') == c.vlen(T(c, c.pre))]
    P(SP + '::input_present(unsigned short) const', 'conv', names=('input',), ret='bool', ensures=lambda c, st, r: [('if there is an entry for it', r == present(c, V(c, st), c.arg('input')))], exact=True)
    def ai(c, st, r):
        v0, v1, t0, t1, x = V(c, c.pre), V(c, st), T(c, c.pre), T(c, st), c.arg('input'); new = Not(present(c, v0, x))
        return [('the input is there now', present(c, v1, x)), ('an input that was there keeps its place', Implies(Not(new), entry(c, v1, x) == entry(c, v0, x))), ('all other inputs as before', c.all(Z, lambda i: Implies(And(i >= 0, i != x), entry(c, v1, i) == entry(c, v0, i)))),
                ('a new input gets an empty list of its own at the end', Implies(new, And(entry(c, v1, x) == c.vlen(t0), c.vlen(t1) == c.vlen(t0) + 1, c.vlen(c.varr(t1)[c.vlen(t0)]) == 0))), ('nothing is added for an input that is there', Implies(Not(new), c.vlen(t1) == c.vlen(t0))),
                ('all transitions as before', c.all(Z, lambda i: Implies(And(i >= 0, i < c.vlen(t0)), c.varr(t1)[i] == c.varr(t0)[i]))), ('inputs are counted', c.at(st, 'this.inputs') == c.vlen(t1)), ('a state once not simple remains so', Implies(c.old('this.type') == NONSIMPLE, c.at(st, 'this.type') == NONSIMPLE))] + \
               [('%s stays' % f, c.at(st, 'this.' + f) == c.old('this.' + f)) for f in ('state_number', 'start_index', 'first_transition', 'final', 'final_weight')] + \
               [(n, (lambda i, j: f(i, j))(K, K2)) for n, f in typed(c, st, None, c.m(c.old('flag_symbols'), 'dom'))]
    def ai_cand(ex, f, st0, lvs):
        c = ex.cur.ctx; v0 = V(c, st0); i = z3.Int('i!c')
        return [('entries so far kept', lambda s: ForAll([i], Implies(i >= 0, entry(c, V(c, s), i) == entry(c, v0, i)))), ('not longer than needed', lambda s: And(c.vlen(V(c, s)) >= c.vlen(v0), Or(c.vlen(V(c, s)) <= c.arg('input') + 1, c.vlen(V(c, s)) == c.vlen(v0))))]
    P(SP + '::add_input(unsigned short, std::set<unsigned short> const&)', 'conv', names=('input', 'flag_symbols'), ret='void', requires=lambda c: wf(c) + typed_pre(c) + [c.arg('input') < NOS, c.vlen(T(c, c.pre)) < NOS - 1], modifies=('this',), ensures=ai, loop_candidates=ai_cand, callable=False)
    def at(c, st, r):
        v0, t0, t1, x = V(c, c.pre), T(c, c.pre), T(c, st), c.old('trans.input'); k = c.varr(v0)[x]; l0, l1 = c.varr(t0)[k], c.varr(t1)[k]; n = c.vlen(l0)
        return [('last among those of its input', And(c.vlen(l1) == n + 1, *[c.f(TP, c.varr(l1)[n], f) == c.old('trans.' + f) for f in ('target', 'input', 'output', 'weight')])), ('the earlier ones as before', Implies(And(K >= 0, K < n), c.varr(l1)[K] == c.varr(l0)[K])),
                ('those of other inputs as before', And(c.vlen(t1) == c.vlen(t0), Implies(And(K >= 0, K < c.vlen(t0), K != k), c.varr(t1)[K] == c.varr(t0)[K]))), ('the inputs as before', V(c, st) == v0)]
    P(SP + '::add_transition(hfst_ol::TransitionPlaceholder&)', 'conv', names=('trans',), ret='void', requires=lambda c: wf(c) + [present(c, V(c, c.pre), c.old('trans.input'))], modifies=('this',), ensures=at, callable=False)
    P(SP + '::is_simple() const', 'conv', ret='bool', ensures=lambda c, st, r: [('unless it is of the type not simple', r == (c.old('this.type') != NONSIMPLE))], exact=True)
    # the order of the transitions of a state: epsilons, flags, the other inputs by number
    SF = z3.Function('flag_transitions_before', Z, Z); SN = z3.Function('other_transitions_before', Z, Z)
    # a place in the index table
    def used(c, st, i): v = c.at(st, 'this.indices'); return And(i < c.vlen(v), c.varr(v)[i] != NONE)
    P(IP + '::used(unsigned int) const', 'conv', names=('position',), ret='bool', exact=True, ensures=lambda c, st, r: [('if something was put there', r == used(c, st, c.arg('position')))])
    def asg(c, st, r):
        i0, i1, t0, t1, x = c.old('this.indices'), c.at(st, 'this.indices'), c.old('this.targets'), c.at(st, 'this.targets'), c.arg('position'); n = c.vlen(t0); pr = 'std::pair<unsigned int, unsigned short>'
        return [('the place leads to what was put there', And(c.vlen(i1) > x, c.varr(i1)[x] == n, c.vlen(t1) == n + 1, c.f(pr, c.varr(t1)[n], 'first') == c.arg('target'), c.f(pr, c.varr(t1)[n], 'second') == c.arg('sym'))),
                ('other places as before', Implies(And(K >= 0, K != x), And(used(c, st, K) == used(c, c.pre, K), Implies(used(c, st, K), c.varr(i1)[K] == c.varr(i0)[K])))), ('what was put earlier stays', Implies(And(K >= 0, K < n), c.varr(t1)[K] == c.varr(t0)[K]))]
    def asg_cand(ex, f, st0, lvs):
        c = ex.cur.ctx; i0 = c.at(st0, 'this.indices'); k = z3.Int('k!a')
        return [('places so far', lambda s: (lambda v: And(c.vlen(v) >= c.vlen(i0), Or(c.vlen(v) <= c.arg('position') + 1, c.vlen(v) == c.vlen(i0)), ForAll([k], Implies(And(k >= 0, k < c.vlen(v)), c.varr(v)[k] == If(k < c.vlen(i0), c.varr(i0)[k], NONE)))))(c.at(s, 'this.indices')))]
    P(IP + '::assign(unsigned int, unsigned int, unsigned short)', 'conv', names=('position', 'target', 'sym'), ret='void', requires=lambda c: [c.vlen(c.old('this.targets')) < NONE, c.vlen(c.old('this.indices')) <= NONE, c.arg('position') < NONE], modifies=('this',), ensures=asg, loop_candidates=asg_cand, callable=False)
    # a state fits where neither its own place nor that of any of its inputs is taken
    def need(c, k):
        t = T(c, c.pre, 'state'); x = c.f(TP, c.varr(c.varr(t)[k])[0], 'input'); return If(flag(c, x), I(0), x) + c.arg('position') + 1
    def ok(c, n):
        k = z3.Int('k!f'); return ForAll([k], Implies(And(k >= 0, k < n), Not(used(c, c.pre, need(c, k)))))
    def fits_cand(ex, f, st0, lvs):
        c = ex.cur.ctx; k = z3.Int('k!f'); return [('free for the inputs so far [%s]' % l.name, lambda s, l=l: ok(c, l.get(s))) for l in lvs if l.kind in ('idx', 'int')]
    def fits_req(c):
        t = T(c, c.pre, 'state'); k = z3.Int('k!g'); return [ForAll([k], Implies(And(k >= 0, k < c.vlen(t)), c.vlen(c.varr(t)[k]) > 0)), c.arg('position') < START]
    P(IP + '::fits(hfst_ol::StatePlaceholder const&, std::set<unsigned short> const&, unsigned int) const', 'conv', names=('state', 'flag_symbols', 'position'), ret='bool', requires=fits_req, loop_candidates=fits_cand, callable=False,
      ensures=lambda c, st, r: [('only where its own place is free', Implies(r, Not(used(c, st, c.arg('position'))))), ('only where the places of its inputs are free', Implies(And(r, K >= 0, K < c.vlen(T(c, c.pre, 'state'))), Not(used(c, st, need(c, K))))),
        ('wherever all are free', Implies(Not(r), Or(used(c, st, c.arg('position')), Not(ok(c, c.vlen(T(c, c.pre, 'state')))))))])
    # transitions of one input into the transition table
    def into(c, st, n):
        t0, t1, v, sp = c.varr(c.old('table.table')), c.varr(c.at(st, 'table.table')), c.varr(c.old('transitions')), c.varr(c.old('state_placeholders')); n0 = c.vlen(c.old('table.table')); x = z3.Int('x!n')
        def tgt(t): g = lambda f: c.f(SP, sp[t], f); return If(g('type') != NONSIMPLE, (g('first_transition') + START - 1) % 4294967296, g('start_index'))
        def one(x): g = lambda f: c.f(TW, t1[z3.simplify(n0 + x)], f); h = lambda f: c.f(TP, v[x], f); return [g('input_symbol') == c.arg('symbol'), g('output_symbol') == h('output'), g('transition_weight') == h('weight'), g('target_index') == tgt(h('target'))]
        return one, c.vlen(c.at(st, 'table.table')) == n0 + n, lambda k: Implies(And(k >= 0, k < n0), t1[k] == t0[k])
    def awt(c, st, r):
        one, ln, kept = into(c, st, c.vlen(c.old('transitions'))); R = And(K >= 0, K < c.vlen(c.old('transitions')))
        return [('as many entries as transitions', ln), ('the entries there stay', kept(K))] + [('%s of every entry' % n, Implies(R, one(K)[i])) for i, n in enumerate(('the input', 'the output', 'the weight', 'the target: its transitions if it is simple, else its place in the index table,'))]
    def pat(a, x): return dict(patterns=[a[x]]) if z3.is_const(a) or a.decl().kind() == z3.Z3_OP_DT_ACCESSOR and z3.is_const(a.arg(0)) else {}
    def awt_cand(ex, f, st0, lvs):
        c = ex.cur.ctx; x = z3.Int('x!c'); n0 = c.vlen(c.old('table.table')); o = []
        for l in lvs:
            if l.kind not in ('idx', 'int'): continue
            o += [('inside', lambda s, l=l: And(l.get(s) >= 0, l.get(s) <= c.vlen(c.old('transitions')))), ('as many so far [%s]' % l.name, lambda s, l=l: into(c, s, l.get(s))[1]), ('those before stay', lambda s, l=l: ForAll([x], into(c, s, l.get(s))[2](x)))]
            o += [('part %d so far [%s]' % (i, l.name), lambda s, l=l, i=i: ForAll([x], Implies(And(x >= n0, x < n0 + l.get(s)), into(c, s, l.get(s))[0](x - n0)[i]), **pat(c.varr(c.at(s, 'table.table')), x))) for i in range(4)]
        return o
    def awt_req(c):
        x = z3.Int('x!r'); v = c.old('transitions'); return [ForAll([x], Implies(And(x >= 0, x < c.vlen(v)), And(c.f(TP, c.varr(v)[x], 'target') >= 0, c.f(TP, c.varr(v)[x], 'target') < c.vlen(c.old('state_placeholders')))), **pat(c.varr(v), x)), c.vlen(c.old('table.table')) + c.vlen(v) < NONE]
    P('hfst_ol::add_transitions_with(unsigned short, std::vector<hfst_ol::TransitionPlaceholder>&, hfst_ol::TransducerTable<hfst_ol::TransitionW>&, std::vector<hfst_ol::StatePlaceholder>&, std::set<unsigned short>&)', 'conv', names=('symbol', 'transitions', 'table', 'state_placeholders', 'flag_symbols'), ret='void',
      requires=awt_req, modifies=('table',), auto=False, loop_facts=lambda ex, f, h, lvs: [z3.substitute_vars(awt_req(ex.cur.ctx)[0].body(), l.get(h)) for l in lvs if l.kind in ('idx', 'int')], loop_candidates=awt_cand, ensures=awt)
    # where in the table the transitions of an input begin: after epsilons, flags and the smaller inputs
    def size(c, i): return If(present(c, V(c, c.pre), i), c.vlen(c.varr(T(c, c.pre))[entry(c, V(c, c.pre), i)]), I(0))
    def fkey(c, k): return c.m(c.old('flag_symbols'), 'keys')[k]
    def fn(c): return c.m(c.old('flag_symbols'), 'size')
    def sfu(c, k): return [Implies(And(k >= 0, k < fn(c)), SF(k + 1) == SF(k) + size(c, fkey(c, k)))]
    def snu(c, i): return [Implies(And(i >= 1), SN(i + 1) == SN(i) + If(flag(c, i), I(0), size(c, i)))]
    def so_req(c):
        k = z3.Int('k!s'); t = T(c, c.pre); m = lambda f: c.m(c.old('flag_symbols'), f)
        return wf(c) + [Implies(flag(c, c.arg('symbol')), And(m('idx')[c.arg('symbol')] >= 0, m('idx')[c.arg('symbol')] < fn(c), fkey(c, m('idx')[c.arg('symbol')]) == c.arg('symbol')))] + [SF(0) == size(c, I(0)), SN(1) == SF(fn(c)), ForAll([k], And(SF(k) >= 0, SF(k) < NONE), patterns=[SF(k)]), ForAll([k], And(SN(k) >= 0, SN(k) < NONE), patterns=[SN(k)]), ForAll([k], And(c.vlen(c.varr(t)[k]) >= 0, c.vlen(c.varr(t)[k]) < NONE))]
    def so_facts(ex, f, h, lvs):
        c = ex.cur.ctx; return sum(((sfu(c, l.get(h)) if l.kind == 'idx' else snu(c, l.get(h))) for l in lvs if l.kind in ('idx', 'int')), [])
    def so_cand(ex, f, st0, lvs):
        c = ex.cur.ctx; k = z3.Int('k!o'); o = []; x = c.arg('symbol'); pres = lambda i: present(c, V(c, c.pre), i)
        for l in lvs:
            if l.kind == 'idx':
                o.append(('not among the flags so far', lambda s, l=l: Or(Not(flag(c, x)), Not(pres(x)), c.m(c.old('flag_symbols'), 'idx')[x] >= l.get(s))))
                o += [('transitions of the flags so far [%s]' % v.name, lambda s, l=l, v=v: v.get(s) == SF(l.get(s))) for v in lvs if v.kind == 'int']
            elif l.kind == 'int':
                o += [('not among the inputs so far [%s]' % l.name, lambda s, l=l: Or(x == 0, flag(c, x), Not(pres(x)), l.get(s) <= x)), ('from one on [%s]' % l.name, lambda s, l=l: l.get(s) >= 1)]
                o += [('transitions of the inputs so far [%s]' % v.name, lambda s, l=l, v=v: v.get(s) == SN(l.get(s))) for v in lvs if v.kind == 'int' and v is not l]
        return o
    def so_ens(c, st, r):
        x = c.arg('symbol'); return [('epsilons and flags begin at the beginning', Implies(Or(x == 0, And(flag(c, x), present(c, V(c, c.pre), x))), r == 0)), ('others after the epsilons, the flags and the smaller inputs', Implies(And(x != 0, Not(flag(c, x))), r == SN(x))), ('only if the input is there', Or(x == 0, present(c, V(c, c.pre), x)))]
    P(SP + '::symbol_offset(unsigned short, std::set<unsigned short> const&)', 'conv', names=('symbol', 'flag_symbols'), ret=('int', 32, False), requires=so_req, loop_facts=so_facts, loop_candidates=so_cand, callable=False, ensures=so_ens, 
      on_throw=lambda c, st, v: [('only if the input is not there', And(c.arg('symbol') != 0, Not(present(c, V(c, c.pre), c.arg('symbol')))))])
    return out
BOUND = '4 000 random graphs (quick) of up to 40 states, 200 transitions and 51 symbols with flags, epsilons, special symbols, repeated transitions; tables decoded from the written bytes, then converted back'
ASSUMPTIONS = ['each state has fewer than 65534 inputs and fewer than 2^32-1 transitions', 'the input symbol of a list of transitions is that of its first element (add_transition puts each transition into the list of its input)']
from props.C08 import OLSRC
def harnesses(): return [Harness('C09.cc', OLSRC, std='c++17', flags=['-fno-sanitize=alignment'], libs=['-Wl,--unresolved-symbols=ignore-all', '-licuuc'])]
