from irv.api import *
from props.basic import *
TITLE = 'graph editing'
def units(): return [IRUnit('bt', SRC)]
U32 = ('int', 32, False)
def contracts():
    out = []
    P = lambda *a, **k: out.append(Contract(*a, **k))
    def kept(c, st, what):
        a, b = Gr(c, c.pre), Gr(c, st); o = []
        if 's' in what: o.append(('states kept', c.all(INT, lambda s: b.same_states(a, s))))
        return o
    # states
    def grown(c, st, n):
        a, b = Gr(c, c.pre), Gr(c, st)
        return [('number of states', b.n == n), ('states that existed are untouched', c.all(INT, lambda s: Implies(And(s >= 0, s < a.n), b.trs(s) == a.trs(s)))), ('new states have no transitions', c.all(INT, lambda s: Implies(And(s >= a.n, s < b.n), b.nt(s) == 0)))]
    P(G + '::add_state()', 'bt', ret=U32, requires=lambda c: gwf(c, c.pre) + [Gr(c, c.pre).n < 2**32], modifies=('this.state_vector',), ensures=lambda c, st, r: grown(c, st, Gr(c, c.pre).n + 1) + [('the new number is the smallest free one', r == Gr(c, c.pre).n)])
    def cand(ex, f, st0, lvs):
        c = ex.cur.ctx; a = Gr(c, c.pre); o = []
        i = z3.Int('i!l')
        o.append(('old states', lambda s: Implies(And(S >= 0, S < a.n), Gr(c, s).trs(S) == a.trs(S))))
        o.append(('new states', lambda s: Implies(And(S >= a.n, S < Gr(c, s).n), Gr(c, s).nt(S) == 0)))
        for p in ('s', 'p0'):
            if p in ex.cur.anames: o.append(('size', lambda s, p=p: Or(Gr(c, s).n == a.n, Gr(c, s).n <= c.arg(p) + 1)))
        return o
    def addn(c, st, r):
        a = Gr(c, c.pre); s = c.arg('s')
        o = grown(c, st, If(a.n > s, a.n, s + 1))
        if not c.applying:   # for the arbitrary state S
            b = Gr(c, st)
            o[1] = (o[1][0], Implies(And(S >= 0, S < a.n), b.trs(S) == a.trs(S))); o[2] = (o[2][0], Implies(And(S >= a.n, S < b.n), b.nt(S) == 0))
        return o + [('returns its argument', r == s)]
    P(G + '::add_state(unsigned int)', 'bt', names=('s',), ret=U32, requires=lambda c: gwf(c, c.pre), modifies=('this.state_vector',), ensures=addn, loop_candidates=cand)
    P(G + '::get_max_state() const', 'bt', ret=U32, requires=lambda c: gwf(c, c.pre) + [Gr(c, c.pre).n > 0], ensures=lambda c, st, r: [('the largest state number', r == Gr(c, c.pre).n - 1)])
    # transitions
    def addt(c, st, r):
        a, b, k = Gr(c, c.pre), Gr(c, st), Cod(c, c.pre); s = c.arg('s'); t = c.old('transition'); tg = c.old('transition.target_state')
        mx = If(s > tg, s, tg); n0 = If(s < a.n, a.nt(s), I(0)); add = c.arg('add')
        i, o = k.sym[c.old('transition.transition_data.input_number')], k.sym[c.old('transition.transition_data.output_number')]
        return [('both ends of the transition exist afterwards', b.n == If(a.n > mx, a.n, mx + 1)), ('one transition more', b.nt(s) == n0 + 1), ('the new one is the one given', b.tr(s, n0) == t),
                ('the others stay', Implies(And(J >= 0, J < n0), b.tr(s, J) == a.tr(s, J))), ('other states stay', Implies(And(S >= 0, S < a.n, S != s), b.trs(S) == a.trs(S))), ('new states have no other transitions', Implies(And(S >= a.n, S < b.n, S != s), b.nt(S) == 0)),
                ('the alphabet grows by exactly the two symbols', b.adom[Y] == Or(a.adom[Y], And(add, Or(Y == i, Y == o))))]
    def tcoded(c): return [c.old('transition.transition_data.%s_number' % f) <= Cod(c, c.pre).max for f in ('input', 'output')]
    P(G + '::add_transition(unsigned int, %s const&, bool)' % BT, 'bt', names=('s', 'transition', 'add'), ret='void', requires=lambda c: gwf(c, c.pre) + inv_req(c) + tcoded(c), globals=GL, modifies=('this.state_vector', 'this.alphabet'), ensures=addt, callable=False)
    # final weights
    P(G + '::is_final_state(unsigned int) const', 'bt', names=('s',), ret='bool', ensures=lambda c, st, r: [('final iff it has a final weight', r == Gr(c, c.pre).fdom[c.arg('s')])])
    def gfw_throw(c, st, v):
        g = Gr(c, c.pre); return [('fails only if the state is not final', Or(c.arg('s') >= g.n, Not(g.fdom[c.arg('s')])))]
    P(G + '::get_final_weight(unsigned int) const', 'bt', names=('s',), ret=('float',), requires=lambda c: gwf(c, c.pre) + [Gr(c, c.pre).n > 0], ensures=lambda c, st, r: [('the weight set', And(Gr(c, c.pre).fdom[c.arg('s')], r == Gr(c, c.pre).fval[c.arg('s')]))], on_throw=gfw_throw, callable=False)
    def sfw(c, st, r):
        a, b = Gr(c, c.pre), Gr(c, st); s = c.arg('s')
        return [('the state is final with the weight', And(b.fdom[s], b.fval[s] == c.old('weight'))), ('other states keep theirs', Implies(S != s, And(b.fdom[S] == a.fdom[S], Implies(a.fdom[S], b.fval[S] == a.fval[S])))),
                ('the state exists', b.n == If(a.n > s, a.n, s + 1)), ('states that existed are untouched', Implies(And(S >= 0, S < a.n), b.trs(S) == a.trs(S))), ('new states have no transitions', Implies(And(S >= a.n, S < b.n), b.nt(S) == 0))]
    P(G + '::set_final_weight(unsigned int, float const&)', 'bt', names=('s', 'weight'), ret='void', requires=lambda c: gwf(c, c.pre), modifies=('this.state_vector', 'this.final_weight_map'), ensures=sfw, callable=False)
    P(G + '::remove_final_weight(unsigned int)', 'bt', names=('s',), ret='void', modifies=('this.final_weight_map',), ensures=lambda c, st, r: [('exactly that state stops being final', Gr(c, st).fdom[S] == And(Gr(c, c.pre).fdom[S], S != c.arg('s'))), ('others keep their weight', Implies(And(S != c.arg('s'), Gr(c, c.pre).fdom[S]), Gr(c, st).fval[S] == Gr(c, c.pre).fval[S]))], callable=False)
    # access
    for sig in ('operator[](unsigned int) const', 'transitions(unsigned int) const', 'transitions(unsigned int)'):
        P(G + '::' + sig, 'bt', names=('s',), requires=lambda c: gwf(c, c.pre), ensures=lambda c, st, r: [('the transitions of the state', And(c.arg('s') < Gr(c, c.pre).n, c.ex.read_obj(st.fork(), r, ('vec', ('struct', BT))) == Gr(c, c.pre).trs(c.arg('s'))))],
          on_throw=lambda c, st, v: [('fails only for states that do not exist', c.arg('s') >= Gr(c, c.pre).n)], callable=False)
    # swapping
    def T(c, g, i, j, s1, s2):
        t = g.tr(i, j); x = g.fld(t, 'target')
        return If(x == s1, s2, If(x == s2, s1, x)), t
    def mapped(c, a, b, i, j, i0, s1, s2):
        x, t = T(c, a, i0, j, s1, s2); u = b.tr(i, j)
        return And(b.fld(u, 'target') == x, b.fld(u, 'in') == a.fld(t, 'in'), b.fld(u, 'out') == a.fld(t, 'out'), b.fld(u, 'w') == a.fld(t, 'w'))
    def sw(c, i): return If(i == c.arg('s1'), c.arg('s2'), If(i == c.arg('s2'), c.arg('s1'), i))
    def swap(c, st, r):
        a, b = Gr(c, c.pre), Gr(c, st); s1, s2 = c.arg('s1'), c.arg('s2'); i0 = sw(c, S)
        return [('number of states', b.n == a.n), ('the state has the transitions of the state it stands for', Implies(And(S >= 0, S < a.n), b.nt(S) == a.nt(i0))),
                ('each with the targets exchanged and all else kept', Implies(And(S >= 0, S < a.n, J >= 0, J < a.nt(i0)), mapped(c, a, b, S, J, i0, s1, s2))),
                ('finality is exchanged', Implies(And(S >= 0, S < a.n), b.fdom[S] == a.fdom[i0])), ('final weights are exchanged', Implies(And(S >= 0, S < a.n, a.fdom[i0]), b.fval[S] == a.fval[i0]))]
    def swcand(ex, f, st0, lvs):
        c = ex.cur.ctx; a = Gr(c, c.pre); s1, s2 = c.arg('s1'), c.arg('s2'); o = []; i, j = z3.Int('i!s'), z3.Int('j!s')
        outer = [l for l in lvs if l.kind == 'idx']; inner = [l for l in lvs if l.kind == 'int' and not l.name.startswith('mem.@')]
        o.append(('number of states', lambda s: Gr(c, s).n == a.n))
        o.append(('transition count', lambda s: Implies(And(S >= 0, S < a.n), Gr(c, s).nt(S) == a.nt(sw(c, S)))))
        o.append(('numbers in use', lambda s: coded(c, s)[0]))
        i0 = sw(c, S)
        here = And(S >= 0, S < a.n, J >= 0, J < a.nt(i0)); tgt, old = T(c, a, i0, J, s1, s2)
        def kept(s):
            b = Gr(c, s); t = b.tr(S, J)
            return Implies(here, And(b.fld(t, 'in') == a.fld(old, 'in'), b.fld(t, 'out') == a.fld(old, 'out'), b.fld(t, 'w') == a.fld(old, 'w')))
        o.append(('symbols and weight kept', kept))
        def upto(before): return lambda s: (lambda b: Implies(here, b.fld(b.tr(S, J), 'target') == If(before(s), tgt, a.fld(old, 'target'))))(Gr(c, s))
        for l in outer: o.append(('done so far [%s]' % l.name, upto(lambda s, l=l: S < l.get(s))))
        # the outer position, when the loop at hand is the inner one
        pos = [v for n, v in st0.env.items() if isinstance(v, sym.Ptr) and v.steps and v.steps[-1][0] == 'elem' and len(v.steps) == 1]
        pos += [v.v for rid, reg in st0.mem.items() for v in reg.values() if isinstance(v.v, sym.Ptr) and v.v.steps and v.v.steps[-1][0] == 'elem' and len(v.v.steps) == 1]
        seen = []
        for p in pos:
            e = p.steps[-1][1]
            if any(z3.eq(e, x) for x in seen + [s1, s2]) or sym.is_c(e): continue
            seen.append(e)
            for l in inner: o.append(('done so far [%s at %s]' % (l.name, len(seen)), upto(lambda s, l=l, e=e: Or(S < e, And(S == e, J < l.get(s))))))
        return o
    P(G + '::swap_state_numbers(unsigned int, unsigned int)', 'bt', names=('s1', 's2'), ret='void', requires=lambda c: gwf(c, c.pre) + inv_req(c) + coded(c, c.pre) + [c.arg('s1') < Gr(c, c.pre).n, c.arg('s2') < Gr(c, c.pre).n, Gr(c, c.pre).n < 2**31], globals=GL, modifies=('this.state_vector', 'this.final_weight_map'), ensures=swap, loop_candidates=swcand, callable=False, cost=10, budget=200, auto_ms=200, auto_bounds=False, abstract='first')
    # the alphabet
    P(G + '::add_symbol_to_alphabet(std::string const&)', 'bt', names=('symbol',), ret='void', modifies=('this.alphabet',), ensures=lambda c, st, r: [('exactly that symbol is added', Gr(c, st).adom[Y] == Or(Gr(c, c.pre).adom[Y], Y == c.old('symbol')))], callable=False)
    P(G + '::remove_symbol_from_alphabet(std::string const&)', 'bt', names=('symbol',), ret='void', modifies=('this.alphabet',), ensures=lambda c, st, r: [('exactly that symbol is removed', Gr(c, st).adom[Y] == And(Gr(c, c.pre).adom[Y], Y != c.old('symbol')))], callable=False)
    def setcand(add):
        def f(ex, fn, st0, lvs):
            c = ex.cur.ctx; a = Gr(c, c.pre); v = c.old('symbols'); d, ix = c.m(v, 'dom'), c.m(v, 'idx'); o = []
            for l in lvs:
                if l.kind != 'idx': continue
                done = lambda s, l=l: And(d[Y], ix[Y] < l.get(s))
                o.append(('so far [%s]' % l.name, lambda s, done=done: Gr(c, s).adom[Y] == (Or(a.adom[Y], done(s)) if add else And(a.adom[Y], Not(done(s))))))
            return o
        return f
    SS = ('ptr', ('set', ('str',)))
    for nm, add in (('add_symbols_to', True), ('remove_symbols_from', False)):
        P(G + '::%s_alphabet(std::set<std::string> const&)' % nm, 'bt', names=('symbols',), ret='void', requires=lambda c: setwf(c, c.old('symbols'), [Y]), modifies=('this.alphabet',), loop_candidates=setcand(add),
          ensures=lambda c, st, r, add=add: [('exactly those symbols', Gr(c, st).adom[Y] == (Or(Gr(c, c.pre).adom[Y], c.m(c.old('symbols'), 'dom')[Y]) if add else And(Gr(c, c.pre).adom[Y], Not(c.m(c.old('symbols'), 'dom')[Y]))))], callable=False)
    # copies
    def copied(c, st, r):
        a, b = Gr(c, c.pre, 'graph'), Gr(c, st)
        return [('states', b.sv == a.sv), ('alphabet', b.adom[Y] == a.adom[Y]), ('finality', b.fdom[S] == a.fdom[S]), ('final weights', Implies(a.fdom[S], b.fval[S] == a.fval[S])), ('name', c.at(st, 'this.name') == c.old('graph.name'))]
    noempty = lambda c: [Not(Gr(c, c.pre, 'graph').adom[EMPTY])]
    P(G + '::operator=(%s const&)' % G, 'bt', names=('graph',), ret='void', requires=noempty, modifies=('this',), ensures=copied, callable=False)
    P(G + '::HfstBasicTransducer(%s const&)' % G, 'bt', names=('graph',), ret='void', requires=noempty, modifies=('this',), ensures=copied, callable=False)
    # collecting symbols
    SET = ('set', ('str',)); PSET = ('set', C.parse('std::pair<std::string, std::string>'))
    used = lambda c, y=Y: Fold('U_both', c, symbol_match(c, 'both', y), (y,))
    def numbered(c): return gwf(c, c.pre) + coded(c, c.pre) + [Cod(c, c.pre).len == Cod(c, c.pre).max + 1]
    def thismap(lvs): return [l for l in lvs if l.kind == 'map'][0]
    for fn, which in (('symbols_used()', 'both'), ('get_input_symbols() const', 'in'), ('get_output_symbols() const', 'out'), ('get_transition_pairs() const', 'pair')):
        keys = lambda which, y: (y, Y2) if which == 'pair' else (y,)
        fold = lambda c, y=Y, which=which: Fold('U_' + which, c, symbol_match(c, which, y), keys(which, y))
        el = lambda c, v, y, which=which: c.m(v, 'dom')[c.ex.L.sort(PSET[1]).constructor(0)(y, Y2) if which == 'pair' else y]
        def get(c, s, lvs, el=el): return el(c, thismap(lvs).get(s), Y)
        P(G + '::' + fn, 'bt', sret=PSET if which == 'pair' else SET, requires=lambda c, fold=fold: numbered(c) + fold(c).base(), globals=GL, loop_candidates=fold_candidates(fold, get), loop_facts=lambda ex, f, h, lvs, fold=fold: fold(ex.cur.ctx).facts(h),
          ensures=lambda c, st, r, fold=fold, el=el: [('exactly the symbols of the transitions', el(c, c.at(st, '$ret'), y) == fold(c, y).U(Gr(c, c.pre).n)) for y in ([Y, C03.UNK, C03.IDE] if c.applying else [Y])], callable=which == 'both', auto_ms=200, auto_bounds=False)
    def complete(c, i, j):
        a, k = Gr(c, c.pre), Cod(c, c.pre); t = a.tr(i, j)
        return And(a.adom[k.sym[a.fld(t, 'in')]], a.adom[k.sym[a.fld(t, 'out')]])
    def checkcand(ex, f, st0, lvs):
        c = ex.cur.ctx; a = Gr(c, c.pre); o = []
        for l in lvs:
            if l.kind != 'idx': continue
            o.append(('states so far [%s]' % l.name, lambda s, l=l: Implies(And(a.ok(S, J), S < l.get(s)), complete(c, S, J))))
            for n, e in enumerate(positions(st0, 1)): o.append(('transitions so far [%s/%d]' % (l.name, n), lambda s, l=l, e=e: Implies(And(a.ok(S, J), Or(S < e, And(S == e, J < l.get(s)))), complete(c, S, J))))
        return o
    def checked(c, st, r):
        i, j = z3.Int('i!k'), z3.Int('j!k'); a = Gr(c, c.pre)
        # where the answer is no, the execution stands at a transition with a symbol that is missing
        bad = [And(a.ok(x, y), Not(complete(c, x, y))) for x, y in positions(st, 2)]
        return [('yes: every symbol of every transition is in the alphabet', Implies(And(r, a.ok(S, J)), complete(c, S, J))), ('no: some symbol is not', Or(r, *bad))]
    P(G + '::check_alphabet()', 'bt', ret='bool', requires=numbered, globals=GL, loop_candidates=checkcand, ensures=checked, callable=False, auto_ms=200, auto_bounds=False)
    # pruning
    special = Or(*[Y == lit(x) for x in ('@_EPSILON_SYMBOL_@', '@_UNKNOWN_SYMBOL_@', '@_IDENTITY_SYMBOL_@')])
    def pcand(ex, f, st0, lvs):
        c = ex.cur.ctx; a = Gr(c, c.pre); o = []; U = used(c).U(a.n)
        d, ix = a.adom, c.m(a.al, 'idx'); sets = [lf.v for reg in st0.mem.values() for lf in reg.values() if lf.ct == SET and z3.is_expr(lf.v)]
        for m_ in [l for l in lvs if l.kind == 'map']:
            for l in [l for l in lvs if l.kind == 'idx']:
                o.append(('dead so far [%s %s]' % (m_.name, l.name), lambda s, l=l, m_=m_: c.m(m_.get(s), 'dom')[Y] == And(d[Y], ix[Y] < l.get(s), Not(U), Not(special))))
                for n, v in enumerate(sets): o.append(('removed so far [%s %s %d]' % (m_.name, l.name, n), lambda s, l=l, m_=m_, v=v: c.m(m_.get(s), 'dom')[Y] == And(d[Y], Not(And(c.m(v, 'dom')[Y], c.m(v, 'idx')[Y] < l.get(s))))))
        return o
    def pruned(c, st, r):
        a, b = Gr(c, c.pre), Gr(c, st); U = lambda y: used(c, y).U(a.n)
        return [('exactly the symbols that occur, and the special ones, stay', b.adom[Y] == And(a.adom[Y], Or(U(Y), special, And(Not(c.arg('force')), Or(U(C03.UNK), U(C03.IDE))))))]
    P(G + '::prune_alphabet(bool)', 'bt', names=('force',), ret='void', requires=lambda c: numbered(c) + setwf(c, Gr(c, c.pre).al, [Y]) + [Not(used(c, y).U(I(0))) for y in (Y, C03.UNK, C03.IDE)], globals=GL, modifies=('this.alphabet',), loop_candidates=pcand, loop_facts=lambda ex, f, h, lvs: sets_here(ex, h, [Y]), ensures=pruned, callable=False, auto_ms=200, auto_bounds=False)
    # the number K: symbols given by number
    K = z3.Int('K!any')
    nmatch = lambda c: lambda t: Or(c.f(BT, t, 'transition_data.input_number') == K, c.f(BT, t, 'transition_data.output_number') == K)
    nused = lambda c: Fold('U_number', c, nmatch(c), (K,))
    def ascand(ex, f, st0, lvs):
        c = ex.cur.ctx; k = Cod(c, c.pre); a = Gr(c, c.pre); o = []; F = nused(c); v = c.old('symbols'); here = And(K >= 0, K <= k.max)
        for l in lvs:
            if l.kind == 'vec':
                o.append(('size', lambda s, l=l: c.vlen(l.get(s)) == k.max + 1))
                fnd = lambda s, l=l: c.varr(l.get(s))[K] != 0
                for p in lvs:
                    if p.kind != 'idx': continue
                    o.append(('states so far [%s]' % p.name, lambda s, p=p, fnd=fnd: Implies(here, fnd(s) == F.U(p.get(s)))))
                    for n, e in enumerate(positions(st0, 1)): o.append(('transitions so far [%s/%d]' % (p.name, n), lambda s, p=p, e=e, fnd=fnd: Implies(here, fnd(s) == Or(F.U(e), F.V(e, p.get(s))))))
            if l.kind == 'map':
                for p in lvs:
                    if p.kind == 'idx': o.append(('removed so far [%s]' % p.name, lambda s, l=l, p=p: Implies(And(here, c.m(v, 'dom')[K]), c.m(l.get(s), 'dom')[k.sym[K]] == And(a.adom[k.sym[K]], Or(F.U(a.n), c.m(v, 'idx')[K] >= p.get(s))))))
                    if p.kind == 'idx': o.append(('others stay [%s]' % p.name, lambda s, l=l, p=p: Implies(Not(And(k.dom[Y], c.m(v, 'dom')[k.num[Y]])), c.m(l.get(s), 'dom')[Y] == a.adom[Y])))
        return o
    def aspruned(c, st, r):
        a, b, k = Gr(c, c.pre), Gr(c, st), Cod(c, c.pre); v = c.old('symbols'); F = nused(c)
        return [('a symbol given stays iff it still occurs', Implies(And(K >= 0, K <= k.max, c.m(v, 'dom')[K]), b.adom[k.sym[K]] == And(a.adom[k.sym[K]], F.U(a.n)))), ('symbols not given stay', Implies(Not(And(k.dom[Y], c.m(v, 'dom')[k.num[Y]])), b.adom[Y] == a.adom[Y]))]
    def asreq(c):
        v = c.old('symbols'); x = z3.Int('x!q')
        return numbered(c) + inv_req(c) + C03.room(c) + nused(c).base() + [ForAll([x], Implies(c.m(v, 'dom')[x], And(x >= 0, x <= Cod(c, c.pre).max))), Implies(c.m(v, 'size') == 0, Not(c.m(v, 'dom')[K])), c.m(v, 'size') >= 0] + setwf(c, v, [K])
    P(G + '::prune_alphabet_after_substitution(std::set<unsigned int> const&)', 'bt', names=('symbols',), ret='void', requires=asreq, globals=GL, modifies=('this.alphabet',), loop_candidates=ascand, loop_facts=lambda ex, f, h, lvs: nused(ex.cur.ctx).facts(h) + number_sets_here(ex, h, [K]), ensures=aspruned, callable=False, auto_ms=200, auto_bounds=False, abstract='first', cost=8, budget=200)
    out += transition_contracts('bt')
    return out
ASSUMPTIONS = ['fewer than 2^32-64 symbols and 2^32 states and transitions per state']
BOUND = '4000 (60000) random histories of up to 14 editing operations on graphs of up to 7 states over 9 symbols, compared with a plain model after each'
def harnesses(): return [Harness('C06.cc', ['libhfst/src/implementations/' + x + '.cc' for x in ('HfstBasicTransducer', 'HfstBasicTransition', 'HfstTropicalTransducerTransitionData')] + ['libhfst/src/HfstSymbolDefs.cc', 'libhfst/src/HfstExceptionDefs.cc', 'libhfst/src/HfstFlagDiacritics.cc'], libs=['-Wl,--unresolved-symbols=ignore-all'])]
