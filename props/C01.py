from irv.api import *
from props.C02 import FLAG, FEAT, VAL, HASV, OPC
TITLE = 'flag diacritic steps'
def units():
    return [IRUnit('fd', '''#include "HfstFlagDiacritics.h"
template class hfst::FdTable<unsigned short>; template class hfst::FdState<unsigned short>;
#include "/repo/libhfst/src/HfstDataTypes.cc"
#include "/repo/libhfst/src/HfstFlagDiacritics.cc"
'''), IRUnit('lfd', '#include "/repo/libhfst/src/HfstLookupFlagDiacritics.cc"\n'),
            IRUnit('xfst', '#include "/repo/libhfst/src/parsers/XfstCompiler.cc"\n', std='c++17')]
OP = 'hfst::FdOperation'
ST = 'hfst::FdState<unsigned short>'; TB = 'hfst::FdTable<unsigned short>'
def step(c, op, V):
    """the documented meaning of one operation on a feature value array: (succeeds, new array)
    stored value: 0 unset, v>0 positively set to v, v<0 negatively set to -v"""
    k = c.f(OP, op, 'op'); f = c.f(OP, op, 'feature'); v = signed(c.f(OP, op, 'value'), 16)
    x = signed(V[f], 16)
    enc, nenc = unsigned_of(v, 16), unsigned_of(-v, 16)
    ok_u = Or(x == 0, x == v, And(x < 0, -x != v))
    succ = If(k == 2, If(v == 0, x != 0, x == v), If(k == 3, If(v == 0, x == 0, x != v), If(k == 5, ok_u, TRUE)))
    new = If(k == 0, enc, If(k == 1, nenc, If(k == 4, I(0), If(And(k == 5, ok_u), enc, V[f]))))
    return succ, Store(V, f, new)
def opok(c, op, vals):
    return [c.f(OP, op, 'op') <= 5, c.f(OP, op, 'feature') < c.vlen(vals), c.f(OP, op, 'value') != 32768]
def contracts():
    def req(c): return opok(c, c.old('op'), c.old('this.values'))
    def ens(c, st, r):
        s, V = step(c, c.old('op'), c.varr(c.old('this.values')))
        return [('succeeds exactly when the operation is defined to', r == s), ('feature values updated as defined', c.varr(c.at(st, 'this.values')) == V),
                ('number of features kept', c.vlen(c.at(st, 'this.values')) == c.vlen(c.old('this.values')))]
    a = Contract(ST + '::apply_operation(hfst::FdOperation const&)', 'fd', names=('op',), requires=req, ensures=ens, modifies=('this.values',), ret='bool', exact=True, callable=False)
    # by symbol
    def table(c, st): return c.ex.read_obj(st, c.ex.dec_ptr(c.old('this.table'), C.parse(TB)), C.parse(TB))
    def req2(c):
        t = table(c, c.pre); ops = c.f(TB, t, 'operations'); s = c.arg('symbol')
        op = c.m(ops, 'val')[s]
        return [c.old('this.table') != 0, Implies(c.m(ops, 'dom')[s], And(*opok(c, op, c.old('this.values'))))]
    def ens2(c, st, r):
        t = table(c, c.pre); ops = c.f(TB, t, 'operations'); s = c.arg('symbol'); d = c.m(ops, 'dom')[s]
        su, V = step(c, c.m(ops, 'val')[s], c.varr(c.old('this.values')))
        return [('a symbol that is no flag diacritic always succeeds', Implies(Not(d), r)), ('a flag diacritic succeeds as its operation does', Implies(d, r == su)),
                ('values', c.varr(c.at(st, 'this.values')) == If(d, V, c.varr(c.old('this.values')))), ('number of features kept', c.vlen(c.at(st, 'this.values')) == c.vlen(c.old('this.values')))]
    b = Contract(ST + '::apply_operation(unsigned short)', 'fd', names=('symbol',), requires=req2, ensures=ens2, modifies=('this.values',), ret='bool', exact=True)
    out = [a, b]
    P = lambda *x, **k: out.append(Contract(*x, **k))
    # ---- the string-keyed evaluator
    F = 'FlagDiacriticTable::'; SR = 'std::string&'
    class V:
        """view of the evaluator's state"""
        def __init__(self, c, st):
            fv, fp = c.at(st, 'this.feature_values'), c.at(st, 'this.feature_polarities')
            self.set, self.val, self.pset, self.pol, self.err = c.m(fv, 'dom'), c.m(fv, 'val'), c.m(fp, 'dom'), c.m(fp, 'val'), c.at(st, 'this.error_flag')
    def same(v1, v0, f):
        y = fresh(SEQ, 'f')
        return Implies(y != f if f is not None else TRUE, And(v1.set[y] == v0.set[y], v1.pset[y] == v0.pset[y], Implies(v0.set[y], v1.val[y] == v0.val[y]), Implies(v0.pset[y], v1.pol[y] == v0.pol[y])))
    def sets(c, st, f, val, pol):
        v0, v1 = V(c, c.pre), V(c, st)
        return [('feature is set', And(v1.set[f], v1.pset[f])), ('to the value', v1.val[f] == val), ('with the polarity', (v1.pol[f] == 1) == pol), ('other features kept', same(v1, v0, f)), ('error status kept', v1.err == v0.err)]
    MODS = ('this.feature_values', 'this.feature_polarities')
    fv = lambda c: (c.old('feature'), c.old('value'))
    inv = lambda c, *fs: [c.old('this.error_flag') <= 1] + [V(c, c.pre).set[f] == V(c, c.pre).pset[f] for f in fs]
    N2 = ('feature', 'value')
    P(F + 'set_positive_value(%s, %s)' % (SR, SR), 'lfd', names=N2, ret='void', modifies=MODS, ensures=lambda c, st, r: sets(c, st, *fv(c), TRUE), callable=False)
    P(F + 'set_negative_value(%s, %s)' % (SR, SR), 'lfd', names=N2, ret='void', modifies=MODS, ensures=lambda c, st, r: sets(c, st, *fv(c), FALSE), callable=False)
    def errpost(cond):
        def e(c, st, r):
            v0, v1 = V(c, c.pre), V(c, st)
            f = c.old('feature'); val = c.old('value') if 'value' in c.names else None
            bad = cond(v0, f, val)
            return [('fails exactly when defined to', (v1.err != 0) == Or(v0.err != 0, bad)), ('no feature changes', same(v1, v0, None))]
        return e
    pos = lambda v, f, x: And(v.set[f], v.val[f] == x, v.pol[f] == 1)
    EM = MODS + ('this.error_flag',)
    rq = lambda c: inv(c, c.old('feature'))
    P(F + 'disallow(%s, %s)' % (SR, SR), 'lfd', names=N2, ret='void', modifies=EM, requires=rq, ensures=errpost(lambda v, f, x: pos(v, f, x)), callable=False)
    P(F + 'disallow(%s)' % SR, 'lfd', names=('feature',), ret='void', modifies=EM, requires=rq, ensures=errpost(lambda v, f, x: v.set[f]), callable=False)
    P(F + 'require(%s, %s)' % (SR, SR), 'lfd', names=N2, ret='void', modifies=EM, requires=rq, ensures=errpost(lambda v, f, x: Not(pos(v, f, x))), callable=False)
    P(F + 'require(%s)' % SR, 'lfd', names=('feature',), ret='void', modifies=EM, requires=rq, ensures=errpost(lambda v, f, x: Not(v.set[f])), callable=False)
    def unify(c, st, r):
        v0, v1 = V(c, c.pre), V(c, st); f, x = fv(c)
        ok = Or(Not(v0.set[f]), pos(v0, f, x), And(v0.pol[f] != 1, v0.val[f] != x))
        return [('fails exactly when the feature has a conflicting setting', (v1.err != 0) == Or(v0.err != 0, Not(ok))), ('then the feature is positively set to the value', Implies(ok, pos(v1, f, x))), ('set in both tables', v1.set[f] == v1.pset[f]),
                ('other features kept', same(v1, v0, f))]
    P(F + 'unify(%s, %s)' % (SR, SR), 'lfd', names=N2, ret='void', modifies=EM, requires=rq, ensures=unify, callable=False)
    def clear(c, st, r):
        v0, v1 = V(c, c.pre), V(c, st); f = c.old('feature')
        return [('feature unset', And(Not(v1.set[f]), Not(v1.pset[f]))), ('other features kept', same(v1, v0, f)), ('error status kept', v1.err == v0.err)]
    P(F + 'clear(%s)' % SR, 'lfd', names=('feature',), ret='void', modifies=EM, ensures=clear, callable=False)
    def reset(c, st, r):
        v1 = V(c, st); y = fresh(SEQ, 'f')
        return [('no feature set', And(Not(v1.set[y]), Not(v1.pset[y]))), ('no error', v1.err == 0)]
    P(F + 'reset()', 'lfd', ret='void', modifies=EM, ensures=reset, callable=False)
    G = 'FlagDiacriticTable::'
    gl = {G + 'diacritic_operators': 'std::map<std::string, unsigned int>', G + 'diacritic_features': 'std::map<std::string, std::string>', G + 'diacritic_values': 'std::map<std::string, std::string>', G + 'diacritic_has_value': 'std::map<std::string, bool>'}
    from props import C02
    def strstep(v0, s):
        """(error', set', val', pol') for one symbol"""
        f, x, k = FEAT(s), VAL(s), OPC(s); hv = HASV(s); fl = FLAG(s)
        ps = pos(v0, f, x); K = lambda ch_: k == ch(ch_)
        oku = Or(Not(v0.set[f]), ps, And(v0.pol[f] != 1, v0.val[f] != x))
        bad = And(fl, Or(And(K('D'), If(hv, ps, v0.set[f])), And(K('R'), If(hv, Not(ps), Not(v0.set[f]))), And(K('U'), Not(oku))))
        return fl, f, x, k, bad, oku
    def ins(c, st, r):
        v0, v1 = V(c, c.pre), V(c, st); s = c.old('symbol'); fl, f, x, k, bad, oku = strstep(v0, s); K = lambda ch_: k == ch(ch_)
        setp = Or(K('P'), And(K('U'), oku))
        keep = lambda y: And(v1.set[y] == v0.set[y], Implies(v0.set[y], And(v1.val[y] == v0.val[y], (v1.pol[y] == 1) == (v0.pol[y] == 1))))
        return [('fails exactly when the operation is defined to', (v1.err != 0) == Or(v0.err != 0, bad)), ('error status is a truth value', v1.err <= 1),
                ('positive set', Implies(And(fl, setp), pos(v1, f, x))), ('negative set', Implies(And(fl, K('N')), And(v1.set[f], v1.val[f] == x, v1.pol[f] != 1))), ('clear', Implies(And(fl, K('C')), Not(v1.set[f]))),
                ('ordinary symbols and tests change no feature', Implies(Or(Not(fl), K('D'), K('R'), And(K('U'), Not(oku))), c.all(SEQ, keep))),
                ('other features kept', c.all(SEQ, lambda y: Implies(y != f, keep(y)))), ('tables stay consistent', c.all(SEQ, lambda y: Implies(v0.set[y] == v0.pset[y], v1.set[y] == v1.pset[y])))]
    def opletter(s): return Implies(FLAG(s), And(Or(*[OPC(s) == ch(k) for k in 'PNDRCU']), Implies(Or(*[OPC(s) == ch(k) for k in 'PNU']), HASV(s))))   # consequence of the definition, proved in C02
    def insreq(c):
        v = V(c, c.pre); f = FEAT(c.old('symbol'))
        return [c.old('this.error_flag') <= 1, opletter(c.old('symbol')), v.set[f] == v.pset[f]]
    P(F + 'insert_symbol(std::string const&)', 'lfd', names=('symbol',), ret='void', requires=insreq, ensures=ins, modifies=EM + tuple('@' + g for g in gl), globals=gl, budget=240, cost=9, unroll_k=0)
    # ---- whole strings: a recursive definition of the reached setting, and the loop that computes it
    iset = z3.Function('set_after', z3.IntSort(), SEQ, z3.BoolSort()); ival_ = z3.Function('val_after', z3.IntSort(), SEQ, SEQ); ipol = z3.Function('pos_after', z3.IntSort(), SEQ, z3.BoolSort())
    ibad = z3.Function('blocked_at', z3.IntSort(), z3.BoolSort())
    def defs(inp, n):
        """definition of the setting after n+1 symbols, unfolded at n"""
        y = z3.Const('y!d', SEQ); s = inp[n]; f, x, k, hv, fl = FEAT(s), VAL(s), OPC(s), HASV(s), FLAG(s); K = lambda ch_: k == ch(ch_)
        ps = And(iset(n, f), ival_(n, f) == x, ipol(n, f)); oku = Or(Not(iset(n, f)), ps, And(Not(ipol(n, f)), ival_(n, f) != x))
        hit = And(fl, y == f); setp = Or(K('P'), And(K('U'), oku))
        n1 = z3.simplify(n + 1)
        return [ibad(n) == And(fl, Or(And(K('D'), If(hv, ps, iset(n, f))), And(K('R'), If(hv, Not(ps), Not(iset(n, f)))), And(K('U'), Not(oku)))),
                ForAll([y], iset(n1, y) == If(And(hit, Or(setp, K('N'))), TRUE, If(And(hit, K('C')), FALSE, iset(n, y)))),
                ForAll([y], ival_(n1, y) == If(And(hit, Or(setp, K('N'))), x, ival_(n, y))),
                ForAll([y], ipol(n1, y) == If(And(hit, setp), TRUE, If(And(hit, K('N')), FALSE, ipol(n, y)))),
                opletter(inp[n])]
    def lfacts(ex, f, h, lvs):
        c = ex.cur.ctx; o = []
        for l in lvs:
            if l.kind == 'idx' or (l.kind == 'int' and 'this' not in l.name): o += defs(c.varr(c.old('input')), l.get(h))
        return o
    def lcand(ex, f, st0, lvs):
        c = ex.cur.ctx; out = []
        for l in lvs:
            if l.kind not in ('idx', 'int'): continue
            y = z3.Const('y!i', SEQ); i = z3.Int('i!i')
            out += [('reached setting is the defined one [%s]' % l.name, lambda s, l=l: (lambda v: ForAll([y], And(v.set[y] == iset(l.get(s), y), v.set[y] == v.pset[y], Implies(v.set[y], And(v.val[y] == ival_(l.get(s), y), (v.pol[y] == 1) == ipol(l.get(s), y))))))(V(c, s))),
                    ('no step so far was blocked [%s]' % l.name, lambda s, l=l: ForAll([i], Implies(And(i >= 0, i < l.get(s)), Not(ibad(i)))))]
        out.append(('no error', lambda s: V(c, s).err == 0))
        return out
    def isvalid(c, st, r):
        i = z3.Int('i!p')
        return [('accepted exactly when no flag operation on the way is blocked', r == ForAll([i], Implies(And(i >= 0, i < c.vlen(c.old('input'))), Not(ibad(i)))))]
    P(F + 'is_valid_string(std::vector<std::string> const&)', 'lfd', names=('input',), ret='bool', requires=lambda c: [c.old('this.error_flag') <= 1], reveal=lambda c: (lambda y: [ForAll([y], Not(iset(0, y)))])(z3.Const('y!0', SEQ)), loop_facts=lfacts, bmc_facts=lambda c, k: sum((defs(c.varr(c.old('input')), I(n)) for n in range(k + 1)), []), ensures=isvalid, modifies=EM + tuple('@' + g for g in gl), globals=gl, loop_candidates=lcand, cost=9, callable=False)
    def xvalid(c, st, r):
        i = z3.Int('i!p')
        return [('accepted exactly when no flag operation on the way is blocked', r == ForAll([i], Implies(And(i >= 0, i < c.vlen(c.old('sv'))), Not(ibad(i)))))]
    def xfacts(ex, f, h, lvs):
        c = ex.cur.ctx; o = []; inp = c.varr(c.old('sv'))
        for l in lvs:
            if l.kind == 'idx': o += defs(inp, l.get(h)) + [(VAL(inp[l.get(h)]) == EMPTY) == Not(HASV(inp[l.get(h)]))]
        return o
    def xcand(ex, f, st0, lvs):
        c = ex.cur.ctx; o = []
        maps = [l for l in lvs if l.kind == 'map']
        vs = [l for l in maps if l.ct[0] == 'map' and l.ct[1] == ('str',) and l.ct[2] == ('str',)]; ng = [l for l in maps if l.ct[0] == 'set' and l.ct[1] == ('str',)]
        for l in lvs:
            if l.kind != 'idx': continue
            i = z3.Int('i!i'); y = z3.Const('y!i', SEQ)
            o.append(('no step so far was blocked [%s]' % l.name, lambda s, l=l: ForAll([i], Implies(And(i >= 0, i < l.get(s)), Not(ibad(i))))))
            for v in vs:
                D = lambda s, v=v: (c.m(v.get(s), 'dom'), c.m(v.get(s), 'val'))
                o.append(('set features have a value [%s]' % v.name, lambda s, l=l, D=D: ForAll([y], And(D(s)[0][y], D(s)[1][y] != EMPTY) == iset(l.get(s), y))))
                o.append(('values are the defined ones [%s]' % v.name, lambda s, l=l, D=D: ForAll([y], Implies(iset(l.get(s), y), And(D(s)[1][y] != EMPTY, D(s)[1][y] == ival_(l.get(s), y))))))
            for g in ng: o.append(('negative settings are the defined ones [%s]' % g.name, lambda s, l=l, g=g: ForAll([y], c.m(g.get(s), 'dom')[y] == And(iset(l.get(s), y), Not(ipol(l.get(s), y))))))
        return o
    P('hfst::xfst::is_valid_string(std::vector<std::string> const&)', 'xfst', names=('sv',), ret='bool', ensures=xvalid, reveal=lambda c: (lambda y: [ForAll([y], Not(iset(0, y)))])(z3.Const('y!0', SEQ)), loop_facts=xfacts, bmc_facts=lambda c, k: sum((defs(c.varr(c.old('sv')), I(n)) + [(VAL(c.varr(c.old('sv'))[n]) == EMPTY) == Not(HASV(c.varr(c.old('sv'))[n]))] for n in range(k + 1)), []), loop_candidates=xcand, cost=9, callable=False)

    # ---- the number-keyed table: features and values get distinct numbers
    def tm(c, st, k): return c.at(st, 'this.' + k)
    def tabinv(c, st, y, z):
        """representation invariant of the table at two arbitrary names y, z"""
        fm, vm = tm(c, st, 'feature_map'), tm(c, st, 'value_map'); D, W, S = lambda m: c.m(m, 'dom'), lambda m: c.m(m, 'val'), lambda m: c.m(m, 'size')
        return [('feature numbers are below the number of features', Implies(D(fm)[y], W(fm)[y] < S(fm))), ('distinct features have distinct numbers', Implies(And(D(fm)[y], D(fm)[z], y != z), W(fm)[y] != W(fm)[z])),
                ('value numbers are positive and bounded by the number of values', Implies(D(vm)[y], And(W(vm)[y] <= S(vm), (W(vm)[y] == 0) == (y == EMPTY)))), ('distinct values have distinct numbers', Implies(And(D(vm)[y], D(vm)[z], y != z), W(vm)[y] != W(vm)[z])),
                ('the empty value is known', D(vm)[EMPTY])]
    def defreq(c):
        sx = c.old('str'); f, x = FEAT(sx), VAL(sx); names = [z3.Const('y!t', SEQ), z3.Const('z!t', SEQ), f, x, EMPTY]
        o = [FLAG(sx), opletter(sx), c.m(tm(c, c.pre, 'feature_map'), 'size') < 65535, c.m(tm(c, c.pre, 'value_map'), 'size') < 32766]
        for a_ in names:
            for b_ in names: o += [q for _, q in tabinv(c, c.pre, a_, b_)]
        return o
    def defpost(c, st, r):
        sx, n = c.old('str'), c.arg('symbol'); f, x = FEAT(sx), VAL(sx); y, z = z3.Const('y!t', SEQ), z3.Const('z!t', SEQ)
        fm, vm, ops, sm = [tm(c, st, k) for k in ('feature_map', 'value_map', 'operations', 'symbol_map')]; op = c.m(ops, 'val')[n]
        fm0, vm0, ops0, sm0 = [tm(c, c.pre, k) for k in ('feature_map', 'value_map', 'operations', 'symbol_map')]
        o = [('the symbol has an operation', c.m(ops, 'dom')[n]), ('with the feature of the diacritic', And(c.m(fm, 'dom')[f], c.f(OP, op, 'feature') == c.m(fm, 'val')[f])),
             ('with the value of the diacritic', And(c.m(vm, 'dom')[x], c.f(OP, op, 'value') == c.m(vm, 'val')[x])), ('and its name', c.f(OP, op, 'name') == sx), ('the name leads to the symbol', And(c.m(sm, 'dom')[sx], c.m(sm, 'val')[sx] == n))]
        o += [('operator %s' % k, Implies(OPC(sx) == ch(k), c.f(OP, op, 'op') == i)) for i, k in enumerate('PNRDCU')]
        j = fresh(z3.IntSort(), 'j')
        o += [('operations of other symbols kept', Implies(j != n, And(c.m(ops, 'dom')[j] == c.m(ops0, 'dom')[j], c.m(ops, 'val')[j] == c.m(ops0, 'val')[j]))), ('names of other symbols kept', Implies(y != sx, And(c.m(sm, 'dom')[y] == c.m(sm0, 'dom')[y], c.m(sm, 'val')[y] == c.m(sm0, 'val')[y]))),
              ('known features keep their numbers', Implies(c.m(fm0, 'dom')[y], And(c.m(fm, 'dom')[y], c.m(fm, 'val')[y] == c.m(fm0, 'val')[y]))), ('known values keep their numbers', Implies(c.m(vm0, 'dom')[y], And(c.m(vm, 'dom')[y], c.m(vm, 'val')[y] == c.m(vm0, 'val')[y])))]
        return o + tabinv(c, st, y, z)
    P(TB + '::define_diacritic(unsigned short, std::string const&)', 'fd', names=('symbol', 'str'), ret='void', requires=defreq, ensures=defpost, reveal=lambda c: C02.reveal(c.old('str')), modifies=('this.feature_map', 'this.value_map', 'this.operations', 'this.symbol_map'), callable=False, cost=8)
    P(TB + '::is_diacritic(unsigned short) const', 'fd', names=('symbol',), ret='bool', ensures=lambda c, st, r: [('a symbol is a diacritic exactly when it was defined as one', r == c.m(c.old('this.operations'), 'dom')[c.arg('symbol')])], callable=False)
    P(TB + '::num_features() const', 'fd', ret=('int', 16, False), requires=lambda c: [c.m(c.old('this.feature_map'), 'size') < 65536], ensures=lambda c, st, r: [('number of features', r == c.m(c.old('this.feature_map'), 'size'))], callable=False)
    # a fresh state: every feature unset
    def ctor(c, st, r):
        v = c.at(st, 'this.values'); i = fresh(z3.IntSort(), 'i')
        return [('one entry per feature', c.vlen(v) == c.m(c.old('t.feature_map'), 'size')), ('every feature is unset', Implies(And(i >= 0, i < c.vlen(v)), c.varr(v)[i] == 0)), ('no error', c.at(st, 'this.error_flag') == 0)]
    P(ST + '::FdState(hfst::FdTable<unsigned short> const&)', 'fd', names=('t',), ret='void', requires=lambda c: [c.m(c.old('t.feature_map'), 'size') < 65536], ensures=ctor, modifies=('this',), callable=False)
    def rst(c, st, r):
        t = table(c, c.pre); v = c.at(st, 'this.values'); i = fresh(z3.IntSort(), 'i')
        return [('one entry per feature', c.vlen(v) == c.m(c.f(TB, t, 'feature_map'), 'size')), ('every feature is unset', Implies(And(i >= 0, i < c.vlen(v)), c.varr(v)[i] == 0)), ('no error', c.at(st, 'this.error_flag') == 0)]
    P(ST + '::reset()', 'fd', ret='void', requires=lambda c: [c.old('this.table') > 0, c.m(c.f(TB, table(c, c.pre), 'feature_map'), 'size') < 65536], ensures=rst, modifies=('this.values', 'this.error_flag'), callable=False)

    # whole strings of symbol numbers
    VA = z3.Function('values_after', z3.IntSort(), z3.ArraySort(z3.IntSort(), z3.IntSort())); nbad = z3.Function('number_blocked_at', z3.IntSort(), z3.BoolSort())
    def ndefs(c, n):
        ops = c.old('this.operations'); sy = c.varr(c.old('symbols'))[n]; op = c.m(ops, 'val')[sy]; d = c.m(ops, 'dom')[sy]; su, V2 = step(c, op, VA(n))
        sz = c.m(c.old('this.feature_map'), 'size')
        return [nbad(n) == And(d, Not(su)), VA(z3.simplify(n + 1)) == If(d, V2, VA(n)), Implies(d, And(c.f(OP, op, 'op') <= 5, c.f(OP, op, 'feature') < sz, c.f(OP, op, 'value') != 32768))]
    def nfacts(ex, f, h, lvs):
        c = ex.cur.ctx
        return sum((ndefs(c, l.get(h)) for l in lvs if l.kind in ('idx', 'int')), [])
    def ncand(ex, f, st0, lvs):
        c = ex.cur.ctx; o = []; i = z3.Int('i!i')
        for l in lvs:
            if l.kind not in ('idx', 'int'): continue
            o.append(('no step so far was blocked [%s]' % l.name, lambda s, l=l: ForAll([i], Implies(And(i >= 0, i < l.get(s)), Not(nbad(i))))))
            for v in lvs:
                if v.kind == 'vec' and v.ct[1] == ('int', 16, True): o.append(('reached values are the defined ones [%s]' % v.name, lambda s, l=l, v=v: c.varr(v.get(s)) == VA(l.get(s))))
                if v.kind == 'vec' and v.ct[1] == ('int', 16, True): o.append(('all features present [%s]' % v.name, lambda s, v=v: c.vlen(v.get(s)) == c.m(c.old('this.feature_map'), 'size')))
        return o
    def nvalid(c, st, r):
        i = z3.Int('i!p')
        return [('accepted exactly when no flag operation on the way is blocked', r == ForAll([i], Implies(And(i >= 0, i < c.vlen(c.old('symbols'))), Not(nbad(i)))))]
    P(TB + '::is_valid_string(std::vector<unsigned short> const&) const', 'fd', names=('symbols',), ret='bool', requires=lambda c: [c.m(c.old('this.feature_map'), 'size') < 65536], reveal=lambda c: [VA(0) == z3.K(z3.IntSort(), I(0))], ensures=nvalid, bmc_facts=lambda c, k: sum((ndefs(c, I(n)) for n in range(k + 1)), []), loop_candidates=ncand, loop_facts=nfacts, callable=False, cost=5)
    # callee contracts used by insert_symbol (proved in C02)
    for c in C02.contracts():
        if any(k in c.fn for k in ('split_diacritic', 'is_genuine', 'FdOperation::')): out.append(c)
    return out

BOUND = 'all words up to length 2 over 27 symbols (2 features, 2 values), up to length 3 (4 thorough) over one feature, 4000 (60000) random words over 6 features x 5 values, tables of 300 (3000) features'
ASSUMPTIONS = ['flag values written explicitly are nonempty (used for the xfst evaluator)', 'fewer than 65536 features and 32768 values per table']
def harnesses(): return [Harness('C01.cc', ['libhfst/src/HfstFlagDiacritics.cc', 'libhfst/src/HfstLookupFlagDiacritics.cc', 'libhfst/src/HfstDataTypes.cc', 'libhfst/src/HfstExceptionDefs.cc', 'libhfst/src/parsers/XfstCompiler.cc'], libs=['-Wl,--unresolved-symbols=ignore-all'])]
