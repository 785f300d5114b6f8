from irv.api import *
TITLE = 'symbol coding'
def units():
    return [IRUnit('td', '#include "/repo/libhfst/src/implementations/HfstTropicalTransducerTransitionData.cc"\n#include "/repo/libhfst/src/implementations/HfstBasicTransition.cc"\n#include "/repo/libhfst/src/HfstExceptionDefs.cc"\n')]
TD = 'hfst::implementations::HfstTropicalTransducerTransitionData'; BT = 'hfst::implementations::HfstBasicTransition'
GL = {TD + '::number2symbol_map': 'std::vector<std::string>', TD + '::symbol2number_map': 'std::map<std::string, unsigned int>', TD + '::max_number': 'unsigned int'}
V, M, X = TD + '::number2symbol_map', TD + '::symbol2number_map', TD + '::max_number'
EPS, UNK, IDE = lit('@_EPSILON_SYMBOL_@'), lit('@_UNKNOWN_SYMBOL_@'), lit('@_IDENTITY_SYMBOL_@')
class Cod:
    def __init__(s, c, st):
        s.vec, s.map, s.max = c.g(st, V), c.g(st, M), c.g(st, X)
        s.len, s.sym, s.dom, s.num = c.vlen(s.vec), c.varr(s.vec), c.m(s.map, 'dom'), c.m(s.map, 'val')
def inv(c, st):
    """the coding invariant: numbers 0..max and the symbols met so far are in one-to-one correspondence"""
    k = Cod(c, st)
    o = [('one symbol per number', k.len == k.max + 1)]
    o += [('every known symbol has a number that leads back to it', c.all(SEQ, lambda y: Implies(k.dom[y], And(k.num[y] >= 0, k.num[y] <= k.max, k.sym[k.num[y]] == y)))),
          ('every number in use has a symbol that leads back to it', c.all(z3.IntSort(), lambda i: Implies(And(i >= 0, i <= k.max), And(k.dom[k.sym[i]], k.num[k.sym[i]] == i)))),
          ('the empty symbol has no number', Not(k.dom[EMPTY])), ('special symbols have the fixed numbers', And(k.max >= 2, k.sym[0] == EPS, k.sym[1] == UNK, k.sym[2] == IDE))]
    return o
def inv_req(c):
    k = Cod(c, c.pre); y = z3.Const('y!v', SEQ); i = z3.Int('i!v')
    return [k.len == k.max + 1, ForAll([y], Implies(k.dom[y], And(k.num[y] >= 0, k.num[y] <= k.max, k.sym[k.num[y]] == y))), ForAll([i], Implies(And(i >= 0, i <= k.max), And(k.dom[k.sym[i]], k.num[k.sym[i]] == i))),
            Not(k.dom[EMPTY]), k.max >= 2, k.sym[0] == EPS, k.sym[1] == UNK, k.sym[2] == IDE]
def room(c, n=16): return [Cod(c, c.pre).max < 2**32 - n]
MODS = ('@' + V, '@' + M, '@' + X)
def grow(c, st):
    """codes already given never change"""
    a, b = Cod(c, c.pre), Cod(c, st)
    return [('numbers already given stay', c.all(SEQ, lambda y: Implies(a.dom[y], And(b.dom[y], b.num[y] == a.num[y])))), ('symbols of numbers already given stay', c.all(z3.IntSort(), lambda i: Implies(And(i >= 0, i <= a.max), b.sym[i] == a.sym[i]))), ('the number range only grows', b.max >= a.max)]
def contracts():
    out = []
    P = lambda *a, **k: out.append(Contract(*a, **k))
    def gn(c, st, r):
        a, b = Cod(c, c.pre), Cod(c, st); s = c.old('symbol')
        return [('the number stands for the symbol', And(b.dom[s], b.num[s] == r, b.sym[r] == s)), ('a known symbol adds nothing', Implies(a.dom[s], b.max == a.max)), ('a known symbol changes no table', Implies(a.dom[s], And(b.vec == a.vec, b.map == a.map, b.max == a.max))), ('at most one number is added', b.max <= a.max + 1)] + grow(c, st) + inv(c, st)
    P(TD + '::get_number(std::string const&)', 'td', names=('symbol',), ret=('int', 32, False), requires=lambda c: inv_req(c) + room(c) + [c.old('symbol') != EMPTY], ensures=gn, globals=GL, modifies=MODS)
    def gs(c, st, r):
        k = Cod(c, c.pre); n = c.arg('number')
        return [('only numbers in use have a symbol', n <= k.max), ('the symbol of the number', c.ex.read_obj(st.fork(), r, ('str',)) == k.sym[n])]
    P(TD + '::get_symbol(unsigned int)', 'td', names=('number',), requires=inv_req, ensures=gs, globals=GL, callable=False,
      on_throw=lambda c, st, v: [('fails only for numbers not in use', c.arg('number') > Cod(c, c.pre).max)])
    # transitions carry the symbols they were given
    def sets(field):
        def e(c, st, r):
            b = Cod(c, st); s = c.old('symbol')
            return [('the transition carries the symbol', And(c.at(st, 'this.' + field) == b.num[s], b.dom[s]))] + grow(c, st) + inv(c, st)
        return e
    for f in ('input', 'output'):
        P(TD + '::set_%s_symbol(std::string const&)' % f, 'td', names=('symbol',), ret='void', requires=lambda c: inv_req(c) + room(c) + [c.old('symbol') != EMPTY], ensures=sets(f + '_number'), globals=GL, modifies=MODS + ('this.%s_number' % f,))
        def gets(c, st, r, f=f):
            k = Cod(c, c.pre); n = c.old('this.%s_number' % f)
            return [('the symbol of the number', c.ex.read_obj(st.fork(), r, ('str',)) == k.sym[n])]
        P(TD + '::get_%s_symbol() const' % f, 'td', requires=lambda c, f=f: inv_req(c) + [c.old('this.%s_number' % f) <= Cod(c, c.pre).max], ensures=gets, globals=GL, callable=False)
    def ctor(c, st, r):
        b = Cod(c, st); i, o = c.old('isymbol'), c.old('osymbol')
        return [('input symbol', And(b.dom[i], c.at(st, 'this.input_number') == b.num[i])), ('output symbol', And(b.dom[o], c.at(st, 'this.output_number') == b.num[o])), ('weight', c.at(st, 'this.weight') == c.arg('weight'))] + grow(c, st) + inv(c, st)
    P(TD + '::HfstTropicalTransducerTransitionData(std::string, std::string, float)', 'td', names=('isymbol', 'osymbol', 'weight'), ret='void', requires=lambda c: inv_req(c) + room(c, 32), ensures=ctor, globals=GL, modifies=MODS + ('this',), callable=False,
      on_throw=lambda c, st, v: [('only the empty symbol is refused', Or(c.old('isymbol') == EMPTY, c.old('osymbol') == EMPTY))])
    P('hfst::implementations::string_comparison::operator()(std::string const&, std::string const&) const', 'td', names=('a', 'b'), ret='bool', ensures=lambda c, st, r: [('is the byte-wise order of strings', r == stdmodel.str_lt(st, c.old('a'), c.old('b')))])
    # how the coding starts
    def n0(c, st, r):
        v0, v1 = c.old('vect'), c.at(st, 'vect')
        return [('three special symbols in order', Implies(c.vlen(v0) == 0, And(c.vlen(v1) == 3, c.varr(v1)[0] == EPS, c.varr(v1)[1] == UNK, c.varr(v1)[2] == IDE)))]
    P('hfst::implementations::Number2SymbolVectorInitializer::Number2SymbolVectorInitializer(std::vector<std::string>&)', 'td', names=('vect',), ret='void', ensures=n0, modifies=('vect',), callable=False)
    def s0(c, st, r):
        m0, m1 = c.old('map'), c.at(st, 'map'); y = fresh(SEQ, 'y')
        return [('special symbols get the numbers 0, 1, 2', And(c.m(m1, 'dom')[EPS], c.m(m1, 'val')[EPS] == 0, c.m(m1, 'dom')[UNK], c.m(m1, 'val')[UNK] == 1, c.m(m1, 'dom')[IDE], c.m(m1, 'val')[IDE] == 2)),
                ('nothing else is added', Implies(And(y != EPS, y != UNK, y != IDE), c.m(m1, 'dom')[y] == c.m(m0, 'dom')[y]))]
    P('hfst::implementations::Symbol2NumberMapInitializer::Symbol2NumberMapInitializer(std::map<std::string, unsigned int, hfst::implementations::string_comparison>&)', 'td', names=('map',), argtypes={'map': ('ptr', ('map', ('str',), ('int', 32, False)))}, ret='void', ensures=s0, modifies=('map',), callable=False)
    # harmonisation vectors
    def hv(c, st, r):
        b = Cod(c, st); s = c.old('symbols'); v = c.at(st, '$ret'); i = fresh(z3.IntSort(), 'i')
        return [('one entry per symbol', c.vlen(v) == c.vlen(s)), ('each entry is the number of its symbol', Implies(And(i >= 0, i < c.vlen(s)), c.varr(v)[i] == If(c.varr(s)[i] == EMPTY, I(0), b.num[c.varr(s)[i]])))]
    def hcand(ex, f, st0, lvs):
        c = ex.cur.ctx; o = []; i = z3.Int('i!h'); y = z3.Const('y!h', SEQ); a = Cod(c, c.pre); s0 = c.old('symbols')
        for n, q in enumerate(inv_req(c)): pass
        def invs(s):
            k = Cod(c, s)
            return And(k.len == k.max + 1, ForAll([y], Implies(k.dom[y], And(k.num[y] >= 0, k.num[y] <= k.max, k.sym[k.num[y]] == y))), ForAll([i], Implies(And(i >= 0, i <= k.max), And(k.dom[k.sym[i]], k.num[k.sym[i]] == i))), Not(k.dom[EMPTY]), k.max >= 2, k.sym[0] == EPS, k.sym[1] == UNK, k.sym[2] == IDE)
        o.append(('coding stays one-to-one', invs))
        for l in lvs:
            if l.kind not in ('int', 'idx') or 'max' in l.name: continue
            o.append(('room left [%s]' % l.name, lambda s, l=l: Cod(c, s).max <= a.max + l.get(s)))
            for v in lvs:
                if v.kind == 'vec' and v.ct[1] == ('int', 32, False):
                    o.append(('entries so far [%s %s]' % (l.name, v.name), lambda s, l=l, v=v: (lambda k: ForAll([i], Implies(And(i >= 0, i < l.get(s)), If(c.varr(s0)[i] == EMPTY, c.varr(v.get(s))[i] == 0, And(k.dom[c.varr(s0)[i]], c.varr(v.get(s))[i] == k.num[c.varr(s0)[i]])))))(Cod(c, s))))
                    o.append(('entries to come [%s %s]' % (l.name, v.name), lambda s, l=l, v=v: ForAll([i], Implies(And(i >= l.get(s), i < c.vlen(s0)), c.varr(v.get(s))[i] == 0))))
                    o.append(('size [%s]' % v.name, lambda s, v=v: c.vlen(v.get(s)) == c.vlen(s0)))
        return o
    P(TD + '::get_harmonization_vector(std::vector<std::string> const&)', 'td', names=('symbols',), sret=('vec', ('int', 32, False)), requires=lambda c: inv_req(c) + [Cod(c, c.pre).max < 2**31, c.vlen(c.old('symbols')) < 2**30], ensures=hv, globals=GL, modifies=MODS, loop_candidates=hcand, callable=False, cost=5)
    def rv(c, st, r):
        k = Cod(c, c.pre); s = c.old('symbols'); v = c.at(st, '$ret'); i = fresh(z3.IntSort(), 'i')
        return [('one entry per number', c.vlen(v) == k.max + 1), ('each entry is the other number of its symbol', Implies(And(i >= 0, i <= k.max), c.varr(v)[i] == If(c.m(s, 'dom')[k.sym[i]], c.m(s, 'val')[k.sym[i]], I(0))))]
    def rcand(ex, f, st0, lvs):
        c = ex.cur.ctx; o = []; i = z3.Int('i!h'); k = Cod(c, c.pre); s0 = c.old('symbols')
        for l in lvs:
            if l.kind not in ('int', 'idx'): continue
            for v in lvs:
                if v.kind == 'vec' and v.ct[1] == ('int', 32, False):
                    o.append(('entries so far [%s %s]' % (l.name, v.name), lambda s, l=l, v=v: ForAll([i], Implies(And(i >= 0, i < l.get(s)), c.varr(v.get(s))[i] == If(c.m(s0, 'dom')[k.sym[i]], c.m(s0, 'val')[k.sym[i]], I(0))))))
                    o.append(('entries to come [%s %s]' % (l.name, v.name), lambda s, l=l, v=v: ForAll([i], Implies(And(i >= l.get(s), i <= k.max), c.varr(v.get(s))[i] == 0))))
                    o.append(('size [%s]' % v.name, lambda s, v=v: c.vlen(v.get(s)) == k.max + 1))
        return o
    P(TD + '::get_reverse_harmonization_vector(std::map<std::string, unsigned int> const&)', 'td', names=('symbols',), sret=('vec', ('int', 32, False)), requires=lambda c: inv_req(c) + room(c), ensures=rv, globals=GL, loop_candidates=rcand, callable=False, cost=5)
    # transitions
    U32 = ('int', 32, False)
    def bt(c, st, r):
        b = Cod(c, st); i, o = c.old('isymbol'), c.old('osymbol')
        return [('target', c.at(st, 'this.target_state') == c.arg('s')), ('input symbol', And(b.dom[i], c.at(st, 'this.transition_data.input_number') == b.num[i])), ('output symbol', And(b.dom[o], c.at(st, 'this.transition_data.output_number') == b.num[o])), ('weight', c.at(st, 'this.transition_data.weight') == c.arg('weight'))]
    P(BT + '::HfstBasicTransition(unsigned int, std::string, std::string, float)', 'td', names=('s', 'isymbol', 'osymbol', 'weight'), ret='void', requires=lambda c: inv_req(c) + room(c, 32), ensures=bt, globals=GL, modifies=MODS + ('this',), callable=False,
      on_throw=lambda c, st, v: [('only the empty symbol is refused', Or(c.old('isymbol') == EMPTY, c.old('osymbol') == EMPTY))])
    P(BT + '::HfstBasicTransition(unsigned int, unsigned int, unsigned int, float, bool)', 'td', names=('s', 'i', 'o', 'weight', 'foo'), ret='void', ensures=lambda c, st, r: [('target', c.at(st, 'this.target_state') == c.arg('s')), ('input number', c.at(st, 'this.transition_data.input_number') == c.arg('i')), ('output number', c.at(st, 'this.transition_data.output_number') == c.arg('o')), ('weight', c.at(st, 'this.transition_data.weight') == c.arg('weight'))], modifies=('this',), callable=False)
    FL = ['target_state', 'transition_data.input_number', 'transition_data.output_number', 'transition_data.weight']
    for sig, nm in ((BT + '::HfstBasicTransition(hfst::implementations::HfstBasicTransition const&)', 'copy'), (BT + '::operator=(hfst::implementations::HfstBasicTransition const&)', 'assign')):
        P(sig, 'td', names=('another',), ret='void', ensures=lambda c, st, r: [('%s copied' % f, c.at(st, 'this.' + f) == c.old('another.' + f)) for f in FL], modifies=('this',), callable=False)
    for f in ('input', 'output'):
        def bget(c, st, r, f=f): return [('the symbol of the number', c.at(st, '$ret') == Cod(c, c.pre).sym[c.old('this.transition_data.%s_number' % f)])]
        P(BT + '::get_%s_symbol() const' % f, 'td', sret=('str',), requires=lambda c, f=f: inv_req(c) + [c.old('this.transition_data.%s_number' % f) <= Cod(c, c.pre).max], ensures=bget, globals=GL, callable=False)
        def bset(c, st, r, f=f): return [('the transition carries the symbol', And(Cod(c, st).dom[c.old('symbol')], c.at(st, 'this.transition_data.%s_number' % f) == Cod(c, st).num[c.old('symbol')]))] + inv(c, st)
        P(BT + '::set_%s_symbol(std::string const&)' % f, 'td', names=('symbol',), ret='void', requires=lambda c: inv_req(c) + room(c, 32) + [c.old('symbol') != EMPTY], ensures=bset, globals=GL, modifies=MODS + ('this.transition_data.%s_number' % f,), callable=False)
        P(BT + '::get_%s_number() const' % f, 'td', ret=U32, ensures=lambda c, st, r, f=f: [('the number', r == c.old('this.transition_data.%s_number' % f))], callable=False)
    P(BT + '::get_target_state() const', 'td', ret=U32, ensures=lambda c, st, r: [('the target', r == c.old('this.target_state'))], callable=False)
    P(BT + '::get_weight() const', 'td', ret=('float',), ensures=lambda c, st, r: [('the weight', r == c.old('this.transition_data.weight'))], callable=False)
    P(BT + '::set_weight(float)', 'td', names=('w',), ret='void', ensures=lambda c, st, r: [('the weight', c.at(st, 'this.transition_data.weight') == c.arg('w'))], modifies=('this.transition_data.weight',), callable=False)
    return out
BOUND = '30000 (400000) random coding operations over about 20000 symbols'
ASSUMPTIONS = ['fewer than 2^32-32 symbols in one process']
def harnesses(): return [Harness('C03.cc', ['libhfst/src/implementations/HfstTropicalTransducerTransitionData.cc', 'libhfst/src/implementations/HfstBasicTransition.cc', 'libhfst/src/HfstExceptionDefs.cc'])]
