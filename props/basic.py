"""shared specification vocabulary for HfstBasicTransducer"""
from irv.api import *
from props import C03
NS = 'hfst::implementations::'
G = NS + 'HfstBasicTransducer'; BT = NS + 'HfstBasicTransition'; TD = C03.TD
SRC = '#include "/repo/libhfst/src/implementations/HfstTropicalTransducerTransitionData.cc"\n#include "/repo/libhfst/src/implementations/HfstBasicTransition.cc"\n#include "/repo/libhfst/src/HfstSymbolDefs.cc"\n#include "/repo/libhfst/src/HfstExceptionDefs.cc"\n#include "/repo/libhfst/src/implementations/HfstBasicTransducer.cc"\n'
GL, MODS, Cod, inv_req = C03.GL, C03.MODS, C03.Cod, C03.inv_req
def imported(names, unit):
    """contracts proved by the check of C03, used here at call sites"""
    o = []
    for x in C03.contracts():
        if x.fn in names: x.trusted = 'proved by check C03'; x.unit = unit; o.append(x)
    return o
INT = z3.IntSort()
# arbitrary but fixed states, positions and symbols: what is proved of them holds of all
S, J, Y = z3.Int('S!any'), z3.Int('J!any'), z3.Const('Y!any', SEQ)
Y2 = z3.Const('Y2!any', SEQ)
class Gr:
    """a graph in a state of the execution"""
    def __init__(s, c, st, who='this'):
        s.c, s.sv, s.al, s.fw = c, c.at(st, who + '.state_vector'), c.at(st, who + '.alphabet'), c.at(st, who + '.final_weight_map')
        s.n = c.vlen(s.sv); s.arr = c.varr(s.sv)
        s.adom = c.m(s.al, 'dom'); s.fdom = c.m(s.fw, 'dom'); s.fval = c.m(s.fw, 'val')
    def trs(s, i): return s.arr[i]
    def nt(s, i): return s.c.vlen(s.arr[i])
    def tr(s, i, j): return s.c.varr(s.arr[i])[j]
    def fld(s, t, f): return s.c.f(BT, t, {'target': 'target_state', 'in': 'transition_data.input_number', 'out': 'transition_data.output_number', 'w': 'transition_data.weight'}[f])
    def ok(s, i, j): return And(i >= 0, i < s.n, j >= 0, j < s.nt(i))
    def same_states(s, o, k=S): return And(s.n == o.n, Implies(And(k >= 0, k < o.n), s.trs(k) == o.trs(k)))
def gwf(c, st, who='this'):
    """what the types guarantee"""
    g = Gr(c, st, who); i = z3.Int('i!w')
    return [g.n >= 0, g.n <= 2**32, ForAll([i], Implies(And(i >= 0, i < g.n), And(g.nt(i) >= 0, g.nt(i) < 2**32)))]
def coded(c, st, who='this'):
    """every transition of the graph uses numbers that are in use, every symbol being non-empty"""
    g = Gr(c, st, who); k = Cod(c, st); i, j = z3.Int('i!c'), z3.Int('j!c'); t = g.tr(i, j)
    return [ForAll([i, j], Implies(g.ok(i, j), And(g.fld(t, 'in') >= 0, g.fld(t, 'in') <= k.max, g.fld(t, 'out') >= 0, g.fld(t, 'out') <= k.max)), patterns=[t])]
def setwf(c, v, keys=()):
    """iteration visits each element once (std containers)"""
    o = []
    for y in keys: o += [Implies(c.m(v, 'dom')[y], And(c.m(v, 'idx')[y] >= 0, c.m(v, 'idx')[y] < c.m(v, 'size'), c.m(v, 'keys')[c.m(v, 'idx')[y]] == y))]
    return o

def sets_here(ex, st, keys):
    """setwf of every set of symbols in memory"""
    o = []
    for rid, reg in st.mem.items():
        for lf in reg.values():
            if lf.ct == ('set', ('str',)) and z3.is_expr(lf.v): o += setwf(ex.cur.ctx, lf.v, keys)
    return o
def number_sets_here(ex, st, ks):
    return [f for rid, reg in st.mem.items() for lf in reg.values() if lf.ct[0] == 'set' and lf.ct[1][0] == 'int' and z3.is_expr(lf.v) for f in setwf(ex.cur.ctx, lf.v, ks)]

def known_number(unit):
    """get_number of a symbol that has a number: the number, and nothing changes (verified here as a contract of its own)"""
    return Contract(TD + '::get_number(std::string const&)', unit, name='get_number of a known symbol', names=('symbol',), ret=('int', 32, False), requires=lambda c: [c.old('symbol') != EMPTY, Cod(c, c.pre).dom[c.old('symbol')]], ensures=lambda c, st, r: [('its number', r == Cod(c, c.pre).num[c.old('symbol')])], globals=GL)

def transition_contracts(unit):
    """transitions built from and giving back symbols that already have numbers (verified here)"""
    def kn(c, n): return [c.old(n) != EMPTY, Cod(c, c.pre).dom[c.old(n)]]
    def made(c, st, r):
        k = Cod(c, c.pre); t = c.at(st, 'this')
        f = lambda n: c.f(BT, t, n)
        return [('target', f('target_state') == c.arg('s')), ('input symbol', f('transition_data.input_number') == k.num[c.old('i')]), ('output symbol', f('transition_data.output_number') == k.num[c.old('o')]), ('weight', f('transition_data.weight') == c.arg('w'))]
    o = [known_number(unit), Contract(BT + '::HfstBasicTransition(unsigned int, std::string, std::string, float)', unit, name='transition from known symbols', names=('s', 'i', 'o', 'w'), ret='void', requires=lambda c: kn(c, 'i') + kn(c, 'o'), modifies=('this',), ensures=made, globals=GL)]
    for f in ('input', 'output'):
        o.append(Contract(BT + '::get_%s_symbol() const' % f, unit, sret=('str',), requires=lambda c, f=f: [c.old('this.transition_data.%s_number' % f) < Cod(c, c.pre).len, Cod(c, c.pre).len <= 2**32], ensures=lambda c, st, r, f=f: [('the symbol of the number', c.at(st, '$ret') == Cod(c, c.pre).sym[c.old('this.transition_data.%s_number' % f)])], globals=GL))
    return o

class Fold:
    """does some transition among the first n states (and the first m of state i) satisfy match?  defined by recursion, unfolded where loops stand"""
    def __init__(s, name, c, match, keys=(Y,)):
        s.c, s.a, s.match = c, Gr(c, c.pre), match
        # a function of the states, the symbol table and the keys asked about
        env = (s.a.sv, Cod(c, c.pre).vec) + tuple(keys); so = [e.sort() for e in env]
        U = z3.Function(name + '_states', *so, INT, z3.BoolSort()); V = z3.Function(name + '_transitions', *so, INT, INT, z3.BoolSort())
        s.U = lambda n: U(*env, n); s.V = lambda n, m: V(*env, n, m)
    def base(s): return [Not(s.U(0))]
    def at(s, e): return [Implies(e >= 0, s.U(e + 1) == Or(s.U(e), s.V(e, s.a.nt(e)))), Not(s.V(e, 0))]
    def at2(s, e, j): return [Implies(j >= 0, s.V(e, j + 1) == Or(s.V(e, j), s.match(s.a.tr(e, j))))]
    def facts(s, h):
        o = s.base()
        for e in positions(h, 1): o += s.at(e)
        for e, j in positions(h, 2): o += s.at2(e, j)
        return o
def positions(st, k):
    """where iterators over states (k = 1) and over transitions of a state (k = 2) stand"""
    ps = [v for n, v in st.env.items()] + [lf.v for rid, reg in st.mem.items() for lf in reg.values()]
    o = []
    for p in ps:
        if isinstance(p, sym.Ptr) and len(p.steps) == k and all(x[0] == 'elem' for x in p.steps):
            x = p.steps[0][1] if k == 1 else tuple(q[1] for q in p.steps)
            if not any(same_pos(x, y) for y in o): o.append(x)
    return o
def same_pos(x, y):
    if isinstance(x, tuple): return all(same_pos(a, b) for a, b in zip(x, y))
    return x.eq(y)
def symbol_match(c, which, y=Y, y2=Y2):
    k = Cod(c, c.pre)
    def m(t):
        i, o = k.sym[c.f(BT, t, 'transition_data.input_number')], k.sym[c.f(BT, t, 'transition_data.output_number')]
        return {'in': i == y, 'out': o == y, 'both': Or(i == y, o == y), 'pair': And(i == y, o == y2)}[which]
    return m
def fold_candidates(fold, get):
    """get(state) == the fold so far, in loops over states and over transitions"""
    def cand(ex, f, st0, lvs):
        c = ex.cur.ctx; F = fold(c); o = []
        for l in lvs:
            if l.kind not in ('idx', 'int'): continue
            o.append(('states so far [%s]' % l.name, lambda s, l=l: get(c, s, lvs) == F.U(l.get(s))))
            for n, e in enumerate(positions(st0, 1)):
                o.append(('transitions so far [%s/%d]' % (l.name, n), lambda s, l=l, e=e: get(c, s, lvs) == Or(F.U(e), F.V(e, l.get(s)))))
        return o
    return cand
