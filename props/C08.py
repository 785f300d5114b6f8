from irv.api import *
from props import C07
TITLE = 'optimized lookup'
def units(): return [IRUnit('ol', C07.units()[0].code.replace('void *vf_uses', 'void vf_tapes(hfst_ol::Tape& t, hfst_ol::DoubleTape& d) { t.write(0, 0); d.write(0, 0, 0); d.extract_slice(0, 0); }\nvoid *vf_uses'))]
N = 'hfst_ol::'; LT, EN, TD, TA = N + 'OlLetterTrie', N + 'Encoder', N + 'Transducer', N + 'TransducerAlphabet'
Z = z3.IntSort(); NOS = 65535; K = z3.Int('K')
KEY = z3.Function('number_of_text', Z, SEQ, Z, Z, Z)      # trie, text, position, length: its number there, or NOS
WFT = z3.Function('letter_trie_well_formed', Z, z3.BoolSort())
byte = lambda S, i: If(i < Length(S), S[i], I(0))
CUR = {'p': ('ptr', ('cursor',))}
def contracts():
    out = []
    P = lambda *a, **k: out.append(Contract(*a, **k))
    def me(c): return c.ex.enc_ptr(c.arg('this'))
    def wf_this(c):
        l, s = c.old('this.letters'), c.old('this.symbols'); b = z3.Int('b!w')
        return [c.vlen(l) == 256, c.vlen(s) == 256, c.varr(l)[0] == 0, c.varr(s)[0] == NOS, ForAll([b], Implies(And(b >= 0, b < 256, c.varr(l)[b] != 0), WFT(c.varr(l)[b])))]
    def fk_req(c): S, i = c.cursor(c.pre, 'p'); return [WFT(me(c)), i >= 0, i <= Length(S)]
    def fk_len(c): S, i = c.cursor(c.pre, 'p'); return [i >= 0, i < Length(S)]
    def fk_rev(c):
        S, i = c.cursor(c.pre, 'p'); l, s = c.varr(c.old('this.letters')), c.varr(c.old('this.symbols')); k = z3.Int('k!d'); b = byte(S, i)
        return wf_this(c) + [ForAll([k], KEY(me(c), S, i, k) == If(And(k >= 1, i + k <= Length(S)), If(k == 1, s[b], If(l[b] != 0, KEY(l[b], S, i + 1, k - 1), NOS)), NOS))]
    def fk_ens(c, st, r):
        S, i = c.cursor(c.pre, 'p'); _, j = c.cursor(st, 'p'); t = me(c)
        return [('a number only for a text that has it', Implies(r != NOS, And(j > i, j <= Length(S), KEY(t, S, i, j - i) == r))), ('the longest such text', Implies(r != NOS, c.all(Z, lambda k: Implies(k > j - i, KEY(t, S, i, k) == NOS)))),
                ('none only if no text from here has a number', Implies(r == NOS, c.all(Z, lambda k: KEY(t, S, i, k) == NOS))), ('one byte further otherwise', Implies(r == NOS, j == i + 1))]
    P(LT + '::find_key(char**)', 'ol', names=('p',), argtypes=CUR, ret=('int', 16, False), requires=fk_req, reveal=fk_rev, ensures=fk_ens, modifies=('p',))
    # adding a text
    ADDED = z3.Function('text_was_numbered', Z, SEQ, Z, Z, z3.BoolSort()); HT = 'heap:' + LT
    def roots(c, st, pre='this.'): return [c.varr(c.at(st, pre + f)) for f in ('letters', 'symbols')] + [c.vlen(c.at(st, pre + f)) for f in ('letters', 'symbols')]
    def add_rev(c):
        S, i = c.text('p'); j = z3.Int('j!a'); l = c.varr(c.old('this.letters')); ct = C.parse(LT); n = c.ex.read_obj(c.pre, c.ex.heap_ptr(l[S[i]], ct), ct); g = lambda f: c.f(LT, n, f)
        return [ForAll([j], Implies(And(j >= 0, j < Length(S)), And(S[j] > 0, S[j] < 256))), l[S[i]] >= 0, Implies(l[S[i]] != 0, And(c.vlen(g('letters')) == 256, c.vlen(g('symbols')) == 256))]
    def grown(c, st, S, i, key, pre, added=True):
        l0, s0, _, _ = roots(c, c.pre, pre); l1, s1, nl, ns = roots(c, st, pre); b = S[i]; last = Length(S) - i == 1
        o = [('the text has the number now', If(last, s1[b] == key, And(l1[b] != 0, ADDED(l1[b], S, i + 1, key) if added else TRUE))), ('no other entry changes', c.all(Z, lambda j: Implies(And(j != b, j >= 0, j < 256), And(l1[j] == l0[j], s1[j] == s0[j])))),
                ('only the number is set at the end', Implies(last, l1[b] == l0[b])), ('no number is set before the end', Implies(Not(last), s1[b] == s0[b])), ('a branch that exists is kept', Implies(l0[b] != 0, l1[b] == l0[b])), ('room for every byte', And(nl == 256, ns == 256))]
        return o
    def add_ens(c, st, r): S, i = c.text('p'); return ([('', ADDED(me(c), S, i, c.arg('key')))] if c.applying else []) + grown(c, st, S, i, c.arg('key'), 'this.')
    P(LT + '::add_string(char const*, unsigned short)', 'ol', anywhere=True, names=('p', 'key'), ret='void', requires=lambda c: (lambda S, i: [i >= 0, i < Length(S), c.vlen(c.old('this.letters')) == 256, c.vlen(c.old('this.symbols')) == 256])(*c.text('p')), reveal=add_rev, ensures=add_ens, modifies=('this', HT))
    P(LT + '::has_key_starting_with(char) const', 'ol', names=('b',), ret='bool', requires=lambda c: [c.vlen(c.old('this.letters')) == 256], ensures=lambda c, st, r: [('if there is a branch', r == (c.varr(c.old('this.letters'))[c.arg('b')] != 0))])
    P(LT + '::OlLetterTrie()', 'ol', ret='void', modifies=('this',), callable=False, ensures=lambda c, st, r: (lambda l, s, nl, ns: [('room for every byte', And(nl == 256, ns == 256)), ('no text has a number', Implies(And(K >= 0, K < 256), And(l[K] == 0, s[K] == NOS)))])(*roots(c, st)))
    # the encoder: single ASCII letters apart, as long as no longer symbol begins with them
    def einv(c, st):
        l, s, nl, ns = roots(c, st, 'this.letters.'); a = c.at(st, 'this.ascii_symbols')
        return [('room for every byte', And(nl == 256, ns == 256, c.vlen(a) == 128)), ('a letter kept apart has the number it has in the trie and begins no longer symbol', c.all(Z, lambda b: Implies(And(b >= 0, b < 128), Or(c.varr(a)[b] == NOS, And(c.varr(a)[b] == s[b], l[b] == 0)))))]
    def einv_pre(c): a = c.applying; c.applying = True; o = [g for _, g in einv(c, c.pre)]; c.applying = a; return o
    def ris(c, st, r):
        S, i = c.text('s'); return einv(c, st) + grown(c, st, S, i, c.arg('num') % 65536, 'this.letters.', False)
    P(EN + '::read_input_symbol(char const*, int)', 'ol', names=('s', 'num'), ret='void', requires=lambda c: [Length(c.text('s')[0]) > 0] + einv_pre(c), reveal=lambda c: [And(c.text('s')[0][0] > 0, c.text('s')[0][0] < 256)], ensures=ris, modifies=('this', HT))
    def efk_ens(c, st, r):
        S, i = c.cursor(c.pre, 'p'); _, j = c.cursor(st, 'p'); t = root(c)
        return [('a number only for a text that has it', Implies(r != NOS, And(j > i, j <= Length(S), KEY(t, S, i, j - i) == r))), ('the longest such text', Implies(r != NOS, c.all(Z, lambda k: Implies(k > j - i, KEY(t, S, i, k) == NOS)))),
                ('none only if no text from here has a number', Implies(r == NOS, c.all(Z, lambda k: KEY(t, S, i, k) == NOS))), ('one byte further otherwise', Implies(r == NOS, j == i + 1))]
    def root(c): return c.ex.enc_ptr(c.ptr('this.letters.letters')[0])
    def efk_rev(c):
        S, i = c.cursor(c.pre, 'p'); l, s, _, _ = roots(c, c.pre, 'this.letters.'); k = z3.Int('k!d'); b = byte(S, i)
        return [ForAll([k], KEY(root(c), S, i, k) == If(And(k >= 1, i + k <= Length(S)), If(k == 1, s[b], If(l[b] != 0, KEY(l[b], S, i + 1, k - 1), NOS)), NOS)), WFT(root(c)), And(byte(S, i) >= 0, byte(S, i) < 256)]
    P(EN + '::find_key(char**)', 'ol', names=('p',), argtypes=CUR, ret=('int', 16, False), requires=lambda c: fk_len(c) + einv_pre(c), reveal=efk_rev, ensures=efk_ens, modifies=('p',))
    # the tapes
    TP, DT, SP2 = N + 'Tape', N + 'DoubleTape', N + 'SymbolPair'; DTV = ('vec', C.parse(SP2))
    def tv(c, st): v = c.at(st, 'this'); return v.arg(0) if z3.is_app(v) and v.decl().eq(v.sort().constructor(0)) else v.sort().accessor(0, 0)(v)
    def ext(v): return lambda ex, f, st0, lvs: [('what was there stays [%s]' % l.name, lambda s, l=l: (lambda c: And(c.vlen(l.get(s)) >= c.vlen(tv(c, c.pre)), Implies(And(K >= 0, K < c.vlen(tv(c, c.pre))), c.varr(l.get(s))[K] == c.varr(tv(c, c.pre))[K]), Implies(And(K >= c.vlen(tv(c, c.pre)), K < c.vlen(l.get(s))), v(c, c.varr(l.get(s))[K])), c.vlen(l.get(s)) <= If(c.arg('i') + 1 > c.vlen(tv(c, c.pre)), c.arg('i') + 1, c.vlen(tv(c, c.pre)))))(ex.cur.ctx)) for l in lvs if l.kind == 'vec']
    def wrote(val, blank):
        def g(c, st, r):
            a0, n0, a1, n1, i = c.varr(tv(c, c.pre)), c.vlen(tv(c, c.pre)), c.varr(tv(c, st)), c.vlen(tv(c, st)), c.arg('i')
            k = lambda f: c.all(Z, f) if c.applying else f(K)
            return [('written', val(c, a1[i])), ('the other places keep theirs', k(lambda K: Implies(And(K >= 0, K < n0, K != i), a1[K] == a0[K]))), ('places in between are blank', k(lambda K: Implies(And(K >= n0, K < i), blank(c, a1[K])))), ('as long as needed', n1 == If(i + 1 > n0, i + 1, n0))]
        return g
    def wrote2(c, st, r):
        o = wrote(lambda c, e: And(pr(c, e)[0] == c.arg('in'), pr(c, e)[1] == c.arg('out')), lambda c, e: And(*[x == 0 for x in pr(c, e)]))(c, st, r)
        if c.applying: a0, a1, i = c.varr(tv(c, c.pre)), c.varr(tv(c, st)), c.arg('i'); k = z3.Int('k!p'); o += [('', ForAll([k], Implies(And(k >= 0, k <= i), PRE(c)(a1, k) == PRE(c)(a0, k)))), ('', PRE(c)(a1, i + 1) == SNOC(PRE(c)(a0, i), c.arg('in'), c.arg('out')))]
        return o
    P(TP + '::write(unsigned int, unsigned short)', 'ol', names=('i', 's'), ret='void', modifies=('this',), loop_candidates=ext(lambda c, e: e == NOS), ensures=wrote(lambda c, e: e == c.arg('s'), lambda c, e: e == NOS))
    pr = lambda c, e: (c.f(SP2, e, 'input'), c.f(SP2, e, 'output'))
    P(DT + '::write(unsigned int, unsigned short, unsigned short)', 'ol', names=('i', 'in', 'out'), ret='void', modifies=('this',), loop_candidates=ext(lambda c, e: And(*[x == 0 for x in pr(c, e)])), ensures=wrote2)
    # ---- the search: every result found is the output of an accepting path, with its weight
    # the tables, by index (what the interface methods give; C07 and the contracts on TransducerTables below say what they are)
    F32 = z3.Float32(); B = z3.BoolSort(); PT = z3.DeclareSort('Path'); FN = z3.Function
    TI, TO, TT, IX, IT = [FN(n, Z, Z) for n in ('transition_input', 'transition_output', 'transition_target', 'index_input', 'index_target')]
    TW, FW = FN('transition_weight', Z, F32), FN('index_weight', Z, F32); TF, IF = FN('transition_final', Z, B), FN('index_final', Z, B)
    TB = N + 'TransducerTablesInterface'; TB2 = 'hfst_ol::TransducerTables<hfst_ol::TransitionWIndex, hfst_ol::TransitionW>'; VIRT = {TB: TB2}
    for m, fn, ty in (('get_transition_input', TI, 16), ('get_transition_output', TO, 16), ('get_transition_target', TT, 32), ('get_weight', TW, 'f'), ('get_transition_finality', TF, 'b'), ('get_index_input', IX, 16), ('get_index_target', IT, 32), ('get_index_finality', IF, 'b'), ('get_final_weight', FW, 'f')):
        P('%s::%s(unsigned int) const' % (TB2, m), 'ol', names=('i',), argtypes={}, ret={'f': ('float',), 'b': 'bool'}.get(ty, ('int', ty, False)), ensures=lambda c, st, r, fn=fn: [('', r == fn(c.arg('i')))], trusted='names what the table interface gives for an index')
    T = TD; PSET = ('set', C.parse('std::pair<float, std::vector<std::pair<std::string, std::string> > >')); HP = 'heap:' + C.ctname(PSET); RES = PSET[1]; FDO = C.parse('hfst::FdOperation'); TAT = C.parse(TA)
    E, S = z3.Int('end_of_input'), z3.Int('state'); START = 2**31; M = 2**32 - 2
    WT, DEP, FV = 'this.current_weight', 'this.recursion_depth_left', 'this.flag_state.values'; VA = z3.ArraySort(Z, Z)
    SP2T = C.parse(SP2)
    def fn(c, name, *sorts):
        return FN(name, *[c.ex.L.sort(x) if isinstance(x, tuple) else x for x in sorts])
    # what the tape spells: lists of symbol number pairs
    def PRE(c): return fn(c, 'spelt', z3.ArraySort(Z, c.ex.L.sort(SP2T)), Z, PT)
    SNOC, ACCP = FN('followed_by', PT, Z, Z, PT), FN('accepted', PT, F32, B)
    REACH = FN('reached', PT, Z, Z, F32, VA, B); ARC = FN('arc_of', Z, Z, B)
    def SPELLS(c): return fn(c, 'spells', RES, PT)
    def OKF(c): return fn(c, 'operation_allowed', FDO, VA, B)
    def NEWF(c): return fn(c, 'values_after', FDO, VA, VA)
    def OPOF(c): return fn(c, 'operation_of', Z, FDO)
    def unvec(v):
        while v.sort().constructor(0).arity() == 1: v = v.arg(0) if z3.is_app(v) and v.decl().eq(v.sort().constructor(0)) else v.sort().accessor(0, 0)(v)
        return v
    def otape(c, st): return c.varr(unvec(c.at(st, 'this.output_tape.')))
    def itape(c): t = unvec(c.at(c.pre, 'this.input_tape.')); return c.varr(t)
    def alph(c): return lambda f: c.f(TAT, c.ex.read_obj(c.pre.fork(), c.ex.dec_ptr(c.old('this.alphabet'), TAT), TAT), f)
    def found(c, st): return c.ex.read_obj(st.fork(), c.ex.dec_ptr(c.old('this.lookup_paths'), PSET), PSET)
    def isflag(c, s): return c.m(alph(c)('fd_table.operations'), 'dom')[s]
    def meta(c, s): return And(s != NOS, Or(*[s == alph(c)(f + '_symbol') for f in ('unknown', 'default', 'identity')]))
    def match(c, y, x): a = alph(c); return And(x != NOS, y != NOS, Or(And(y == x, x < a('orig_symbol_count')), And(Or(y == a('identity_symbol'), y == a('unknown_symbol')), x >= a('orig_symbol_count')), y == a('default_symbol')))
    def final(s): return If(s >= START, TF(s - START), IF(s))
    def state(c):
        """the state the arcs are taken from (a ghost parameter: the caller's)"""
        k = c.ex.cur
        if k is c.con: return c.arg('i') if 'get_analyses' in k.fn else S
        return k.ctx.arg('i') if 'get_analyses' in k.fn else S
    def inv(c, st, src, inpos, out, w=None): return REACH(PRE(c)(otape(c, st), out), inpos, src, c.at(st, WT), c.varr(c.at(st, FV)))
    def basic(c, d):
        t = unvec(c.old('this.input_tape.')); k = z3.Int('k!o')
        return [Not(isflag(c, I(NOS))), c.vlen(unvec(c.old('this.output_tape.'))) >= c.arg('out'), And(c.arg('in') >= 0, c.arg('in') <= E, E < c.vlen(t), E < M), c.varr(t)[E] == NOS, And(*[c.old('this.' + f) != 0 for f in ('lookup_paths', 'tables', 'alphabet', 'header')]), c.arg('out') + c.old(DEP) <= M - d, ForAll([k], Implies(And(k >= 0, k < c.arg('out')), c.f(SP2T, otape(c, c.pre)[k], 'output') != NOS))]
    def format_(c):
        t, e = z3.Ints('t!f e!f')
        return [ForAll([t], Implies(TI(t) != NOS, And(TO(t) != NOS, t < 2**32 - 1)), patterns=[TI(t)]), ForAll([e], Implies(IX(e) != NOS, IT(e) >= START), patterns=[IX(e)])]
    def rules(c):
        """what it is to be reached, and accepted"""
        p, i, s, w, v, t = z3.Const('p!r', PT), z3.Int('i!r'), z3.Int('s!r'), z3.Const('w!r', F32), z3.Const('v!r', VA), z3.Int('t!r')
        r = REACH(p, i, s, w, v); add = c.ex.fadd; x = itape(c)[i]; op = OPOF(c)(TI(t)); on = lambda a, b, i2, v2: REACH(SNOC(p, a, b), i2, TT(t), add(w, TW(t)), v2); pat = z3.MultiPattern(r, ARC(s, t), TT(t)); q = [p, i, s, w, v, t]
        R = []
        R += [ForAll(q, Implies(And(r, ARC(s, t), TI(t) == 0), on(I(0), TO(t), i, v)), patterns=[pat]),
             ForAll(q, Implies(And(r, ARC(s, t), TI(t) != 0, TI(t) != NOS, isflag(c, TI(t)), OKF(c)(op, v)), on(TI(t), TO(t), i, NEWF(c)(op, v))), patterns=[pat]),
             ForAll(q, Implies(And(r, ARC(s, t), match(c, TI(t), x)), on(TI(t), If(meta(c, TO(t)), x, TO(t)), i + 1, v)), patterns=[pat])]
        R += [ForAll([s, t], Implies(And(ARC(s, t), TI(t) != NOS), ARC(s, t + 1)), patterns=[z3.MultiPattern(ARC(s, t), TI(t))])]
        R += [ForAll([p, i, s, w, v], Implies(And(r, x == NOS, final(s)), ACCP(p, add(w, If(s >= START, TW(s - START), FW(s))))), patterns=[r])]
        return R + format_(c)
    def sound(c, st): es = c.ex.L.sort(RES); d0, d1 = found(c, c.pre), found(c, st); y = lambda f: c.all(es, f) if c.applying else f(z3.Const('X', es)); return y(lambda X: Implies(And(c.m(d1, 'dom')[X], Not(c.m(d0, 'dom')[X])), ACCP(SPELLS(c)(X), c.f(RES, X, 'first'))))
    def kept(c, st):
        o0, o1 = otape(c, c.pre), otape(c, st); k = lambda f: c.all(Z, f) if c.applying else f(K); es = c.ex.L.sort(RES); y = lambda f: c.all(es, f) if c.applying else f(z3.Const('X', es))
        d0, d1 = found(c, c.pre), found(c, st)
        return [('room for the output so far', c.vlen(unvec(c.at(st, 'this.output_tape.'))) >= c.arg('out')), ('the weight is as before', c.at(st, WT) == c.old(WT)), ('the recursion depth is as before', c.at(st, DEP) == c.old(DEP)), ('the flag settings are as before', c.at(st, FV) == c.old(FV)),
                ('the output so far is kept', k(lambda K: Implies(And(K >= 0, K < c.arg('out')), c.f(SP2T, o1[K], 'output') == c.f(SP2T, o0[K], 'output')))), ('what is spelt so far is kept', k(lambda K: Implies(And(K >= 0, K <= c.arg('out')), PRE(c)(o1, K) == PRE(c)(o0, K)))),
                ('no result is lost', y(lambda X: Implies(c.m(d0, 'dom')[X], c.m(d1, 'dom')[X]))), ('no more results than asked for', Implies(And(c.old('this.max_lookups') < 2**63, c.m(d0, 'size') <= c.old('this.max_lookups')), c.m(d1, 'size') <= c.old('this.max_lookups'))),
                ('every new result is accepted, with its weight', sound(c, st))]
    SM = ('this.current_weight', 'this.recursion_depth_left', 'this.flag_state.values', 'this.flag_state.error_flag', 'this.output_tape.', 'this.found_transition', 'this.traversal_states', HP)
    def scand(ex, f, st0, lvs):
        c = ex.cur.ctx; o = [(n, lambda s, n=n: dict(kept(ex.cur.ctx, s))[n]) for n, _ in kept(c, c.pre)]
        k = z3.Int('k!o'); o += [('what is spelt so far', lambda s: PRE(c)(otape(c, s), c.arg('out')) == PRE(c)(otape(c, c.pre), c.arg('out'))), ('nothing ends the output', lambda s: ForAll([k], Implies(And(k >= 0, k < c.arg('out')), c.f(SP2T, otape(c, s)[k], 'output') != NOS)))]
        return o + [('at an arc of the state [%s]' % l.name, lambda s, l=l: ARC(S, l.get(s))) for l in lvs if l.kind in ('int', 'idx')]
    SN = {'names': ('in', 'out', 'i'), 'ret': 'void', 'virtuals': VIRT, 'ensures': lambda c, st, r: kept(c, st), 'modifies': SM, 'loop_candidates': scand, 'auto': False}
    def ob(*fs): return lambda c: [And(g) if not isinstance(g, list) else And(*g) for f in fs for g in [f(c)]]
    SIG = '(unsigned int, unsigned int, unsigned int)'; SIG2 = '(unsigned short, unsigned int, unsigned int, unsigned int)'
    x1 = lambda c: itape(c)[c.arg('in') - 1]
    P('%s::get_analyses' % T + SIG, 'ol', requires=lambda c: basic(c, 0) + [inv(c, c.pre, c.arg('i'), c.arg('in'), c.arg('out'))], reveal=lambda c: rules(c) + [Implies(c.arg('i') >= START, ARC(c.arg('i'), c.arg('i') - START + 1))], cost=9, **SN)
    P('%s::try_epsilon_transitions' % T + SIG, 'ol', requires=lambda c: basic(c, 1) + [ARC(state(c), c.arg('i')), inv(c, c.pre, state(c), c.arg('in'), c.arg('out'))], reveal=rules, **SN)
    def ibase(c, y): e = state(c) + 1 + y; return [Implies(And(y != NOS, IX(e) == y, state(c) < START), ARC(state(c), IT(e) - START))]
    P('%s::try_epsilon_indices' % T + SIG, 'ol', requires=lambda c: basic(c, 1) + [c.arg('i') == state(c) + 1, And(state(c) >= 0, state(c) < START), inv(c, c.pre, state(c), c.arg('in'), c.arg('out'))], reveal=lambda c: format_(c) + ibase(c, I(0)), **SN)
    SN2 = dict(SN, names=('sym', 'in', 'out', 'i')); fr = lambda c: basic(c, 1) + [c.arg('in') >= 1, match(c, c.arg('sym'), x1(c)), inv(c, c.pre, state(c), c.arg('in') - 1, c.arg('out'))]
    P('%s::find_transitions' % T + SIG2, 'ol', requires=lambda c: fr(c) + [ARC(state(c), c.arg('i'))], reveal=rules, **SN2)
    P('%s::find_index' % T + SIG2, 'ol', requires=lambda c: fr(c) + [c.arg('i') == state(c) + 1, And(state(c) >= 0, state(c) < START)], reveal=lambda c: format_(c) + ibase(c, c.arg('sym')), **SN2)
    # one result
    def outpos(c): k = c.ex.cur; return z3.Int('end_of_output') if k is c.con else k.ctx.arg('out')
    STR = FN('text_of_symbol', Z, SEQ)
    def notereq(c):
        v = unvec(c.old('this.output_tape.')); g = outpos(c); k = z3.Int('k!o'); return [And(g >= 0, g < c.vlen(v)), c.f(SP2T, c.varr(v)[g], 'output') == NOS, ForAll([k], Implies(And(k >= 0, k < g), c.f(SP2T, c.varr(v)[k], 'output') != NOS)), And(c.old('this.lookup_paths') != 0, c.old('this.alphabet') != 0)]
    def noteens(c, st, r):
        es = c.ex.L.sort(RES); d0, d1 = found(c, c.pre), found(c, st); y = lambda f: c.all(es, f) if c.applying else f(z3.Const('X', es)); k = lambda f: c.all(Z, f) if c.applying else f(K); v = unvec(c.old('this.output_tape.'))
        new = lambda X: And(c.m(d1, 'dom')[X], Not(c.m(d0, 'dom')[X])); pr = lambda X: c.f(RES, X, 'second')
        o = [('no result is lost', y(lambda X: Implies(c.m(d0, 'dom')[X], c.m(d1, 'dom')[X]))), ('at most one more', And(c.m(d1, 'size') <= c.m(d0, 'size') + 1, c.m(d1, 'size') >= c.m(d0, 'size')))]
        o += [('the result has the weight', y(lambda X: Implies(new(X), c.f(RES, X, 'first') == c.old(WT))))]
        if c.applying: o.append(('', y(lambda X: Implies(new(X), SPELLS(c)(X) == PRE(c)(c.varr(v), outpos(c))))))
        else:
            X = z3.Const('X', es); PR = C.parse('std::pair<std::string, std::string>'); e = c.varr(pr(X))[K]; s = c.varr(v)[K]
            o.append(('the result has a pair for each place of the output', Implies(new(X), c.vlen(pr(X)) == outpos(c))))
            o.append(('the pairs of the result are the texts of the symbols', Implies(And(new(X), K >= 0, K < outpos(c)), And(c.f(PR, e, 'first') == STR(c.f(SP2T, s, 'input')), c.f(PR, e, 'second') == STR(c.f(SP2T, s, 'output'))))))
        return o
    def ncand(ex, f, st0, lvs):
        c = ex.cur.ctx; v = unvec(c.old('this.output_tape.')); o = []; PR = C.parse('std::pair<std::string, std::string>'); its = [l for l in lvs if l.kind in ('idx', 'int')]
        for l in its:
            o.append(('up to the end [%s]' % l.name, lambda s, l=l: And(l.get(s) >= 0, l.get(s) <= outpos(c))))
            for m in lvs:
                if m.kind == 'vec': o += [('one pair each [%s %s]' % (l.name, m.name), lambda s, l=l, m=m: c.vlen(m.get(s)) == l.get(s)), ('texts so far [%s]' % m.name, lambda s, m=m: Implies(And(K >= 0, K < c.vlen(m.get(s))), And(c.f(PR, c.varr(m.get(s))[K], 'first') == STR(c.f(SP2T, c.varr(v)[K], 'input')), c.f(PR, c.varr(m.get(s))[K], 'second') == STR(c.f(SP2T, c.varr(v)[K], 'output')))))]
        return o
    P(T + '::note_analysis()', 'ol', ret='void', requires=notereq, modifies=(HP,), ensures=noteens, loop_candidates=ncand, auto_bounds=False)
    P(TA + '::string_from_symbol(unsigned short) const', 'ol', names=('n',), argtypes={}, sret=('str',), ensures=lambda c, st, r: [('', c.at(st, '$ret') == STR(c.arg('n')))], trusted='names the text of a symbol number (C07 proves which)')
    FS = 'hfst::FdState<unsigned short>'
    P(FS + '::apply_operation(hfst::FdOperation const&)', 'ol', names=('op',), ret='bool', modifies=('this.values',), trusted='names the effect of a flag operation (C01 proves which)', ensures=lambda c, st, r: (lambda a, b: [('', r == OKF(c)(c.old('op'), c.varr(a))), ('', c.varr(b) == If(r, NEWF(c)(c.old('op'), c.varr(a)), c.varr(b))), ('', c.vlen(a) == c.vlen(b))])(c.old('this.values'), c.at(st, 'this.values')))
    P(TA + '::get_operation(unsigned short) const', 'ol', names=('n',), ret=('ptr', FDO), trusted='names the flag operation of a symbol number', ensures=lambda c, st, r: [('', c.ex.read_obj(st.fork(), r, FDO) == OPOF(c)(c.arg('n'))), ('', c.ex.enc_ptr(r) != 0)])
    return out
BOUND = 'quick: 2000 random graphs (1-5 states, up to 30 arcs; plain, multi-letter and non-ASCII symbols, epsilon, 11 flag diacritics, unknown, identity, default; no cycle of epsilon and flag arcs), 6 words each: lookup_fd_pairs, lookup_fd with and without limits compared with a plain search'
ASSUMPTIONS = ['what the table interface gives for an index is named, not interpreted (C07 has the contracts on the entries)', 'tables follow the format: a transition with an input symbol has an output symbol, the targets of used index entries are in the transition table']
OLSRC = ['libhfst/src/implementations/' + x + '.cc' for x in ('HfstBasicTransducer', 'HfstBasicTransition', 'HfstTropicalTransducerTransitionData', 'ConvertOlTransducer', 'optimized-lookup/transducer', 'optimized-lookup/pmatch', 'optimized-lookup/ospell', 'optimized-lookup/find_epsilon_loops', 'optimized-lookup/convert')] + ['libhfst/src/' + x + '.cc' for x in ('HfstSymbolDefs', 'HfstExceptionDefs', 'HfstFlagDiacritics', 'HfstDataTypes')]
def harnesses(): return [Harness('C08.cc', OLSRC, std='c++17', flags=['-fno-sanitize=alignment'], libs=['-Wl,--unresolved-symbols=ignore-all', '-licuuc'])]
