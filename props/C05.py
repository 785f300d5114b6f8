from irv.api import *
TITLE = 'tokenization'
def units():
    return [IRUnit('tok', '#include "/repo/libhfst/src/HfstTokenizer.cc"\n#include "/repo/libhfst/src/HfstExceptionDefs.cc"\n')]
T = 'hfst::HfstTokenizer'; TR = 'hfst::MultiCharSymbolTrie'; SP = 'std::pair<std::string, std::string>'; VSP = ('vec', C.parse(SP)); VS = ('vec', ('str',))
EPS = lit('@_EPSILON_SYMBOL_@')
Z = z3.IntSort()
IN = z3.Function('text_in_trie', Z, SEQ, Z, Z, z3.BoolSort())          # trie, text, position, length
WFT = z3.Function('trie_well_formed', Z, z3.BoolSort())
NEXT = z3.Function('next_symbol_size', SEQ, Z, z3.BoolSort(), Z)
TN = z3.Function('token_count', SEQ, Z, z3.BoolSort(), Z); TOK = z3.Function('token', SEQ, z3.BoolSort(), Z, SEQ)
def text(c, nm):
    p = c.arg(nm); k = p.steps[-1]
    return c.ex.get(c.pre.fork(), sym.Ptr(p.rid, p.off, p.steps[:-1]))[1], k[1]
def byte(S, i): return If(i < Length(S), S[i], I(0))
def wf_this(c):
    r, l = c.old('this.symbol_rests'), c.old('this.is_leaf'); b = z3.Int('b!w')
    return [c.vlen(r) == 256, c.vlen(l) == 256, c.varr(r)[0] == 0, c.varr(l)[0] == 0, ForAll([b], Implies(And(b >= 0, b < 256, c.varr(r)[b] != 0), WFT(c.varr(r)[b])))]
def contracts():
    out = []
    P = lambda *a, **k: out.append(Contract(*a, **k))
    def me(c): return c.ex.enc_ptr(c.arg('this'))
    def find_req(c): S, i = text(c, 'p'); return [WFT(me(c)), i >= 0, i <= Length(S)]
    def find_rev(c):
        S, i = text(c, 'p'); r, l = c.varr(c.old('this.symbol_rests')), c.varr(c.old('this.is_leaf')); k = z3.Int('k!d'); b = byte(S, i)
        return wf_this(c) + [ForAll([k], IN(me(c), S, i, k) == And(k >= 1, i + k <= Length(S), If(k == 1, l[b] != 0, And(r[b] != 0, IN(r[b], S, i + 1, k - 1)))))]
    def find_ens(c, st, r):
        S, i = text(c, 'p'); t = me(c)
        if isinstance(r, sym.Null): return [('no symbol begins here', c.all(Z, lambda k: Implies(k >= 1, Not(IN(t, S, i, k)))))]
        n = r.steps[-1][1] - i; p = c.arg('p'); same = TRUE if (r.rid, r.off) == (p.rid, p.off) else FALSE
        return [('the end is in the text', And(same, n >= 1, i + n <= Length(S))), ('the text up to the end is a symbol', IN(t, S, i, n)), ('no longer symbol begins here', c.all(Z, lambda k: Implies(k > n, Not(IN(t, S, i, k)))))]
    def find_res(ex, st, c):
        p = c.arg('p'); a, b = st.fork(), st; n = fresh(Z, 'end')
        return [(a, sym.NULL), (b, ex.step(sym.Ptr(p.rid, p.off, p.steps[:-1]), ('char', n) + p.steps[-1][2:]))]
    P(TR + '::find(char const*) const', 'tok', anywhere=True, names=('p',), requires=find_req, reveal=find_rev, ensures=find_ens, result=find_res)
    P(TR + '::MultiCharSymbolTrie()', 'tok', ret='void', modifies=('this',), callable=False, ensures=lambda c, st, r: (lambda v, l, i: [('room for every byte', And(c.vlen(v) == 256, c.vlen(l) == 256)), ('no symbols', Implies(And(i >= 0, i < 256), And(c.varr(v)[i] == 0, c.varr(l)[i] == 0)))])(c.at(st, 'this.symbol_rests'), c.at(st, 'this.is_leaf'), fresh(Z, 'i')))
    def u8(b): return If(b < 128, I(1), If(b % 64 < 32, I(2), If(b % 32 < 16, I(3), I(4))))
    def nxt(c, st, r):
        S, i = text(c, 'symbol'); t = me(c); k = z3.Int('k!n'); k0 = fresh(Z, 'k')
        return [('nothing is taken at the end', Implies(i == Length(S), r == 0)), ('the longest multicharacter symbol is taken', Implies(And(i < Length(S), k0 >= 1, IN(t, S, i, k0)), And(signed(r, 32) >= k0, IN(t, S, i, signed(r, 32))))),
                ('otherwise one UTF-8 character', Implies(And(i < Length(S), ForAll([k], Implies(k >= 1, Not(IN(t, S, i, k))))), r == u8(S[i])))]
    P(T + '::get_next_symbol_size(char const*, bool) const', 'tok', anywhere=True, name=T + '::get_next_symbol_size (splitting characters)', names=('symbol', 'split'), ret=('int', 32, True), requires=lambda c: [c.arg('split'), Length(text(c, 'symbol')[0]) < 2**31, WFT(me(c))], ensures=nxt, callable=False)
    P(T + '::is_skip_symbol(std::string&) const', 'tok', names=('s',), ret='bool', ensures=lambda c, st, r: [('empty or in the set of skip symbols', r == Or(c.old('s') == EMPTY, c.m(c.old('this.skip_symbol_set'), 'dom')[c.old('s')]))])
    def nt(c, st, r): S, i = text(c, 'symbol'); return [('', And(r == NEXT(S, i, c.arg('split')), Implies(i < Length(S), And(r >= 1, i + r <= Length(S)))))]
    P(T + '::get_next_symbol_size(char const*, bool) const', 'tok', names=('symbol', 'split'), ret=('int', 32, True), ensures=nt, trusted='reads 1 to all of the remaining bytes, depending on the text and position only (grapheme clusters come from ICU; the branch that splits characters is proved separately)')
    P(T + '::check_utf8_correctness(std::string const&)', 'tok', names=('input_string',), ret='void', throw_outs=lambda ex, st, c: [sym.Outcome(st.fork(), 'throw', ('_ZTI27IncorrectUtf8CodingException', None))], trusted='throws IncorrectUtf8CodingException or has no effect (ICU)')
    # token sequences, as the list built by taking symbol after symbol
    def build(c, pair):
        ct = C.parse(SP) if pair else ('str',); A = z3.ArraySort(Z, c.ex.L.sort(ct))
        return z3.Function('tokens_from_%s' % ('pairs' if pair else 'symbols'), SEQ, Z, z3.BoolSort(), Z, A, A), z3.K(Z, stdmodel.garbage(c.ex, ct))
    def elem(c, pair, x): return c.ex.L.sort(C.parse(SP)).constructor(0)(x, x) if pair else x
    def TOKS(c, S, sp, pair=True): F, e = build(c, pair); return F(S, I(0), sp, I(0), e)
    def unfold(c, S, i, sp, n, arr, pair):
        F, _ = build(c, pair); q = NEXT(S, i, sp); sub = Extract(S, i, q); sk = Or(sub == EMPTY, c.m(c.old('this.skip_symbol_set'), 'dom')[sub]); j = z3.simplify(i + q)
        return [TN(S, i, sp) == If(i >= Length(S), I(0), If(sk, I(0), I(1)) + TN(S, j, sp)), F(S, i, sp, n, arr) == If(i >= Length(S), arr, If(sk, F(S, j, sp, n, arr), F(S, j, sp, z3.simplify(n + 1), z3.Store(arr, n, elem(c, pair, sub)))))]
    def S0(c): return c.old('input_string')
    def first(c, pair, x): return c.f(SP, x, 'first') if pair else x
    def trev(pair): return lambda c: (lambda k: [ForAll([k], TOK(S0(c), c.arg('split'), k) == first(c, pair, TOKS(c, S0(c), c.arg('split'), pair)[k]))])(z3.Int('k!r'))
    def tv(lvs, pair): return [v for v in lvs if v.kind == 'vec' and v.ct == (VSP if pair else VS)]
    def tfacts(pair):
        def g(ex, f, h, lvs):
            c = ex.cur.ctx; return sum((unfold(c, S0(c), l.get(h), c.arg('split'), c.vlen(v.get(h)), c.varr(v.get(h)), pair) for l in lvs if l.kind == 'idx' for v in tv(lvs, pair)), []) + [Implies(And(l.get(h) >= 0, l.get(h) < Length(S0(c))), S0(c)[l.get(h)] != 0) for l in lvs if l.kind == 'idx']
        return g
    def tcand(pair):
        def f(ex, fn, st0, lvs):
            c = ex.cur.ctx; o = []; S, sp = S0(c), c.arg('split'); F, _ = build(c, pair)
            for l in lvs:
                if l.kind != 'idx': continue
                for v in tv(lvs, pair):
                    o.append(('tokens so far and to come are all tokens [%s %s]' % (l.name, v.name), lambda s, l=l, v=v: TN(S, I(0), sp) == c.vlen(v.get(s)) + TN(S, l.get(s), sp)))
                    o.append(('continuing from here gives the tokens of the text [%s %s]' % (l.name, v.name), lambda s, l=l, v=v: TOKS(c, S, sp, pair) == F(S, l.get(s), sp, c.vlen(v.get(s)), c.varr(v.get(s)))))
            if pair: o += [('both sides the same [%s]' % v.name, lambda s, v=v: (lambda k: ForAll([k], Implies(And(k >= 0, k < c.vlen(v.get(s))), c.f(SP, c.varr(v.get(s))[k], 'first') == c.f(SP, c.varr(v.get(s))[k], 'second'))))(z3.Int('k!s'))) for v in tv(lvs, pair)]
            return o
        return f
    def tens(pair):
        def f(c, st, r):
            S, sp, v = S0(c), c.arg('split'), c.at(st, '$ret')
            return [('as many tokens as the text has', c.vlen(v) == TN(S, I(0), sp)), ('each token is the next symbol that is not skipped', c.all(Z, lambda k: Implies(And(k >= 0, k < c.vlen(v)), And(first(c, pair, c.varr(v)[k]) == TOK(S, sp, k), *([c.f(SP, c.varr(v)[k], 'second') == TOK(S, sp, k)] if pair else [])))))]
        return f
    okthrow = lambda c, st, v: [('only for text that is not UTF-8', TRUE if v and v[0] == '_ZTI27IncorrectUtf8CodingException' else FALSE)]
    thr = lambda ex, st, c: [sym.Outcome(st.fork(), 'throw', ('_ZTI27IncorrectUtf8CodingException', None))]
    nonul = lambda *ns: (lambda c: [Not(Contains(c.old(n), Unit(I(0)))) for n in ns] + [Length(c.old(n)) < 2**31 for n in ns])
    bm = lambda c, k: [] 
    P(T + '::tokenize(std::string const&, bool) const', 'tok', names=('input_string', 'split'), sret=VSP, requires=nonul('input_string'), ensures=tens(True), loop_candidates=tcand(True), loop_facts=tfacts(True), reveal=trev(True), on_throw=okthrow, throw_outs=thr, cost=5)
    P(T + '::tokenize_one_level(std::string const&, bool) const', 'tok', names=('input_string', 'split'), sret=VS, requires=nonul('input_string'), ensures=tens(False), loop_candidates=tcand(False), loop_facts=tfacts(False), reveal=trev(False), on_throw=okthrow, callable=False, cost=5)
    # pairs of texts
    def pairs(c, v, upto):
        A, B, sp = c.old('input_string'), c.old('output_string'), c.arg('split'); na, nb = TN(A, I(0), sp), TN(B, I(0), sp)
        return lambda k: Implies(And(k >= 0, k < upto), And(c.f(SP, c.varr(v)[k], 'first') == If(k < na, TOK(A, sp, k), EPS), c.f(SP, c.varr(v)[k], 'second') == If(k < nb, TOK(B, sp, k), EPS)))
    def pens(c, st, r):
        A, B, sp, v = c.old('input_string'), c.old('output_string'), c.arg('split'), c.at(st, '$ret'); na, nb = TN(A, I(0), sp), TN(B, I(0), sp)
        return [('as many pairs as the longer side has tokens', c.vlen(v) == If(na < nb, nb, na)), ('the k-th pair holds the k-th tokens, the shorter side padded with epsilon', c.all(Z, pairs(c, v, c.vlen(v))))]
    def pcand(ex, fn, st0, lvs):
        c = ex.cur.ctx; k = z3.Int('k!p')
        return [('pairs so far [%s]' % v.name, lambda s, v=v: ForAll([k], pairs(c, v.get(s), c.vlen(v.get(s)))(k))) for v in lvs if v.kind == 'vec' and v.ct == VSP]
    P(T + '::tokenize(std::string const&, std::string const&, bool) const', 'tok', names=('input_string', 'output_string', 'split'), sret=VSP, requires=nonul('input_string', 'output_string'), ensures=pens, loop_candidates=pcand, on_throw=okthrow, callable=False, cost=8)
    P(T + '::tokenize(std::string const&, std::string const&, bool, void (*)(std::pair<std::string, std::string> const&)) const', 'tok', names=('input_string', 'output_string', 'split', 'warn'), argtypes={'warn': ('callback',)}, sret=VSP, requires=nonul('input_string', 'output_string'), ensures=pens, loop_candidates=pcand, on_throw=okthrow, callable=False, cost=8)
    # symbols separated by spaces
    def spf(c):
        A = z3.ArraySort(Z, c.ex.L.sort(C.parse(SP)))
        return z3.Function('runs_from', SEQ, Z, Z, Z, A, A), z3.K(Z, stdmodel.garbage(c.ex, C.parse(SP))), z3.Function('run_count_from', SEQ, Z, Z, Z)
    def sunf(c, S, i, b, n, arr):
        """i: position, b: where the current run began (or NPOS), n, arr: runs so far"""
        F, _, N = spf(c); L = Length(S); sp = S[i] == 32; mk = lambda x: elem(c, True, x); j = z3.simplify(i + 1); n1 = z3.simplify(n + 1)
        return [Implies(i >= L, And(N(S, i, b) == If(b != NPOS, I(1), I(0)), F(S, i, b, n, arr) == If(b != NPOS, z3.Store(arr, n, mk(Extract(S, b, L - b))), arr))),
                Implies(And(i < L, sp, b != NPOS), And(N(S, i, b) == 1 + N(S, j, I(NPOS)), F(S, i, b, n, arr) == F(S, j, I(NPOS), n1, z3.Store(arr, n, mk(Extract(S, b, i - b)))))),
                Implies(And(i < L, Not(sp), b == NPOS), And(N(S, i, b) == N(S, j, i), F(S, i, b, n, arr) == F(S, j, i, n, arr))),
                Implies(And(i < L, sp == (b == NPOS)), And(N(S, i, b) == N(S, j, b), F(S, i, b, n, arr) == F(S, j, b, n, arr)))]
    def spairs(lvs):
        ints = [l for l in lvs if l.kind == 'int']
        return [(a, b, v) for a in ints for b in ints if a is not b for v in tv(lvs, True)]
    def scand(ex, fn, st0, lvs):
        c = ex.cur.ctx; S = c.old('str'); F, e, N = spf(c); o = []
        for a, b, v in spairs(lvs):
            o.append(('runs so far and to come are all runs [%s %s]' % (a.name, b.name), lambda s, a=a, b=b, v=v: N(S, I(0), I(NPOS)) == c.vlen(v.get(s)) + N(S, a.get(s), b.get(s))))
            o.append(('continuing from here gives the runs of the text [%s %s]' % (a.name, b.name), lambda s, a=a, b=b, v=v: F(S, I(0), I(NPOS), I(0), e) == F(S, a.get(s), b.get(s), c.vlen(v.get(s)), c.varr(v.get(s)))))
            o.append(('a run began before [%s %s]' % (a.name, b.name), lambda s, a=a, b=b: Or(b.get(s) == NPOS, b.get(s) < a.get(s))))
        return o
    def sfacts(ex, fn, h, lvs):
        c = ex.cur.ctx; return sum((sunf(c, c.old('str'), a.get(h), b.get(h), c.vlen(v.get(h)), c.varr(v.get(h))) for a, b, v in spairs(lvs)), [])
    def sens(c, st, r):
        F, e, N = spf(c); S, v = c.old('str'), c.at(st, '$ret')
        return [('as many symbols as there are runs of characters other than space', c.vlen(v) == N(S, I(0), I(NPOS))), ('each symbol is the next run', c.all(Z, lambda k: Implies(And(k >= 0, k < c.vlen(v)), c.varr(v)[k] == F(S, I(0), I(NPOS), I(0), e)[k])))]
    P(T + '::tokenize_space_separated(std::string const&)', 'tok', names=('str',), sret=VSP, ensures=sens, loop_candidates=scand, loop_facts=sfacts, on_throw=okthrow, callable=False, cost=5)
    # adding a symbol
    ADDED = z3.Function('text_was_added', Z, SEQ, Z, z3.BoolSort())
    HT = 'heap:' + TR
    def add_rev(c):
        S, i = text(c, 'p'); j = z3.Int('j!a'); r = c.varr(c.old('this.symbol_rests')); ct = C.parse(TR)
        ch_ = c.ex.read_obj(c.pre, c.ex.heap_ptr(r[S[i]], ct), ct); g = lambda f: c.f(TR, ch_, f)
        return [ForAll([j], Implies(And(j >= 0, j < Length(S)), And(S[j] > 0, S[j] < 256))), r[S[i]] >= 0, Implies(r[S[i]] != 0, And(c.vlen(g('symbol_rests')) == 256, c.vlen(g('is_leaf')) == 256))]
    def add_ens(c, st, r):
        S, i = text(c, 'p'); b = S[i]; r0, l0, r1, l1 = c.varr(c.old('this.symbol_rests')), c.varr(c.old('this.is_leaf')), c.varr(c.at(st, 'this.symbol_rests')), c.varr(c.at(st, 'this.is_leaf')); last = Length(S) - i == 1
        if c.applying: return [('', ADDED(me(c), S, i)), ('', c.vlen(c.at(st, 'this.symbol_rests')) == 256)]
        j = fresh(Z, 'j')
        return [('the text is a symbol now', If(last, l1[b] != 0, And(r1[b] != 0, ADDED(r1[b], S, i + 1)))), ('no other entry changes', Implies(And(j != b, j >= 0, j < 256), And(r1[j] == r0[j], l1[j] == l0[j]))),
                ('only the end mark is set at the end', Implies(last, r1[b] == r0[b])), ('no end mark is set before the end', Implies(Not(last), l1[b] == l0[b])), ('a branch that exists is kept', Implies(r0[b] != 0, r1[b] == r0[b])), ('room for every byte', And(c.vlen(c.at(st, 'this.symbol_rests')) == 256, c.vlen(c.at(st, 'this.is_leaf')) == 256))]
    P(TR + '::add(char const*)', 'tok', anywhere=True, names=('p',), ret='void', requires=lambda c: (lambda S, i: [i >= 0, i < Length(S), c.vlen(c.old('this.symbol_rests')) == 256, c.vlen(c.old('this.is_leaf')) == 256])(*text(c, 'p')), reveal=add_rev, ensures=add_ens, modifies=('this', HT))
    return out
BOUND = 'all sets of up to 3 words of length 1-3 over {a,b} (every 4th in quick), 6000 (100000) random texts up to 10 symbols over 20 characters incl. combining marks, emoji, flags, with up to 5 multicharacter or skip symbols'
ASSUMPTIONS = ['ICU behaves as documented', 'texts contain no NUL byte and are shorter than 2^31', 'tries are trees: no node is shared (each is made by one new)']
def harnesses(): return [Harness('C05.cc', ['libhfst/src/HfstTokenizer.cc', 'libhfst/src/HfstExceptionDefs.cc', 'libhfst/src/HfstFlagDiacritics.cc', 'libhfst/src/HfstSymbolDefs.cc'], libs=['-licuuc', '-licui18n', '-Wl,--unresolved-symbols=ignore-all'])]
