from irv.api import *
from props import C02
TITLE = 'optimized-lookup files'
def units(): return [IRUnit('ol', '#include "/repo/libhfst/src/HfstExceptionDefs.cc"\n#include "/repo/libhfst/src/HfstSymbolDefs.cc"\n#include "/repo/libhfst/src/HfstDataTypes.cc"\n#include "/repo/libhfst/src/implementations/optimized-lookup/transducer.cc"\nvoid *vf_uses(std::istream& i) { (void) new hfst_ol::TransitionIndex(i); (void) new hfst_ol::Transition(i); hfst_ol::TransducerAlphabet a; a.write(std::cout); hfst_ol::TransducerHeader h(i); h.set_flag(hfst_ol::Weighted, h.probe_flag(hfst_ol::Cyclic)); return new hfst_ol::TransitionW(i); }\n')]
N = 'hfst_ol::'; TI, TW, TR, TRW, TH, TA = N + 'TransitionIndex', N + 'TransitionWIndex', N + 'Transition', N + 'TransitionW', N + 'TransducerHeader', N + 'TransducerAlphabet'
OS, IS = 'std::ostream&', 'std::istream&'
Z = z3.IntSort()
NOS, NOT = 65535, 2**32 - 1
OSA = {'os': ('ptr', ('str',))}; ISA = {'is': ('ptr', ('istream',))}; CH = {'p': ('ptr', ('chars',))}
K = z3.Int('K')      # an arbitrary place
IDX = [('input_symbol', 2), ('first_transition_index', 4)]
TRF = [('input_symbol', 2), ('output_symbol', 2), ('target_index', 4)]
TRWF = TRF + [('transition_weight', 4)]
HNUM = [('number_of_input_symbols', 2), ('number_of_symbols', 2), ('size_of_transition_index_table', 4), ('size_of_transition_target_table', 4), ('number_of_states', 4), ('number_of_transitions', 4)]
HBOOL = ['weighted', 'deterministic', 'input_deterministic', 'minimized', 'cyclic', 'has_epsilon_epsilon_transitions', 'has_input_epsilon_transitions', 'has_input_epsilon_cycles', 'has_unweighted_input_epsilon_cycles']
le, lev = stdmodel.le_bytes, stdmodel.le_value
def contracts():
    out = []
    P = lambda *a, **k: out.append(Contract(*a, **k))
    def raw(c, st, f, v):
        if f != 'transition_weight': return v
        return c.ex.f2b(st, v)
    # one entry from bytes
    def from_bytes(fields):
        def g(c, st, r):
            S, i = c.text('p'); o = []; at = 0
            for f, n in fields: o.append((f + ' from its place', raw(c, st, f, c.at(st, 'this.' + f)) == lev(S, i + at, n) if f != 'transition_weight' else c.at(st, 'this.' + f) == c.ex.b2f(st, lev(S, i + at, n)))); at += n
            return o
        return g
    def enough(n): return lambda c: (lambda S, i: [i + n <= Length(S)])(*c.text('p'))
    for cls, fields in ((TI, IDX), (TW, IDX), (TR, TRF), (TRW, TRWF)):
        nm = cls.split('::')[-1]; n = sum(x for _, x in fields)
        P('%s::%s(char*)' % (cls, nm), 'ol', names=('p',), argtypes=CH, ret='void', requires=enough(n), modifies=('this',), ensures=from_bytes(fields))
    # one entry from a stream
    def okread(c, n): return (lambda R, i, e, f: And(e == 0, f == 0, i + n <= Length(R)))(*c.stream(c.pre, 'is'))
    def advanced(c, st, n):
        R0, i0, _, _ = c.stream(c.pre, 'is'); R1, i1, e1, f1 = c.stream(st, 'is'); ok = okread(c, n)
        return [('exactly its bytes are read', Implies(ok, And(i1 == i0 + n, f1 == 0, e1 == 0))), ('too few bytes: the stream fails', Implies(Not(ok), f1 != 0))]
    def next_(c, n): R, i, _, _ = c.stream(c.pre, 'is'); return lev(R, i, n)
    def from_stream(fields):
        tot = sum(n for _, n in fields)
        def g(c, st, r):
            R0, at, _, _ = c.stream(c.pre, 'is'); ok = okread(c, tot); o = []
            for f, n in fields: o.append((f + ' from its place', Implies(ok, c.at(st, 'this.' + f) == (lev(R0, at, n) if f != 'transition_weight' else c.ex.b2f(st, lev(R0, at, n)))))); at = at + n
            return o + advanced(c, st, tot)
        return g
    for cls, fields in ((TI, IDX), (TR, TRF), (TRW, TRWF)):
        nm = cls.split('::')[-1]
        P('%s::%s(%s)' % (cls, nm, IS), 'ol', names=('is',), argtypes=ISA, ret='void', modifies=('this', 'is'), ensures=from_stream(fields), callable=False)
    # one entry to a stream
    def wr(c, st, fields):
        v = c.old('os')
        for f, n in fields: v = Concat(v, le(raw(c, st, f, c.old('this.' + f)), n))
        return v
    def idxw(c, st, r):
        i, t = c.old('this.input_symbol'), c.old('this.first_transition_index'); fin = And(i == NOS, t != NOT)
        return [('symbol, then target or final mark', c.at(st, 'os') == Concat(c.old('os'), le(i, 2), le(If(And(Not(c.arg('weighted')), fin), I(1), t), 4)))]
    P(TI + '::write(%s, bool) const' % OS, 'ol', names=('os', 'weighted'), argtypes=OSA, ret='void', modifies=('os',), ensures=idxw)
    P(TR + '::write(%s, bool) const' % OS, 'ol', names=('os', 'weighted'), argtypes=OSA, ret='void', requires=lambda c: [Not(c.arg('weighted'))], modifies=('os',), ensures=lambda c, st, r: [('the three fields in order', c.at(st, 'os') == wr(c, st, TRF))])
    P(TRW + '::write(%s, bool) const' % OS, 'ol', names=('os', 'weighted'), argtypes=OSA, ret='void', modifies=('os',), ensures=lambda c, st, r: [('the fields in order, the weight last', c.at(st, 'os') == If(c.arg('weighted'), wr(c, st, TRWF), wr(c, st, TRF)))])
    # the header
    def hdr(c, st):
        v = c.old('os')
        for f, n in HNUM: v = Concat(v, le(c.old('this.' + f), n))
        for f in HBOOL: v = Concat(v, le(c.old('this.' + f), 4))
        return v
    P(TH + '::write(%s) const' % OS, 'ol', names=('os',), argtypes=OSA, ret='void', modifies=('os',), ensures=lambda c, st, r: [('every field at its place', c.at(st, 'os') == hdr(c, st))])
    # the truth values in it
    FL = ['weighted', 'deterministic', 'input_deterministic', 'minimized', 'cyclic', 'has_epsilon_epsilon_transitions', 'has_input_epsilon_transitions', 'has_input_epsilon_cycles', 'has_unweighted_input_epsilon_cycles']
    P(TH + '::probe_flag(hfst_ol::HeaderFlag) const', 'ol', names=('flag',), ret='bool', ensures=lambda c, st, r: [('the flag asked for', And(*[Implies(c.arg('flag') == k, r == (c.old('this.' + f) != 0)) for k, f in enumerate(FL)]))], callable=False)
    P(TH + '::set_flag(hfst_ol::HeaderFlag, bool)', 'ol', names=('flag', 'value'), ret='void', modifies=('this',), ensures=lambda c, st, r: [('%s as told, if it is the one' % f, (c.at(st, 'this.' + f) != 0) == If(c.arg('flag') == k, c.arg('value'), c.old('this.' + f) != 0)) for k, f in enumerate(FL)], callable=False)
    # reading the header
    for ty, n in (('unsigned short', 2), ('unsigned int', 4)):
        P('%s hfst_ol::TransducerHeader::read_property<%s>(%s)' % (ty, ty, IS), 'ol', names=('is',), argtypes=ISA, ret=('int', 8 * n, False), modifies=('is',), ensures=lambda c, st, r, n=n: [('the value of the bytes', Implies(okread(c, n), r == next_(c, n)))] + advanced(c, st, n))
    HX = '_ZTI31TransducerHasWrongTypeException'
    def onebit(c): return (lambda v: Or(v == 0, v == 1))(next_(c, 4))
    P(TH + '::read_bool_property(%s)' % IS, 'ol', names=('is',), argtypes=ISA, ret='bool', modifies=('is',), ensures=lambda c, st, r: [('the value of the bytes', Implies(okread(c, 4), And(onebit(c), r == (next_(c, 4) == 1))))] + advanced(c, st, 4),
      on_throw=lambda c, st, v: [('only for bytes that are no truth value, or too few', Not(And(okread(c, 4), onebit(c)))), ('the right exception', TRUE if v and v[0] == HX else FALSE)], throw_outs=lambda ex, st, c: [(lambda s: (s.assume(Not(And(okread(c, 4), onebit(c)))), sym.Outcome(s, 'throw', (HX, None)))[1])(st.fork())])
    HTOT = sum(n for _, n in HNUM) + 4 * len(HBOOL)
    def hbools(c): R, i, _, _ = c.stream(c.pre, 'is'); return And(*[Or(lev(R, i + 20 + 4 * k, 4) == 0, lev(R, i + 20 + 4 * k, 4) == 1) for k in range(len(HBOOL))])
    def hread(c, st, r):
        R, at, _, _ = c.stream(c.pre, 'is'); o = []
        for f, n in HNUM: o.append((f + ' from its place', c.at(st, 'this.' + f) == lev(R, at, n))); at = at + n
        for f in HBOOL: o.append((f + ' from its place', c.at(st, 'this.' + f) == lev(R, at, 4))); at = at + 4
        return [('there were enough bytes', okread(c, HTOT))] + advanced(c, st, HTOT)[:1] + o
    P(TH + '::TransducerHeader(%s)' % IS, 'ol', names=('is',), argtypes=ISA, ret='void', modifies=('this', 'is'), ensures=hread, on_throw=lambda c, st, v: [('only if the bytes are no header', Not(And(okread(c, HTOT), hbools(c)))), ('the right exception', TRUE if v and v[0] == HX else FALSE)])
    # the alphabet: its symbols, each followed by a NUL byte
    SA = z3.ArraySort(Z, SEQ); ENC = z3.Function('symbols_written', SA, Z, SEQ); PLACE = z3.Function('symbol_begins_at', SEQ, Z, Z, Z)
    ST = ('vec', ('str',))
    def encu(a, n): return [ENC(a, 0) == EMPTY, Implies(n >= 0, ENC(a, n + 1) == Concat(ENC(a, n), a[n], Unit(I(0))))]
    def sy(c, st): return c.at(st, 'this.symbol_table')
    def awfacts(ex, f, h, lvs):
        c = ex.cur.ctx; a = c.varr(sy(c, c.pre)); return sum((encu(a, l.get(h)) for l in lvs if l.kind in ('idx', 'int')), [])
    def awcand(ex, f, st0, lvs):
        c = ex.cur.ctx; a = c.varr(sy(c, c.pre)); return [('symbols so far [%s]' % l.name, lambda s, l=l: c.at(s, 'os') == Concat(c.old('os'), ENC(a, l.get(s)))) for l in lvs if l.kind in ('idx', 'int')]
    P(TA + '::write(%s) const' % OS, 'ol', names=('os',), argtypes=OSA, ret='void', requires=lambda c: encu(c.varr(sy(c, c.pre)), I(0))[:1] + [Concat(c.old('os'), EMPTY) == c.old('os')], modifies=('os',), loop_candidates=awcand, loop_facts=awfacts,
      ensures=lambda c, st, r: [('every symbol in order, each followed by NUL', c.at(st, 'os') == Concat(c.old('os'), ENC(c.varr(sy(c, c.pre)), c.vlen(sy(c, c.pre)))))])
    # reading it
    FDT = 'hfst::FdTable<unsigned short>'
    SPECIAL = {'unknown_symbol': '@_UNKNOWN_SYMBOL_@', 'identity_symbol': '@_IDENTITY_SYMBOL_@', 'default_symbol': '@_DEFAULT_SYMBOL_@'}
    P('hfst::FdOperation::is_diacritic(std::string const&)', 'ol', names=('s',), ret='bool', ensures=lambda c, st, r: [('', r == C02.FLAG(c.old('s')))] + [('', Not(C02.FLAG(lit(x)))) for x in SPECIAL.values()], trusted='proved by check C02')
    P(FDT + '::define_diacritic(unsigned short, std::string const&)', 'ol', names=('symbol', 'str'), ret='void', modifies=('this',), ensures=lambda c, st, r: (lambda d0, d1, n: [('', ForAll([n], d1[n] == Or(d0[n], n == c.arg('symbol'))))])(c.m(c.old('this.operations'), 'dom'), c.m(c.at(st, 'this.operations'), 'dom'), z3.Int('n!d')), trusted='proved by check C01 (the symbol becomes a diacritic, no other does)')
    def flags(c, st): return c.m(c.at(st, 'this.fd_table.operations'), 'dom')
    def symbols_known(c, st, n, a):
        "what is known of the first n symbols, a their array"
        o = [('flag diacritics are exactly the symbols of that form', Implies(And(K >= 0, K < n), flags(c, st)[K] == C02.FLAG(a[K]))), ('no other flag diacritics', Implies(Or(K < 0, K >= n), Not(flags(c, st)[K])))]
        for f, x in SPECIAL.items():
            v = c.at(st, 'this.' + f)
            o += [('%s, if any, is such a symbol' % f, Or(v == NOS, And(v < n, a[v] == lit(x)))), ('%s is known if there is such a symbol' % f, Implies(And(K >= 0, K < n, a[K] == lit(x)), And(v != NOS, v >= K)))]
        return o
    def noflags(c): return []
    def arr_of(c, s): return c.varr(sy(c, s))
    def known_cand(ex, f, st0, lvs):
        c = ex.cur.ctx; o = []
        for l in lvs:
            if l.kind in ('idx', 'int'):
                for k, (nm, _) in enumerate(symbols_known(c, st0, I(0), arr_of(c, st0))): o.append(('%s [%s]' % (nm, l.name), lambda s, l=l, k=k: symbols_known(c, s, l.get(s), arr_of(c, s))[k][1]))
        return o
    P(TA + '::TransducerAlphabet(std::vector<std::string> const&)', 'ol', names=('st',), ret='void', requires=lambda c: [c.vlen(c.old('st')) < NOS], modifies=('this',), loop_candidates=known_cand,
      ensures=lambda c, st, r: [('the symbols given', And(c.vlen(sy(c, st)) == c.vlen(c.old('st')), arr_of(c, st) == c.varr(c.old('st')))), ('all of them are of the transducer itself', c.at(st, 'this.orig_symbol_count') == c.vlen(c.old('st')))] + symbols_known(c, st, c.vlen(c.old('st')), c.varr(c.old('st'))), callable=False)
    # from a stream: symbol k begins after k NUL bytes
    TEXT, NEXT = stdmodel.LINE_TEXT, stdmodel.LINE_NEXT      # what std::getline(…, NUL) reads, and where it leaves the stream
    def plu(S, p0, k): i = PLACE(S, p0, k); return [PLACE(S, p0, 0) == p0, Implies(k >= 0, PLACE(S, p0, k + 1) == NEXT(S, i, 0))]
    def strm(c): return c.stream(c.pre, 'is')[:2]
    def nth(c, k): S, p0 = strm(c); return TEXT(S, PLACE(S, p0, k), 0)
    def there(c, n): S, p0 = strm(c); k = z3.Int('k!e'); return ForAll([k], Implies(And(k >= 0, k < n), And(NEXT(S, PLACE(S, p0, k), 0) >= 0, NEXT(S, PLACE(S, p0, k), 0) <= Length(S))))
    def rfacts(ex, f, h, lvs):
        c = ex.cur.ctx; S, p0 = strm(c); return sum((plu(S, p0, l.get(h)) for l in lvs if l.kind in ('idx', 'int') and z3.is_int_value(l.entry) and not l.entry.as_long()), [])
    def arr(c, s): return arr_of(c, s)
    def rcand(ex, f, st0, lvs):
        c = ex.cur.ctx; S, p0 = strm(c); o = []
        for l in lvs:
            if l.kind not in ('idx', 'int') or not z3.is_int_value(l.entry) or l.entry.as_long(): continue
            o.append(('place [%s]' % l.name, lambda s, l=l: c.stream(s, 'is')[1] == PLACE(S, p0, l.get(s))))
            o.append(('not too many [%s]' % l.name, lambda s, l=l: l.get(s) <= c.arg('count')))
            o.append(('stream in order', lambda s: And(c.stream(s, 'is')[2] == 0, c.stream(s, 'is')[3] == 0)))
            o.append(('number of symbols [%s]' % l.name, lambda s, l=l: c.vlen(sy(c, s)) == l.get(s)))
            o.append(('symbols so far [%s]' % l.name, lambda s, l=l: Implies(And(K >= 0, K < l.get(s)), arr(c, s)[K] == nth(c, K))))
            for k, (nm, _) in enumerate(symbols_known(c, st0, I(0), arr_of(c, st0))): o.append(('%s [%s]' % (nm, l.name), lambda s, l=l, k=k: symbols_known(c, s, l.get(s), arr_of(c, s))[k][1]))
        return o
    def rens(c, st, r):
        n = c.arg('count'); S, p0 = strm(c)
        return [('as many symbols as asked', c.vlen(sy(c, st)) == n), ('each symbol is the text up to the next NUL', Implies(And(K >= 0, K < n), arr(c, st)[K] == nth(c, K))), ('exactly their bytes are read', c.stream(st, 'is')[1] == PLACE(S, p0, n)),
                ('all of them are of the transducer itself', c.at(st, 'this.orig_symbol_count') == n)] + symbols_known(c, st, n, arr(c, st))
    def good_stream(c): S, p0, e, f = c.stream(c.pre, 'is'); return [e == 0, f == 0, there(c, c.arg('count'))] + plu(S, p0, I(0))[:1]
    P(TA + '::TransducerAlphabet(%s, unsigned short, bool)' % IS, 'ol', names=('is', 'count', 'keep'), argtypes=ISA, ret='void', requires=lambda c: good_stream(c) + [c.arg('keep')], modifies=('this', 'is'), loop_candidates=rcand, loop_facts=rfacts, ensures=rens, callable=False, cost=6, auto_bounds=False, opaque_lines=True)
    # asking the alphabet
    P(TA + '::symbol_from_string(std::string) const', 'ol', names=('s',), ret=('int', 16, False), requires=lambda c: [c.vlen(sy(c, c.pre)) < NOS], loop_candidates=lambda ex, f, st0, lvs: [('not among the first [%s]' % l.name, lambda s, l=l: (lambda c: Implies(And(K >= 0, K < l.get(s)), arr(c, c.pre)[K] != c.old('s')))(ex.cur.ctx)) for l in lvs if l.kind in ('idx', 'int')],
      ensures=lambda c, st, r: [('a number of that symbol, if it has one', Or(r == NOS, And(r < c.vlen(sy(c, c.pre)), arr(c, c.pre)[r] == c.old('s')))), ('the first such', Implies(And(K >= 0, K < c.vlen(sy(c, c.pre)), arr(c, c.pre)[K] == c.old('s')), r <= K))], callable=False)
    P(TA + '::string_from_symbol(unsigned short) const', 'ol', names=('n',), sret=('str',), requires=lambda c: [c.arg('n') < c.vlen(sy(c, c.pre))], ensures=lambda c, st, r: [('the symbol, epsilon as the empty string', c.at(st, '$ret') == If(c.arg('n') == 0, EMPTY, arr(c, c.pre)[c.arg('n')]))], callable=False)
    for t in ('std::string const&', 'char*'):
        P(TA + '::add_symbol(%s)' % t, 'ol', names=('s',), ret='void', modifies=('this.symbol_table',), ensures=lambda c, st, r, t=t: (lambda n, x: [('one symbol more', c.vlen(sy(c, st)) == n + 1), ('the new one is last', arr(c, st)[n] == x), ('the others stay', Implies(And(K >= 0, K < n), arr(c, st)[K] == arr(c, c.pre)[K]))])(c.vlen(sy(c, c.pre)), c.old('s') if t != 'char*' else c.text('s')[0]), callable=False)
    P(TA + '::is_meta_arc(unsigned short) const', 'ol', names=('n',), ret='bool', ensures=lambda c, st, r: [('unknown, identity or default', r == And(c.arg('n') != NOS, Or(*[c.arg('n') == c.old('this.' + f) for f in SPECIAL])))], callable=False)
    P(TA + '::is_flag_diacritic(unsigned short) const', 'ol', names=('n',), ret='bool', ensures=lambda c, st, r: [('as defined', r == flags(c, c.pre)[c.arg('n')])], callable=False)
    # entries
    for cls in (TI, TR):
        P(cls + '::matches(unsigned short) const', 'ol', names=('n',), ret='bool', ensures=lambda c, st, r: [('the same symbol', r == And(c.old('this.input_symbol') == c.arg('n'), c.arg('n') != NOS))], callable=False)
    P(TI + '::final() const', 'ol', ret='bool', ensures=lambda c, st, r: [('a final index', r == And(c.old('this.input_symbol') == NOS, c.old('this.first_transition_index') != NOT))], callable=False)
    P(TR + '::final() const', 'ol', ret='bool', ensures=lambda c, st, r: [('a final mark', r == And(c.old('this.input_symbol') == NOS, c.old('this.output_symbol') == NOS, c.old('this.target_index') == 1))], callable=False)
    P(TW + '::final_weight() const', 'ol', ret=('float',), ensures=lambda c, st, r: [('the weight with the bits of the target', r == c.ex.b2f(st, c.old('this.first_transition_index')))], callable=False)
    # tables
    for cls, fields in ((TI, IDX), (TW, IDX), (TR, TRF), (TRW, TRWF)):
        n = sum(x for _, x in fields); TT = N + 'TransducerTable<%s>' % cls
        def entry(c, st, k, cls=cls, fields=fields, n=n):
            S, p0 = strm(c); e = c.varr(c.at(st, 'this.table'))[k]; at = p0 + n * k; o = []
            for f, x in fields: v = c.f(cls, e, f); o.append(v == (lev(S, at, x) if f != 'transition_weight' else c.ex.b2f(st, lev(S, at, x)))); at = at + x
            return And(*o)
        def tcand(ex, f, st0, lvs, entry=entry, n=n):
            c = ex.cur.ctx; o = []
            for l in lvs:
                if l.kind not in ('idx', 'int'): continue
                done = lambda s, l=l: c.arg('count') - l.get(s)
                o += [('entries so far [%s]' % l.name, lambda s, done=done: And(done(s) >= 0, c.vlen(c.at(s, 'this.table')) == done(s))), ('entries read [%s]' % l.name, lambda s, done=done: Implies(And(K >= 0, K < done(s)), entry(c, s, K)))]
                for m in lvs:
                    if m is not l and m.kind in ('idx', 'int'): o.append(('place [%s %s]' % (l.name, m.name), lambda s, m=m, done=done: m.get(s) == n * done(s)))
            return o
        P('%s::TransducerTable(%s, unsigned int)' % (TT, IS), 'ol', names=('is', 'count'), argtypes=ISA, ret='void', requires=lambda c, n=n: [okread(c, n * c.arg('count'))], modifies=('this', 'is'), loop_candidates=tcand, auto_bounds=False,
          ensures=lambda c, st, r, n=n, entry=entry: [('as many entries as asked', c.vlen(c.at(st, 'this.table')) == c.arg('count')), ('each from its bytes', Implies(And(K >= 0, K < c.arg('count')), entry(c, st, K))), ('exactly their bytes are read', c.stream(st, 'is')[1] == strm(c)[1] + n * c.arg('count'))], callable=False)
        P('%s::operator[](unsigned int) const' % TT, 'ol', names=('i',), requires=lambda c: [c.arg('i') % 2**31 < c.vlen(c.old('this.table'))], ensures=lambda c, st, r, cls=cls: [('the entry, whichever table the index is for', c.ex.read_obj(st.fork(), r, C.parse(cls)) == c.varr(c.old('this.table'))[c.arg('i') % 2**31])], callable=False)
    return out
BOUND = 'quick: 6000 random transducers (1-12 indices, 0-13 transitions, up to 16 symbols incl. flag diacritics, unknown, identity, default), weighted and not; each written and compared byte by byte with the format, read back, copied, cut short and spoiled'
ASSUMPTIONS = ['the machine is little endian and allows unaligned loads of 2 and 4 bytes, as the readers take for granted', 'std::getline by name only: the text up to the delimiter and the place after it']
def harnesses(): return [Harness('C07.cc', ['libhfst/src/implementations/optimized-lookup/transducer.cc', 'libhfst/src/HfstSymbolDefs.cc', 'libhfst/src/HfstDataTypes.cc', 'libhfst/src/HfstExceptionDefs.cc', 'libhfst/src/HfstFlagDiacritics.cc'], flags=['-fno-sanitize=alignment'], libs=['-Wl,--unresolved-symbols=ignore-all'])]
