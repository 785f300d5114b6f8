from irv.api import *
def units():
    return [IRUnit('fd', '''#include "HfstFlagDiacritics.h"
template class hfst::FdTable<unsigned short>; template class hfst::FdState<unsigned short>;
#include "/repo/libhfst/src/HfstFlagDiacritics.cc"
'''), IRUnit('lfd', '#include "/repo/libhfst/src/HfstLookupFlagDiacritics.cc"\n')]
OP = 'hfst::FdOperation'
S_ = 'std::string const&'
OPS = 'PNRDCU'
def is_flag(s):
    n = Length(s)
    second = IndexOf(s, Unit(ch('.')), 3)
    return And(n >= 5, s[0] == ch('@'), s[2] == ch('.'), s[n - 1] == ch('@'), Or(*[s[1] == ch(c) for c in OPS]),
               Or(second >= 0, s[1] == ch('R'), s[1] == ch('D'), s[1] == ch('C')))
def second_dot(s): return IndexOf(s, Unit(ch('.')), 3)
def feature(s):
    d = second_dot(s)
    return If(d < 0, Extract(s, I(3), Length(s) - 4), Extract(s, I(3), d - 3))
def value(s):
    d = second_dot(s)
    return If(d < 0, EMPTY, Extract(s, d + 1, Length(s) - d - 2))
# opaque names of the above, for callers
FLAG = z3.Function('is_flag', SEQ, z3.BoolSort()); FEAT = z3.Function('flag_feature', SEQ, SEQ); VAL = z3.Function('flag_value', SEQ, SEQ); HASV = z3.Function('flag_has_value', SEQ, z3.BoolSort()); OPC = z3.Function('flag_op', SEQ, z3.IntSort())
def reveal(s): return [FLAG(s) == is_flag(s), Implies(is_flag(s), And(FEAT(s) == feature(s), VAL(s) == value(s), HASV(s) == (second_dot(s) >= 0), OPC(s) == s[1]))]
def contracts():
    out = []
    P = lambda *a, **k: out.append(Contract(*a, **dict(dict(reveal=lambda c: reveal(c.old('s')) if 's' in c.names else [], exact=True), **k)))
    s = lambda c: c.old('s')
    P(OP + '::is_diacritic(%s)' % S_, 'fd', names=('s',), ret='bool', ensures=lambda c, st, r: [('recognises exactly the flag diacritics', r == FLAG(s(c)))])
    P('FlagDiacriticTable::is_genuine_diacritic(%s)' % S_, 'lfd', names=('s',), ret='bool', ensures=lambda c, st, r: [('recognises exactly the flag diacritics', r == FLAG(s(c)))])
    P(OP + '::char_to_operator(char)', 'fd', names=('ch',), ret=('int', 32, False), requires=lambda c: [Or(*[c.arg('ch') == ch(k) for k in OPS])],
      ensures=lambda c, st, r: [('operator letter', And(*[Implies(c.arg('ch') == ch(k), r == n) for n, k in enumerate(OPS)]))])
    flag = lambda c: [FLAG(s(c))]
    P(OP + '::get_operator(%s)' % S_, 'fd', names=('s',), sret=('str',), requires=flag, ensures=lambda c, st, r: [('operator letter', c.at(st, '$ret') == Unit(OPC(s(c))))])
    P(OP + '::get_feature(%s)' % S_, 'fd', names=('s',), sret=('str',), requires=flag, ensures=lambda c, st, r: [('feature name', c.at(st, '$ret') == FEAT(s(c)))])
    P(OP + '::get_value(%s)' % S_, 'fd', names=('s',), sret=('str',), requires=flag, ensures=lambda c, st, r: [('value', c.at(st, '$ret') == VAL(s(c)))])
    P(OP + '::has_value(%s)' % S_, 'fd', names=('s',), ret='bool', requires=flag, ensures=lambda c, st, r: [('has a value part', r == (HASV(s(c))))])
    # splitting in the lookup table
    G = 'FlagDiacriticTable::'
    gl = {G + 'diacritic_operators': 'std::map<std::string, unsigned int>', G + 'diacritic_features': 'std::map<std::string, std::string>', G + 'diacritic_values': 'std::map<std::string, std::string>', G + 'diacritic_has_value': 'std::map<std::string, bool>'}
    def split_post(c, st, r):
        x = s(c); o = []
        new = {}
        for g in gl:
            m0, m1 = c.g(c.pre, g), c.g(st, g)
            new[g] = (m0, m1)
        ops, fe, va, hv = [new[G + 'diacritic_' + k] for k in ('operators', 'features', 'values', 'has_value')]
        code = dict(P=0, N=1, D=2, R=3, C=4, U=5)
        for k, v in code.items(): o.append(('operator %s' % k, Implies(OPC(x) == ch(k), c.m(ops[1], 'val')[x] == v)))
        hasv = HASV(x)
        o.append(('entries present', And(c.m(ops[1], 'dom')[x], c.m(fe[1], 'dom')[x], c.m(hv[1], 'dom')[x], Implies(hasv, c.m(va[1], 'dom')[x]))))
        o.append(('feature name', c.m(fe[1], 'val')[x] == FEAT(x)))
        o.append(('has-value bit', (c.m(hv[1], 'val')[x] != 0) == hasv))
        o.append(('value', Implies(hasv, c.m(va[1], 'val')[x] == VAL(x))))
        for nm, (m0, m1) in zip(('operators', 'features', 'values', 'has_value'), (ops, fe, va, hv)):
            o.append(('%s of other symbols kept' % nm, c.all(SEQ, lambda y: Implies(y != x, And(c.m(m1, 'val')[y] == c.m(m0, 'val')[y], c.m(m1, 'dom')[y] == c.m(m0, 'dom')[y])))))
        return o
    P('FlagDiacriticTable::split_diacritic(%s)' % S_, 'lfd', names=('s',), requires=flag, ensures=split_post, globals=gl, modifies=tuple('@' + g for g in gl), ret='void')
    return out

BOUND = 'all strings up to length 7 (8 thorough) over {@ . P R C X}, all operator bytes in 6 frames, 60000 (10^6) random strings up to 28 bytes'
ASSUMPTIONS = []
def harnesses(): return [Harness('C02.cc', ['libhfst/src/HfstFlagDiacritics.cc', 'libhfst/src/HfstLookupFlagDiacritics.cc', 'libhfst/src/HfstDataTypes.cc', 'libhfst/src/HfstExceptionDefs.cc'], libs=['-Wl,--unresolved-symbols=ignore-all'])]
