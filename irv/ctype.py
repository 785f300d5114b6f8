"""C++ types: parsing of (demangled / record-layout) type strings, record layouts
as reported by clang for the current source, and their SMT sorts."""
import re, functools
import z3

# A CT is a tuple: ('int',bits,signed) ('float',) ('double',) ('ptr',CT) ('str',)
# ('vec',CT) ('map',K,V) ('set',K) ('struct',name) ('opaque',name) ('arr',CT,n)
INTS = {
 'bool': (8, False, 'bool'), '_Bool': (8, False, 'bool'), 'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False),
 'short': (16, True), 'unsigned short': (16, False), 'int': (32, True), 'unsigned int': (32, False),
 'long': (64, True), 'unsigned long': (64, False), 'long long': (64, True), 'unsigned long long': (64, False),
 'wchar_t': (32, True), 'char32_t': (32, False), 'char16_t': (16, False), 'char8_t': (8, False),
 'size_t': (64, False),
}
VOID = ('opaque', 'void')

def split_top(s, sep=','):
    out = []; d = 0; cur = ''
    i = 0
    while i < len(s):
        c = s[i]
        if c in '<([{': d += 1
        elif c in '>)]}':
            if not (c == '>' and i and s[i-1] == '-'): d -= 1
        if c == sep and d == 0:
            out.append(cur.strip()); cur = ''
        else: cur += c
        i += 1
    if cur.strip(): out.append(cur.strip())
    return out

def norm(s):
    s = s.replace('std::__cxx11::', 'std::').replace('[abi:cxx11]', '')
    s = re.sub(r'\b(class|struct|enum|union|typename) ', '', s)
    s = re.sub(r'\s+', ' ', s)
    s = s.replace('> >', '>>')
    while '> >' in s: s = s.replace('> >', '>>')
    return s.strip()

def strip_defaults(s):
    """drop defaulted template arguments (allocator, char_traits, less)"""
    for kw in (', std::allocator<', ', std::char_traits<', ', std::less<'):
        while True:
            i = s.find(kw)
            if i < 0: break
            j = i + len(kw); d = 1
            while d:
                if s[j] == '<': d += 1
                elif s[j] == '>': d -= 1
                j += 1
            s = s[:i] + s[j:]
    return s
@functools.lru_cache(maxsize=None)
def canon(s):
    s = strip_defaults(norm(s))
    s = s.replace('std::basic_string<char>', 'std::string').replace(' >', '>')
    s = re.sub(r'\) const$', ')', s)
    return s

@functools.lru_cache(maxsize=None)
def parse(s):
    isenum = s.strip().startswith('enum ') or ' enum ' in (' ' + s.strip())[:12]
    s = norm(s)
    # strip top-level const/volatile
    while True:
        o = s
        s = re.sub(r'^(const|volatile) ', '', s)
        s = re.sub(r' (const|volatile)$', '', s)
        if s.endswith('* const'): s = s[:-6].strip()
        if s == o: break
    if s.endswith('*') or s.endswith('&'):
        t = s.rstrip('&').strip() if s.endswith('&') else s[:-1].strip()
        return ('ptr', parse(t))
    m = re.match(r'^(.*)\[(\d+)\]$', s)
    if m: return ('arr', parse(m.group(1)), int(m.group(2)))
    if '(*)' in s or s.endswith(')'): return ('ptr', VOID)
    if s in INTS: return ('int',) + INTS[s]
    if s == 'float': return ('float',)
    if s == 'double': return ('double',)
    if s in ('std::basic_string<char>', 'std::string') or s.startswith('std::basic_string<char,'): return ('str',)
    m = re.match(r'^std::(vector|map|set|list|deque|stack|queue|multimap|multiset|unordered_set|unordered_map|pair)<(.*)>$', s)
    if m and bal(m.group(2)):
        a = split_top(m.group(2)); k = m.group(1)
        if k in ('vector', 'list', 'deque'): return ('vec', parse(a[0]))
        if k in ('stack', 'queue'): return ('vec', parse(a[0]))
        if k == 'map': return ('map', parse(a[0]), parse(a[1]))
        if k == 'set': return ('set', parse(a[0]))
        if k == 'pair':
            x, y = parse(a[0]), parse(a[1])
            nm = 'std::pair<%s, %s>' % (ctname(x), ctname(y))
            PAIRS[nm] = (x, y)
            return ('struct', nm)
        return ('opaque', s)
    if isenum or s in ENUMS: return ('int', 32, False)
    return ('struct', s)

PAIRS = {}
ENUMS = {'hfst_ol::TransducerAlphabet::UnicodeClassCacheValue'}     # enumerations named inside template arguments
def ctname(ct):
    k = ct[0]
    if k == 'int': return '%sint%d' % ('' if ct[2] else 'u', ct[1])
    if k == 'struct' or k == 'opaque': return ct[1]
    if k == 'ptr': return ctname(ct[1]) + '*'
    if len(ct) == 1: return k
    return '%s<%s>' % (k, ', '.join(ctname(x) if isinstance(x, tuple) else str(x) for x in ct[1:]))

def bal(s):
    d = 0
    for i, c in enumerate(s):
        if c == '<': d += 1
        elif c == '>': d -= 1
        if d < 0: return False
    return d == 0

class Layouts:
    """field tables from -fdump-record-layouts-canonical"""
    def __init__(self, text=''):
        self.rec = {}   # name -> dict(size, fields=[(off, CT, name, isbase)])
        self._leaves = {}
        self._sorts = {}
        self.add(text)
    def add(self, text):
        for chunk in text.split('*** Dumping AST Record Layout')[1:]:
            lines = chunk.split('\n')
            top = None; fields = []; size = None; stack = []
            for ln in lines:
                m = re.match(r'^\s*(\d+)(?::\d+-\d+)? \|( +)(.*)$', ln)
                if not m:
                    mm = re.search(r'\[sizeof=(\d+)', ln)
                    if mm: size = int(mm.group(1))
                    continue
                off = int(m.group(1)); depth = len(m.group(2)); txt = m.group(3)
                if depth == 1:
                    top = norm(re.sub(r' \(empty\)$', '', txt)); continue
                if depth == 3 and top is not None:
                    t = txt
                    if t.endswith('(empty)') : continue
                    isbase = False
                    mb = re.match(r'^(.*) \((?:primary )?(?:virtual )?base\)$', t)
                    if mb:
                        fields.append((off, parse(mb.group(1)), '', True)); continue
                    if 'vtable pointer' in t:
                        fields.append((off, ('ptr', ('vtab', top)), '$vptr', False)); continue
                    mf = re.match(r'^(.*) ([A-Za-z_][A-Za-z_0-9]*)$', t)
                    if not mf: continue
                    fields.append((off, parse(mf.group(1)), mf.group(2), False))
            if top and size is not None and top not in self.rec:
                self.rec[top] = dict(size=size, fields=fields)
    # ---------------------------------------------------------------
    def size_align(self, ct):
        k = ct[0]
        if k == 'int': return ct[1] // 8, ct[1] // 8
        if k == 'float': return 4, 4
        if k == 'double': return 8, 8
        if k == 'ptr': return 8, 8
        if k == 'str': return 32, 8
        if k == 'vec': return 24, 8
        if k in ('map', 'set'): return 48, 8
        if k == 'arr':
            s, a = self.size_align(ct[1]); return s * ct[2], a
        if k == 'struct':
            r = self.rec.get(ct[1])
            if r is None:
                p = self._pair(ct)
                if p: return p[1]
                return None, 8
            al = 1
            for o, c, n, b in r['fields']:
                al = max(al, self.size_align(c)[1] or 1)
            return r['size'], al
        return None, 8
    def size(self, ct): return self.size_align(ct)[0]
    def _pair(self, ct):
        if ct[1] not in PAIRS: return None
        a, b = PAIRS[ct[1]]
        sa, aa = self.size_align(a); sb, ab = self.size_align(b)
        if sa is None or sb is None: return None
        ob = (sa + ab - 1) // ab * ab
        al = max(aa, ab)
        return ([(0, a, 'first', False), (ob, b, 'second', False)], ((ob + sb + al - 1) // al * al, al))
    def fields(self, ct):
        r = self.rec.get(ct[1])
        if r is not None: return r['fields']
        p = self._pair(ct)
        if p: return p[0]
        raise KeyError('no layout for ' + ct[1])
    def known(self, ct):
        try: self.fields(ct); return True
        except KeyError: return False
    def leaves(self, ct):
        """flattened [(off, leafCT, dotted name)] of a struct"""
        if ct in self._leaves: return self._leaves[ct]
        out = []
        for o, c, n, b in self.fields(ct):
            if c[0] == 'struct' and self.known(c):
                for o2, c2, n2 in self.leaves(c):
                    out.append((o + o2, c2, (n + '.' + n2) if n else n2))
            elif c[0] == 'struct':
                out.append((o, ('opaque', c[1]), n))
            else: out.append((o, c, n))
        self._leaves[ct] = out
        return out
    def offset(self, ct, name):
        for o, c, n in self.leaves(ct):
            if n == name: return o
        for o, c, n, b in self.fields(ct):
            if n == name: return o
        raise KeyError('%s has no field %s' % (ct[1], name))
    def field_ct(self, ct, name):
        for o, c, n in self.leaves(ct):
            if n == name: return c
        raise KeyError('%s has no field %s' % (ct[1], name))
    # ---------------------------------------------------------------
    def sort(self, ct):
        if ct in self._sorts: return self._sorts[ct]
        k = ct[0]
        if k in ('int', 'ptr', 'opaque'): s = z3.IntSort()
        elif k == 'float': s = z3.Float32()
        elif k == 'double': s = z3.Float64()
        elif k == 'str': s = z3.SeqSort(z3.IntSort())
        elif k == 'vec':
            e = self.sort(ct[1])
            s = mkdt(ct, 'vec', [('len', z3.IntSort()), ('arr', z3.ArraySort(z3.IntSort(), e))])
        elif k == 'arr':
            s = z3.ArraySort(z3.IntSort(), self.sort(ct[1]))
        elif k in ('map', 'set'):
            ks = self.sort(ct[1]); vs = self.sort(ct[2]) if k == 'map' else z3.BoolSort()
            s = mkdt(ct, 'map', [('dom', z3.ArraySort(ks, z3.BoolSort())), ('val', z3.ArraySort(ks, vs)), ('size', z3.IntSort()),
                      ('keys', z3.ArraySort(z3.IntSort(), ks)), ('idx', z3.ArraySort(ks, z3.IntSort()))])
        elif k == 'struct':
            lv = self.leaves(ct)
            s = mkdt(ct, 'mk', [('f%d' % o, self.sort(c)) for o, c, n in lv])
        else: raise KeyError('sort of %r' % (ct,))
        self._sorts[ct] = s
        return s

_names = {}
def mkdt(ct, con, fs):
    nm = sname(ct); sfx = '_' + nm.split('_')[0]
    d = z3.Datatype(nm); d.declare(con + sfx, *[(n + sfx, t) for n, t in fs]); s = d.create()
    setattr(s, con, s.constructor(0))
    for i, (n, t) in enumerate(fs): setattr(s, n, s.accessor(0, i))
    return s
def sname(ct):
    if ct not in _names: _names[ct] = 'T%d_%s' % (len(_names), re.sub(r'[^A-Za-z0-9]+', '_', str(ct))[:40])
    return _names[ct]

# ------------------------------------------------ demangled function names
OPS = ['()', '[]', '->*', '->', '<=>', '<<=', '>>=', '<<', '>>', '==', '!=', '<=', '>=', '&&', '||', '++', '--', '+=', '-=', '*=', '/=', '%=', '^=', '&=', '|=', '<', '>', '+', '-', '*', '/', '%', '^', '&', '|', '~', '!', '=', ',']

class FName:
    __slots__ = ('full', 'path', 'targs', 'params', 'cls', 'meth', 'clsargs', 'const')

@functools.lru_cache(maxsize=None)
def parse_fname(d):
    """'hfst::FdTable<unsigned short>::is_diacritic(unsigned short) const' -> FName"""
    f = FName(); f.full = d
    s = d
    s = re.sub(r' \[clone .*\]$', '', s); s = re.sub(r'\[abi:[a-z0-9]+\]', '', s)
    comps = []; cur = ''; i = 0; n = len(s)
    depth = 0
    params = None
    start = 0
    while i < n:
        if depth == 0 and s.startswith('operator', i) and (i == 0 or not (s[i-1].isalnum() or s[i-1] == '_')):
            j = i + 8
            for op in OPS:
                if s.startswith(op, j):
                    cur += 'operator' + op; i = j + len(op); break
            else:
                if s[j:j+1] == ' ':
                    k = j
                    dd = 0
                    while k < n and not (s[k] == '(' and dd == 0):
                        if s[k] == '<': dd += 1
                        elif s[k] == '>': dd -= 1
                        k += 1
                    cur += s[i:k]; i = k
                else:
                    cur += 'operator'; i = j
            continue
        c = s[i]
        if c in '<':
            depth += 1; cur += c
        elif c == '>' and s[i-1] != '-':
            depth -= 1; cur += c
        elif c == '(' :
            if depth == 0:
                if s.startswith('(anonymous namespace)', i):
                    cur += '(anonymous namespace)'; i += 21; continue
                # params until matching
                dd = 1; j = i + 1
                while j < n and dd:
                    if s[j] == '(': dd += 1
                    elif s[j] == ')': dd -= 1
                    j += 1
                params = s[i+1:j-1]; rest = s[j:]
                if '::' in rest[:8] or rest.startswith('::'):
                    cur += s[i:j]; i = j; params = None; continue
                f.const = rest.strip().startswith('const')
                break
            else:
                dd = 1; j = i + 1
                while j < n and dd:
                    if s[j] == '(': dd += 1
                    elif s[j] == ')': dd -= 1
                    j += 1
                cur += s[i:j]; i = j; continue
        elif depth == 0 and s.startswith('::', i):
            comps.append(cur); cur = ''; i += 2; continue
        elif depth == 0 and c == ' ' and not cur.startswith('operator'):
            comps = []; cur = ''     # return type prefix
        else: cur += c
        i += 1
    comps.append(cur)
    f.params = [norm(x) for x in split_top(params)] if params else ([] if params is not None else None)
    comps = [c for c in comps if c not in ('__cxx11', '__1')]
    last = comps[-1]
    if not last.startswith('operator') and '<' in last:
        f.targs = split_top(last[last.index('<')+1:-1]); last = last[:last.index('<')]
    else:
        f.targs = []
        if last.startswith('operator'):
            m = re.match(r'^(operator(?:%s))(<.*>)$' % '|'.join(re.escape(o) for o in OPS), last)
            if m and bal(m.group(2)[1:-1]): last = m.group(1); f.targs = split_top(m.group(2)[1:-1])
    f.meth = last
    f.path = comps[:-1]
    f.clsargs = []
    cls = '::'.join(f.path)
    if f.path and '<' in f.path[-1]:
        lp = f.path[-1]
        f.clsargs = split_top(lp[lp.index('<')+1:lp.rindex('>')])
        cls = '::'.join(f.path[:-1] + [lp[:lp.index('<')]])
    f.cls = cls
    return f
