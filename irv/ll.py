"""Parser for textual LLVM 18 IR (opaque pointers), as printed by `opt -S`.

Only the parts of the language that clang emits for C++ are understood; an
instruction that is not recognised becomes Instr(op='unknown') and makes the
functions that execute it undecided (never accepted, never refuted)."""
import re, subprocess

# ----------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'a', 'n')
    def __init__(self, k, a=None, n=None):
        self.k, self.a, self.n = k, a, n
    def __repr__(self):
        if self.k == 'int': return 'i%d' % self.n
        if self.k == 'named': return '%' + self.n
        if self.k == 'arr': return '[%d x %r]' % (self.n, self.a)
        if self.k == 'vec': return '<%d x %r>' % (self.n, self.a)
        if self.k == 'struct': return '{%s}' % ','.join(map(repr, self.a))
        return self.k

TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<gid>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<lid>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>![-a-zA-Z$._0-9]*)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[0-9A-Fa-fKLMHR]+|-?\d+)
 | (?P<word>[a-zA-Z_$.][-a-zA-Z0-9_$.]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[\[\](){}<>,=*:|])
)''', re.X)

def tokenize(s):
    out = []
    i, n = 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '': break
            raise ValueError('tokenize: %r' % s[i:i+60])
        k = m.lastgroup
        out.append((k, m.group(k)))
        i = m.end()
    return out

def unq(name):
    n = name[1:]
    if n.startswith('"'): n = n[1:-1]
    return n

PARAM_ATTRS = {'noundef','nonnull','zeroext','signext','inreg','noalias','nocapture','readonly','writeonly',
  'returned','immarg','dead_on_unwind','writable','noreturn','nofree','nest','swiftself','inalloca','allocalign','readnone','allocptr'}
CALL_PRE = {'fastcc','ccc','tail','musttail','notail','fast','nnan','ninf','nsz','contract','afn','reassoc','arcp'}

class P:
    """token cursor"""
    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod
    def peek(self, o=0):
        return self.t[self.i+o] if self.i+o < len(self.t) else (None, None)
    def next(self):
        x = self.t[self.i]; self.i += 1; return x
    def accept(self, v):
        if self.peek()[1] == v:
            self.i += 1; return True
        return False
    def expect(self, v):
        if not self.accept(v): raise ValueError('expected %s got %r in %r' % (v, self.peek(), self.t))
    def type(self):
        k, v = self.next()
        if k == 'word':
            if v == 'ptr':
                t = Ty('ptr')
                if self.peek()[1] == 'addrspace': self.i += 4
            elif v == 'void': t = Ty('void')
            elif v == 'float': t = Ty('float')
            elif v == 'double': t = Ty('double')
            elif v == 'x86_fp80': t = Ty('x86_fp80')
            elif v in ('label', 'metadata', 'token'): t = Ty(v)
            elif re.match(r'i\d+$', v): t = Ty('int', n=int(v[1:]))
            else: raise ValueError('type? ' + v)
        elif k == 'lid': t = Ty('named', n=unq(v))
        elif v == '[':
            n = int(self.next()[1]); self.expect('x'); e = self.type(); self.expect(']')
            t = Ty('arr', e, n)
        elif v == '{':
            el = []
            while not self.accept('}'):
                el.append(self.type()); self.accept(',')
            t = Ty('struct', el)
        elif v == '<':
            if self.peek()[1] == '{':
                t = self.type(); self.expect('>'); t = Ty('struct', t.a, 'packed')
            else:
                n = int(self.next()[1]); self.expect('x'); e = self.type(); self.expect('>')
                t = Ty('vec', e, n)
        else: raise ValueError('type? %r' % v)
        while self.peek()[1] == '(':   # function type
            self.next()
            ps = []
            while not self.accept(')'):
                if self.accept('...'): continue
                ps.append(self.type()); self.accept(',')
            t = Ty('func', (t, ps))
        return t
    def skip_attrs(self):
        while True:
            k, v = self.peek()
            if k == 'word' and v in PARAM_ATTRS: self.i += 1
            elif k == 'word' and v in ('align',):
                self.i += 1
                if self.peek()[1] == '(': self._paren()
                else: self.i += 1
            elif k == 'word' and v in ('dereferenceable', 'dereferenceable_or_null', 'byval', 'elementtype', 'range','allocsize','memory','captures','initializes'):
                self.i += 1; self._paren()
            elif k == 'word' and v == 'sret':
                self.i += 1; self._paren()
            else: return
    def _paren(self):
        self.expect('('); d = 1
        while d:
            v = self.next()[1]
            if v == '(': d += 1
            elif v == ')': d -= 1
    def value(self, ty):
        """operand of known type -> tuple"""
        k, v = self.next()
        if k == 'lid': return ('reg', unq(v))
        if k == 'gid': return ('glob', unq(v))
        if k == 'num':
            if ty.k in ('float', 'double'): return ('fp', v)
            if v.startswith('0x'): return ('fp', v)
            return ('int', int(v))
        if k == 'word':
            if v == 'true': return ('int', 1)
            if v == 'false': return ('int', 0)
            if v == 'null': return ('null',)
            if v in ('undef', 'poison'): return ('undef',)
            if v == 'zeroinitializer': return ('zero',)
            if v == 'getelementptr':
                self.accept('inbounds'); self.accept('nuw')
                if self.peek()[1] == 'inrange':
                    self.next(); self._paren()
                self.expect('(')
                sty = self.type(); self.expect(',')
                ops = []
                while not self.accept(')'):
                    self.accept('inrange')
                    t = self.type(); ops.append((t, self.value(t))); self.accept(',')
                return ('cgep', sty, ops)
            if v in ('ptrtoint','inttoptr','bitcast','trunc','zext','sext'):
                self.expect('('); t = self.type(); x = self.value(t); self.expect('to'); t2 = self.type(); self.expect(')')
                return ('ccast', v, t, x, t2)
            if v in ('sub','add'):
                self.accept('nuw'); self.accept('nsw')
                self.expect('('); t=self.type(); x=self.value(t); self.expect(','); t2=self.type(); y=self.value(t2); self.expect(')')
                return ('cbin', v, t, x, y)
        if k == 'str':
            return ('cstr', v)
        if v in ('[', '{', '<'):
            close = {'[': ']', '{': '}', '<': '>'}[v]
            if v == '<' and self.peek()[1] == '{':
                r = self.value(ty); self.expect('>'); return r
            el = []
            while not self.accept(close):
                t = self.type(); el.append((t, self.value(t))); self.accept(',')
            return ('agg', el)
        raise ValueError('value? %r in %r' % ((k, v), self.t))
    def tv(self):
        t = self.type(); self.skip_attrs()
        return t, self.value(t)

class Instr:
    __slots__ = ('op', 'res', 'd', 'text')
    def __init__(self, op, res, d, text): self.op, self.res, self.d, self.text = op, res, d, text
    def __repr__(self): return self.text.strip()

class Func:
    def __init__(self, name): self.name = name; self.args = []; self.blocks = {}; self.order = []; self.defined = False; self.varargs = False
    def parse(self, mod):
        if self.order or not self.defined: return
        cur = None
        first = True
        lines = self.lines
        i = 0
        while i < len(lines):
            ln = lines[i]; i += 1
            s = ln.strip()
            if not s or s.startswith(';'): continue
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
            if m:
                cur = m.group(1).strip('"'); self.blocks[cur] = []; self.order.append(cur); first = False; continue
            if first:
                cur = str(self.entry_no); self.blocks[cur] = []; self.order.append(cur); first = False
            # multi-line: switch [ ... ], invoke to label, landingpad clauses
            if re.match(r'^\s+switch ', ln) and ']' not in ln:
                while True:
                    s += ' ' + lines[i].strip(); i += 1
                    if lines[i-1].strip().startswith(']'): break
            elif re.search(r'\binvoke\b', ln.split('(')[0]):
                s += ' ' + lines[i].strip(); i += 1
            elif re.search(r'= landingpad', ln):
                while i < len(lines) and re.match(r'^\s+(cleanup|catch|filter)\b', lines[i]):
                    s += ' ' + lines[i].strip(); i += 1
            self.blocks[cur].append(parse_instr(s, mod))
        self._cfg()
    def _cfg(self):
        self.succ = {}
        for b in self.order:
            t = self.blocks[b][-1]
            s = []
            if t.op == 'br': s = t.d['targets']
            elif t.op == 'switch': s = [t.d['default']] + [c[1] for c in t.d['cases']]
            elif t.op == 'invoke': s = [t.d['normal'], t.d['unwind']]
            self.succ[b] = list(dict.fromkeys(s))
        pred = {b: [] for b in self.order}
        for b, ss in self.succ.items():
            for x in ss: pred[x].append(b)
        self.pred = pred
        # dominators (iterative sets; functions are small)
        entry = self.order[0]
        reach = set(); st = [entry]
        while st:
            b = st.pop()
            if b in reach: continue
            reach.add(b); st.extend(self.succ[b])
        allb = set(reach)
        dom = {b: set(allb) for b in reach}; dom[entry] = {entry}
        ch = True
        rpo = [b for b in self.order if b in reach]
        while ch:
            ch = False
            for b in rpo:
                if b == entry: continue
                ps = [dom[p] for p in pred[b] if p in reach]
                n = set.intersection(*ps) | {b} if ps else {b}
                if n != dom[b]: dom[b] = n; ch = True
        self.loops = {}
        for b in reach:
            for s in self.succ[b]:
                if s in dom[b]:
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x); st.extend(p for p in pred[x] if p in reach)

def parse_instr(s, mod):
    text = s
    s = re.sub(r'(, ![a-zA-Z.]+ ![0-9]+)+\s*$', '', s)
    try:
        toks = tokenize(s)
        p = P(toks, mod)
        res = None
        if p.peek()[0] == 'lid' and p.peek(1)[1] == '=':
            res = unq(p.next()[1]); p.next()
        k, op = p.next()
        while op in CALL_PRE: k, op = p.next()
        d = {}
        if op in ('call', 'invoke'):
            while p.peek()[1] in CALL_PRE: p.next()
            p.skip_attrs()
            rt = p.type()
            if rt.k == 'func': d['fty'] = rt; rt = rt.a[0]
            d['ret'] = rt
            k2, v2 = p.next()
            if k2 == 'gid': d['callee'] = ('glob', unq(v2))
            elif k2 == 'lid': d['callee'] = ('reg', unq(v2))
            elif v2 == 'asm': d['callee'] = ('asm',); return Instr('call', res, dict(d, args=[]), text)
            else: raise ValueError('callee ' + v2)
            p.expect('(')
            args = []; sret = None
            while not p.accept(')'):
                if p.peek()[1] == 'metadata':
                    return Instr('nop', res, {}, text)
                t = p.type()
                # remember sret type
                j = p.i
                byval = None
                while p.t[j][0] == 'word' and p.t[j][1] in PARAM_ATTRS | {'align', 'dereferenceable', 'sret', 'byval','dereferenceable_or_null'}:
                    if p.t[j][1] == 'sret': sret = len(args)
                    if p.t[j][1] == 'byval': byval = True
                    j += 1
                    if j < len(p.t) and p.t[j][1] == '(':
                        dd = 1; j += 1
                        while dd:
                            if p.t[j][1] == '(': dd += 1
                            elif p.t[j][1] == ')': dd -= 1
                            j += 1
                    elif j < len(p.t) and p.t[j][0] == 'num' and p.t[j-1][1] == 'align': j += 1
                p.skip_attrs()
                args.append((t, p.value(t))); p.accept(',')
            d['args'] = args; d['sret'] = sret
            if op == 'invoke':
                while p.peek()[1] != 'to': p.next()
                p.next(); p.expect('label'); d['normal'] = unq(p.next()[1])
                p.expect('unwind'); p.expect('label'); d['unwind'] = unq(p.next()[1])
            return Instr(op, res, d, text)
        if op == 'br':
            if p.peek()[1] == 'label':
                p.next(); d['targets'] = [unq(p.next()[1])]
            else:
                t, c = p.tv(); p.expect(','); p.expect('label'); a = unq(p.next()[1]); p.expect(','); p.expect('label'); b = unq(p.next()[1])
                d['cond'] = c; d['targets'] = [a, b]
            return Instr('br', None, d, text)
        if op == 'switch':
            t, v = p.tv(); d['ty'] = t; d['v'] = v; p.expect(','); p.expect('label'); d['default'] = unq(p.next()[1]); p.expect('[')
            cs = []
            while not p.accept(']'):
                tt, vv = p.tv(); p.expect(','); p.expect('label'); cs.append((vv[1], unq(p.next()[1])))
            d['cases'] = cs
            return Instr('switch', None, d, text)
        if op == 'ret':
            t = p.type(); d['ty'] = t
            d['v'] = None if t.k == 'void' else p.value(t)
            return Instr('ret', None, d, text)
        if op in ('unreachable',): return Instr(op, None, d, text)
        if op == 'resume':
            t, v = p.tv(); d['v'] = v; return Instr('resume', None, d, text)
        if op == 'landingpad':
            t = p.type(); d['ty'] = t; d['cleanup'] = False; d['catch'] = []
            while p.peek()[1] is not None:
                w = p.next()[1]
                if w == 'cleanup': d['cleanup'] = True
                elif w == 'catch':
                    tt, v = p.tv(); d['catch'].append(v)
                elif w == 'filter':
                    tt, v = p.tv(); d['filter'] = v
            return Instr('landingpad', res, d, text)
        if op == 'phi':
            t = p.type(); inc = []
            while p.accept('['):
                v = p.value(t); p.expect(','); b = unq(p.next()[1]); p.expect(']'); inc.append((v, b)); p.accept(',')
            d['ty'] = t; d['inc'] = inc
            return Instr('phi', res, d, text)
        if op == 'alloca':
            d['ty'] = p.type(); d['n'] = None
            if p.accept(',') and p.peek()[1] != 'align':
                d['n'] = p.tv()
            return Instr('alloca', res, d, text)
        if op == 'load':
            p.accept('volatile'); d['ty'] = p.type(); p.expect(','); d['p'] = p.tv()[1]
            return Instr('load', res, d, text)
        if op == 'store':
            p.accept('volatile'); t, v = p.tv(); p.expect(','); d['ty'] = t; d['v'] = v; d['p'] = p.tv()[1]
            return Instr('store', None, d, text)
        if op == 'getelementptr':
            p.accept('inbounds'); p.accept('nuw'); p.accept('nusw')
            d['ty'] = p.type(); p.expect(','); d['p'] = p.tv()[1]; idx = []
            while p.accept(','): idx.append(p.tv())
            d['idx'] = idx
            return Instr('gep', res, d, text)
        if op in ('icmp', 'fcmp'):
            while p.peek()[1] in CALL_PRE: p.next()
            d['pred'] = p.next()[1]; t, a = p.tv(); p.expect(','); b = p.value(t); d['ty'] = t; d['a'] = a; d['b'] = b
            return Instr(op, res, d, text)
        if op == 'select':
            d['c'] = p.tv()[1]; p.expect(','); t, a = p.tv(); p.expect(','); _, b = p.tv(); d['ty'] = t; d['a'] = a; d['b'] = b
            return Instr('select', res, d, text)
        if op in ('add','sub','mul','udiv','sdiv','urem','srem','and','or','xor','shl','lshr','ashr','fadd','fsub','fmul','fdiv','frem'):
            fl = []
            while p.peek()[1] in ('nsw','nuw','exact','disjoint') or p.peek()[1] in CALL_PRE: fl.append(p.next()[1])
            t, a = p.tv(); p.expect(','); b = p.value(t); d = dict(ty=t, a=a, b=b, fl=fl)
            return Instr('bin', res, dict(d, o=op), text)
        if op == 'fneg':
            t, a = p.tv(); return Instr('fneg', res, dict(ty=t, a=a), text)
        if op in ('zext','sext','trunc','ptrtoint','inttoptr','bitcast','fptrunc','fpext','sitofp','uitofp','fptosi','fptoui','addrspacecast'):
            while p.peek()[1] in ('nneg','nuw','nsw'): p.next()
            t, a = p.tv(); p.expect('to'); t2 = p.type()
            return Instr('cast', res, dict(o=op, ty=t, a=a, to=t2), text)
        if op == 'freeze':
            t, a = p.tv(); return Instr('freeze', res, dict(ty=t, a=a), text)
        if op == 'extractvalue':
            t, a = p.tv(); idx = []
            while p.accept(','): idx.append(int(p.next()[1]))
            return Instr('extractvalue', res, dict(a=a, idx=idx), text)
        if op == 'insertvalue':
            t, a = p.tv(); p.expect(','); t2, b = p.tv(); idx = []
            while p.accept(','): idx.append(int(p.next()[1]))
            return Instr('insertvalue', res, dict(ty=t, a=a, b=b, idx=idx), text)
        return Instr('unknown', res, {}, text)
    except (ValueError, IndexError, TypeError) as e:
        return Instr('unknown', None, {'err': str(e)}, text)

class Module:
    def __init__(self):
        self.types = {}; self.funcs = {}; self.globals = {}; self.alias = {}; self.dem = {}
    # sizes ---------------------------------------------------------------
    def size_align(self, t):
        k = t.k
        if k == 'int':
            b = max(1, (t.n + 7) // 8)
            s = 1
            while s < b: s *= 2
            return s, min(s, 16)
        if k == 'ptr': return 8, 8
        if k == 'float': return 4, 4
        if k == 'double': return 8, 8
        if k == 'x86_fp80': return 16, 16
        if k == 'arr':
            s, a = self.size_align(t.a); return s * t.n, a
        if k == 'vec':
            s, a = self.size_align(t.a); return s * t.n, s * t.n
        if k == 'struct':
            offs, s, a = self.struct_layout(t); return s, a
        if k == 'named':
            return self.size_align(self.types[t.n])
        if k == 'void': return 0, 1
        raise ValueError('size of %r' % t)
    def size(self, t): return self.size_align(t)[0]
    def struct_layout(self, t):
        if t.k == 'named': return self.struct_layout(self.types[t.n])
        off = 0; al = 1; offs = []
        for e in t.a:
            s, a = self.size_align(e)
            if t.n == 'packed': a = 1
            off = (off + a - 1) // a * a
            offs.append(off); off += s; al = max(al, a)
        off = (off + al - 1) // al * al
        return offs, off, al

def parse_module(text):
    m = Module()
    lines = text.split('\n')
    i = 0
    glines = []
    while i < len(lines):
        ln = lines[i]
        if ln.startswith('%') and ' = type ' in ln:
            nm, rest = ln.split(' = type ', 1)
            if rest.strip() == 'opaque': m.types[unq(nm)] = Ty('struct', [])
            else: m.types[unq(nm)] = P(tokenize(rest), m).type()
        elif ln.startswith('@'):
            glines.append(ln)
        elif ln.startswith('define') or ln.startswith('declare'):
            mm = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
            name = mm.group(1).strip('"')
            f = Func(name)
            m.funcs[name] = f
            # args
            toks = tokenize(re.sub(r'\s+#\d+.*$|\s*\{$', '', ln[mm.end()-1:]) if False else ln[mm.end()-1:])
            p = P(toks, m); p.expect('(')
            n = 0
            while not p.accept(')'):
                if p.accept('...'): f.varargs = True; continue
                t = p.type()
                sret = any(x[1] == 'sret' for x in [p.peek()] ) or False
                j = p.i; is_sret = False
                while j < len(p.t) and p.t[j][0] == 'word':
                    if p.t[j][1] == 'sret': is_sret = True
                    j += 1
                    if j < len(p.t) and p.t[j][1] == '(':
                        dd = 1; j += 1
                        while dd:
                            if p.t[j][1] == '(': dd += 1
                            elif p.t[j][1] == ')': dd -= 1
                            j += 1
                    elif j < len(p.t) and p.t[j][0] == 'num': j += 1
                p.skip_attrs()
                nm = None
                if p.peek()[0] == 'lid': nm = unq(p.next()[1])
                f.args.append((t, nm, is_sret)); p.accept(',')
            # return type
            head = ln[:mm.start()]
            f.head = head
            f.comdat = 'linkonce_odr' in head or 'weak_odr' in head
            if ln.startswith('define'):
                f.defined = True
                f.entry_no = len(f.args)
                body = []
                i += 1
                while lines[i] != '}':
                    body.append(lines[i]); i += 1
                f.lines = body
        i += 1
    for ln in glines:
        mm = re.match(r'^@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', ln)
        nm = mm.group(1).strip('"'); rest = mm.group(2)
        if ' alias ' in ' ' + rest:
            t = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\s*$', rest)
            if t: m.alias[nm] = t.group(1).strip('"')
            continue
        m2 = re.search(r'\b(global|constant)\s+(.*)$', rest)
        if not m2: continue
        g = dict(const=m2.group(1) == 'constant', external='external' in rest.split(m2.group(1))[0], init=None, ty=None, text=rest)
        try:
            p = P(tokenize(re.sub(r', (align|comdat|section).*$', '', m2.group(2))), m)
            g['ty'] = p.type()
            if p.peek()[1] is not None: g['init'] = p.value(g['ty'])
        except Exception as e:
            g['err'] = str(e)
        m.globals[nm] = g
    return m

def demangle_all(names):
    if not names: return {}
    names = list(names)
    r = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(names) + '\n', capture_output=True, text=True)
    out = r.stdout.split('\n')
    return dict(zip(names, out))

def load(path):
    m = parse_module(open(path).read())
    m.dem = demangle_all(list(m.funcs) + list(m.globals) + list(m.alias))
    m.bydem = {}
    for n in list(m.alias) + list(m.funcs):
        m.bydem.setdefault(m.dem[n], n)
    return m
