"""Parser for textual LLVM IR (LLVM 18, opaque pointers) -- the subset clang emits for C++."""
import re

TOK = re.compile(r'''
 (?P<cstr>c"(?:[^"\\]|\\.)*")
|(?P<str>"(?:[^"\\]|\\.)*")
|(?P<local>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
|(?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
|(?P<meta>![-a-zA-Z$._0-9]*)
|(?P<attr>\#\d+)
|(?P<num>-?\d+\.\d*(?:[eE][-+]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)
|(?P<dots>\.\.\.)
|(?P<word>[a-zA-Z_$][-a-zA-Z0-9_$.]*)
|(?P<p>[()\[\]{}<>,=*|:])
|(?P<ws>\s+|;[^\n]*)
''', re.X)

def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            raise SyntaxError('tok: %r' % s[pos:pos+60])
        k = m.lastgroup
        if k != 'ws':
            out.append((k, m.group()))
        pos = m.end()
    return out

PARAM_ATTRS = {'noundef','nonnull','signext','zeroext','inreg','noalias','nocapture','readonly','readnone','writeonly','returned','nest','swiftself','immarg','noreturn','nofree','allocptr','allocalign','inalloca','dead_on_unwind','writable','swifterror'}
FMF = {'fast','nnan','ninf','nsz','arcp','contract','afn','reassoc'}

class P:
    def __init__(self, toks):
        self.t = toks; self.i = 0
    def peek(self, k=0):
        return self.t[self.i+k] if self.i+k < len(self.t) else ('eof','')
    def next(self):
        x = self.t[self.i]; self.i += 1; return x
    def acc(self, s):
        if self.peek()[1] == s and self.peek()[0] in ('p','word','dots'):
            self.i += 1; return True
        return False
    def exp(self, s):
        x = self.next()
        if x[1] != s: raise SyntaxError('expected %s got %s near %s' % (s, x, ' '.join(y[1] for y in self.t[max(0,self.i-12):self.i+8])))
    # ---- types
    def type(self):
        k, v = self.next()
        if k == 'word':
            if re.match(r'i\d+$', v): t = ('i', int(v[1:]))
            elif v == 'double': t = ('f', 8)
            elif v == 'float': t = ('f', 4)
            elif v == 'x86_fp80': t = ('f', 16)
            elif v == 'fp128': t = ('f', 16)
            elif v == 'half': t = ('f', 2)
            elif v == 'ptr': t = ('p',)
            elif v == 'void': t = ('v',)
            elif v in ('label','metadata','token'): t = (v,)
            else: raise SyntaxError('type word '+v)
        elif k == 'local': t = ('named', v)
        elif v == '[':
            n = int(self.next()[1]); self.exp('x'); e = self.type(); self.exp(']'); t = ('arr', n, e)
        elif v == '<':
            if self.peek()[1] == '{':
                self.next(); els = []
                while not self.acc('}'):
                    els.append(self.type()); self.acc(',')
                self.exp('>'); t = ('st', tuple(els), True)
            else:
                n = int(self.next()[1]); self.exp('x'); e = self.type(); self.exp('>'); t = ('vec', n, e)
        elif v == '{':
            els = []
            while not self.acc('}'):
                els.append(self.type()); self.acc(',')
            t = ('st', tuple(els), False)
        else: raise SyntaxError('type '+v)
        # function type
        while self.peek()[1] == '(' and self.peek()[0] == 'p' :
            # function type  T (args)
            save = self.i
            self.next()
            ok = True; args = []; va = False
            try:
                while not self.acc(')'):
                    if self.acc('...'): va = True
                    else: args.append(self.type())
                    self.acc(',')
            except SyntaxError:
                ok = False
            if not ok:
                self.i = save; break
            t = ('fn', t, tuple(args), va)
        return t
    def param_attrs(self):
        while True:
            k, v = self.peek()
            if k == 'word' and v in PARAM_ATTRS: self.next()
            elif k == 'word' and v in ('align',):
                self.next()
                if self.acc('('): self.next(); self.exp(')')
                else: self.next()
            elif k == 'word' and v in ('dereferenceable','dereferenceable_or_null','byval','sret','byref','preallocated','elementtype','captures','memory','allocsize','range','nofpclass'):
                self.next()
                if self.acc('('):
                    d = 1
                    while d:
                        x = self.next()[1]
                        if x == '(': d += 1
                        elif x == ')': d -= 1
            elif k == 'str':
                self.next()
                if self.acc('='): self.next()
            else: return
    # ---- constants / operands
    def value(self, ty):
        k, v = self.next()
        if k == 'local': return ('r', v)
        if k == 'glob': return ('g', v)
        if k == 'num':
            if ty[0] == 'f': return ('fc', v)
            return ('ic', int(v, 0))
        if k == 'cstr':
            return ('cstr', v)
        if k == 'word':
            if v == 'true': return ('bc', True)
            if v == 'false': return ('bc', False)
            if v == 'null': return ('null',)
            if v in ('undef','poison'): return ('undef', ty)
            if v == 'zeroinitializer': return ('zero', ty)
            if v == 'none': return ('none',)
            if v == 'getelementptr':
                self.acc('inbounds')
                self.exp('('); bt = self.type(); self.exp(',')
                ops = []
                while True:
                    self.acc('inrange')
                    t = self.type(); ops.append((t, self.value(t)))
                    if not self.acc(','): break
                self.exp(')')
                return ('cgep', bt, ops)
            if v in ('ptrtoint','inttoptr','bitcast','trunc','zext','sext','addrspacecast'):
                self.exp('('); t = self.type(); x = self.value(t); self.exp('to'); t2 = self.type(); self.exp(')')
                return ('ccast', v, t, x, t2)
            if v in ('sub','add','mul','xor','or','and','shl'):
                while self.peek()[1] in ('nsw','nuw'): self.next()
                self.exp('('); t = self.type(); a = self.value(t); self.exp(','); t2 = self.type(); b = self.value(t2); self.exp(')')
                return ('cbin', v, t, a, b)
            if v == 'icmp':
                pr = self.next()[1]; self.exp('('); t = self.type(); a = self.value(t); self.exp(','); t2 = self.type(); b = self.value(t2); self.exp(')')
                return ('cicmp', pr, t, a, b)
            if v in ('dso_local_equivalent','no_cfi'):
                return self.value(ty)
            if v == 'asm':
                while self.peek()[0] == 'word': self.next()
                a = self.next(); self.acc(','); self.next(); return ('asm', a[1])
            raise SyntaxError('value word '+v)
        if v in ('{','[','<'):
            close = {'{':'}','[':']','<':'>'}[v]
            packed = False
            if v == '<' and self.peek()[1] == '{':
                self.next(); packed = True; close = '}'
            els = []
            while not self.acc(close):
                t = self.type(); els.append((t, self.value(t))); self.acc(',')
            if packed: self.exp('>')
            return ('agg', els)
        if k == 'meta':
            return ('meta', v)
        raise SyntaxError('value %s %s' % (k, v))
    def tv(self):
        t = self.type()
        self.param_attrs()
        if t == ('metadata',):
            # skip metadata operand
            d = 0
            while True:
                k, v = self.peek()
                if v in ('(','{'): d += 1
                if v in (')','}'):
                    if d == 0: break
                    d -= 1
                if v == ',' and d == 0: break
                self.next()
            return (t, ('meta','!'))
        return (t, self.value(t))

class Instr:
    __slots__ = ('op','res','a','line','koff')
    def __init__(self, op, res, a, line):
        self.op = op; self.res = res; self.a = a; self.line = line; self.koff = None
    def __repr__(self): return '%s=%s %s' % (self.res, self.op, self.a)

class Block:
    __slots__ = ('name','instrs','phis','succs','idx')
    def __init__(self, name): self.name = name; self.instrs = []; self.phis = []; self.succs = []

class Func:
    def __init__(self, name, ret, params, lines, vararg):
        self.name = name; self.ret = ret; self.params = params; self.lines = lines; self.vararg = vararg
        self._blocks = None
        self.loops = None
    @property
    def blocks(self):
        if self._blocks is None: self.parse_body()
        return self._blocks
    def parse_body(self):
        self._blocks = {}
        self.order = []
        cur = None
        buf = ''
        n0 = sum(1 for p in self.params)
        lines = self.lines
        i = 0
        while i < len(lines):
            ln = lines[i]; i += 1
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
            if m:
                nm = '%' + m.group(1)
                cur = Block(nm); self._blocks[nm] = cur; self.order.append(cur)
                continue
            s = ln.strip()
            if not s or s.startswith(';'): continue
            if cur is None:
                nm = '%entry!'  # unnamed entry
                cur = Block(nm); self._blocks[nm] = cur; self.order.append(cur)
            # multi-line: switch [ ... ], invoke to label, landingpad clauses
            if re.search(r'(^|= )switch ', s) and '[' in s and ']' not in s:
                while ']' not in lines[i]:
                    s += ' ' + lines[i].strip(); i += 1
                s += ' ' + lines[i].strip(); i += 1
            elif re.search(r'(^|= )invoke ', s):
                while ' unwind label ' not in s:
                    s += ' ' + lines[i].strip(); i += 1
            elif re.search(r'= landingpad', s):
                while i < len(lines) and re.match(r'\s+(cleanup|catch|filter)\b', lines[i]):
                    s += ' ' + lines[i].strip(); i += 1
            ins = parse_instr(s)
            if ins is None: continue
            if ins.op == 'phi': cur.phis.append(ins)
            else: cur.instrs.append(ins)
        for k, b in enumerate(self.order):
            b.idx = k
            t = b.instrs[-1]
            b.succs = term_succs(t)
    @property
    def entry(self):
        self.blocks
        return self.order[0]

def term_succs(t):
    if t.op == 'br': return [t.a[0]] if len(t.a) == 1 else [t.a[1], t.a[2]]
    if t.op == 'switch': return [t.a[1]] + [l for _, l in t.a[2]]
    if t.op == 'invoke': return [t.a['norm'], t.a['unw']]
    return []

BIN = {'add','sub','mul','sdiv','udiv','srem','urem','and','or','xor','shl','lshr','ashr','fadd','fsub','fmul','fdiv','frem'}
CAST = {'sext','zext','trunc','bitcast','ptrtoint','inttoptr','sitofp','uitofp','fptosi','fptoui','fpext','fptrunc','addrspacecast'}

def parse_instr(s):
    line = s
    # strip metadata attachments
    s = re.sub(r'(, ![a-zA-Z_.]+ !\d+)+$', '', s)
    s = re.sub(r', ![a-zA-Z_.]+ !DI\w+\(.*\)$', '', s)
    if '@llvm.dbg' in s or '@llvm.lifetime' in s or '@llvm.experimental.noalias' in s: 
        return None
    p = P(tokenize(s))
    res = None
    if p.peek()[0] == 'local' and p.peek(1)[1] == '=':
        res = p.next()[1]; p.next()
    k, op = p.next()
    if op in ('tail','musttail','notail'):
        k, op = p.next()
    if op in BIN:
        fl = set()
        while p.peek()[1] in ('nsw','nuw','exact','disjoint') or p.peek()[1] in FMF: fl.add(p.next()[1])
        t = p.type(); a = p.value(t); p.exp(','); b = p.value(t)
        return Instr('bin', res, (op, t, a, b, fl), line)
    if op == 'fneg':
        while p.peek()[1] in FMF: p.next()
        t = p.type(); return Instr('fneg', res, (t, p.value(t)), line)
    if op == 'freeze':
        t = p.type(); return Instr('freeze', res, (t, p.value(t)), line)
    if op in CAST:
        while p.peek()[1] in ('nneg','nuw','nsw'): p.next()
        t = p.type(); a = p.value(t); p.exp('to'); t2 = p.type()
        return Instr('cast', res, (op, t, a, t2), line)
    if op == 'icmp':
        pr = p.next()[1]; t = p.type(); a = p.value(t); p.exp(','); b = p.value(t)
        return Instr('icmp', res, (pr, t, a, b), line)
    if op == 'fcmp':
        while p.peek()[1] in FMF: p.next()
        pr = p.next()[1]; t = p.type(); a = p.value(t); p.exp(','); b = p.value(t)
        return Instr('fcmp', res, (pr, t, a, b), line)
    if op == 'alloca':
        p.acc('inalloca'); t = p.type(); n = None
        if p.acc(','):
            if p.peek()[1] != 'align':
                nt = p.type(); n = (nt, p.value(nt))
        return Instr('alloca', res, (t, n), line)
    if op == 'load':
        p.acc('atomic'); p.acc('volatile')
        t = p.type(); p.exp(','); pt = p.type(); return Instr('load', res, (t, p.value(pt)), line)
    if op == 'store':
        p.acc('atomic'); p.acc('volatile')
        t, v = p.tv(); p.exp(','); pt = p.type(); return Instr('store', None, (t, v, p.value(pt)), line)
    if op == 'getelementptr':
        while p.peek()[1] in ('inbounds','nuw','nusw'): p.next()
        bt = p.type(); p.exp(',')
        ops = []
        while True:
            t = p.type(); ops.append((t, p.value(t)))
            if not p.acc(','): break
            if p.peek()[0] == 'meta': break
        return Instr('gep', res, (bt, ops), line)
    if op == 'select':
        while p.peek()[1] in FMF: p.next()
        ct, c = p.tv(); p.exp(','); t, a = p.tv(); p.exp(','); t2, b = p.tv()
        return Instr('select', res, (c, t, a, b), line)
    if op == 'phi':
        while p.peek()[1] in FMF: p.next()
        t = p.type(); inc = {}
        while True:
            p.exp('['); v = p.value(t); p.exp(','); l = p.next()[1]; p.exp(']'); inc[l] = v
            if not p.acc(','): break
        return Instr('phi', res, (t, inc), line)
    if op == 'br':
        if p.peek()[1] == 'label':
            p.next(); return Instr('br', None, (p.next()[1],), line)
        t = p.type(); c = p.value(t); p.exp(','); p.exp('label'); a = p.next()[1]; p.exp(','); p.exp('label'); b = p.next()[1]
        return Instr('br', None, (c, a, b), line)
    if op == 'switch':
        t = p.type(); v = p.value(t); p.exp(','); p.exp('label'); d = p.next()[1]; p.exp('[')
        cs = []
        while not p.acc(']'):
            ct = p.type(); cv = p.value(ct); p.exp(','); p.exp('label'); cs.append((cv, p.next()[1]))
        return Instr('switch', None, ((t, v), d, cs), line)
    if op == 'ret':
        t = p.type()
        if t == ('v',): return Instr('ret', None, (t, None), line)
        return Instr('ret', None, (t, p.value(t)), line)
    if op == 'unreachable': return Instr('unreachable', None, (), line)
    if op in ('call','invoke'):
        while p.peek()[1] in FMF or p.peek()[1] in ('fastcc','ccc','coldcc'): p.next()
        p.param_attrs()
        t = p.type()
        if t[0] == 'fn': t = t[1]
        f = p.value(('p',))
        p.exp('('); args = []
        while not p.acc(')'):
            args.append(p.tv()); p.acc(',')
        d = {'ret': t, 'fn': f, 'args': args}
        if op == 'invoke':
            while p.peek()[1] != 'to': p.next()
            p.exp('to'); p.exp('label'); d['norm'] = p.next()[1]
            p.exp('unwind'); p.exp('label'); d['unw'] = p.next()[1]
        return Instr(op, res, d, line)
    if op == 'landingpad':
        t = p.type(); cl = []; cleanup = False
        while p.i < len(p.t):
            if p.acc('cleanup'): cleanup = True
            elif p.acc('catch'):
                ct = p.type(); cl.append(('catch', p.value(ct)))
            elif p.acc('filter'):
                ct = p.type(); cl.append(('filter', p.value(ct)))
            else: break
        return Instr('landingpad', res, (t, cleanup, cl), line)
    if op == 'resume':
        t = p.type(); return Instr('resume', None, (t, p.value(t)), line)
    if op == 'extractvalue':
        t = p.type(); v = p.value(t); idx = []
        while p.acc(','): idx.append(int(p.next()[1]))
        return Instr('extractvalue', res, (t, v, idx), line)
    if op == 'insertvalue':
        t = p.type(); v = p.value(t); p.exp(','); t2 = p.type(); v2 = p.value(t2); idx = []
        while p.acc(','): idx.append(int(p.next()[1]))
        return Instr('insertvalue', res, (t, v, t2, v2, idx), line)
    if op == 'atomicrmw':
        p.acc('volatile'); bop = p.next()[1]; pt = p.type(); a = p.value(pt); p.exp(','); t = p.type(); v = p.value(t)
        return Instr('atomicrmw', res, (bop, a, t, v), line)
    if op == 'cmpxchg':
        p.acc('weak'); p.acc('volatile'); pt = p.type(); a = p.value(pt); p.exp(','); t = p.type(); c = p.value(t); p.exp(','); t2 = p.type(); n = p.value(t2)
        return Instr('cmpxchg', res, (a, t, c, n), line)
    if op == 'fence': return None
    if op == 'va_arg': return Instr('unsupported', res, ('va_arg',), line)
    if op in ('extractelement',):
        t = p.type(); v = p.value(t); p.exp(','); it = p.type(); i = p.value(it)
        return Instr('extractelement', res, (t, v, i), line)
    if op in ('insertelement',):
        t = p.type(); v = p.value(t); p.exp(','); et = p.type(); e = p.value(et); p.exp(','); it = p.type(); i = p.value(it)
        return Instr('insertelement', res, (t, v, e, i), line)
    return Instr('unsupported', res, (op,), line)

class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}   # name -> (type, init or None, const)
        self.funcs = {}
        self.decls = {}
        self.aliases = {}
        m = re.search(r'^@llvm\.global_ctors = .*', text, re.M)
        self.ctors = re.findall(r'ptr (@[-\w$.]+), ptr', m.group(0)) if m else []
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]; i += 1
            if not ln or ln[0] == ';': continue
            if ln[0] == '%':
                m = re.match(r'(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = type (.*)', ln)
                if m:
                    b = m.group(2)
                    if b.startswith('opaque'): self.types[m.group(1)] = ('st', (), False)
                    else: self.types[m.group(1)] = P(tokenize(b)).type()
                continue
            if ln[0] == '@':
                self.glob(ln); continue
            if ln.startswith('declare'):
                h = self.header(ln)
                self.decls[h[0]] = h
                continue
            if ln.startswith('define'):
                body = []
                hdr = ln
                while lines[i] != '}':
                    body.append(lines[i]); i += 1
                i += 1
                h = self.header(hdr)
                self.funcs[h[0]] = Func(h[0], h[1], h[2], body, h[3])
        self._sz = {}; self._ly = {}; self._fo = {}
    def header(self, ln):
        s = re.sub(r'\s*(!\w+ !\d+\s*)*\{$', '', ln)
        at = re.search(r'@(?:"[^"]*"|[-a-zA-Z$._0-9]+)\(', s)
        pre = s[:at.start()]; rest = s[at.start():]
        # return type: parse last type in pre after attrs
        p = P(tokenize(pre))
        p.next()
        rt = None
        while p.i < len(p.t):
            k, v = p.peek()
            if k == 'word' and (v in ('linkonce_odr','weak_odr','dso_local','internal','external','private','weak','linkonce','available_externally','unnamed_addr','local_unnamed_addr','hidden','protected','default','fastcc','ccc','dso_preemptable','extern_weak','coldcc','cold')): p.next(); continue
            sv = p.i
            p.param_attrs()
            if p.i != sv: continue
            rt = p.type()
        p = P(tokenize(rest))
        name = p.next()[1]
        p.exp('(')
        params = []; va = False
        while not p.acc(')'):
            if p.acc('...'): va = True; p.acc(','); continue
            t = p.type(); byval = None
            sv = p.i
            p.param_attrs()
            for j in range(sv, p.i):
                if p.t[j][1] == 'byval':
                    q = P(p.t); q.i = j+2; byval = q.type()
            nm = None
            if p.peek()[0] == 'local': nm = p.next()[1]
            params.append((t, nm, byval))
            p.acc(',')
        # unnamed params get numbers
        c = 0
        out = []
        for t, nm, bv in params:
            if nm is None: nm = '%' + str(c); c += 1
            elif re.match(r'%\d+$', nm): c = int(nm[1:]) + 1
            out.append((t, nm, bv))
        return name, rt, out, va
    def glob(self, ln):
        m = re.match(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)', ln)
        name, rest = m.group(1), m.group(2)
        rest = re.sub(r', !\w+ !\d+', '', rest)
        if re.search(r'\balias\b', rest) and not re.search(r'\b(global|constant)\b', rest):
            t = re.search(r'ptr (@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\s*$', rest)
            if t: self.aliases[name] = t.group(1)
            return
        mm = re.search(r'(?:^|\s)(global|constant)\s', rest)
        if not mm: return
        ext = bool(re.search(r'\b(external|extern_weak)\b', rest[:mm.start()]))
        body = rest[mm.end():]
        self.globals[name] = [mm.group(1) == 'constant', ext, body, None]
    def gdef(self, name):
        g = self.globals[name]
        if g[3] is None:
            p = P(tokenize(g[2]))
            t = p.type()
            init = None
            if not g[1]:
                init = p.value(t)
            g[3] = (t, init)
        return g[3]
    def rt(self, t):
        while t[0] == 'named':
            t = self.types[t[1]]
        return t
    def sizeof(self, t):
        r = self._sz.get(t)
        if r is None:
            r = self._sz[t] = self._layout(t)[0]
        return r
    def alignof(self, t): return self._layout(t)[1]
    def _layout(self, t):
        r = self._ly.get(t)
        if r is None: r = self._ly[t] = self._layout1(t)
        return r
    def _layout1(self, t):
        t = self.rt(t)
        k = t[0]
        if k == 'i':
            b = (t[1]+7)//8
            s = 1
            while s < b: s *= 2
            return s, min(s, 16)
        if k == 'f': return t[1], t[1]
        if k == 'p': return 8, 8
        if k == 'arr':
            s, a = self._layout(t[2]); return s*t[1], a
        if k == 'vec':
            s = self.sizeof(t[2])*t[1]; return s, s
        if k == 'st':
            off = 0; al = 1
            for e in t[1]:
                s, a = self._layout(e)
                if t[2]: a = 1
                off = (off + a-1)//a*a + s
                al = max(al, a)
            return (off+al-1)//al*al, al
        if k in ('v','fn'): return 1, 1
        raise SyntaxError('layout %s' % (t,))
    def field_off(self, t, i):
        r = self._fo.get((t, i))
        if r is None: r = self._fo[(t, i)] = self._field_off(t, i)
        return r
    def _field_off(self, t, i):
        t = self.rt(t)
        off = 0
        for j, e in enumerate(t[1]):
            s, a = self._layout(e)
            if t[2]: a = 1
            off = (off + a-1)//a*a
            if j == i: return off
            off += s
        raise IndexError

# ---------------- loops
def find_loops(fn):
    """natural loops: header -> set(blocks).  latches: header -> set"""
    if fn.loops is not None: return fn.loops
    blocks = fn.blocks; order = fn.order
    entry = order[0].name
    # reverse postorder
    seen = set(); post = []
    st = [(entry, iter(blocks[entry].succs))]; seen.add(entry)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s); st.append((s, iter(blocks[s].succs))); break
        else:
            post.append(b); st.pop()
    rpo = post[::-1]; num = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in blocks[b].succs: preds[s].append(b)
    idom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None: new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while num[x] > num[y]: x = idom[x]
                            while num[y] > num[x]: y = idom[y]
                        new = x
            if idom.get(b) != new: idom[b] = new; ch = True
    def dom(a, b):
        while True:
            if a == b: return True
            if b == entry: return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in blocks[b].succs:
            if dom(s, b):
                body = loops.setdefault(s, set([s]))
                stack = [b]
                while stack:
                    x = stack.pop()
                    if x in body: continue
                    body.add(x)
                    stack.extend(preds[x])
    fn.loops = loops
    return loops
