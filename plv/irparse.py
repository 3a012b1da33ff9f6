"""Parser for textual LLVM IR (LLVM 18, opaque pointers).

Only the text is indexed up front; function bodies are parsed on demand.
"""
import re

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ()

class IntTy(Ty):
    __slots__ = ('w',)
    def __init__(s, w): s.w = w
    def __repr__(s): return f'i{s.w}'

class PtrTy(Ty):
    __slots__ = ()
    def __repr__(s): return 'ptr'

class FloatTy(Ty):
    __slots__ = ('kind', 'w')
    def __init__(s, kind, w): s.kind = kind; s.w = w
    def __repr__(s): return s.kind

class VoidTy(Ty):
    __slots__ = ()
    def __repr__(s): return 'void'

class ArrTy(Ty):
    __slots__ = ('n', 'el')
    def __init__(s, n, el): s.n = n; s.el = el
    def __repr__(s): return f'[{s.n} x {s.el}]'

class VecTy(Ty):
    __slots__ = ('n', 'el')
    def __init__(s, n, el): s.n = n; s.el = el
    def __repr__(s): return f'<{s.n} x {s.el}>'

class StructTy(Ty):
    __slots__ = ('els', 'packed', 'name', '_lay')
    def __init__(s, els, packed=False, name=None):
        s.els = els; s.packed = packed; s.name = name; s._lay = None
    def __repr__(s): return s.name or ('{' + ', '.join(map(repr, s.els or [])) + '}')

class FuncTy(Ty):
    __slots__ = ('ret', 'args', 'va')
    def __init__(s, ret, args, va): s.ret = ret; s.args = args; s.va = va

class OtherTy(Ty):
    __slots__ = ('name',)
    def __init__(s, name): s.name = name
    def __repr__(s): return s.name

PTR = PtrTy(); VOID = VoidTy()
FLOATS = {'float': FloatTy('float', 32), 'double': FloatTy('double', 64),
          'x86_fp80': FloatTy('x86_fp80', 80), 'half': FloatTy('half', 16),
          'fp128': FloatTy('fp128', 128)}
_ints = {}
def int_ty(w):
    t = _ints.get(w)
    if t is None:
        t = _ints[w] = IntTy(w)
    return t

def align_of(t):
    if isinstance(t, IntTy):
        b = (t.w + 7) // 8
        a = 1
        while a < b: a *= 2
        return min(a, 16)
    if isinstance(t, PtrTy): return 8
    if isinstance(t, FloatTy):
        return {'float': 4, 'double': 8, 'x86_fp80': 16, 'half': 2, 'fp128': 16}[t.kind]
    if isinstance(t, (ArrTy,)): return align_of(t.el)
    if isinstance(t, VecTy): return size_of(t)
    if isinstance(t, StructTy):
        if t.packed: return 1
        return max([align_of(e) for e in t.els] or [1])
    return 1

def size_of(t):
    """alloc size"""
    if isinstance(t, IntTy):
        b = (t.w + 7) // 8
        a = align_of(t)
        return (b + a - 1) // a * a
    if isinstance(t, PtrTy): return 8
    if isinstance(t, FloatTy):
        return {'float': 4, 'double': 8, 'x86_fp80': 16, 'half': 2, 'fp128': 16}[t.kind]
    if isinstance(t, ArrTy): return t.n * size_of(t.el)
    if isinstance(t, VecTy): return (t.n * bits_of(t.el) + 7) // 8
    if isinstance(t, StructTy):
        return struct_layout(t)[1]
    if isinstance(t, VoidTy): return 0
    raise ValueError(f'size_of {t!r}')

def bits_of(t):
    if isinstance(t, IntTy): return t.w
    if isinstance(t, PtrTy): return 64
    if isinstance(t, FloatTy): return t.w
    return size_of(t) * 8

def store_size(t):
    if isinstance(t, IntTy): return (t.w + 7) // 8
    return size_of(t)

def struct_layout(t):
    if t._lay is not None: return t._lay
    off = 0; offs = []; ma = 1
    for e in t.els:
        a = 1 if t.packed else align_of(e)
        ma = max(ma, a)
        off = (off + a - 1) // a * a
        offs.append(off)
        off += size_of(e)
    off = (off + ma - 1) // ma * ma
    t._lay = (offs, off)
    return t._lay

# ---------------------------------------------------------------- tokens
TOK = re.compile(r'''
   (?P<ws>[ \t]+)
 | (?P<cstr>c"(?:[^"\\]|\\[0-9a-fA-F]{2}|\\\\)*")
 | (?P<loc>%"(?:[^"])*"|%[-a-zA-Z$._0-9]+)
 | (?P<glob>@"(?:[^"])*"|@[-a-zA-Z$._0-9]+)
 | (?P<meta>![-a-zA-Z$._0-9]*)
 | (?P<attr>\#[0-9]+)
 | (?P<str>"(?:[^"\\]|\\[0-9a-fA-F]{2}|\\\\)*")
 | (?P<com>\$"(?:[^"])*"|\$[-a-zA-Z$._0-9]+)
 | (?P<num>-?[0-9]+\.[0-9]*(?:[eE][-+]?[0-9]+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?[0-9]+)
 | (?P<dots>\.\.\.)
 | (?P<word>[a-zA-Z_][-a-zA-Z$._0-9]*)
 | (?P<p>[\[\]{}()<>,=*:|])
''', re.X)

class Tok:
    __slots__ = ('k', 'v')
    def __init__(s, k, v): s.k = k; s.v = v
    def __repr__(s): return f'{s.k}:{s.v}'

def tokenize(line):
    out = []
    i = 0; n = len(line)
    while i < n:
        m = TOK.match(line, i)
        if not m:
            if line[i] == ';': break
            raise SyntaxError(f'token at {line[i:i+40]!r} in {line!r}')
        k = m.lastgroup
        if k != 'ws':
            v = m.group()
            if k in ('loc', 'glob'):
                if v[1:2] == '"': v = v[0] + v[2:-1]
            out.append((k, v))
        i = m.end()
    return out

# ---------------------------------------------------------------- constants / operands
# Operand representations (tuples):
#  ('r', name)        local register
#  ('g', name)        global address
#  ('i', int)         integer constant (unsigned, masked by type)
#  ('f', kind, bits)  float constant as raw bits
#  ('null',) ('undef',) ('zero',)
#  ('agg', [ (ty,opd) ... ])
#  ('bytes', b'..')
#  ('gep', srcty, [(ty,opd)...]) ('cast', op, (ty,opd), toty) ('bin', op, (ty,opd),(ty,opd))
#  ('meta',)  ('blockaddr',)

PARAM_ATTRS = {'noundef','nonnull','zeroext','signext','noalias','nocapture','readonly','readnone',
 'writeonly','immarg','returned','inreg','nest','swiftself','swifterror','nofree','noinline','dead_on_unwind','writable','noext'}
PAREN_ATTRS = {'dereferenceable','dereferenceable_or_null','align','sret','byval','byref','preallocated','inalloca','elementtype','captures','range','initializes','memory','allocsize'}

import struct as _struct

class Parser:
    def __init__(self, toks, mod):
        self.t = toks; self.i = 0; self.mod = mod
    def peek(self, o=0):
        j = self.i + o
        return self.t[j] if j < len(self.t) else ('eof', '')
    def next(self):
        x = self.t[self.i]; self.i += 1; return x
    def isv(self, v, o=0):
        j = self.i + o
        return j < len(self.t) and self.t[j][1] == v
    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1; return True
        return False
    def expect(self, v):
        if not self.accept(v):
            raise SyntaxError(f'expected {v} got {self.peek()} at {self.i} in {self.t}')
    def type(self):
        k, v = self.next()
        t = None
        if k == 'word':
            if v[0] == 'i' and v[1:].isdigit(): t = int_ty(int(v[1:]))
            elif v == 'ptr':
                t = PTR
                if self.isv('addrspace'):
                    self.i += 4
            elif v == 'void': t = VOID
            elif v in FLOATS: t = FLOATS[v]
            elif v == 'opaque': t = StructTy([], name='opaque')
            elif v in ('label', 'token', 'metadata'): t = OtherTy(v)
            elif v == 'target':
                raise SyntaxError('target type')
            else: raise SyntaxError(f'type {v} in {self.t}')
        elif k == 'loc':
            t = self.mod.named_type(v[1:])
        elif v == '[':
            n = int(self.next()[1]); self.expect('x'); el = self.type(); self.expect(']')
            t = ArrTy(n, el)
        elif v == '{':
            t = StructTy(self._tylist('}'))
        elif v == '<':
            if self.isv('{'):
                self.next(); t = StructTy(self._tylist('}'), packed=True); self.expect('>')
            else:
                n = int(self.next()[1]); self.expect('x'); el = self.type(); self.expect('>')
                t = VecTy(n, el)
        else:
            raise SyntaxError(f'type tok {k}:{v} in {self.t}')
        while True:
            if self.isv('('):
                # function type
                save = self.i
                self.next(); args = []; va = False
                while not self.isv(')'):
                    if self.accept('...'): va = True
                    else:
                        args.append(self.type())
                    self.accept(',')
                self.expect(')')
                t = FuncTy(t, args, va)
            elif self.isv('*'):
                self.next(); t = PTR
            else: break
        return t
    def _tylist(self, close):
        r = []
        while not self.isv(close):
            r.append(self.type()); self.accept(',')
        self.expect(close)
        return r
    def skip_attrs(self):
        while True:
            k, v = self.peek()
            if k == 'word' and v in PARAM_ATTRS: self.i += 1
            elif k == 'word' and v in PAREN_ATTRS:
                self.i += 1
                if self.isv('('): self.skip_parens()
                elif v == 'align': self.i += 1
            elif k == 'attr': self.i += 1
            elif k == 'str':
                self.i += 1
                if self.isv('='): self.i += 2
            else: break
    def skip_parens(self):
        d = 0
        while True:
            v = self.next()[1]
            if v == '(': d += 1
            elif v == ')':
                d -= 1
                if d == 0: return
    def value(self, ty):
        k, v = self.next()
        if k == 'loc': return ('r', v[1:])
        if k == 'glob': return ('g', v[1:])
        if k == 'num':
            if isinstance(ty, FloatTy):
                return ('f', ty.kind, self._float(v, ty))
            return ('i', int(v) & ((1 << ty.w) - 1) if isinstance(ty, IntTy) else int(v))
        if k == 'cstr':
            return ('bytes', _unesc(v[2:-1]))
        if k == 'word':
            if v == 'true': return ('i', 1)
            if v == 'false': return ('i', 0)
            if v == 'null': return ('null',)
            if v in ('undef', 'poison'): return ('undef',)
            if v == 'zeroinitializer': return ('zero',)
            if v == 'none': return ('null',)
            if v == 'getelementptr':
                while self.peek()[0] == 'word': 
                    w = self.next()[1]
                    if w == 'inrange' : self.skip_parens()
                self.expect('(')
                st = self.type(); ops = []
                while self.accept(','):
                    self.accept('inrange')
                    ot = self.type(); ops.append((ot, self.value(ot)))
                self.expect(')')
                return ('gep', st, ops)
            if v in ('inttoptr','ptrtoint','bitcast','trunc','zext','sext','addrspacecast'):
                self.expect('(')
                ot = self.type(); o = self.value(ot); self.expect('to'); tt = self.type(); self.expect(')')
                return ('cast', v, (ot, o), tt)
            if v in ('add','sub','mul','and','or','xor','shl','lshr','ashr','icmp','select'):
                while self.peek()[0] == 'word' and not self.isv('('): self.next()
                self.expect('(')
                a = self.type(); x = self.value(a); self.expect(','); b = self.type(); y = self.value(b); self.expect(')')
                return ('bin', v, (a, x), (b, y))
            if v == 'dso_local_equivalent' or v == 'no_cfi':
                return self.value(ty)
            if v == 'blockaddress':
                self.skip_parens(); return ('undef',)
            raise SyntaxError(f'value {v} in {self.t}')
        if v == '[' or v == '{' or (v == '<'):
            close = {'[': ']', '{': '}', '<': '>'}[v]
            inner_brace = False
            if v == '<' and self.isv('{'):
                self.next(); inner_brace = True; close = '}'
            els = []
            while not self.isv(close):
                et = self.type(); els.append((et, self.value(et))); self.accept(',')
            self.expect(close)
            if inner_brace: self.expect('>')
            return ('agg', els)
        if k == 'meta':
            # metadata operand: consume possible parens
            if self.isv('('): self.skip_parens()
            elif self.isv('{'):
                d = 0
                while True:
                    x = self.next()[1]
                    if x == '{': d += 1
                    if x == '}':
                        d -= 1
                        if d == 0: break
            return ('meta',)
        raise SyntaxError(f'value {k}:{v} in {self.t}')
    def _float(self, v, ty):
        if v.startswith('0x'):
            h = v[2:]
            if h[0] in 'KLMHR':
                return int(h[1:], 16)
            bits = int(h, 16)  # double bits
            if ty.kind == 'double': return bits
            d = _struct.unpack('<d', _struct.pack('<Q', bits))[0]
            return _struct.unpack('<I', _struct.pack('<f', d))[0]
        d = float(v)
        if ty.kind == 'double': return _struct.unpack('<Q', _struct.pack('<d', d))[0]
        return _struct.unpack('<I', _struct.pack('<f', d))[0]
    def typed(self):
        t = self.type(); self.skip_attrs()
        if isinstance(t, OtherTy) and t.name == 'metadata':
            # skip
            k, v = self.peek()
            if k == 'meta' : self.value(t)
            else:
                t2 = self.type(); self.value(t2)
            return (t, ('meta',))
        return (t, self.value(t))

def _unesc(s):
    out = bytearray(); i = 0
    while i < len(s):
        c = s[i]
        if c == '\\':
            if s[i+1] == '\\': out.append(92); i += 2
            else: out.append(int(s[i+1:i+3], 16)); i += 3
        else:
            out += c.encode('latin1') if ord(c) < 256 else c.encode('utf8'); i += 1
    return bytes(out)

# ---------------------------------------------------------------- module
class Inst:
    __slots__ = ('op', 'res', 'a', 'dbg')
    def __init__(s, op, res, a, dbg): s.op = op; s.res = res; s.a = a; s.dbg = dbg
    def __repr__(s): return f'{s.res} = {s.op} {s.a}'

class Func:
    __slots__ = ('name', 'ret', 'params', 'blocks', 'order', 'entry', 'mod', 'va', 'loops', 'personality', 'scope')

class Module:
    def __init__(self, path, text=None):
        self.path = path
        self.types_txt = {}
        self.types = {}
        self.func_txt = {}      # name -> (header line, body lines)
        self.decls = {}
        self.globals_txt = {}
        self.meta = {}
        self._funcs = {}
        self._globals = {}
        self.ctors = None
        text = text if text is not None else open(path, encoding='latin1').read()
        lines = text.split('\n')
        i = 0; n = len(lines)
        while i < n:
            l = lines[i]
            c = l[:1]
            if c == 'd':
                if l.startswith('define '):
                    j = i + 1
                    while lines[j] != '}': j += 1
                    nm = self._name_of(l)
                    self.func_txt[nm] = (l, lines[i+1:j])
                    i = j
                elif l.startswith('declare '):
                    self.decls[self._name_of(l)] = l
            elif c == '%':
                p = l.find(' = type ')
                if p > 0:
                    nm = l[1:p]
                    if nm[0] == '"': nm = nm[1:-1]
                    self.types_txt[nm] = l[p+8:]
            elif c == '@':
                p = l.find(' = ')
                nm = l[1:p]
                if nm[0] == '"': nm = nm[1:-1]
                self.globals_txt[nm] = l[p+3:]
            elif c == '!':
                p = l.find(' = ')
                if p > 0: self.meta[l[1:p]] = l[p+3:]
            i += 1
    @staticmethod
    def _name_of(l):
        p = l.index('@')
        if l[p+1] == '"':
            q = l.index('"', p+2); return l[p+2:q]
        m = re.match(r'[-a-zA-Z$._0-9]+', l[p+1:])
        return m.group()
    def named_type(self, nm):
        t = self.types.get(nm)
        if t is None:
            t = StructTy(None, name=nm)
            self.types[nm] = t
            txt = self.types_txt.get(nm, 'opaque')
            if txt.strip() == 'opaque':
                t.els = []
            else:
                r = Parser(tokenize(txt), self).type()
                t.els = r.els; t.packed = r.packed
        return t
    def line_of(self, dbg):
        """(line, inlinedAt scope file) for a !dbg id"""
        m = self.meta.get(dbg) if dbg else None
        if not m: return None
        mm = re.search(r'line: (\d+)', m)
        return int(mm.group(1)) if mm else None
    def global_def(self, nm):
        g = self._globals.get(nm)
        if g is not None: return g
        txt = self.globals_txt.get(nm)
        if txt is None: return None
        toks = tokenize(txt)
        p = Parser(toks, self)
        ext = False; const = False; alias = False; tls = False
        while True:
            k, v = p.peek()
            if v in ('external', 'extern_weak'): ext = True
            if v == 'thread_local':
                tls = True; p.next()
                if p.isv('('): p.skip_parens()
                continue
            if v == 'alias': alias = True; p.next(); break
            if v in ('global', 'constant'):
                const = v == 'constant'; p.next(); break
            if v == 'addrspace': p.next(); p.skip_parens(); continue
            p.next()
        ty = p.type()
        if alias:
            p.expect(',')
            t2, o = p.typed()
            g = ('alias', o)
        else:
            init = None
            if not ext and p.peek()[0] != 'eof' and not p.isv(','):
                init = p.value(ty)
            g = ('var', ty, init, const, tls)
        self._globals[nm] = g
        return g
    def func(self, nm):
        f = self._funcs.get(nm)
        if f is None:
            if nm not in self.func_txt: return None
            f = self._parse_func(nm)
            self._funcs[nm] = f
        return f
    def _parse_func(self, nm):
        hdr, body = self.func_txt[nm]
        toks = tokenize(hdr)
        p = Parser(toks, self)
        p.next()
        # skip to return type: words until type
        while True:
            k, v = p.peek()
            if k == 'word' and (v in FLOATS or v in ('void', 'ptr') or (v[0] == 'i' and v[1:].isdigit())): break
            if k == 'loc' or v in ('[', '{', '<'): break
            if k == 'word' and v in PAREN_ATTRS:
                p.next()
                if p.isv('('): p.skip_parens()
                elif v == 'align': p.next()
                continue
            p.next()
        f = Func()
        f.name = nm; f.mod = self
        f.ret = p.type()
        p.next()  # @name
        p.expect('(')
        f.params = []; f.va = False
        idx = 0
        while not p.isv(')'):
            if p.accept('...'): f.va = True
            else:
                t = p.type(); p.skip_attrs()
                if p.peek()[0] == 'loc': pn = p.next()[1][1:]
                else: pn = str(idx)
                f.params.append((t, pn))
                idx += 1
            p.accept(',')
        f.personality = 'personality' in hdr
        m = re.search(r'!dbg (!\d+)', hdr)
        f.scope = m.group(1)[1:] if m else None
        f.blocks = {}; f.order = []
        # entry label
        cur = None
        pend = None
        i = 0; n = len(body)
        entry_label = None
        if body and re.match(r'^[-a-zA-Z$._0-9"]+:', body[0]):
            pass
        else:
            cur = str(len(f.params)) if not f.va or True else '0'
            # unnamed entry: number = count of unnamed params
            cur = str(sum(1 for t, pn in f.params if pn.isdigit()))
            f.order.append(cur); f.blocks[cur] = []
        while i < n:
            l = body[i]
            if not l:
                i += 1; continue
            if l[0] != ' ':
                m = re.match(r'^("(?:[^"]*)"|[-a-zA-Z$._0-9]+):', l)
                if m:
                    cur = m.group(1)
                    if cur[0] == '"': cur = cur[1:-1]
                    f.order.append(cur); f.blocks[cur] = []
                i += 1; continue
            # join continuation lines
            s = l.strip()
            if s.startswith('switch') or ' switch ' in s[:0]:
                while ']' not in body[i]:
                    i += 1; s += ' ' + body[i].strip()
            elif 'invoke ' in s and re.match(r'^(%\S+ = |%"[^"]*" = )?invoke ', s):
                while ' unwind label ' not in s:
                    i += 1; s += ' ' + body[i].strip()
            elif re.match(r'^(%\S+ = )?landingpad', s):
                while i + 1 < n and re.match(r'^\s+(catch|filter|cleanup)', body[i+1]):
                    i += 1; s += ' ' + body[i].strip()
            f.blocks[cur].append(self._parse_inst(s))
            i += 1
        f.entry = f.order[0]
        f.loops = None
        return f
    def _parse_inst(self, s):
        dbg = None
        q = s.find(', !dbg !')
        if q >= 0:
            m = re.match(r'\d+', s[q+8:])
            dbg = m.group()
            s2 = s[:q]
        else:
            s2 = s
        q = s2.find(', !')
        if q >= 0 and '"' not in s2[q:]: s2 = s2[:q] if not s2[q+2:].startswith('!DI') else s2
        if s2.lstrip().startswith(('call void @llvm.dbg', 'tail call void @llvm.dbg', 'call void @llvm.experimental.noalias')):
            return Inst('nop', None, None, dbg)
        toks = tokenize(s2)
        p = Parser(toks, self)
        res = None
        if p.peek()[0] == 'loc' and p.isv('=', 1):
            res = p.next()[1][1:]; p.next()
        op = p.next()[1]
        if op in ('tail', 'musttail', 'notail'): op = p.next()[1]
        a = getattr(self, '_i_' + op, None)
        if a is None:
            if op in BINOPS:
                flags = set()
                while p.peek()[0] == 'word' and p.peek()[1] in ('nuw','nsw','exact','disjoint','fast','nnan','ninf','nsz','arcp','contract','afn','reassoc'):
                    flags.add(p.next()[1])
                t = p.type(); x = p.value(t); p.expect(','); y = p.value(t)
                return Inst('bin', res, (op, t, x, y, flags), dbg)
            if op in CASTS:
                while p.peek()[0] == 'word' and p.peek()[1] in ('nneg','nuw','nsw'): p.next()
                t = p.type(); x = p.value(t); p.expect('to'); tt = p.type()
                return Inst('cast', res, (op, t, x, tt), dbg)
            raise SyntaxError('inst ' + op + ' : ' + s)
        return a(p, res, dbg)
    # -- instruction parsers
    def _i_ret(self, p, res, dbg):
        t = p.type()
        if isinstance(t, VoidTy): return Inst('ret', None, None, dbg)
        return Inst('ret', None, (t, p.value(t)), dbg)
    def _i_br(self, p, res, dbg):
        if p.isv('label'):
            p.next(); return Inst('br', None, (None, p.next()[1][1:]), dbg)
        t = p.type(); c = p.value(t); p.expect(','); p.next(); l1 = p.next()[1][1:]; p.expect(','); p.next(); l2 = p.next()[1][1:]
        return Inst('br', None, (c, l1, l2), dbg)
    def _i_switch(self, p, res, dbg):
        t = p.type(); c = p.value(t); p.expect(','); p.next(); d = p.next()[1][1:]
        p.expect('[')
        cs = []
        while not p.isv(']'):
            ct = p.type(); cv = p.value(ct); p.expect(','); p.next(); cs.append((cv[1], p.next()[1][1:]))
        return Inst('switch', None, (t, c, d, cs), dbg)
    def _i_unreachable(self, p, res, dbg): return Inst('unreachable', None, None, dbg)
    def _i_alloca(self, p, res, dbg):
        p.accept('inalloca')
        t = p.type(); n = None
        if p.accept(',') and not p.isv('align'):
            nt = p.type(); n = (nt, p.value(nt))
        return Inst('alloca', res, (t, n), dbg)
    def _i_load(self, p, res, dbg):
        at = p.accept('atomic'); p.accept('volatile')
        t = p.type(); p.expect(','); pt = p.type(); a = p.value(pt)
        return Inst('load', res, (t, a, at), dbg)
    def _i_store(self, p, res, dbg):
        at = p.accept('atomic'); p.accept('volatile')
        t = p.type(); v = p.value(t); p.expect(','); pt = p.type(); a = p.value(pt)
        return Inst('store', None, (t, v, a, at), dbg)
    def _i_getelementptr(self, p, res, dbg):
        while p.peek()[1] in ('inbounds', 'nuw', 'nusw'): p.next()
        st = p.type(); ops = []
        while p.accept(','):
            t = p.type(); ops.append((t, p.value(t)))
        return Inst('gep', res, (st, ops), dbg)
    def _i_icmp(self, p, res, dbg):
        c = p.next()[1]
        if c == 'samesign': c = p.next()[1]
        t = p.type(); x = p.value(t); p.expect(','); y = p.value(t)
        return Inst('icmp', res, (c, t, x, y), dbg)
    def _i_fcmp(self, p, res, dbg):
        c = p.next()[1]
        while c in ('fast','nnan','ninf','nsz','arcp','contract','afn','reassoc'): c = p.next()[1]
        t = p.type(); x = p.value(t); p.expect(','); y = p.value(t)
        return Inst('fcmp', res, (c, t, x, y), dbg)
    def _i_fneg(self, p, res, dbg):
        t = p.type(); return Inst('fneg', res, (t, p.value(t)), dbg)
    def _i_phi(self, p, res, dbg):
        t = p.type(); inc = []
        while p.accept('['):
            v = p.value(t); p.expect(','); inc.append((v, p.next()[1][1:])); p.expect(']'); p.accept(',')
        return Inst('phi', res, (t, inc), dbg)
    def _i_select(self, p, res, dbg):
        c = p.typed(); p.expect(','); x = p.typed(); p.expect(','); y = p.typed()
        return Inst('select', res, (c, x, y), dbg)
    def _i_freeze(self, p, res, dbg):
        t = p.type(); return Inst('freeze', res, (t, p.value(t)), dbg)
    def _i_extractvalue(self, p, res, dbg):
        t, v = p.typed(); idx = []
        while p.accept(','): idx.append(int(p.next()[1]))
        return Inst('extractvalue', res, (t, v, idx), dbg)
    def _i_insertvalue(self, p, res, dbg):
        t, v = p.typed(); p.expect(','); et, ev = p.typed(); idx = []
        while p.accept(','): idx.append(int(p.next()[1]))
        return Inst('insertvalue', res, (t, v, et, ev, idx), dbg)
    def _i_fence(self, p, res, dbg): return Inst('fence', None, None, dbg)
    def _i_atomicrmw(self, p, res, dbg):
        p.accept('volatile')
        op = p.next()[1]; pt = p.type(); a = p.value(pt); p.expect(','); t = p.type(); v = p.value(t)
        return Inst('atomicrmw', res, (op, a, t, v), dbg)
    def _i_cmpxchg(self, p, res, dbg):
        p.accept('weak'); p.accept('volatile')
        pt = p.type(); a = p.value(pt); p.expect(','); t = p.type(); c = p.value(t); p.expect(','); t2 = p.type(); n = p.value(t2)
        return Inst('cmpxchg', res, (a, t, c, n), dbg)
    def _i_landingpad(self, p, res, dbg):
        t = p.type(); cl = []; cleanup = False
        while p.peek()[0] != 'eof':
            v = p.next()[1]
            if v == 'cleanup': cleanup = True
            elif v == 'catch':
                ct, cv = p.typed(); cl.append(('catch', cv))
            elif v == 'filter':
                ct, cv = p.typed(); cl.append(('filter', cv))
        return Inst('landingpad', res, (t, cleanup, cl), dbg)
    def _i_resume(self, p, res, dbg):
        t, v = p.typed(); return Inst('resume', None, (t, v), dbg)
    def _call_common(self, p):
        # cc, ret attrs
        while True:
            k, v = p.peek()
            if k == 'word' and (v in ('fastcc', 'ccc', 'coldcc') or v in PARAM_ATTRS or v in ('fast','nnan','ninf','nsz','arcp','contract','afn','reassoc')): p.next()
            elif k == 'word' and v in PAREN_ATTRS:
                p.next()
                if p.isv('('): p.skip_parens()
                elif v == 'align': p.next()
            else: break
        rt = p.type()
        if isinstance(rt, FuncTy): rt = rt.ret
        if p.isv('asm'):
            return rt, ('asm',), []
        callee = p.value(PTR)
        p.expect('(')
        args = []
        while not p.isv(')'):
            args.append(p.typed()); p.accept(',')
        p.expect(')')
        return rt, callee, args
    def _i_call(self, p, res, dbg):
        rt, callee, args = self._call_common(p)
        return Inst('call', res, (rt, callee, args), dbg)
    def _i_invoke(self, p, res, dbg):
        rt, callee, args = self._call_common(p)
        while not p.isv('to'): p.next()
        p.expect('to'); p.expect('label'); l1 = p.next()[1][1:]; p.expect('unwind'); p.expect('label'); l2 = p.next()[1][1:]
        return Inst('invoke', res, (rt, callee, args, l1, l2), dbg)

BINOPS = {'add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor','fadd','fsub','fmul','fdiv','frem'}
CASTS = {'trunc','zext','sext','fptrunc','fpext','fptoui','fptosi','uitofp','sitofp','ptrtoint','inttoptr','bitcast','addrspacecast'}

def successors(inst):
    if inst.op == 'br':
        return [inst.a[1]] if inst.a[0] is None else [inst.a[1], inst.a[2]]
    if inst.op == 'switch': return [inst.a[2]] + [l for _, l in inst.a[3]]
    if inst.op == 'invoke': return [inst.a[3], inst.a[4]]
    return []

def find_loops(f):
    """natural loops: header -> set(blocks). Irreducible edges are ignored."""
    if f.loops is not None: return f.loops
    succ = {b: successors(f.blocks[b][-1]) if f.blocks[b] else [] for b in f.order}
    pred = {b: [] for b in f.order}
    for b in f.order:
        for s in succ[b]: pred[s].append(b)
    # reachable rpo
    seen = set(); post = []
    st = [(f.entry, iter(succ[f.entry]))]; seen.add(f.entry)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s); st.append((s, iter(succ[s]))); break
        else:
            post.append(b); st.pop()
    rpo = post[::-1]; num = {b: i for i, b in enumerate(rpo)}
    idom = {f.entry: f.entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [p for p in pred[b] if p in idom]
            n = ps[0]
            for p in ps[1:]:
                x, y = p, n
                while x != y:
                    while num[x] > num[y]: x = idom[x]
                    while num[y] > num[x]: y = idom[y]
                n = x
            if idom.get(b) != n: idom[b] = n; ch = True
    def dom(a, b):
        while True:
            if a == b: return True
            if b == f.entry: return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in succ[b]:
            if s in num and dom(s, b):
                body = loops.setdefault(s, {s})
                wl = [b]
                while wl:
                    x = wl.pop()
                    if x not in body:
                        body.add(x); wl.extend(p for p in pred[x] if p in num)
    f.loops = loops
    return loops
