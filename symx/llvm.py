"""Reads textual LLVM IR (clang 18, opaque pointers) and executes it with concrete integers/pointers and
symbolic doubles.  Memory is a set of separate objects with guard gaps: every access outside a live
object, and every use of a cell never written, is reported."""
import math, re, struct
import numpy as np
from . import core
from .core import SymReal, SymBool, Unsupported, UninitError, s_not, s_and, s_or


class MemError(Exception):
    """out-of-bounds, null, use-after-free or uncaught C++ exception in compiled code"""


class CppThrow(Exception):
    def __init__(self, what, ptr=0): super().__init__(what); self.what = what; self.ptr = ptr


class _Undef:
    def __repr__(self): return 'undef'
UNDEF = _Undef()

F = np.float64

# ------------------------------------------------------------------ types
class Ty:
    __slots__ = ('k', 'n', 'e', 'size', 'align', 'offs', 'name')
    def __init__(self, k, n=0, e=None): self.k = k; self.n = n; self.e = e; self.size = None; self.align = None; self.offs = None; self.name = None
    def __repr__(self): return f"{self.k}{self.n or ''}"


TOK = re.compile(r'''\s*(?:;[^\n]*)?(c"[^"]*"|%"[^"]*"|@"[^"]*"|\$"[^"]*"|"[^"]*"|%[\w.$\-]+|@[\w.$\-]+|![\w.]*(?:\([^)]*\))?|\#\d+|\.\.\.|[-+]?[\w.][\w.+\-]*|[(){}\[\]<>,=*:|])''')


def tokenize(s):
    out = []; i = 0; n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'): break
            raise Unsupported(f"IR token at {s[i:i+40]!r}")
        out.append(m.group(1)); i = m.end()
    return out


PTR = Ty('ptr'); PTR.size = PTR.align = 8
VOID = Ty('void'); VOID.size = 0; VOID.align = 1
_ints = {}
def INT(n):
    if n not in _ints:
        t = Ty('int', n)
        b = max(1, (n + 7) // 8)
        p = 1
        while p < b: p *= 2
        t.size = p; t.align = min(p, 16); _ints[n] = t
    return _ints[n]
FP = {}
for _k, _s, _a in (('float', 4, 4), ('double', 8, 8), ('x86_fp80', 16, 16), ('half', 2, 2), ('fp128', 16, 16)):
    t = Ty('fp', _s); t.size = _s; t.align = _a; t.name = _k; FP[_k] = t

PATTR = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'readnone', 'signext', 'zeroext', 'inreg', 'immarg', 'returned', 'nofree', 'nest',
         'swiftself', 'allocalign', 'allocptr', 'noinline', 'dead_on_unwind', 'writable', 'inrange', 'nofpclass', 'dso_local', 'local_unnamed_addr', 'unnamed_addr', 'hidden', 'nosync'}
PATTRP = {'dereferenceable', 'dereferenceable_or_null', 'align', 'sret', 'byval', 'byref', 'elementtype', 'range', 'captures', 'memory', 'initializes', 'inalloca', 'nofpclass', 'preallocated'}
FMF = {'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast', 'nuw', 'nsw', 'exact', 'inbounds', 'disjoint', 'nneg', 'samesign', 'nusw'}


class P:
    """token cursor"""
    def __init__(self, mod, toks): self.m = mod; self.t = toks; self.i = 0
    def peek(self, k=0): return self.t[self.i + k] if self.i + k < len(self.t) else None
    def next(self): x = self.t[self.i]; self.i += 1; return x
    def accept(self, x):
        if self.peek() == x: self.i += 1; return True
        return False
    def expect(self, x):
        if self.next() != x: raise Unsupported(f"IR: expected {x} in {' '.join(self.t)[:120]}")

    def ty(self):
        x = self.next()
        if x == 'ptr':
            t = PTR
            if self.peek() == 'addrspace': self.next(); self.skip_paren()
        elif x == 'void': t = VOID
        elif x in FP: t = FP[x]
        elif x[0] == 'i' and x[1:].isdigit(): t = INT(int(x[1:]))
        elif x == '[':
            n = int(self.next()); self.expect('x'); e = self.ty(); self.expect(']')
            t = Ty('arr', n, e)
        elif x == '{':
            es = []
            while not self.accept('}'):
                es.append(self.ty()); self.accept(',')
            t = Ty('struct', 0, es)
        elif x == '<':
            if self.accept('{'):
                es = []
                while not self.accept('}'): es.append(self.ty()); self.accept(',')
                self.expect('>')
                t = Ty('struct', 1, es)
            else:
                n = int(self.next()); self.expect('x'); e = self.ty(); self.expect('>')
                t = Ty('vec', n, e)
        elif x[0] == '%': t = self.m.named(x)
        elif x in ('label', 'metadata', 'token', 'opaque'): t = Ty(x)
        else: raise Unsupported(f"IR type {x}")
        while self.peek() == '(' and t.k in ('ptr', 'void', 'int', 'fp', 'struct', 'named') and self._fnty():
            self.skip_paren(); t = Ty('fn', 0, t)
        return t

    def _fnty(self):
        return self.peek() == '(' and self.allow_fn
    allow_fn = False

    def skip_paren(self):
        self.expect('('); d = 1
        while d:
            x = self.next()
            if x == '(': d += 1
            elif x == ')': d -= 1

    def attrs(self):
        while True:
            x = self.peek()
            if x in PATTRP:
                self.next()
                if x == 'align' and self.peek() != '(': self.next()
                elif self.peek() == '(': self.skip_paren()
            elif x in PATTR or (x and (x[0] == '#' or x[0] == '"')): self.next()
            else: return

    def value(self, t):
        """operand of type t -> ('r', name) | ('c', const) | ('g', name)…"""
        x = self.next()
        if x[0] == '%': return ('r', x)
        if x[0] == '@': return ('g', x)
        if x == 'null' or x == 'none': return ('c', 0)
        if x in ('undef', 'poison'): return ('c', UNDEF)
        if x == 'true': return ('c', 1)
        if x == 'false': return ('c', 0)
        if x == 'zeroinitializer': return ('z', t)
        if x.startswith('c"'): return ('s', cstr(x[2:-1]))
        if x in ('getelementptr', 'inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'sub', 'add', 'addrspacecast'):
            while self.peek() in FMF: self.next()
            if x == 'getelementptr':
                if self.peek() == 'inrange': self.next(); self.skip_paren()
                self.expect('('); bt = self.ty(); self.expect(',')
                self.ty(); b = self.value(PTR); idx = []
                while self.accept(','):
                    self.accept('inrange')
                    it = self.ty(); idx.append((it, self.value(it)))
                self.expect(')')
                return ('gep', bt, b, idx)
            self.expect('('); st = self.ty(); v = self.value(st)
            if x in ('sub', 'add'):
                self.expect(','); st2 = self.ty(); v2 = self.value(st2); self.expect(')')
                return ('bin', x, v, v2)
            self.expect('to'); self.ty(); self.expect(')')
            return v
        if x in ('[', '{', '<'):
            if x == '<' and self.peek() == '{': self.next(); close = ['}', '>']
            else: close = [{'[': ']', '{': '}', '<': '>'}[x]]
            es = []
            while self.peek() != close[0]:
                et = self.ty(); es.append((et, self.value(et))); self.accept(',')
            for c in close: self.expect(c)
            return ('agg', es)
        if t.k == 'fp':
            return ('c', fpconst(x, t))
        if x.startswith('dso_local_equivalent') or x == 'blockaddress': raise Unsupported(x)
        v = int(x)
        if t.k == 'int': v &= (1 << t.n) - 1
        return ('c', v)


def fpconst(x, t):
    if x.startswith('0x'):
        if x[2] in 'KLMHR': raise Unsupported("long double constant") if x[2] != 'K' else Unsupported("x86_fp80 constant")
        return F(struct.unpack('>d', int(x, 16).to_bytes(8, 'big'))[0])
    return F(float(x))


def cstr(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\': out.append(int(s[i + 1:i + 3], 16)); i += 3
        else: out.append(ord(s[i])); i += 1
    return bytes(out)


class Func:
    __slots__ = ('name', 'params', 'blocks', 'entry', 'src', 'ret', 'retty')


class Module:
    def __init__(self, text):
        self.types = {}; self.funcs = {}; self.decls = set(); self.globals = {}
        self.read(text)

    def named(self, x):
        t = self.types.get(x)
        if t is None: t = self.types[x] = Ty('named'); t.name = x
        return t

    def read(self, text):
        lines = text.split('\n'); i = 0; n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('%') and ' = type ' in l:
                toks = tokenize(l)
                t = self.named(toks[0])
                if toks[3] != 'opaque': t.e = P(self, toks[3:]).ty()
            elif l.startswith('@'):
                self.read_global(l)
            elif l.startswith('define'):
                body = []
                i += 1
                while lines[i] != '}': body.append(lines[i]); i += 1
                self.read_func(l, body)
            elif l.startswith('declare'):
                m = re.search(r'@("[^"]*"|[\w.$\-]+)\(', l)
                self.decls.add('@' + m.group(1))
            i += 1

    def read_global(self, l):
        toks = tokenize(l)
        p = P(self, toks); name = p.next(); p.expect('=')
        ext = False; tls = False
        while True:
            x = p.peek()
            if x in ('global', 'constant'): p.next(); break
            if x == 'alias' or x == 'ifunc':
                return
            if x in ('external', 'extern_weak', 'available_externally'): ext = True
            if x == 'thread_local': tls = True
            p.next()
            if p.peek() == '(': p.skip_paren()
        t = p.ty()
        init = None
        if not ext and p.peek() not in (None, ','):
            init = p.value(t)
        self.globals[name] = (t, init, ext, tls)

    def read_func(self, head, body):
        m = re.search(r'@("[^"]*"|[\w.$\-]+)\(', head)
        name = '@' + m.group(1)
        toks = tokenize(head[m.end() - 1:])
        p = P(self, toks)
        p.expect('(')
        params = []; k = 0
        while not p.accept(')'):
            if p.accept('...'): continue
            t = p.ty(); p.attrs()
            if p.peek() and p.peek()[0] == '%': params.append(p.next())
            else: params.append(f"%{k}")
            k += 1
            p.accept(',')
        f = Func(); f.name = name; f.params = params; f.src = body; f.blocks = None
        self.funcs[name] = f

    # sizes
    def layout(self, t):
        if t.size is not None: return t
        if t.k == 'named':
            if t.e is None: raise Unsupported(f"opaque type {t.name}")
            u = self.layout(t.e); t.size = u.size; t.align = u.align; t.offs = u.offs
        elif t.k == 'arr':
            e = self.layout(t.e); t.size = e.size * t.n; t.align = e.align
        elif t.k == 'vec':
            e = self.layout(t.e); t.size = e.size * t.n; t.align = t.size
        elif t.k == 'struct':
            o = 0; al = 1; offs = []
            for x in t.e:
                self.layout(x)
                if not t.n: o = -(-o // x.align) * x.align; al = max(al, x.align)
                offs.append(o); o += x.size
            t.offs = offs; t.align = al; t.size = -(-o // al) * al
        else: raise Unsupported(f"size of {t.k}")
        return t

    def struct(self, t):
        while t.k == 'named': t = t.e
        self.layout(t)
        return t

    # ---------------------------------------------------------------- function bodies
    def blocks(self, f):
        if f.blocks is not None: return f.blocks
        blocks = {}; order = []
        # default label number of the entry block = number of unnamed params
        cur = None
        joined = []
        for l in f.src:
            s = l.split(' ;')[0].rstrip() if ' ; preds' in l else l.rstrip()
            if not s.strip() or s.lstrip().startswith(';'): continue
            if s.startswith('    ') and joined and not re.match(r'^\s+(%|store|br|ret|switch)', s): joined[-1] += ' ' + s.strip()
            elif s.strip() == ']' and joined: joined[-1] += ' ]'
            else: joined.append(s)
        cont = []
        for s in joined:
            if cont and cont[-1].count('[') > cont[-1].count(']') and cont[-1].lstrip().startswith('switch'): cont[-1] += ' ' + s.strip()
            else: cont.append(s)
        for s in cont:
            if not s.startswith(' '):
                m = re.match(r'^("[^"]*"|[\w.$\-]+):', s)
                if m:
                    cur = '%' + m.group(1); blocks[cur] = []; order.append(cur); continue
            if cur is None:
                k = sum(1 for p in f.params if p[1:].isdigit())
                cur = f"%{k}" if 'entry' not in s else '%entry'
                blocks[cur] = []; order.append(cur)
            blocks[cur].append(s.strip())
        f.entry = order[0]
        f.blocks = blocks
        return blocks


MASK = {n: (1 << n) - 1 for n in (1, 8, 16, 32, 64, 128)}


def sgn(v, n):
    return v - (1 << n) if v >> (n - 1) & 1 else v


# ------------------------------------------------------------------ memory
SLOT = 26; GUARD = 1 << 24


class Obj:
    __slots__ = ('id', 'base', 'size', 'cells', 'name', 'live', 'ro', 'back', 'kind', 'zero', 'owner')


class Memory:
    def __init__(self):
        self.objs = [None]
        self.cur = 0             # running thread (0: the calling one)
        self.log = None          # accesses of the running thread while several are alive: {(object, offset, size, write, locks, atomic)}
        self.locks = frozenset(['GIL']); self.atomic = False

    def alloc(self, size, name, kind='heap', zero=False):
        if size > (1 << 25): raise Unsupported("large allocation")
        o = Obj(); o.id = len(self.objs); o.base = (o.id << SLOT) + GUARD; o.size = size; o.cells = {}; o.name = name
        o.live = True; o.ro = False; o.back = None; o.kind = kind; o.zero = zero
        o.owner = self.cur if kind in ('heap', 'stack', 'exc') else 0
        self.objs.append(o)
        return o

    def find(self, addr, size, what):
        if addr is UNDEF: raise UninitError(f"{what} through an uninitialised pointer")
        i = addr >> SLOT
        if i <= 0 or i >= len(self.objs): raise MemError(f"{what} through an invalid pointer ({addr:#x})" if addr else f"{what} through a null pointer")
        o = self.objs[i]
        off = addr - o.base
        if not o.live: raise MemError(f"{what} of freed memory ({o.name})")
        if off < 0 or off + size > o.size: raise MemError(f"{what} out of bounds: offset {off}, size {size} of {o.name} ({o.size} bytes)")
        if self.log is not None and (self.cur == 0 or o.owner != self.cur): self.log.add((i, off, size, what != 'read', self.locks, self.atomic))
        return o, off

    def load(self, addr, size, fp):
        o, off = self.find(addr, size, 'read')
        b = o.back
        if b is not None:
            return b.load(off, size, fp)
        c = o.cells.get(off)
        if c is not None and c[1] == size:
            v = c[0]
        elif c is None and o.zero and not self._overlap(o, off, size):
            v = 0
        else:
            v = self._bytes(o, off, size)
            if v is UNDEF: return UNDEF
        return conv(v, size, fp)

    def _overlap(self, o, off, size):
        for k in range(off - 15, off + size):
            c = o.cells.get(k)
            if c is not None and k + c[1] > off: return True
        return False

    def _bytes(self, o, off, size):
        out = bytearray()
        k = off
        while k < off + size:
            # find the cell covering k
            c = None
            for j in range(k, k - 17, -1):
                cc = o.cells.get(j)
                if cc is not None:
                    if j + cc[1] > k: c = cc
                    break
            if c is None:
                if o.zero: out.append(0); k += 1; continue
                return UNDEF
            v = c[0]
            if v is UNDEF: return UNDEF
            raw = tobytes(v, c[1])
            out.append(raw[k - j]); k += 1
        return int.from_bytes(out, 'little')

    def store(self, addr, v, size):
        o, off = self.find(addr, size, 'write')
        if o.ro: raise MemError(f"write to read-only {o.name}")
        b = o.back
        if b is not None:
            b.store(off, v, size); return
        cells = o.cells
        c = cells.get(off)
        if c is None or c[1] != size: self._clear(o, off, size)
        cells[off] = (v, size)

    def _clear(self, o, off, size):
        cells = o.cells
        if not cells: return
        for k in range(off - 15, off + size):
            c = cells.get(k)
            if c is None or k + c[1] <= off: continue
            if k >= off and k + c[1] <= off + size: del cells[k]; continue
            # partial overlap: split into bytes
            v = c[0]; del cells[k]
            raw = None if v is UNDEF else tobytes(v, c[1])
            for j in range(c[1]):
                if not (off <= k + j < off + size): cells[k + j] = (UNDEF if raw is None else raw[j], 1)

    def copy(self, dst, src, n):
        if n == 0: return
        so, soff = self.find(src, n, 'read'); do, doff = self.find(dst, n, 'write')
        if do.ro: raise MemError(f"write to read-only {do.name}")
        if so.back is not None or do.back is not None:
            if n % 8 == 0:
                vals = [self.load(src + k, 8, None) for k in range(0, n, 8)]
                for k, v in enumerate(vals): self.store(dst + 8 * k, v, 8)
            else:
                vals = [self.load(src + k, 1, None) for k in range(n)]
                for k, v in enumerate(vals): self.store(dst + k, v, 1)
            return
        items = []
        for k in list(so.cells):
            c = so.cells[k]
            if k >= soff and k + c[1] <= soff + n: items.append((k - soff, c))
            elif k < soff + n and k + c[1] > soff:
                raw = None if c[0] is UNDEF else tobytes(c[0], c[1])
                for j in range(c[1]):
                    if soff <= k + j < soff + n: items.append((k + j - soff, (UNDEF if raw is None else raw[j], 1)))
        covered = set()
        if so.zero:
            for k, c in items: covered.update(range(k, k + c[1]))
        lo, hi = doff, doff + n
        for k in [k for k in do.cells if k > lo - 16 and k < hi]:
            c = do.cells[k]
            if k + c[1] > lo: self._clear(do, max(k, lo), 1) if not (k >= lo and k + c[1] <= hi) else do.cells.pop(k)
        if do.zero:
            # bytes not copied must become undefined: only when the source leaves gaps
            if not so.zero and sum(c[1] for _, c in items) < n:
                have = set()
                for k, c in items: have.update(range(k, k + c[1]))
                for k in range(n):
                    if k not in have: do.cells[doff + k] = (UNDEF, 1)
        for k, c in items: do.cells[doff + k] = c
        if so.zero and len(covered) < n and not do.zero:
            for k in range(n):
                if k not in covered: do.cells[doff + k] = (0, 1)

    def set(self, dst, v, n):
        if n == 0: return
        o, off = self.find(dst, n, 'write')
        if v is UNDEF: raise UninitError("memset value")
        v &= 255
        if o.back is not None:
            for k in range(0, n, 8): self.store(dst + k, int.from_bytes(bytes([v] * 8), 'little'), 8)
            return
        for k in [k for k in o.cells if off - 16 < k < off + n]: self._clear(o, max(k, off), 1) if k < off and k + o.cells[k][1] > off else (o.cells.pop(k) if k >= off and k + o.cells[k][1] <= off + n else None)
        if v == 0 and off == 0 and n == o.size: o.cells.clear(); o.zero = True; return
        k = 0
        w = int.from_bytes(bytes([v] * 8), 'little')
        while k + 8 <= n: o.cells[off + k] = (w, 8); k += 8
        while k < n: o.cells[off + k] = (v, 1); k += 1

    def cstring(self, addr):
        out = bytearray()
        while True:
            c = self.load(addr, 1, None)
            if c is UNDEF: raise UninitError("string read past initialised bytes")
            if c == 0: return bytes(out)
            out.append(c); addr += 1


def tobytes(v, size):
    if isinstance(v, (SymReal, SymBool)): raise Unsupported("bytes of a symbolic value")
    if isinstance(v, (float, np.floating)):
        return struct.pack('<d', float(v)) if size == 8 else struct.pack('<f', float(v))
    if hasattr(v, 'as_cell'): raise Unsupported("bytes of an opaque cell")
    return (int(v) & ((1 << (8 * size)) - 1)).to_bytes(size, 'little')


def conv(v, size, fp):
    """cell value as the kind of register it is loaded into (fp: True/False/None=raw)"""
    if fp is None or v is UNDEF: return v
    if fp:
        if isinstance(v, (int, np.integer)) and not isinstance(v, (bool,)):
            raw = (int(v) & ((1 << (8 * size)) - 1)).to_bytes(size, 'little')
            return F(struct.unpack('<d' if size == 8 else '<f', raw)[0])
        return v
    if isinstance(v, (float, np.floating)): return v     # a double moved through an integer register
    return v


def as_int(v, n, what='integer'):
    if v is UNDEF: raise UninitError(what)
    if isinstance(v, (float, np.floating)): return int.from_bytes(struct.pack('<d', float(v)), 'little')
    if isinstance(v, SymBool): return int(bool(v))
    if isinstance(v, SymReal): raise Unsupported("integer operation on a symbolic double")
    return v


# ------------------------------------------------------------------ interpreter
class Interp:
    def __init__(self, mod, builtins=None):
        self.m = mod
        self.mem = Memory()
        self.gaddr = {}          # global name -> address
        self.addrf = {}          # function address -> name or python callable
        self.tls = {}            # (thread, global) -> address
        self.thread = 0
        self.steps = 0; self.max_steps = 3_000_000
        self.builtins = dict(BUILTINS)
        if builtins: self.builtins.update(builtins)
        self.intercepts = []     # (regex, python function)
        self._ic = {}; self.code = {}
        self.called = set()
        self.depth = 0
        self.extglobals = {}

    # ---- globals
    def gref(self, name):
        a = self.gaddr.get(name)
        if a is not None: return a
        if name in self.m.funcs or name in self.m.decls:
            o = self.mem.alloc(1, 'function ' + name, 'fn'); self.gaddr[name] = o.base; self.addrf[o.base] = name
            return o.base
        if name not in self.m.globals: raise Unsupported(f"unknown global {name}")
        t, init, ext, tls = self.m.globals[name]
        if ext:
            if name in self.extglobals: a = self.extglobals[name](self)
            else: a = self.mem.alloc(4096, name, 'ext').base
            self.gaddr[name] = a
            return a
        if tls:
            k = (self.thread, name)
            if k in self.tls: return self.tls[k]
        self.m.layout(t)
        o = self.mem.alloc(t.size, name, 'global')
        if tls: self.tls[(self.thread, name)] = o.base
        else: self.gaddr[name] = o.base
        if init is None: o.zero = True
        else: self.init(o, 0, t, init)
        return o.base

    def init(self, o, off, t, v):
        k = v[0]
        while t.k == 'named': t = t.e
        self.m.layout(t)
        if k == 'z':
            if off == 0 and t.size == o.size: o.zero = True
            else: self.mem.set(o.base + off, 0, t.size)
        elif k == 's':
            for i, b in enumerate(v[1]): o.cells[off + i] = (b, 1)
        elif k == 'agg':
            if t.k == 'struct':
                for (et, ev), eo in zip(v[1], t.offs): self.init(o, off + eo, et, ev)
            else:
                es = self.m.layout(t.e).size
                for i, (et, ev) in enumerate(v[1]): self.init(o, off + i * es, et, ev)
        else:
            if t.k == 'struct' and k == 'c': o.cells[off] = (0, t.size); return
            o.cells[off] = (self.const(v, t), t.size)

    def const(self, v, t):
        k = v[0]
        if k == 'c': return v[1]
        if k == 'g': return self.gref(v[1])
        if k == 'z':
            return self.zero(t)
        if k == 'gep':
            b = self.const(v[2], PTR)
            return self.gep_const(v[1], b, [(it, self.const(x, it)) for it, x in v[3]])
        if k == 'bin':
            a, b = self.const(v[2], t), self.const(v[3], t)
            return (a + b if v[1] == 'add' else a - b) & MASK[64]
        if k == 'agg': return [self.const(x, et) for et, x in v[1]]
        raise Unsupported(f"constant {k}")

    def zero(self, t):
        while t.k == 'named': t = t.e
        if t.k == 'struct': return [self.zero(x) for x in t.e]
        if t.k in ('arr', 'vec'): return [self.zero(t.e) for _ in range(t.n)]
        if t.k == 'fp': return F(0.0)
        return 0

    def gep_const(self, bt, b, idx):
        off = 0; t = bt
        for j, (it, v) in enumerate(idx):
            if j == 0: off += self.m.layout(t).size * sgn(v & MASK[it.n], it.n)
            else:
                while t.k == 'named': t = t.e
                self.m.layout(t)
                if t.k == 'struct': off += t.offs[v]; t = t.e[v]
                else: t = t.e; off += self.m.layout(t).size * sgn(v & MASK[it.n], it.n)
        return b + off

    # ---- calls
    def call_addr(self, addr, args):
        if addr is UNDEF: raise UninitError("call through uninitialised pointer")
        f = self.addrf.get(addr)
        if f is None: raise MemError(f"call through an invalid function pointer ({addr:#x})")
        if callable(f): return f(self, *args)
        return self.call(f, args)

    def call(self, name, args):
        ic = self._ic.get(name, 0)
        if ic == 0:
            ic = None
            for rx, g in self.intercepts:
                if rx.search(name): ic = g; break
            self._ic[name] = ic
        if ic is not None: return ic(self, *args)
        f = self.m.funcs.get(name)
        if f is None:
            b = self.builtins.get(name[1:].strip('"'))
            if b is None:
                for pre, g in PREFIX:
                    if name.startswith('@' + pre): b = g; break
            if b is None: raise Unsupported(f"external function {name}")
            return b(self, *args)
        if name not in self.code: self.compile(f)
        self.called.add(name)
        self.depth += 1
        if self.depth > 400: self.depth = 0; raise MemError("unbounded recursion in compiled code")
        try: return self.run(f, args)
        finally: self.depth -= 1

    def run(self, f, args):
        code = self.code[f.name]
        fr = {}
        for p, a in zip(f.params, args): fr[p] = a
        if len(args) > len(f.params): fr['...'] = args[len(f.params):]
        cur = f.entry; prev = None
        stack = []
        fr['#stack'] = stack
        try:
            while True:
                phis, body, term = code[cur]
                if phis:
                    vals = [g(fr, prev) for _, g in phis]
                    for (d, _), v in zip(phis, vals): fr[d] = v
                self.steps += len(body) + 1
                if self.steps > self.max_steps: raise Unsupported("instruction limit in compiled code")
                for op in body: op(fr)
                r = term(fr)
                if r.__class__ is tuple: return r[0]
                prev, cur = cur, r
        finally:
            for o in stack: o.live = False

    # ---- compilation of one function into closures
    def compile(self, f):
        code = {}
        for lab, lines in self.m.blocks(f).items():
            phis = []; body = []; term = None
            for l in lines:
                toks = tokenize(strip_meta(l))
                k, g = self.instr(toks, lab)
                if k == 'phi': phis.append(g)
                elif k == 'op': body.append(g)
                elif k == 'term': term = g
            if term is None: raise Unsupported(f"block without terminator in {f.name}")
            code[lab] = (phis, body, term)
        self.code[f.name] = code

    def opnd(self, v, t):
        k = v[0]
        if k == 'r':
            n = v[1]
            return lambda fr: fr[n]
        if k == 'c':
            c = v[1]
            return lambda fr: c
        if k == 'g' and v[1] in self.m.globals and self.m.globals[v[1]][3]:
            return lambda fr: self.gref(v[1])
        cell = []
        def g(fr):
            if not cell: cell.append(self.const(v, t))
            return cell[0]
        return g

    def instr(self, toks, lab):
        p = P(self.m, toks)
        dst = None
        if p.peek()[0] == '%' and p.peek(1) == '=':
            dst = p.next(); p.next()
        op = p.next()
        while op in ('tail', 'musttail', 'notail'): op = p.next()
        fn = getattr(self, 'i_' + op, None)
        if fn is None: raise Unsupported(f"LLVM instruction {op}")
        return fn(p, dst)

    def skipf(self, p):
        while p.peek() in FMF: p.next()

    def tv(self, p):
        t = p.ty(); p.attrs()
        return t, self.opnd(p.value(t), t)

    # integer arithmetic
    def _ibin(self, p, dst, f):
        self.skipf(p)
        t = p.ty(); a = self.opnd(p.value(t), t); p.expect(','); b = self.opnd(p.value(t), t)
        if t.k == 'vec': raise Unsupported("vector instruction")
        n = t.n; mask = (1 << n) - 1
        if n == 1:
            def g(fr):
                x, y = a(fr), b(fr)
                if isinstance(x, SymBool) or isinstance(y, SymBool): fr[dst] = f(x, y, 1)
                else: fr[dst] = f(as_int(x, 1), as_int(y, 1), n) & 1
            return 'op', g
        def g(fr):
            x = a(fr); y = b(fr)
            if x.__class__ is not int: x = as_int(x, n)
            if y.__class__ is not int: y = as_int(y, n)
            fr[dst] = f(x, y, n) & mask
        return 'op', g
    def i_add(self, p, d): return self._ibin(p, d, lambda x, y, n: x + y)
    def i_sub(self, p, d): return self._ibin(p, d, lambda x, y, n: x - y)
    def i_mul(self, p, d): return self._ibin(p, d, lambda x, y, n: x * y)
    def i_and(self, p, d): return self._ibin(p, d, _and)
    def i_or(self, p, d): return self._ibin(p, d, _or)
    def i_xor(self, p, d): return self._ibin(p, d, _xor)
    def i_shl(self, p, d): return self._ibin(p, d, lambda x, y, n: x << y if y < n else 0)
    def i_lshr(self, p, d): return self._ibin(p, d, lambda x, y, n: x >> y if y < n else 0)
    def i_ashr(self, p, d): return self._ibin(p, d, lambda x, y, n: sgn(x, n) >> y)
    def i_udiv(self, p, d): return self._ibin(p, d, lambda x, y, n: x // y if y else _trap("division by zero"))
    def i_urem(self, p, d): return self._ibin(p, d, lambda x, y, n: x % y if y else _trap("remainder by zero"))
    def i_sdiv(self, p, d): return self._ibin(p, d, lambda x, y, n: _sdiv(sgn(x, n), sgn(y, n)))
    def i_srem(self, p, d): return self._ibin(p, d, lambda x, y, n: _srem(sgn(x, n), sgn(y, n)))

    # floating point
    def _fbin(self, p, dst, f):
        self.skipf(p)
        t = p.ty(); a = self.opnd(p.value(t), t); p.expect(','); b = self.opnd(p.value(t), t)
        if t.k == 'vec': raise Unsupported("vector instruction")
        def g(fr):
            x = a(fr); y = b(fr)
            if x is UNDEF or y is UNDEF: raise UninitError("floating-point operand")
            fr[dst] = f(_fpv(x), _fpv(y))
        return 'op', g
    def i_fadd(self, p, d): return self._fbin(p, d, lambda x, y: x + y)
    def i_fsub(self, p, d): return self._fbin(p, d, lambda x, y: x - y)
    def i_fmul(self, p, d): return self._fbin(p, d, lambda x, y: x * y)
    def i_fdiv(self, p, d): return self._fbin(p, d, lambda x, y: x / y)
    def i_frem(self, p, d): return self._fbin(p, d, lambda x, y: F(math.fmod(x, y)))
    def i_fneg(self, p, dst):
        self.skipf(p); t, a = self.tv(p)
        def g(fr): fr[dst] = -_fpv(a(fr))
        return 'op', g

    def i_icmp(self, p, dst):
        while p.peek() in ('samesign',): p.next()
        pred = p.next(); t = p.ty(); a = self.opnd(p.value(t), t); p.expect(','); b = self.opnd(p.value(t), t)
        n = 64 if t.k == 'ptr' else t.n
        if t.k == 'vec': raise Unsupported("vector instruction")
        f = ICMP[pred]; signed = pred[0] == 's'
        def g(fr):
            x = a(fr); y = b(fr)
            if x.__class__ is not int: x = as_int(x, n)
            if y.__class__ is not int: y = as_int(y, n)
            if signed: x = sgn(x, n); y = sgn(y, n)
            fr[dst] = 1 if f(x, y) else 0
        return 'op', g

    def i_fcmp(self, p, dst):
        self.skipf(p)
        pred = p.next(); t = p.ty(); a = self.opnd(p.value(t), t); p.expect(','); b = self.opnd(p.value(t), t)
        if t.k == 'vec': raise Unsupported("vector instruction")
        def g(fr):
            x = a(fr); y = b(fr)
            if x is UNDEF or y is UNDEF: raise UninitError("floating-point comparison")
            fr[dst] = fcmp(pred, _fpv(x), _fpv(y))
        return 'op', g

    # casts
    def _cast(self, p, dst, f):
        self.skipf(p)
        t = p.ty(); v = self.opnd(p.value(t), t); p.expect('to'); u = p.ty()
        if t.k == 'vec': raise Unsupported("vector instruction")
        def g(fr): fr[dst] = f(v(fr), t, u)
        return 'op', g
    def i_zext(self, p, d): return self._cast(p, d, lambda v, t, u: as_int(v, t.n))
    def i_sext(self, p, d): return self._cast(p, d, lambda v, t, u: sgn(as_int(v, t.n), t.n) & ((1 << u.n) - 1))
    def i_trunc(self, p, d): return self._cast(p, d, lambda v, t, u: as_int(v, t.n) & ((1 << u.n) - 1))
    def i_ptrtoint(self, p, d): return self._cast(p, d, lambda v, t, u: v)
    def i_inttoptr(self, p, d): return self._cast(p, d, lambda v, t, u: v)
    def i_bitcast(self, p, d): return self._cast(p, d, lambda v, t, u: conv(v, 8, True) if u.k == 'fp' else v)
    def i_addrspacecast(self, p, d): return self._cast(p, d, lambda v, t, u: v)
    def i_fpext(self, p, d): return self._cast(p, d, lambda v, t, u: v)
    def i_fptrunc(self, p, d): return self._cast(p, d, lambda v, t, u: _fptrunc(v, u))
    def i_sitofp(self, p, d): return self._cast(p, d, lambda v, t, u: F(sgn(as_int(v, t.n), t.n)))
    def i_uitofp(self, p, d): return self._cast(p, d, lambda v, t, u: F(as_int(v, t.n)))
    def i_fptosi(self, p, d): return self._cast(p, d, _fptoi)
    def i_fptoui(self, p, d): return self._cast(p, d, _fptoi)
    def i_freeze(self, p, dst):
        t, v = self.tv(p)
        def g(fr): fr[dst] = v(fr)
        return 'op', g

    # memory
    def i_alloca(self, p, dst):
        p.accept('inalloca')
        t = p.ty(); cnt = None
        if p.accept(',') and p.peek() != 'align':
            ct = p.ty(); cnt = self.opnd(p.value(ct), ct)
        self.m.layout(t); sz = t.size
        def g(fr):
            o = self.mem.alloc(sz * (cnt(fr) if cnt else 1), 'stack ' + dst, 'stack')
            fr['#stack'].append(o); fr[dst] = o.base
        return 'op', g

    def i_load(self, p, dst):
        at = p.accept('atomic'); p.accept('volatile')
        t = p.ty(); p.expect(','); p.ty(); a = self.opnd(p.value(PTR), PTR)
        while t.k == 'named': t = t.e
        if t.k in ('struct', 'arr', 'vec'):
            return 'op', lambda fr: fr.__setitem__(dst, self.load_agg(a(fr), t))
        sz = t.size if t.size is not None else self.m.layout(t).size
        fp = True if t.k == 'fp' else False
        i1 = t.k == 'int' and t.n == 1
        mem = self.mem
        if at: return 'op', lambda fr: fr.__setitem__(dst, self.atomically(lambda: mem.load(a(fr), sz, fp)))
        def g(fr):
            v = mem.load(a(fr), sz, fp)
            fr[dst] = v
        return 'op', g

    def atomically(self, f):
        self.mem.atomic = True
        try: return f()
        finally: self.mem.atomic = False

    def load_agg(self, addr, t):
        while t.k == 'named': t = t.e
        self.m.layout(t)
        if t.k == 'struct': return [self.load_agg(addr + o, x) for o, x in zip(t.offs, t.e)]
        if t.k in ('arr', 'vec'): return [self.load_agg(addr + i * self.m.layout(t.e).size, t.e) for i in range(t.n)]
        return self.mem.load(addr, t.size, t.k == 'fp')

    def store_agg(self, addr, t, v):
        while t.k == 'named': t = t.e
        self.m.layout(t)
        if t.k == 'struct':
            for o, x, y in zip(t.offs, t.e, v): self.store_agg(addr + o, x, y)
        elif t.k in ('arr', 'vec'):
            for i in range(t.n): self.store_agg(addr + i * self.m.layout(t.e).size, t.e, v[i])
        else: self.mem.store(addr, v, t.size)

    def i_store(self, p, dst):
        at = p.accept('atomic'); p.accept('volatile')
        t = p.ty(); v = self.opnd(p.value(t), t); p.expect(','); p.ty(); a = self.opnd(p.value(PTR), PTR)
        while t.k == 'named': t = t.e
        if t.k in ('struct', 'arr', 'vec'):
            return 'op', lambda fr: self.store_agg(a(fr), t, v(fr) if v(fr) is not UNDEF else self.zero(t))
        sz = t.size; mem = self.mem
        def g(fr):
            x = v(fr)
            if isinstance(x, SymBool): x = int(bool(x))
            mem.store(a(fr), x, sz)
        if at: return 'op', lambda fr: self.atomically(lambda: g(fr))
        return 'op', g

    def i_getelementptr(self, p, dst):
        while p.peek() in FMF: p.next()
        if p.peek() == 'inrange': p.next(); p.skip_paren()
        bt = p.ty(); p.expect(','); p.ty(); b = self.opnd(p.value(PTR), PTR)
        const = 0; dyn = []
        t = bt; first = True
        while p.accept(','):
            it = p.ty()
            if it.k == 'vec': raise Unsupported("vector gep")
            v = p.value(it)
            if first:
                sz = self.m.layout(t).size; first = False
            else:
                while t.k == 'named': t = t.e
                self.m.layout(t)
                if t.k == 'struct':
                    const += t.offs[v[1]]; t = t.e[v[1]]; continue
                t = t.e; sz = self.m.layout(t).size
            if v[0] == 'c': const += sz * sgn(v[1], it.n)
            else: dyn.append((self.opnd(v, it), sz, it.n))
        if not dyn:
            def g(fr):
                x = b(fr)
                if x is UNDEF: raise UninitError("pointer")
                fr[dst] = x + const
        elif len(dyn) == 1:
            i0, sz, n = dyn[0]
            def g(fr):
                x = b(fr); i = i0(fr)
                if x is UNDEF or i is UNDEF: raise UninitError("pointer arithmetic")
                if i.__class__ is not int: i = as_int(i, n)
                fr[dst] = (x + const + sz * sgn(i, n)) & MASK[64]
        else:
            def g(fr):
                x = b(fr) + const
                for i0, sz, n in dyn: x += sz * sgn(as_int(i0(fr), n), n)
                fr[dst] = x & MASK[64]
        return 'op', g

    def i_cmpxchg(self, p, dst):
        while p.peek() in ('weak', 'volatile'): p.next()
        p.ty(); a = self.opnd(p.value(PTR), PTR); p.expect(','); t = p.ty(); c = self.opnd(p.value(t), t); p.expect(','); p.ty(); nv = self.opnd(p.value(t), t)
        sz = t.size
        def g(fr):
            o = self.mem.load(a(fr), sz, False); eq = o == c(fr)
            if eq: self.mem.store(a(fr), nv(fr), sz)
            fr[dst] = [o, 1 if eq else 0]
        return 'op', lambda fr: self.atomically(lambda: g(fr))

    def i_atomicrmw(self, p, dst):
        p.accept('volatile')
        op = p.next(); p.ty(); a = self.opnd(p.value(PTR), PTR); p.expect(','); t = p.ty(); v = self.opnd(p.value(t), t)
        sz = t.size; n = t.n
        fs = {'add': lambda o, x: o + x, 'sub': lambda o, x: o - x, 'xchg': lambda o, x: x, 'and': lambda o, x: o & x, 'or': lambda o, x: o | x, 'xor': lambda o, x: o ^ x}
        if op not in fs: raise Unsupported(f"atomicrmw {op}")
        def g(fr):
            o = self.mem.load(a(fr), sz, False)
            self.mem.store(a(fr), fs[op](o, v(fr)) & ((1 << n) - 1), sz); fr[dst] = o
        return 'op', lambda fr: self.atomically(lambda: g(fr))
    def i_fence(self, p, dst): return 'op', (lambda fr: None)

    # aggregates
    def i_extractvalue(self, p, dst):
        t = p.ty(); v = self.opnd(p.value(t), t); idx = []
        while p.accept(','): idx.append(int(p.next()))
        def g(fr):
            x = v(fr)
            for i in idx:
                if x is UNDEF: break
                x = x[i]
            fr[dst] = x
        return 'op', g
    def i_insertvalue(self, p, dst):
        t = p.ty(); v = self.opnd(p.value(t), t); p.expect(','); et = p.ty(); e = self.opnd(p.value(et), et); idx = []
        while p.accept(','): idx.append(int(p.next()))
        tt = t
        def blank(t):
            while t.k == 'named': t = t.e
            if t.k == 'struct': return [blank(x) for x in t.e]
            if t.k in ('arr', 'vec'): return [blank(t.e) for _ in range(t.n)]
            return UNDEF
        def cp(x): return [cp(y) for y in x] if isinstance(x, list) else x
        def g(fr):
            x = v(fr)
            x = blank(tt) if x is UNDEF else cp(x)
            y = x
            for i in idx[:-1]: y = y[i]
            y[idx[-1]] = e(fr); fr[dst] = x
        return 'op', g

    def i_select(self, p, dst):
        self.skipf(p)
        ct = p.ty(); c = self.opnd(p.value(ct), ct); p.expect(','); t = p.ty(); a = self.opnd(p.value(t), t); p.expect(','); p.ty(); b = self.opnd(p.value(t), t)
        if ct.k == 'vec': raise Unsupported("vector instruction")
        def g(fr):
            x = c(fr)
            if x is UNDEF: raise UninitError("select condition")
            fr[dst] = a(fr) if x else b(fr)
        return 'op', g

    def i_phi(self, p, dst):
        self.skipf(p)
        t = p.ty(); m = {}
        while True:
            p.expect('['); v = self.opnd(p.value(t), t); p.expect(','); l = p.next(); p.expect(']')
            m[l] = v
            if not p.accept(','): break
        def g(fr, prev): return m[prev](fr)
        return 'phi', (dst, g)

    # control
    def i_br(self, p, dst):
        if p.accept('label'):
            l = p.next()
            return 'term', lambda fr: l
        p.ty(); c = self.opnd(p.value(INT(1)), INT(1)); p.expect(','); p.expect('label'); a = p.next(); p.expect(','); p.expect('label'); b = p.next()
        def g(fr):
            x = c(fr)
            if x is UNDEF: raise UninitError("branch on uninitialised value")
            return a if x else b
        return 'term', g

    def i_switch(self, p, dst):
        t = p.ty(); v = self.opnd(p.value(t), t); p.expect(','); p.expect('label'); d = p.next(); p.expect('[')
        m = {}
        while not p.accept(']'):
            it = p.ty(); c = p.value(it)[1]; p.expect(','); p.expect('label'); m[c] = p.next()
        def g(fr):
            x = as_int(v(fr), t.n)
            return m.get(x, d)
        return 'term', g

    def i_ret(self, p, dst):
        t = p.ty()
        if t.k == 'void': return 'term', lambda fr: (None,)
        v = self.opnd(p.value(t), t)
        return 'term', lambda fr: (v(fr),)

    def i_unreachable(self, p, dst):
        def g(fr): raise MemError("unreachable code reached (undefined behaviour)")
        return 'term', g

    def callee(self, p):
        """parse '[cc] [attrs] ty callee(args)' -> callable(fr) performing the call"""
        while p.peek() in ('fastcc', 'coldcc', 'ccc') or p.peek() in FMF: p.next()
        p.attrs()
        t = p.ty()
        if p.peek() == '(' :      # function type
            p.skip_paren()
        x = p.next()
        p.expect('(')
        args = []
        while not p.accept(')'):
            at = p.ty()
            if at.k == 'metadata':
                while p.peek() not in (',', ')'):
                    if p.peek() == '(': p.skip_paren()
                    else: p.next()
                args.append(lambda fr: None); p.accept(','); continue
            p.attrs()
            args.append(self.opnd(p.value(at), at)); p.accept(',')
        if x[0] == '@':
            if x.startswith('@llvm.lifetime') or x.startswith('@llvm.dbg') or x in ('@llvm.assume', '@llvm.experimental.noalias.scope.decl', '@llvm.donothing') or x.startswith('@llvm.invariant'):
                return lambda fr: None
            return lambda fr: self.call(x, [a(fr) for a in args])
        if x == 'asm': raise Unsupported("inline assembly")
        return lambda fr: self.call_addr(fr[x], [a(fr) for a in args])

    def i_call(self, p, dst):
        c = self.callee(p)
        if dst is None: return 'op', c
        def g(fr): fr[dst] = c(fr)
        return 'op', g

    def i_invoke(self, p, dst):
        c = self.callee(p)
        while p.peek() != 'to': p.next()
        p.expect('to'); p.expect('label'); ok = p.next(); p.expect('unwind'); p.expect('label'); bad = p.next()
        def g(fr):
            try:
                v = c(fr)
            except CppThrow as e:
                fr['#exc'] = e
                return bad
            if dst is not None: fr[dst] = v
            return ok
        return 'term', g

    def i_landingpad(self, p, dst):
        p.ty()
        clauses = []
        while p.peek() is not None:
            x = p.next()
            if x == 'catch': p.ty(); clauses.append(p.value(PTR))
        def g(fr):
            e = fr['#exc']
            fr[dst] = [self.exc_handle(e), 1 if clauses else 0]
            fr['#cur'] = e
        return 'op', g

    def exc_handle(self, e):
        if not getattr(self, 'excs', None): self.excs = {}
        for k, v in self.excs.items():
            if v is e: return k
        o = self.mem.alloc(64, 'exception', 'exc'); self.excs[o.base] = e
        return o.base

    def i_resume(self, p, dst):
        t = p.ty(); v = self.opnd(p.value(t), t)
        def g(fr): raise self.excs[v(fr)[0]]
        return 'term', g


def strip_meta(l):
    """drop trailing ', !tbaa !5' and attribute-group references"""
    i = l.find(', !')
    if i >= 0 and '"' not in l[i:]: l = l[:i]
    i = l.find(', !')
    if i >= 0: l = re.sub(r', ![\w.]+ ![\w.]+', '', l)
    return l


def _trap(m): raise MemError(m)
def _sdiv(a, b):
    if b == 0: _trap("division by zero")
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q
def _srem(a, b):
    if b == 0: _trap("remainder by zero")
    return a - b * _sdiv(a, b)
def _sb(x): return bool(x) if not isinstance(x, SymBool) else x
def _and(x, y, n):
    if n == 1 and (isinstance(x, SymBool) or isinstance(y, SymBool)): return s_and(_sb(x), _sb(y))
    return x & y
def _or(x, y, n):
    if n == 1 and (isinstance(x, SymBool) or isinstance(y, SymBool)): return s_or(_sb(x), _sb(y))
    return x | y
def _xor(x, y, n):
    if n == 1 and (isinstance(x, SymBool) or isinstance(y, SymBool)):
        if not isinstance(y, SymBool): return s_not(x) if y else x
        if not isinstance(x, SymBool): return s_not(y) if x else y
        return bool(x) != bool(y)
    return x ^ y


def _fpv(x):
    if x.__class__ is SymReal or x.__class__ is F: return x
    if isinstance(x, SymReal): return x
    if isinstance(x, (int, np.integer)) and not isinstance(x, bool): return conv(x, 8, True)
    return F(x)


def _fptrunc(v, u):
    if isinstance(v, SymReal): raise Unsupported("rounding a symbolic double to float")
    return F(np.float32(v)) if u.size == 4 else v


def _fptoi(v, t, u):
    if v is UNDEF: raise UninitError("conversion to integer")
    if isinstance(v, SymReal): return core.s_trunc(v) & ((1 << u.n) - 1)
    if v != v or abs(v) == math.inf: raise MemError("conversion of a non-finite double to an integer (undefined behaviour)")
    return int(v) & ((1 << u.n) - 1)


ICMP = {'eq': lambda x, y: x == y, 'ne': lambda x, y: x != y, 'ugt': lambda x, y: x > y, 'uge': lambda x, y: x >= y, 'ult': lambda x, y: x < y, 'ule': lambda x, y: x <= y,
        'sgt': lambda x, y: x > y, 'sge': lambda x, y: x >= y, 'slt': lambda x, y: x < y, 'sle': lambda x, y: x <= y}


def fcmp(pred, x, y):
    if pred == 'true': return 1
    if pred == 'false': return 0
    nan = (not isinstance(x, SymReal) and x != x) or (not isinstance(y, SymReal) and y != y)
    if pred == 'ord': return 0 if nan else 1
    if pred == 'uno': return 1 if nan else 0
    if nan: return 1 if pred[0] == 'u' else 0
    o = pred[1:]
    r = {'eq': lambda: x == y, 'ne': lambda: x != y, 'gt': lambda: x > y, 'ge': lambda: x >= y, 'lt': lambda: x < y, 'le': lambda: x <= y}[o]()
    return r if isinstance(r, SymBool) else (1 if r else 0)


# ------------------------------------------------------------------ C / C++ runtime
def _m1(sym, real):
    def f(I, x):
        if x is UNDEF: raise UninitError("argument of a math function")
        x = _fpv(x)
        if isinstance(x, SymReal): return sym(x)
        with np.errstate(all='ignore'): return F(real(x))
    return f


def b_pow(I, x, y):
    if x is UNDEF or y is UNDEF: raise UninitError("pow")
    x, y = _fpv(x), _fpv(y)
    if isinstance(x, SymReal) or isinstance(y, SymReal):
        return core.s_pow(x, y)
    with np.errstate(all='ignore'): return F(np.power(x, y))


def b_log(x):
    if core.p_sign(x.p) == 1: return core.s_log(x)
    if bool(x > 0): return core.s_log(x)
    return F('-inf') if bool(x == 0) else F('nan')


def b_sqrt(x):
    if core.p_nonneg(x.p): return core.s_sqrt(x)
    return core.s_sqrt(x) if bool(x >= 0) else F('nan')


def b_new(I, n, *a):
    if n is UNDEF: raise UninitError("allocation size")
    if n >= 1 << 40: raise CppThrow('std::bad_alloc')
    return I.mem.alloc(n, f"heap block of {n} bytes", 'heap').base


def b_delete(I, p, *a):
    if p is UNDEF: raise UninitError("delete")
    if p == 0: return
    i = p >> SLOT
    if not 0 < i < len(I.mem.objs): raise MemError("delete of an invalid pointer")
    o = I.mem.objs[i]
    if o.kind != 'heap' or o.base != p: raise MemError(f"delete of a pointer that was not allocated ({o.name})")
    if not o.live: raise MemError("double delete")
    if o.size: I.mem.find(p, o.size, 'delete')
    o.live = False


def b_strlen(I, p): return len(I.mem.cstring(p))
def b_strcmp(I, a, b):
    x, y = I.mem.cstring(a), I.mem.cstring(b)
    return (0 if x == y else 1 if x > y else -1) & MASK[32]
def b_strnlen(I, p, n):
    k = 0
    while k < n:
        c = I.mem.load(p + k, 1, None)
        if c is UNDEF: raise UninitError("strnlen")
        if c == 0: break
        k += 1
    return k
def b_memcmp(I, a, b, n):
    for k in range(n):
        x, y = I.mem.load(a + k, 1, None), I.mem.load(b + k, 1, None)
        if x is UNDEF or y is UNDEF: raise UninitError("memcmp")
        if x != y: return (1 if x > y else -1) & MASK[32]
    return 0
def b_strncmp(I, a, b, n):
    for k in range(n):
        x, y = I.mem.load(a + k, 1, None), I.mem.load(b + k, 1, None)
        if x is UNDEF or y is UNDEF: raise UninitError("strncmp")
        if x != y: return (1 if x > y else -1) & MASK[32]
        if x == 0: return 0
    return 0
def b_throw(what):
    def f(I, *a): raise CppThrow(what)
    return f
def b_memcpy(I, d, s, n, *a): I.mem.copy(d, s, n); return d
def b_memset(I, d, v, n, *a): I.mem.set(d, v, n); return d
def b_calloc(I, n, m): return I.mem.alloc(n * m, f"heap block of {n*m} bytes", 'heap', zero=True).base
def b_rethrow(I, *a): raise I.catching[-1]
def b_begin_catch(I, p):
    if not hasattr(I, 'catching'): I.catching = []
    I.catching.append(I.excs[p]); return p
def b_end_catch(I):
    I.catching.pop()
def b_terminate(I, *a): raise MemError("std::terminate called (process aborts)")
def b_fmax(I, x, y):
    x, y = _fpv(x), _fpv(y)
    if not isinstance(x, SymReal) and x != x: return y
    if not isinstance(y, SymReal) and y != y: return x
    return core.s_max(x, y)
def b_fmin(I, x, y):
    x, y = _fpv(x), _fpv(y)
    if not isinstance(x, SymReal) and x != x: return y
    if not isinstance(y, SymReal) and y != y: return x
    return core.s_min(x, y)
def b_fpclass(I, x, mask):
    x = _fpv(x)
    if isinstance(x, SymReal):
        full_finite = 0x1F8
        if mask & full_finite == full_finite: return 1
        if mask & full_finite == 0: return 0
        raise Unsupported("is.fpclass")
    if x != x: return 1 if mask & 3 else 0
    if x == math.inf: return 1 if mask & 0x200 else 0
    if x == -math.inf: return 1 if mask & 4 else 0
    if mask & 0x1F8 == 0x1F8: return 1
    if mask & 0x1F8 == 0: return 0
    raise Unsupported("is.fpclass")


def _fma(I, a, b, c): return _fpv(a) * _fpv(b) + _fpv(c)
def _powi(I, a, n): return core.s_pow(_fpv(a), sgn(n, 32)) if isinstance(a, SymReal) else F(_fpv(a) ** sgn(n, 32))


def _exp2(x): return core.s_pow(F(2.0), x)
def _round(x): return math.copysign(math.floor(abs(x) + 0.5), x) if math.isfinite(x) else x


def _beyond(n):
    def f(x): raise Unsupported(f"{n} of a symbolic value")
    return f


def _m2(real):
    def f(I, a, b):
        if a is UNDEF or b is UNDEF: raise UninitError("argument of a math function")
        a, b = _fpv(a), _fpv(b)
        if isinstance(a, SymReal) or isinstance(b, SymReal): raise Unsupported(f"{real.__name__} of a symbolic value")
        try: return F(real(a, b))
        except ValueError: return F('nan')
    return f


def _ldexp(I, x, n):
    n = sgn(n, 32); x = _fpv(x)
    return x * F(2.0 ** n) if isinstance(x, SymReal) else F(math.ldexp(x, n))


def _fdim(a, b): return a - b if bool(a > b) else F(0.0)


def _copysign(I, a, b):
    a, b = _fpv(a), _fpv(b)
    if not isinstance(a, SymReal) and not isinstance(b, SymReal): return F(math.copysign(a, b))
    if isinstance(b, SymReal): return abs(a) if bool(b >= 0) else -abs(a)
    return abs(a) if math.copysign(1.0, b) > 0 else -abs(a)


def _toint(a, f):
    a = _fpv(a)
    if isinstance(a, SymReal): raise Unsupported("rounding of a symbolic value to an integer")
    return int(f(a)) & MASK[64]


BUILTINS = {
    'log': _m1(b_log, np.log), 'exp': _m1(core.s_exp, np.exp), 'sqrt': _m1(b_sqrt, np.sqrt), 'pow': b_pow,
    'log2': _m1(lambda x: b_log(x) / math.log(2), np.log2), 'log10': _m1(lambda x: b_log(x) / math.log(10), np.log10), 'log1p': _m1(lambda x: b_log(1.0 + x), np.log1p),
    'expm1': _m1(lambda x: core.s_exp(x) - 1.0, np.expm1), 'fabs': _m1(abs, np.abs), 'ceil': _m1(lambda x: F(core.s_ceil_int(x)), np.ceil), 'floor': _m1(lambda x: F(core.s_floor_int(x)), np.floor),
    'hypot': lambda I, a, b: core.s_sqrt(_fpv(a) * _fpv(a) + _fpv(b) * _fpv(b)) if isinstance(a, SymReal) or isinstance(b, SymReal) else F(math.hypot(a, b)),
    'exp2': _m1(_exp2, np.exp2), 'ldexp': _ldexp, 'scalbn': _ldexp, 'trunc': _m1(lambda x: F(core.s_trunc(x)), np.trunc),
    'fmod': _m2(math.fmod), 'remainder': _m2(math.remainder), 'fdim': lambda I, a, b: _fdim(_fpv(a), _fpv(b)), 'copysign': lambda I, a, b: _copysign(I, a, b),
    **{n: _m1(_beyond(n), f) for n, f in dict(round=_round, cbrt=np.cbrt, sin=np.sin, cos=np.cos, tan=np.tan, atan=np.arctan, tanh=np.tanh, sinh=np.sinh, cosh=np.cosh,
                                              tgamma=math.gamma, lgamma=math.lgamma, erf=math.erf, erfc=math.erfc, rint=np.rint, nearbyint=np.rint).items()},
    'lround': lambda I, a: _toint(a, _round), 'llround': lambda I, a: _toint(a, _round), 'lrint': lambda I, a: _toint(a, np.rint), 'llrint': lambda I, a: _toint(a, np.rint),
    'fmax': b_fmax, 'fmin': b_fmin, 'fma': _fma,
    'strlen': b_strlen, 'strcmp': b_strcmp, 'strnlen': b_strnlen, 'memcmp': b_memcmp, 'bcmp': b_memcmp, 'strncmp': b_strncmp,
    '_Znwm': b_new, '_Znam': b_new, 'malloc': b_new, '_ZdlPv': b_delete, '_ZdaPv': b_delete, '_ZdlPvm': b_delete, '_ZdaPvm': b_delete, 'free': b_delete, 'calloc': b_calloc,
    '_ZnwmSt11align_val_t': b_new, '_ZdlPvSt11align_val_t': b_delete,
    'memcpy': b_memcpy, 'memmove': b_memcpy, 'memset': b_memset,
    '_ZSt20__throw_length_errorPKc': b_throw('std::length_error'), '_ZSt28__throw_bad_array_new_lengthv': b_throw('std::bad_array_new_length'), '_ZSt17__throw_bad_allocv': b_throw('std::bad_alloc'),
    '_ZSt20__throw_system_errori': b_throw('std::system_error'), '_ZSt20__throw_out_of_rangePKc': b_throw('std::out_of_range'), '_ZSt24__throw_out_of_range_fmtPKcz': b_throw('std::out_of_range'),
    '_ZSt19__throw_logic_errorPKc': b_throw('std::logic_error'), '_ZSt24__throw_invalid_argumentPKc': b_throw('std::invalid_argument'),
    '__cxa_begin_catch': b_begin_catch, '__cxa_end_catch': b_end_catch, '__cxa_rethrow': b_rethrow, '_ZSt9terminatev': b_terminate, 'abort': b_terminate,
    '__cxa_allocate_exception': lambda I, n: I.mem.alloc(n, 'exception object', 'exc').base,
    '__cxa_free_exception': lambda I, p: None,
    '__cxa_throw': lambda I, *a: (_ for _ in ()).throw(CppThrow('C++ exception', a[0])),
    '__clang_call_terminate': b_terminate,
    '__cxa_guard_acquire': lambda I, p: _guard_acquire(I, p), '__cxa_guard_release': lambda I, p: _guard_release(I, p), '__cxa_guard_abort': lambda I, p: None,
    '__cxa_atexit': lambda I, *a: 0, '__cxa_thread_atexit': lambda I, *a: 0,
    'pthread_mutex_lock': lambda I, p: _lock(I, p), 'pthread_mutex_unlock': lambda I, p: _unlock(I, p), 'pthread_mutex_trylock': lambda I, p: 16 if p in I.mem.locks else _lock(I, p),
}


def _guard_acquire(I, p):
    v = I.atomically(lambda: I.mem.load(p, 1, False))
    if v: return 0
    _lock(I, p)
    return 1


def _guard_release(I, p):
    I.atomically(lambda: I.mem.store(p, 1, 1)); _unlock(I, p)


# threads run one after the other, so a lock is free unless its own thread holds it
def _lock(I, p):
    if p in I.mem.locks: raise MemError("a thread locks a mutex it already holds (deadlock)")
    I.mem.locks |= {p}
    return 0


def _unlock(I, p):
    I.mem.locks -= {p}
    return 0


def _ovf(op, signed):
    def f(I, a, b):
        r = {'add': a + b, 'sub': a - b, 'mul': a * b}[op]
        if signed:
            sa, sb = sgn(a, 64), sgn(b, 64)
            r2 = {'add': sa + sb, 'sub': sa - sb, 'mul': sa * sb}[op]
            return [r & MASK[64], 0 if -(1 << 63) <= r2 < (1 << 63) else 1]
        return [r & MASK[64], 0 if 0 <= r <= MASK[64] else 1]
    return f


PREFIX = [
    ('llvm.memcpy', b_memcpy), ('llvm.memmove', b_memcpy), ('llvm.memset', b_memset),
    ('llvm.sqrt', BUILTINS['sqrt']), ('llvm.fabs', BUILTINS['fabs']), ('llvm.log2.', BUILTINS['log2']), ('llvm.log10.', BUILTINS['log10']), ('llvm.log.', BUILTINS['log']), ('llvm.exp.', BUILTINS['exp']), ('llvm.exp2.', BUILTINS['exp2']), ('llvm.ldexp', _ldexp), ('llvm.trunc', BUILTINS['trunc']), ('llvm.round.', BUILTINS['round']), ('llvm.rint', BUILTINS['rint']), ('llvm.nearbyint', BUILTINS['nearbyint']), ('llvm.pow.', b_pow), ('llvm.powi', _powi),
    ('llvm.ceil', BUILTINS['ceil']), ('llvm.floor', BUILTINS['floor']), ('llvm.fma.', _fma), ('llvm.fmuladd', _fma),
    ('llvm.maxnum', b_fmax), ('llvm.minnum', b_fmin), ('llvm.maximum', b_fmax), ('llvm.minimum', b_fmin),
    ('llvm.umax', lambda I, a, b: max(as_int(a, 64), as_int(b, 64))), ('llvm.umin', lambda I, a, b: min(as_int(a, 64), as_int(b, 64))),
    ('llvm.smax.i64', lambda I, a, b: max(sgn(a, 64), sgn(b, 64)) & MASK[64]), ('llvm.smin.i64', lambda I, a, b: min(sgn(a, 64), sgn(b, 64)) & MASK[64]),
    ('llvm.smax.i32', lambda I, a, b: max(sgn(a, 32), sgn(b, 32)) & MASK[32]), ('llvm.smin.i32', lambda I, a, b: min(sgn(a, 32), sgn(b, 32)) & MASK[32]),
    ('llvm.abs.i64', lambda I, a, *z: abs(sgn(a, 64)) & MASK[64]), ('llvm.abs.i32', lambda I, a, *z: abs(sgn(a, 32)) & MASK[32]),
    ('llvm.usub.sat', lambda I, a, b: max(a - b, 0)), ('llvm.is.fpclass', b_fpclass), ('llvm.is.constant', lambda I, a: 0), ('llvm.expect', lambda I, a, b, *z: a),
    ('llvm.threadlocal.address', lambda I, p: p), ('llvm.stacksave', lambda I: 0), ('llvm.stackrestore', lambda I, *a: None),
    ('llvm.uadd.with.overflow.i64', _ovf('add', False)), ('llvm.umul.with.overflow.i64', _ovf('mul', False)), ('llvm.usub.with.overflow.i64', _ovf('sub', False)),
    ('llvm.sadd.with.overflow.i64', _ovf('add', True)), ('llvm.smul.with.overflow.i64', _ovf('mul', True)), ('llvm.ssub.with.overflow.i64', _ovf('sub', True)),
    ('llvm.trap', b_terminate), ('llvm.eh.typeid.for', lambda I, p: 1), ('llvm.prefetch', lambda I, *a: None),
    ('llvm.copysign', _copysign), ('llvm.objectsize', lambda I, *a: MASK[64]),
]
