"""The compiled extension modules, executed symbolically: clang compiles the current C++ sources to LLVM IR, and
the IR is interpreted (symx/llvm.py) with the CPython and numpy C API calls it makes given by this file."""
import itertools, math, os, re, subprocess, sys, sysconfig, tempfile, types
import numpy as np
from . import core, npshim, llvm, buildext
from .core import SymReal, SymBool, Unsupported, UninitError
from .npshim import SArr, UNINIT
from .llvm import UNDEF, F, MASK, MemError, CppThrow, sgn

_IR = {}          # module name -> llvm.Module (per process)
IRDIR = os.environ.get('VERIF_IRDIR')


def ir_command(name, out):
    return ['clang++', '-S', '-emit-llvm', '-O1', '-fno-inline', '-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off', '-fno-discard-value-names',
            '-std=c++17', '-w', f"-I{sysconfig.get_paths()['include']}", f"-I{np.get_include()}", os.path.join(buildext.SRC, buildext.EXTS[name]), '-o', out]


def build_ir(names, outdir):
    ps = []
    for n in names:
        out = os.path.join(outdir, n + '.ll')
        ps.append((n, subprocess.Popen(ir_command(n, out + '.tmp'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT), out))
    for n, p, out in ps:
        o, _ = p.communicate()
        if p.returncode == 0: os.rename(out + '.tmp', out)
        else: open(out + '.err', 'wb').write(o)


def ir(name):
    if name not in _IR:
        p = os.path.join(IRDIR, name + '.ll') if IRDIR else None
        if p and os.path.exists(p): text = open(p).read()
        else:
            with tempfile.TemporaryDirectory(prefix='frds_ir_') as d:
                out = os.path.join(d, 'm.ll')
                r = subprocess.run(ir_command(name, out), capture_output=True, text=True)
                if r.returncode: raise Unsupported(f"clang cannot compile {name}: {r.stderr[:200]}")
                text = open(out).read()
        _IR[name] = llvm.Module(text)
    return _IR[name]


class PyRaise(Exception):
    pass


# ------------------------------------------------------------------ numpy buffers seen by compiled code
class View:
    """the elements of an array at the byte offsets its strides define; anything else is outside the array"""
    def __init__(self, a):
        self.a = a
        self.sym = isinstance(a, SArr)
        st = a.strides; sh = a.shape
        lo = sum((n - 1) * s for n, s in zip(sh, st) if s < 0 and n > 0)
        self.isz = 8 if self.sym else a.dtype.itemsize
        self.off = {}
        if a.size:
            for idx in np.ndindex(*sh): self.off[sum(i * s for i, s in zip(idx, st)) - lo] = idx
        self.start = -lo
        hi = max(self.off) + self.isz if self.off else 0
        self.size = hi

    def load(self, off, size, fp):
        idx = self.off.get(off)
        if idx is None or size != self.isz or not (self.sym or self.a.dtype.kind in 'fiub'):
            return self.raw(off, size, fp)
        v = self.a[idx]
        if self.sym:
            if v is UNINIT: return UNDEF
            if isinstance(v, (SymReal, SymBool)): return v
            return F(v)
        if self.a.dtype.kind == 'f':
            return F(v) if size == 8 else F(v)
        v = int(v) & ((1 << (8 * size)) - 1)
        return llvm.conv(v, size, fp)

    def raw(self, off, size, fp):
        out = bytearray()
        for k in range(off, off + size):
            b = self.byte(k)
            out.append(b)
        return llvm.conv(int.from_bytes(out, 'little'), size, fp)

    def byte(self, k):
        for j in range(k, k - self.isz, -1):
            if j in self.off:
                v = self.a[self.off[j]]
                if self.sym:
                    if v is UNINIT: raise UninitError("array element never written")
                    if isinstance(v, SymReal): raise Unsupported("bytes of a symbolic array element")
                    return np.float64(v).tobytes()[k - j]
                if self.a.dtype.kind == 'S': return bytes(v).ljust(self.isz, b'\0')[k - j]
                return np.asarray(v, dtype=self.a.dtype).tobytes()[k - j]
        raise MemError("access between the elements of a strided array (memory the array does not own)")

    def store(self, off, v, size):
        idx = self.off.get(off)
        if idx is None: raise MemError("write between the elements of a strided array (memory the array does not own)")
        if size != self.isz: raise Unsupported("partial write of an array element")
        if self.sym:
            if v is UNDEF: self.a[idx] = UNINIT
            elif isinstance(v, int): np.ndarray.__setitem__(self.a, idx, llvm.conv(v, 8, True))
            else: np.ndarray.__setitem__(self.a, idx, v)
        else:
            if isinstance(v, SymReal): raise Unsupported("symbolic value stored into a non-float64 array")
            raw = llvm.tobytes(v, size)
            self.a[idx] = np.frombuffer(raw, dtype=self.a.dtype)[0]


TYPENUM = {'float64': 12, 'float32': 11, 'int64': 7, 'int32': 5, 'bool': 0, 'uint8': 2, 'int8': 1, 'uint64': 8, 'longlong': 9}


def typenum(a):
    return 12 if isinstance(a, SArr) else a.dtype.num


class World:
    """Python objects visible to one interpreter run"""
    def __init__(self, I, env):
        self.I = I; self.env = env
        self.h2o = {}; self.o2h = {}; self.keep = []
        self.err = None
        self.types = {}
        self.threads = {}; self.order = []; self.tid = 0
        self.alive = set(); self.logs = {}; self.pairs = []
        self.gil = True
        self.descrs = {}

    def handle(self, o):
        k = id(o)
        if k in self.o2h: return self.o2h[k]
        I = self.I
        if isinstance(o, np.ndarray): h = self.array(o)
        elif isinstance(o, (tuple, list)) and not isinstance(o, np.ndarray):
            n = len(o)
            if isinstance(o, tuple):
                ob = I.mem.alloc(24 + 8 * n, 'tuple object', 'py')
                items = ob.base + 24
            else:
                ob = I.mem.alloc(40, 'list object', 'py'); io = I.mem.alloc(8 * n, 'list items', 'py'); items = io.base
                I.mem.store(ob.base + 24, items, 8); I.mem.store(ob.base + 32, n, 8)
            I.mem.store(ob.base + 16, n, 8)
            for i, x in enumerate(o): I.mem.store(items + 8 * i, self.handle(x), 8)
            h = ob.base
        elif isinstance(o, (SymReal, float, np.floating)):
            ob = I.mem.alloc(24, 'float object', 'py'); I.mem.store(ob.base + 16, o if isinstance(o, SymReal) else F(o), 8); h = ob.base
        else:
            h = I.mem.alloc(64, f'{type(o).__name__} object', 'py').base
        if not isinstance(o, np.ndarray):
            I.mem.store(h, 1000, 8)
            I.mem.store(h + 8, self.type_handle(self.tyname(o)), 8)
        self.h2o[h] = o; self.o2h[k] = h; self.keep.append(o)
        return h

    def tyname(self, o):
        if isinstance(o, (SymReal, float, np.floating)): return 'PyFloat_Type'
        if isinstance(o, bool): return 'PyBool_Type'
        if isinstance(o, int): return 'PyLong_Type'
        if isinstance(o, tuple): return 'PyTuple_Type'
        if isinstance(o, list): return 'PyList_Type'
        if isinstance(o, np.ndarray): return 'PyArray_Type'
        return type(o).__name__

    def type_handle(self, name):
        if name not in self.types:
            o = self.I.mem.alloc(512, name, 'py'); o.zero = True
            self.types[name] = o.base
            fl = {'PyFloat_Type': 0, 'PyLong_Type': 1 << 24, 'PyList_Type': 1 << 25, 'PyTuple_Type': 1 << 26}.get(name, 0)
            self.I.mem.store(o.base + 168, fl, 8)
        return self.types[name]

    def array(self, a):
        I = self.I
        nd = a.ndim
        h = I.mem.alloc(80, 'array object', 'py')
        v = View(a)
        d = I.mem.alloc(v.size, 'array data', 'data'); d.back = v
        if not a.flags.writeable: d.ro = True
        dims = I.mem.alloc(8 * nd, 'array dimensions', 'py'); st = I.mem.alloc(8 * nd, 'array strides', 'py')
        for i in range(nd):
            I.mem.store(dims.base + 8 * i, a.shape[i], 8); I.mem.store(st.base + 8 * i, a.strides[i] & MASK[64], 8)
        S = I.mem.store
        S(h.base, 1000, 8); S(h.base + 8, self.type_handle('PyArray_Type'), 8); S(h.base + 16, d.base + v.start, 8); S(h.base + 24, nd, 4)
        S(h.base + 32, dims.base, 8); S(h.base + 40, st.base, 8); S(h.base + 48, 0, 8); S(h.base + 56, self.descr(typenum(a), a), 8)
        fl = (1 if a.flags.c_contiguous else 0) | (2 if a.flags.f_contiguous else 0) | 0x100 | (0x400 if a.flags.writeable else 0)
        S(h.base + 64, fl, 4)
        return h.base

    def descr(self, num, a=None):
        isz = 8 if a is None or isinstance(a, SArr) else a.dtype.itemsize
        k = (num, isz)
        if k in self.descrs: return self.descrs[k]
        I = self.I
        o = I.mem.alloc(120, 'dtype object', 'py'); o.zero = True
        fs = I.mem.alloc(400, 'dtype functions', 'py'); fs.zero = True
        S = I.mem.store
        S(o.base, 1000, 8); S(o.base + 8, self.type_handle('PyArrayDescr_Type'), 8)
        S(o.base + 28, num, 4); S(o.base + 32, isz, 4); S(o.base + 36, min(isz, 8), 4); S(o.base + 64, fs.base, 8)
        S(o.base + 27, 0, 1); S(o.base + 26, ord('='), 1)
        kinds = {12: 'f', 11: 'f', 0: 'b', 18: 'S'}
        S(o.base + 24, ord(kinds.get(num, 'i')), 1); S(o.base + 25, ord({12: 'd', 11: 'f', 7: 'l', 5: 'i', 0: '?', 18: 'S'}.get(num, 'l')), 1)
        g = self.fnptr(lambda I, p, arr: self.handle(self.keepf(self.scalar(I.mem.load(p, isz, num in (11, 12))))))
        s = self.fnptr(lambda I, val, p, arr: self.setitem(val, p, isz))
        S(fs.base + 168, g, 8); S(fs.base + 176, s, 8)
        self.descrs[k] = o.base
        return o.base

    def scalar(self, v): return v if isinstance(v, (SymReal,)) else float(v)
    def keepf(self, v): self.keep.append(v); return v

    def setitem(self, val, p, isz):
        o = self.obj(val)
        if not isinstance(o, (SymReal, float, int, np.number)): self.error(TypeError("a number is required")); return MASK[32]
        self.I.mem.store(p, o if isinstance(o, SymReal) else F(o), isz)
        return 0

    def fnptr(self, f):
        o = self.I.mem.alloc(1, 'C API function', 'fn'); self.I.addrf[o.base] = f
        return o.base

    def obj(self, h):
        if h is UNDEF: raise UninitError("object pointer")
        if h not in self.h2o:
            if h == 0: raise MemError("a null object pointer is used")
            # another address inside the table (e.g. type objects)
            for n, a in self.types.items():
                if a == h: return n
            raise MemError(f"an invalid object pointer is used ({h:#x})")
        return self.h2o[h]

    def error(self, e):
        self.err = e
        return 0

    def new(self, o):
        self.keep.append(o)
        return self.handle(o)


# ------------------------------------------------------------------ CPython API
def w(I): return I.world


EXC = {'ValueError': ValueError, 'TypeError': TypeError, 'RuntimeError': RuntimeError, 'IndexError': IndexError, 'MemoryError': MemoryError, 'OverflowError': OverflowError,
       'KeyError': KeyError, 'ImportError': ImportError, 'AssertionError': AssertionError, 'ArithmeticError': ArithmeticError, 'ZeroDivisionError': ZeroDivisionError, 'NotImplementedError': NotImplementedError, 'SystemError': SystemError, 'Exception': Exception, 'BufferError': BufferError}


def to_double(W, o):
    if isinstance(o, SymReal): return o
    if isinstance(o, (float, int, np.floating, np.integer, bool, np.bool_)): return F(float(o))
    if isinstance(o, np.ndarray) and o.size == 1 and o.ndim == 0: return to_double(W, o[()] if not isinstance(o, SArr) else o[()])
    if hasattr(o, '__float__') and not isinstance(o, np.ndarray): return F(float(o))
    return None


def parse_tuple(I, args, fmt, *out):
    W = w(I); t = W.obj(args); f = I.mem.cstring(fmt).decode()
    return parse(I, W, t, f, list(out))


def parse(I, W, t, f, out):
    name = ''
    for c in ':;':
        if c in f: f, name = f.split(c, 1)
    need = 0; maxn = 0; opt = False; i = 0; items = []
    while i < len(f):
        c = f[i]; i += 1
        if c == '|': opt = True; continue
        if c == '$': continue
        m = ''
        while i < len(f) and f[i] in '!&#*': m += f[i]; i += 1
        items.append((c, m)); maxn += 1
        if not opt: need += 1
    if not need <= len(t) <= maxn:
        W.error(TypeError(f"function takes {'exactly' if need == maxn else 'at least'} {need} arguments ({len(t)} given)")); return 0
    for k, (c, m) in enumerate(items):
        if c == 'O' and m == '!':
            ty = out.pop(0); p = out.pop(0)
        elif c == 'O' and m == '&': raise Unsupported("O& conversion")
        else: p = out.pop(0); ty = None
        if k >= len(t): continue
        o = t[k]
        if c == 'O':
            if ty is not None:
                h = W.handle(o)
                if I.mem.load(h + 8, 8, False) != ty:
                    W.error(TypeError(f"argument {k+1} must be of another type, not {type(o).__name__}")); return 0
            I.mem.store(p, W.handle(o), 8)
        elif c in 'df':
            v = to_double(W, o)
            if v is None or isinstance(o, np.ndarray) and o.ndim: W.error(TypeError(f"must be real number, not {type(o).__name__}")); return 0
            if c == 'f': v = llvm._fptrunc(v, llvm.FP['float'])
            I.mem.store(p, v, 8 if c == 'd' else 4)
        elif c in 'ilnkLKhbIHB':
            if isinstance(o, (SymReal, float)): W.error(TypeError("integer argument expected, got float")); return 0
            try: v = int(o)
            except Exception: W.error(TypeError(f"an integer is required (got type {type(o).__name__})")); return 0
            sz = {'i': 4, 'I': 4, 'h': 2, 'H': 2, 'b': 1, 'B': 1}.get(c, 8)
            if c in 'ilnLhb' and not -(1 << (8 * sz - 1)) <= v < (1 << (8 * sz - 1)): W.error(OverflowError("signed integer is greater than maximum")); return 0
            I.mem.store(p, v & ((1 << (8 * sz)) - 1), sz)
        elif c == 'p':
            I.mem.store(p, 1 if o else 0, 4)
        elif c == 's':
            raw = str(o).encode() + b'\0'
            ob = I.mem.alloc(len(raw), 'string', 'py')
            for j, b in enumerate(raw): I.mem.store(ob.base + j, b, 1)
            I.mem.store(p, ob.base, 8)
        else: raise Unsupported(f"PyArg_ParseTuple format {c}")
    return 1


def build_value(I, fmt, *a):
    W = w(I); f = I.mem.cstring(fmt).decode(); a = list(a)
    def one(c):
        v = a.pop(0)
        if v is UNDEF: raise UninitError("Py_BuildValue argument")
        if c in 'df': return llvm._fpv(v) if isinstance(v, SymReal) else float(llvm._fpv(v))
        if c in 'OSN': return W.obj(v)
        if c == 's': return I.mem.cstring(v).decode()
        sz = {'i': 32, 'b': 8, 'h': 16, 'I': 32, 'B': 8, 'H': 16}.get(c, 64)
        if isinstance(v, SymBool): return int(bool(v))
        return sgn(int(v) & MASK[sz], sz) if c in 'ibhlnL' else int(v) & MASK[sz]
    def seq(i, end):
        out = []
        while i < len(f) and f[i] != end:
            c = f[i]; i += 1
            if c in ', :': continue
            if c == '(': s, i = seq(i, ')'); out.append(tuple(s))
            elif c == '[': s, i = seq(i, ']'); out.append(list(s))
            else: out.append(one(c))
        return out, i + 1
    r, _ = seq(0, None)
    r = None if not r else r[0] if len(r) == 1 else tuple(r)
    return W.new(r)


def api_get_iter(I, h):
    W = w(I); o = W.obj(h)
    try:
        it = iter([o[i] for i in range(len(o))]) if isinstance(o, np.ndarray) and o.ndim else iter(o)
    except TypeError as e: return W.error(e)
    return W.new(it)


def api_iter_next(I, h):
    W = w(I); it = W.obj(h)
    try: v = next(it)
    except StopIteration: return 0
    if v is UNINIT: raise UninitError("iteration over uninitialised memory")
    return W.new(v)


def api_float_as_double(I, h):
    W = w(I); v = to_double(W, W.obj(h))
    if v is None: W.error(TypeError("must be real number")); return F(-1.0)
    return v


def api_err_set(I, e, msg):
    W = w(I)
    W.error(EXC.get(W.obj(e) if isinstance(W.obj(e), str) else '', RuntimeError)(I.mem.cstring(msg).decode())); return None


def api_err_format(I, e, msg, *a):
    api_err_set(I, e, msg); return 0


def api_long(I, h):
    W = w(I); o = W.obj(h)
    try: return int(o) & MASK[64]
    except Exception as e: W.error(TypeError("an integer is required")); return MASK[64]


def seq_len(I, h):
    W = w(I)
    try: return len(W.obj(h))
    except TypeError as e: W.error(e); return MASK[64]


def seq_get(I, h, i):
    W = w(I)
    try: return W.new(W.obj(h)[sgn(i, 64)])
    except (TypeError, IndexError) as e: return W.error(e)


def seq_fast(I, h, msg):
    W = w(I); o = W.obj(h)
    if isinstance(o, (list, tuple)): return h
    try: return W.new(list(o))
    except TypeError as e: return W.error(e)


def api_dealloc(I, h): return None


# threads: a started thread runs to its end when the schedule says so.  Accesses to memory other threads can reach are recorded;
# two threads alive together must not access the same bytes, one of them writing, without a common lock.  Where that holds (and no
# locked or atomic location is shared either) every interleaving gives the result of the schedule that was run.
def segment(W, I):
    """the calling thread's accesses from here on are compared with the threads alive now"""
    if not W.alive: I.mem.log = None; return
    I.mem.log = set()
    for u in W.alive: W.pairs.append((I.mem.log, W.logs[u], 'the calling thread', f"thread {u}"))


def thread_start(I, this, up, dep):
    W = w(I)
    if I.thread: raise Unsupported("a thread starts a thread")
    st = I.mem.load(up, 8, False)
    I.mem.store(up, 0, 8)
    W.tid += 1
    t = W.tid
    I.mem.store(this, t, 8)
    W.logs[t] = set()
    for u in W.alive: W.pairs.append((W.logs[u], W.logs[t], f"thread {u}", f"thread {t}"))
    W.alive.add(t); segment(W, I)
    W.threads[t] = st; W.order.append(t)
    if not W.env.defer_threads or (len(W.order) > 0 and W.env.defer_threads == 'first'): run_thread(I, t)
    return None


def run_thread(I, t):
    W = w(I); st = W.threads.pop(t)
    W.order.remove(t)
    M = I.mem
    old = I.thread, M.log, M.locks; I.thread = M.cur = t; M.log = W.logs[t]; M.locks = frozenset()
    try:
        vt = I.mem.load(st, 8, False)
        run = I.mem.load(vt + 16, 8, False)
        I.call_addr(run, [st])
        dtor = I.mem.load(vt + 8, 8, False)
        I.call_addr(dtor, [st])
        if M.locks: raise MemError("a thread ends holding a mutex")
    except CppThrow as e: raise MemError(f"exception {e.what} leaves a thread: std::terminate")
    finally: I.thread, M.log, M.locks = old; M.cur = I.thread


def thread_join(I, this):
    W = w(I)
    t = I.mem.load(this, 8, False)
    if t == 0: raise CppThrow('std::system_error')
    while t in W.threads:
        if W.env.defer_threads == 'choose' and len(W.order) > 1: k = W.env.choose(len(W.order), 'thread')
        elif W.env.defer_threads == 'reverse': k = len(W.order) - 1
        else: k = 0
        run_thread(I, W.order[k])
    W.alive.discard(t); segment(W, I)
    I.mem.store(this, 0, 8)
    return None


def thread_detach(I, this): raise MemError("a detached thread can outlive the call")


def races(W, I):
    pairs, W.pairs = W.pairs, []
    for A, B, na, nb in pairs:
        ix = {}
        for r in B: ix.setdefault(r[0], []).append(r)
        for i, off, n, wr, lk, at in A:
            for _, off2, n2, wr2, lk2, at2 in ix.get(i, ()):
                if (wr or wr2) and off < off2 + n2 and off2 < off + n and not (lk & lk2):
                    if at and at2: W.ordered = True; continue
                    raise MemError(f"data race: {na} {'writes' if wr else 'reads'} and {nb} {'writes' if wr2 else 'reads'} offset {max(off, off2)} of {I.mem.objs[i].name}")
    W.logs.clear()


def noop(r=None): return lambda I, *a: r


CPY = {
    '_PyArg_ParseTuple_SizeT': parse_tuple, 'PyArg_ParseTuple': parse_tuple, '_Py_BuildValue_SizeT': build_value, 'Py_BuildValue': build_value,
    'PyArg_UnpackTuple': lambda I, *a: (_ for _ in ()).throw(Unsupported('PyArg_UnpackTuple')),
    'PyFloat_FromDouble': lambda I, v: w(I).new(v if isinstance(v, SymReal) else float(llvm._fpv(v))) if v is not UNDEF else (_ for _ in ()).throw(UninitError('PyFloat_FromDouble')),
    'PyFloat_AsDouble': api_float_as_double, 'PyObject_GetIter': api_get_iter, 'PyIter_Next': api_iter_next, 'PyErr_SetString': api_err_set, 'PyErr_Format': api_err_format,
    'PyErr_Occurred': lambda I: 0 if w(I).err is None else w(I).handle(w(I).err), 'PyErr_Clear': lambda I: setattr(w(I), 'err', None), 'PyErr_NoMemory': lambda I: w(I).error(MemoryError()),
    'PyErr_Print': noop(), '_Py_Dealloc': api_dealloc, 'PyEval_SaveThread': lambda I: (llvm._unlock(I, 'GIL'), 1 << 40)[1], 'PyEval_RestoreThread': lambda I, t: (llvm._lock(I, 'GIL'), None)[1],
    'PyGILState_Ensure': lambda I: 1 if 'GIL' in I.mem.locks else llvm._lock(I, 'GIL'), 'PyGILState_Release': lambda I, v: None if v else (llvm._unlock(I, 'GIL'), None)[1],
    'PyLong_AsLong': api_long, 'PyLong_AsSsize_t': api_long, 'PyLong_AsLongLong': api_long, 'PyLong_FromLong': lambda I, v: w(I).new(sgn(v, 64)), 'PyLong_FromSsize_t': lambda I, v: w(I).new(sgn(v, 64)), 'PyLong_FromSize_t': lambda I, v: w(I).new(v),
    'PyBool_FromLong': lambda I, v: w(I).new(bool(v)), 'PyObject_IsTrue': lambda I, h: 1 if w(I).obj(h) else 0,
    'PySequence_Size': seq_len, 'PySequence_Length': seq_len, 'PyObject_Size': seq_len, 'PyObject_Length': seq_len, 'PyList_Size': seq_len, 'PyTuple_Size': seq_len,
    'PySequence_GetItem': seq_get, 'PyList_GetItem': seq_get, 'PyTuple_GetItem': seq_get, 'PySequence_Fast': seq_fast, 'PySequence_List': lambda I, h: seq_fast(I, h, 0), 'PySequence_Tuple': lambda I, h: w(I).new(tuple(w(I).obj(h))),
    'PySequence_Check': lambda I, h: 1 if hasattr(w(I).obj(h), '__getitem__') else 0, 'PyType_IsSubtype': lambda I, a, b: 1 if a == b else 0,
    'PyTuple_Pack': lambda I, n, *a: w(I).new(tuple(w(I).obj(x) for x in a)), 'PyNumber_Float': lambda I, h: w(I).new(api_float_as_double(I, h)),
    '_ZNSt6thread20hardware_concurrencyEv': lambda I: w(I).env.threads, '_ZNSt6thread4joinEv': thread_join, '_ZNSt6thread6detachEv': thread_detach,
    '_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE': thread_start, '_ZNSt6thread6_StateD2Ev': noop(), '_ZNSt6thread24_M_thread_deps_never_runEv': noop(),
    'printf': noop(0), 'puts': noop(0), 'fprintf': noop(0), 'pthread_create': lambda I, *a: (_ for _ in ()).throw(Unsupported('pthread_create')),
    'get_nprocs': lambda I: w(I).env.threads, 'PyMem_Malloc': llvm.b_new, 'PyMem_Free': llvm.b_delete, 'PyMem_RawMalloc': llvm.b_new, 'PyMem_RawFree': llvm.b_delete, 'PyObject_Malloc': llvm.b_new, 'PyObject_Free': llvm.b_delete,
    '__gxx_personality_v0': noop(),
}


# ------------------------------------------------------------------ numpy C API
def np_new(I, sub, nd, dims, tnum, strides, data, itemsize, flags, obj):
    W = w(I)
    sh = tuple(sgn(I.mem.load(dims + 8 * k, 8, False), 64) for k in range(sgn(nd, 32)))
    if data: raise Unsupported("array over foreign memory")
    if any(s < 0 for s in sh): return W.error(ValueError("negative dimensions are not allowed"))
    return W.new(empty(sh, sgn(tnum, 32)))


def empty(sh, tnum):
    if tnum == 12: return npshim.c_empty(sh)
    if tnum == 11: raise Unsupported("float32 array in compiled code")
    dt = {7: np.int64, 5: np.int32, 0: np.bool_}.get(tnum)
    if dt is None: raise Unsupported(f"new array of type {tnum}")
    return np.zeros(sh, dt)


def np_zeros(I, nd, dims, descr, forder):
    W = w(I)
    sh = tuple(sgn(I.mem.load(dims + 8 * k, 8, False), 64) for k in range(sgn(nd, 32)))
    t = I.mem.load(descr + 28, 4, False)
    return W.new(npshim.c_full(sh, F(0.0)) if t == 12 else np.zeros(sh, {7: np.int64, 5: np.int32, 0: np.bool_}[t]))


def np_empty(I, nd, dims, descr, forder):
    W = w(I)
    sh = tuple(sgn(I.mem.load(dims + 8 * k, 8, False), 64) for k in range(sgn(nd, 32)))
    return W.new(empty(sh, I.mem.load(descr + 28, 4, False)))


def np_from_any(I, op, descr, mind, maxd, req, ctx):
    W = w(I); o = W.obj(op)
    tnum = I.mem.load(descr + 28, 4, False) if descr else None
    req = sgn(req, 32)
    try:
        if tnum == 12:
            if isinstance(o, np.ndarray) and not isinstance(o, SArr) and o.dtype.kind == 'f' and o.dtype.itemsize == 8: a = o
            elif isinstance(o, SArr): a = o
            else:
                if isinstance(o, np.ndarray) and o.dtype.kind not in 'iufb' and not (o.dtype == object): raise ValueError("could not convert to float64")
                a = npshim.c_array(o, dtype=float)
        elif tnum == 18:
            a = np.asarray(o)
            if a.dtype.kind != 'S': a = a.astype('S')
        elif tnum is None: a = o if isinstance(o, np.ndarray) else npshim.c_array(o)
        else:
            if isinstance(o, SArr): raise Unsupported("symbolic array converted to integers")
            a = np.asarray(o).astype({7: np.int64, 5: np.int32, 0: np.bool_}[tnum])
    except (ValueError, TypeError) as e: return W.error(e)
    if sgn(maxd, 32) and a.ndim > sgn(maxd, 32): return W.error(ValueError("object too deep for desired array"))
    if sgn(mind, 32) and a.ndim < sgn(mind, 32): return W.error(ValueError("object of too small depth for desired array"))
    if (req & 1 and not a.flags.c_contiguous) or (req & 2 and not a.flags.f_contiguous and not a.flags.c_contiguous):
        if req & (0x1000 | 0x2000) and isinstance(o, np.ndarray):
            src = o; c = a.copy()
            W.writeback = getattr(W, 'writeback', []) + [(c, src)]
            return W.new(c)
        a = a.copy()
    if req & 0x400 and not a.flags.writeable: return W.error(ValueError("assignment destination is read-only"))
    if req & 0x20: a = a.copy()
    return W.new(a)


def np_from_array(I, arr, descr, flags): return np_from_any(I, arr, descr, 0, 0, flags, 0)


def np_getptr(I, arr, idx):
    W = w(I); a = W.obj(arr)
    p = I.mem.load(arr + 16, 8, False)
    for k in range(a.ndim): p += sgn(I.mem.load(idx + 8 * k, 8, False), 64) * a.strides[k]
    return p


def np_copy(I, arr, order=0):
    W = w(I); return W.new(W.obj(arr).copy())


def resolve_writeback(I, arr):
    W = w(I); a = W.obj(arr)
    for c, src in getattr(W, 'writeback', []):
        if c is a: np.ndarray.__setitem__(src, Ellipsis, c); return 1
    return 0


NPY = {49: None, 45: lambda I, t: w(I).descr(sgn(t, 32)), 59: lambda I, a: w(I).obj(a).size, 69: np_from_any, 85: np_copy, 93: np_new, 108: np_from_any, 109: np_from_array, 160: np_getptr, 183: np_zeros, 184: np_empty,
       302: resolve_writeback, 70: lambda I, h: np_from_any(I, h, 0, 0, 0, 0, 0),
       57: None, 211: lambda I: 0x1000009}


def api_table(I, world):
    o = I.mem.alloc(8 * 400, 'numpy C API table', 'py')
    for k in range(400):
        f = NPY.get(k)
        if k == 2: v = world.type_handle('PyArray_Type')
        elif k == 3: v = world.type_handle('PyArrayDescr_Type')
        elif f is not None: v = world.fnptr(f)
        else: v = world.fnptr(lambda I, *a, k=k: (_ for _ in ()).throw(Unsupported(f"numpy C API entry {k}")))
        I.mem.store(o.base + 8 * k, v, 8)
    return o.base


class PySlot:
    pass


# ------------------------------------------------------------------ random numbers of <random>
class Token:
    """state of one engine: how it was seeded and how many draws were taken"""
    def __init__(self, seed, n): self.seed = seed; self.n = n
    as_cell = True


def engine_init(I, this, seed=5489):
    I.mem.store(this, Token(seed, 0), 8)


def engine_token(I, g):
    t = I.mem.load(g, 8, False)
    if not isinstance(t, Token): raise UninitError("random engine used before it was seeded")
    return t


def draw(I, dist, g, param=None):
    """uniform_int_distribution::operator(): any value in [a, b], a function of the engine state"""
    p = dist if param is None else param
    a = I.mem.load(p, 8, False); b = I.mem.load(p + 8, 8, False)
    if a is UNDEF or b is UNDEF: raise UninitError("parameters of a random distribution")
    t = engine_token(I, g)
    I.mem.store(g, Token(t.seed, t.n + 1), 8)
    W = w(I)
    a, b = sgn(a, 64), sgn(b, 64)
    if b < a: raise MemError(f"uniform_int_distribution with an empty range [{a}, {b}] (undefined behaviour)")
    k = (t.seed, t.n, a, b)
    D = W.env.draws
    if k not in D:
        if b - a + 1 > 64: raise Unsupported(f"random draw from {b-a+1} values")
        D[k] = a + (W.env.choose(b - a + 1, f"draw({t.seed},{t.n},{a},{b})") if b > a else 0)
    W.env.draw_log.append(k)
    return D[k] & MASK[64]


def sample_draw(I, first, last, out, n, g):
    """std::sample of size_t elements into a vector: any subset of min(n, N) positions, in their order"""
    n = sgn(n, 64)
    if n < 0: raise MemError("std::sample of a negative number of elements")
    total = (last - first) // 8
    k = min(n, total)
    t = engine_token(I, g)
    I.mem.store(g, Token(t.seed, t.n + 1), 8)
    W = w(I); D = W.env.draws
    key = ('s', t.seed, t.n, total, k)
    if key not in D:
        if math.comb(total, k) > 64: raise Unsupported(f"random sample of {k} from {total}")
        cs = list(itertools.combinations(range(total), k))
        D[key] = cs[W.env.choose(len(cs), f"sample({t.seed},{t.n},{total},{k})") if len(cs) > 1 else 0]
    W.env.draw_log.append(key)
    push = next((f for f in I.m.funcs if re.match(r'^@_ZNSt6vectorImSaImEE9push_backERKm$', f)), None)
    if push is None: raise Unsupported("std::sample: no vector push_back in the module")
    for i in D[key]: I.call(push, [out, first + 8 * i])
    return out


def raw_draw(I, g): raise Unsupported("raw draw from the random engine")


RANDOM = [(re.compile(r'^@_ZNSt23mersenne_twister_engine\w*EC[12]Em'), engine_init), (re.compile(r'^@_ZNSt23mersenne_twister_engine\w*E4seedEm'), engine_init),
          (re.compile(r'^@_ZNSt24uniform_int_distributionI[mljxy]EclISt23mersenne_twister_engine\w*_RT_RKNS\w*param_type'), draw),
          (re.compile(r'^@_ZNSt24uniform_int_distributionI[mljxy]EclISt23mersenne_twister_engine\w*RT_$'), draw),
          (re.compile(r'^@_ZSt6sampleIN9__gnu_cxx17__normal_iteratorIPmSt6vectorImSaImEEEESt20back_insert_iteratorIS5_EmRSt23mersenne_twister_engine'), sample_draw),
          (re.compile(r'^@_ZNSt23mersenne_twister_engine\w*EclEv'), raw_draw)]


# ------------------------------------------------------------------ modules
class ExtModule:
    def __init__(self, env, name):
        self.env = env; self.name = name
        self.m = ir(name)
        I = self.I = llvm.Interp(self.m, CPY)
        I.intercepts = RANDOM
        W = self.W = I.world = World(I, env)
        for n in list(self.m.globals):
            if n.endswith('PyArray_API') or re.search(r'PyArray_API', n): self.api = n
        for n, e in EXC.items():
            I.extglobals['@PyExc_' + n] = self._exc(n)
        for n in ('PyFloat_Type', 'PyLong_Type', 'PyList_Type', 'PyTuple_Type', 'PyBool_Type', 'PyCapsule_Type'):
            I.extglobals['@' + n] = lambda I, n=n: W.type_handle(n)
        I.extglobals['@_Py_NoneStruct'] = lambda I: W.handle(None)
        I.extglobals['@_Py_TrueStruct'] = lambda I: W.handle(True)
        I.extglobals['@_Py_FalseStruct'] = lambda I: W.handle(False)
        I.mem.store(I.gref(self.api), api_table(I, W), 8)
        self.methods = {}
        for n, (t, init, ext, tls) in self.m.globals.items():
            u = t
            if u.k == 'arr' and u.e.k == 'named' and u.e.name == '%struct.PyMethodDef' and init and init[0] == 'agg':
                base = I.gref(n)
                for i in range(u.n):
                    nm = I.mem.load(base + 32 * i, 8, False)
                    if nm == 0: break
                    self.methods[I.mem.cstring(nm).decode()] = (I.mem.load(base + 32 * i + 8, 8, False), I.mem.load(base + 32 * i + 16, 4, False))

    def _exc(self, n):
        def g(I):
            o = I.mem.alloc(8, 'PyExc_' + n, 'py'); e = I.mem.alloc(64, n, 'py')
            self.W.h2o[e.base] = n
            I.mem.store(o.base, e.base, 8)
            return o.base
        return g

    def call(self, name, args):
        I, W = self.I, self.W
        fn, flags = self.methods[name]
        W.err = None
        for a in args:
            if isinstance(a, np.ndarray):      # contents may have changed shape of memory since the last call
                h = W.o2h.get(id(a))
                if h is not None and any(o is a for o in W.keep): pass
        h = W.new(tuple(args)) if flags & 1 else W.new(args[0])
        n0 = I.steps
        try:
            r = I.call_addr(fn, [0, h])
        except CppThrow as e:
            raise MemError(f"C++ exception {e.what} leaves the extension function {name} (the process aborts)") from None
        finally:
            run = self.env.run
            run.extinstr = getattr(run, 'extinstr', 0) + I.steps - n0
            s = getattr(run, 'extfuncs', None)
            if s is None: s = run.extfuncs = set()
            s.update(f"{os.path.basename(buildext.EXTS[self.name])}:{demangle(f)}" for f in I.called)
        races(W, I)
        if I.mem.locks != frozenset(['GIL']): raise MemError("the call returns without the GIL")
        if W.alive: raise MemError("threads are still running when the call returns (std::terminate)")
        if r == 0:
            e = W.err or SystemError("error return without exception set"); W.err = None
            raise e
        if W.err is not None:
            e = W.err; W.err = None
            raise SystemError(f"{name} returned a result with an exception set ({e})")
        return W.obj(r)


_dem = {}
def demangle(f):
    f = f[1:].strip('"')
    if f not in _dem:
        try: _dem[f] = subprocess.run(['c++filt', f], capture_output=True, text=True, timeout=5).stdout.strip().split('(')[0][:80]
        except Exception: _dem[f] = f
    return _dem[f]


def make(env, name):
    x = ExtModule(env, name)
    m = types.ModuleType(name)
    m.__ext__ = x
    for k in x.methods:
        def f(*args, k=k): return x.call(k, args)
        f.__name__ = k
        setattr(m, k, f)
    return m


def modules(env):
    env.threads = getattr(env, 'threads', 2); env.defer_threads = getattr(env, 'defer_threads', 'first')
    env.draws = getattr(env, 'draws', {}); env.draw_log = getattr(env, 'draw_log', [])
    return {n: (lambda n=n: make(env, n)) for n in buildext.EXTS}
