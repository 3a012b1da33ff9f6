"""Value helpers: concrete ints are Python ints, symbolic ones z3 terms."""
import z3, struct

M64 = (1 << 64) - 1

class Ptr:
    __slots__ = ('o', 'off')
    def __init__(s, o, off): s.o = o; s.off = off
    def __repr__(s): return f'Ptr({s.o},{s.off})'

NULL = Ptr(0, 0)

def isc(v): return type(v) is int
def mask(w): return (1 << w) - 1
def sgn(v, w): return v - (1 << w) if v >> (w - 1) else v

def bv(v, w):
    if type(v) is int: return z3.BitVecVal(v, w)
    return v

_S0 = z3.simplify
def _S(t): return _S0(t, bv_le2extract=False)
def simp(t):
    if type(t) is int: return t
    r = _S(t)
    if z3.is_bv_value(r): return r.as_long()
    return r

def simpb(t):
    """simplify a boolean -> 0/1 or z3 Bool"""
    if type(t) is int: return t
    r = _S(t)
    if z3.is_true(r): return 1
    if z3.is_false(r): return 0
    return r

def bnot(t):
    if type(t) is int: return 1 - t
    return simpb(z3.Not(t))
def band(a, b):
    if type(a) is int: return b if a else 0
    if type(b) is int: return a if b else 0
    return simpb(z3.And(a, b))
def bor(a, b):
    if type(a) is int: return 1 if a else b
    if type(b) is int: return 1 if b else a
    return simpb(z3.Or(a, b))
def zb(t):
    """to z3 Bool"""
    if type(t) is int: return z3.BoolVal(bool(t))
    return t

def ite(c, a, b, w):
    """c bool; a,b ints/BV of width w (w==1 -> bools)"""
    if type(c) is int: return a if c else b
    if type(a) is int and type(b) is int and a == b: return a
    if w == 1:
        return simpb(z3.If(c, zb(a), zb(b)))
    return simp(z3.If(c, bv(a, w), bv(b, w)))

def add(a, b, w=64):
    if type(a) is int and type(b) is int: return (a + b) & mask(w)
    if type(a) is int and a == 0: return b
    if type(b) is int and b == 0: return a
    return simp(bv(a, w) + bv(b, w))
def sub(a, b, w=64):
    if type(a) is int and type(b) is int: return (a - b) & mask(w)
    if type(b) is int and b == 0: return a
    return simp(bv(a, w) - bv(b, w))
def mul(a, b, w=64):
    if type(a) is int and type(b) is int: return (a * b) & mask(w)
    if type(a) is int and a == 1: return b
    if type(b) is int and b == 1: return a
    return simp(bv(a, w) * bv(b, w))

def ult(a, b, w=64):
    if type(a) is int and type(b) is int: return int(a < b)
    if type(b) is int and b == 0: return 0
    return simpb(z3.ULT(bv(a, w), bv(b, w)))
def ule(a, b, w=64):
    if type(a) is int and type(b) is int: return int(a <= b)
    return simpb(z3.ULE(bv(a, w), bv(b, w)))
def eq(a, b, w=64):
    if type(a) is int and type(b) is int: return int(a == b)
    if w == 1:
        return simpb(zb(a) == zb(b))
    return simpb(bv(a, w) == bv(b, w))

def extract_byte(v, i, nbytes):
    """byte i (little endian) of nbytes-wide int/BV"""
    if type(v) is int: return (v >> (8 * i)) & 0xff
    return simp(z3.Extract(8 * i + 7, 8 * i, v))

def concat_bytes(bs):
    """little-endian byte list -> int/BV"""
    if all(type(b) is int for b in bs):
        r = 0
        for i, b in enumerate(bs): r |= b << (8 * i)
        return r
    if len(bs) == 1: return bs[0]
    return simp(z3.Concat(*[bv(b, 8) for b in reversed(bs)]))

def const_delta(a, b, w=64):
    """a-b if it simplifies to a constant, else None"""
    if type(a) is int and type(b) is int: return (a - b) & mask(w)
    if type(a) is not int and type(b) is not int and a.eq(b): return 0
    r = simp(bv(a, w) - bv(b, w))
    return r if type(r) is int else None

def symbols_of(t, acc=None, seen=None):
    """uninterpreted constants in z3 term"""
    acc = acc if acc is not None else {}
    if type(t) is int or t is None: return acc
    seen = seen if seen is not None else set()
    st = [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc[i] = x
        else:
            st.extend(x.children())
    return acc

def depends(t, syms):
    """does term t mention any of syms (dict id->const)?"""
    if type(t) is int or not syms: return False
    s = symbols_of(t)
    return any(i in s for i in syms)

# ---- floats (raw bits)
FPS = {'float': z3.Float32(), 'double': z3.Float64()}
def f2py(bits, kind):
    return struct.unpack('<f' if kind == 'float' else '<d', struct.pack('<I' if kind == 'float' else '<Q', bits))[0]
def py2f(x, kind):
    if kind == 'float':
        try: return struct.unpack('<I', struct.pack('<f', x))[0]
        except OverflowError: return 0x7f800000 if x > 0 else 0xff800000
    return struct.unpack('<Q', struct.pack('<d', x))[0]
def tofp(bits, kind):
    w = 32 if kind == 'float' else 64
    return z3.fpBVToFP(bv(bits, w), FPS[kind])
