"""Symbolic memory objects: a cell overlay (concrete offsets) on layered content nodes."""
import z3
from terms import *

_cnt = [0]
def fresh_id():
    _cnt[0] += 1
    return _cnt[0]
def fresh_array(name='mem'):
    return z3.Array(f'{name}!{fresh_id()}', z3.BitVecSort(64), z3.BitVecSort(8))

class Node:
    __slots__ = ()

class Fresh(Node):
    __slots__ = ('arr', 'name')
    def __init__(s, name='mem', arr=None): s.name = name; s.arr = arr
    def rb(s, ctx, off):
        if s.arr is None: s.arr = fresh_array(s.name)
        return z3.Select(s.arr, bv(off, 64))
    def rn(s, ctx, off, n): return None

class Const(Node):
    """constant bytes"""
    __slots__ = ('b', '_z')
    def __init__(s, b): s.b = b
    def rb(s, ctx, off):
        if type(off) is int:
            return s.b[off] if off < len(s.b) else 0
        # group runs: ite chain
        r = 0
        n = len(s.b)
        if n > 4096: raise Unsupported('symbolic index into large constant')
        # balanced tree over bits of the index
        k = max(1, (n - 1).bit_length())
        def tree(lo, bit):
            if bit < 0: return s.b[lo] if lo < n else 0
            a = tree(lo, bit - 1)
            if lo + (1 << bit) >= n: 
                return a
            b = tree(lo + (1 << bit), bit - 1)
            if type(a) is int and type(b) is int and a == b: return a
            return z3.If(z3.Extract(bit, bit, off) == 1, bv(b, 8), bv(a, 8))
        return simp(tree(0, k - 1))
    def rn(s, ctx, off, n): return None

class Zero(Node):
    __slots__ = ()
    def rb(s, ctx, off): return 0
    def rn(s, ctx, off, n): return 0

class Cells(Node):
    """sealed cell overlay"""
    __slots__ = ('cells', 'prev', 'lo', 'hi')
    def __init__(s, cells, prev):
        s.cells = cells; s.prev = prev
        s.lo = min(cells); s.hi = max(o + c[0] for o, c in cells.items())
    def rb(s, ctx, off):
        if type(off) is int:
            c = s.cells.get(off)
            if c is not None: return cell_byte(ctx, c, 0)
            for d in range(1, 16):
                c = s.cells.get(off - d)
                if c is not None and c[0] > d: return cell_byte(ctx, c, d)
            return ctx_rb(ctx, s.prev, off)
        # symbolic
        inr = ult(sub(off, s.lo), s.hi - s.lo)
        d = ctx.decide(inr)
        below = None
        if d == 0: return ctx_rb(ctx, s.prev, off)
        r = ctx_rb(ctx, s.prev, off)
        for o in sorted(s.cells):
            n, v = s.cells[o]
            for i in range(n):
                c = eq(off, (o + i) & M64)
                if type(c) is int and c == 0: continue
                r = ite(c, cell_byte(ctx, s.cells[o], i), r, 8)
        return r
    def rn(s, ctx, off, n):
        if type(off) is int:
            c = s.cells.get(off)
            if c is not None and c[0] == n: return c[1]
            if c is not None: return None
            for d in range(1, 16):
                c = s.cells.get(off - d)
                if c is not None and c[0] > d: return None
            for d in range(1, n):
                if (off + d) in s.cells: return None
            return ctx_rn(ctx, s.prev, off, n)
        inr = ult(add(off, n - 1 - s.lo & M64), s.hi - s.lo + n - 1)
        if ctx.decide(inr) == 0: return ctx_rn(ctx, s.prev, off, n)
        return None

class Store(Node):
    __slots__ = ('prev', 'off', 'n', 'val')
    def __init__(s, prev, off, n, val): s.prev = prev; s.off = off; s.n = n; s.val = val
    def rb(s, ctx, off):
        d = const_delta(off, s.off)
        if d is not None:
            if d < s.n: return cell_byte(ctx, (s.n, s.val), d)
            return ctx_rb(ctx, s.prev, off)
        df = sub(off, s.off)
        c = ult(df, s.n)
        dd = ctx.decide(c)
        if dd == 0: return ctx_rb(ctx, s.prev, off)
        if s.n == 1:
            v = cell_byte(ctx, (1, s.val), 0)
        else:
            v = cell_byte(ctx, (s.n, s.val), s.n - 1)
            for i in range(s.n - 2, -1, -1):
                v = ite(eq(df, i), cell_byte(ctx, (s.n, s.val), i), v, 8)
        if dd == 1: return v
        return ite(c, v, ctx_rb(ctx, s.prev, off), 8)
    def rn(s, ctx, off, n):
        d = const_delta(off, s.off)
        if d is not None:
            if d == 0 and n == s.n: return s.val
            if d >= s.n and d + n <= M64 + 1 : # starts after the store
                if d <= (1 << 63): return ctx_rn(ctx, s.prev, off, n)
                if ((d + n) & M64) > M64 // 2 or (d + n) & M64 == 0: return ctx_rn(ctx, s.prev, off, n)
            return None
        c = ult(add(sub(off, s.off), n - 1), s.n + n - 1)
        if ctx.decide(c) == 0: return ctx_rn(ctx, s.prev, off, n)
        if n == s.n and ctx.decide(eq(off, s.off)) == 1: return s.val
        return None

class Copy(Node):
    """bytes [dst, dst+len) come from src content at srcoff"""
    __slots__ = ('prev', 'dst', 'len', 'src', 'srcoff')
    def __init__(s, prev, dst, ln, src, srcoff): s.prev = prev; s.dst = dst; s.len = ln; s.src = src; s.srcoff = srcoff
    def rb(s, ctx, off):
        d = sub(off, s.dst)
        c = ult(d, s.len)
        dd = ctx.decide(c)
        if dd == 0: return ctx_rb(ctx, s.prev, off)
        v = ctx_rb(ctx, s.src, add(d, s.srcoff))
        if dd == 1: return v
        return ite(c, v, ctx_rb(ctx, s.prev, off), 8)
    def rn(s, ctx, off, n):
        d = sub(off, s.dst)
        # fully inside: d < len and len - d >= n
        inside = band(ult(d, s.len), ule(n, sub(s.len, d)))
        if ctx.decide(inside) == 1: return ctx_rn(ctx, s.src, add(d, s.srcoff), n)
        # fully outside
        outside = band(bnot(ult(d, s.len)), bnot(ult(sub(s.dst, off), n)))
        if ctx.decide(outside) == 1: return ctx_rn(ctx, s.prev, off, n)
        return None

class Fill(Node):
    __slots__ = ('prev', 'dst', 'len', 'val')
    def __init__(s, prev, dst, ln, val): s.prev = prev; s.dst = dst; s.len = ln; s.val = val
    def rb(s, ctx, off):
        c = ult(sub(off, s.dst), s.len)
        dd = ctx.decide(c)
        if dd == 0: return ctx_rb(ctx, s.prev, off)
        if dd == 1: return s.val
        return ite(c, s.val, ctx_rb(ctx, s.prev, off), 8)
    def rn(s, ctx, off, n):
        d = sub(off, s.dst)
        outside = band(bnot(ult(d, s.len)), bnot(ult(sub(s.dst, off), n)))
        if ctx.decide(outside) == 1: return ctx_rn(ctx, s.prev, off, n)
        inside = band(ult(d, s.len), ule(n, sub(s.len, d)))
        if type(s.val) is int and ctx.decide(inside) == 1:
            return int.from_bytes(bytes([s.val]) * n, 'little')
        return None

class LoopW(Node):
    """content after k iterations of a summarised loop.
    lanes: list of (match(off, k) -> (cond, j)), val_at(j) -> byte"""
    __slots__ = ('prev', 'k', 'lanes')
    def __init__(s, prev, k, lanes): s.prev = prev; s.k = k; s.lanes = lanes
    def rb(s, ctx, off):
        r = None
        conds = []
        for match, val_at in s.lanes:
            c, j = match(off, s.k)
            dd = ctx.decide(c)
            if dd == 0: continue
            v = val_at(ctx, j, off)
            if dd == 1:
                r = v; conds = conds; 
                for cc, vv in reversed(conds): r = ite(cc, vv, r, 8)
                return r
            conds.append((c, v))
        r = ctx_rb(ctx, s.prev, off)
        for cc, vv in reversed(conds): r = ite(cc, vv, r, 8)
        return r
    def rn(s, ctx, off, n):
        for match, val_at in s.lanes:
            for i in range(n):
                c, j = match(add(off, i), s.k)
                if ctx.decide(c) != 0: return None
        return ctx_rn(ctx, s.prev, off, n)

class Unsupported(Exception):
    pass

def cell_byte(ctx, c, i):
    n, v = c
    if isinstance(v, Ptr): v = ctx.ptr_int(v)
    return extract_byte(v, i, n)

def ctx_rb(ctx, node, off):
    return node.rb(ctx, off)

def ctx_rn(ctx, node, off, n):
    r = node.rn(ctx, off, n)
    if r is None:
        bs = [node.rb(ctx, add(off, i)) for i in range(n)]
        return concat_bytes(bs)
    return r

class Obj:
    __slots__ = ('id', 'size', 'kind', 'alive', 'cells', 'node', 'name', 'fn', 'ro', 'gen')
    def __init__(s, id, size, kind, node, name=''):
        s.id = id; s.size = size; s.kind = kind; s.alive = True; s.cells = {}; s.node = node; s.name = name; s.fn = None; s.ro = False; s.gen = 0
    def copy(s):
        o = Obj.__new__(Obj)
        o.id = s.id; o.size = s.size; o.kind = s.kind; o.alive = s.alive; o.cells = s.cells; o.node = s.node; o.name = s.name; o.fn = s.fn; o.ro = s.ro; o.gen = s.gen
        return o
    def sealed(s):
        return Cells(s.cells, s.node) if s.cells else s.node

def obj_read(ctx, o, off, n):
    cells = o.cells
    if type(off) is int:
        c = cells.get(off)
        if c is not None and c[0] == n: return c[1]
        if not cells: return ctx_rn(ctx, o.node, off, n)
    elif not cells:
        return ctx_rn(ctx, o.node, off, n)
    return ctx_rn(ctx, Cells(cells, o.node), off, n)

def _carve(ctx, cells, off, n):
    """remove [off,off+n) from cells (dict, mutated)"""
    if off in cells and cells[off][0] == n:
        del cells[off]; return
    for o in list(range(off - 15, off + n)) if n < 64 else [k for k in cells if off - 16 < k < off + n]:
        c = cells.get(o)
        if c is None: continue
        if o + c[0] <= off: continue
        del cells[o]
        for i in range(c[0]):
            p = o + i
            if p < off or p >= off + n:
                cells[p] = (1, cell_byte(ctx, c, i))

def obj_write(ctx, o, off, n, val):
    """returns new Obj"""
    r = o.copy()
    if type(off) is int:
        cells = dict(o.cells)
        _carve(ctx, cells, off, n)
        cells[off] = (n, val)
        r.cells = cells
    else:
        r.node = Store(o.sealed(), off, n, val)
        r.cells = {}
    return r

def obj_copy(ctx, dst, doff, src, soff, n):
    """memcpy/memmove semantics (source snapshot)."""
    r = dst.copy()
    if type(n) is int and type(doff) is int and type(soff) is int and n <= 160:
        cells = dict(dst.cells)
        _carve(ctx, cells, doff, n) if n else None
        i = 0
        sc = src.cells
        while i < n:
            c = sc.get(soff + i)
            if c is not None and i + c[0] <= n:
                cells[doff + i] = c; i += c[0]; continue
            # bytes not exactly on a cell
            if c is None and n - i >= 8 and not any((soff + i + d) in sc for d in range(1, 8)) \
               and not any((soff + i - d) in sc and sc[soff + i - d][0] > d for d in range(1, 16)):
                v = ctx_rn(ctx, src.node, soff + i, 8)
                cells[doff + i] = (8, v); i += 8; continue
            cells[doff + i] = (1, obj_read(ctx, src, soff + i, 1)); i += 1
        r.cells = cells
        return r
    if type(n) is int and n == 0: return dst
    r.node = Copy(dst.sealed(), doff, n, src.sealed(), soff)
    r.cells = {}
    return r

def obj_fill(ctx, dst, doff, n, val):
    r = dst.copy()
    if type(n) is int and n == 0: return dst
    if type(n) is int and type(doff) is int and type(val) is int and n <= 64:
        cells = dict(dst.cells)
        _carve(ctx, cells, doff, n)
        i = 0
        while i < n:
            k = 8 if (n - i >= 8 and (doff + i) % 8 == 0) else (4 if n - i >= 4 and (doff + i) % 4 == 0 else 1)
            cells[doff + i] = (k, int.from_bytes(bytes([val]) * k, 'little')); i += k
        r.cells = cells
        return r
    r.node = Fill(dst.sealed(), doff, n, val)
    r.cells = {}
    return r
