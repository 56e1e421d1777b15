"""Symbolic executor for LLVM IR: reals for floating point, bit-vectors for
integers, concrete byte-addressed memory objects, path forking decided by z3."""
import math
import re
import struct
import sys
import time
from fractions import Fraction
import z3

import llparse as L
import rf
from rf import RF, rf_const, rf_add, rf_sub, rf_mul, rf_div, rf_neg, rf_sqrt, rf_fn, rf_atom

SHIFT = 28
HALF = 1 << 27
MASKO = (1 << SHIFT) - 1
M64 = (1 << 64) - 1

ZERO = rf_const(0)
ONE = rf_const(1)


class EngineError(Exception):
    pass


class Enough(Exception):
    """enough counterexamples collected"""


class PathEnd(Exception):
    def __init__(self, kind, msg=""):
        self.kind = kind
        self.msg = msg


class Fork(Exception):
    def __init__(self, alts):
        self.alts = alts      # list of (list of (zexpr, vars), {known updates})


class Undef:
    __slots__ = ("ty",)

    def __init__(self, ty):
        self.ty = ty


class Bad(Undef):
    """result of a real division by zero: harmless until something depends on it (the compiler hoists and speculates
    divisions), a program error when used"""
    __slots__ = ("msg",)

    def __init__(self, msg):
        self.ty = None
        self.msg = msg


class Cmp:
    """rf OP 0"""
    __slots__ = ("op", "r", "key")

    def __init__(self, op, r):
        if not rf.CTX.no_exp:
            e = rf.log_cmp(rf.signed_num(r) if op in ("<", "<=") else r.n)
            if e is not None:
                r = e
        self.op = op
        self.r = r
        self.key = (op, r.key)

    def neg(self):
        return {"<": lambda: Cmp("<=", rf_neg(self.r)), "<=": lambda: Cmp("<", rf_neg(self.r)),
                "==": lambda: Cmp("!=", self.r), "!=": lambda: Cmp("==", self.r)}[self.op]()

    def z(self):
        n = rf.strip_content(rf.signed_num(self.r) if self.op in ("<", "<=") else self.r.n)
        e = rf.z_poly(n)
        return {"<": lambda: e < 0, "<=": lambda: e <= 0, "==": lambda: e == 0, "!=": lambda: e != 0}[self.op]()

    def vars(self):
        s = rf.p_vars(self.r.n)
        for f in self.r.d:
            s |= rf.p_vars(rf.CTX.factors[f])
        return s


HUGE = Fraction(10) ** 300
TINY = Fraction(1, 10 ** 290)


def single(x):
    """round a known real to IEEE single precision"""
    c = x.const() if isinstance(x, RF) else None
    if c is None or abs(c) > 1e38:
        return x
    return rf_const(Fraction(struct.unpack("f", struct.pack("f", float(c)))[0]))


def dbl(x):
    """IEEE double -> exact-ish rational (shortest representation)"""
    if x != x or x in (float("inf"), float("-inf")):
        # represent non-finite as a huge opaque number
        return Fraction(0) if x != x else Fraction(10) ** 300 * (1 if x > 0 else -1)
    if x == int(x) and abs(x) < 2**53:
        return Fraction(int(x))
    f = Fraction(x).limit_denominator(1000)
    if float(f) == x:
        return f
    return Fraction(repr(x))


def trim(r):
    c = r.const()
    if c is not None and c != 0:
        n, d = c.numerator, c.denominator
        if n.bit_length() > 600 or d.bit_length() > 600:
            s = 260 - (n.bit_length() - d.bit_length())
            if s > 0:
                q = (n << s) // d
                return rf_const(Fraction(q, 1 << s))
            q = n // (d << -s)
            return rf_const(Fraction(q << -s))
    return r


class Obj:
    __slots__ = ("id", "size", "cells", "owner", "name", "freed", "kind")

    def __init__(self, id_, size, owner, name, kind):
        self.id = id_
        self.size = size
        self.cells = {}
        self.owner = owner
        self.name = name
        self.freed = False
        self.kind = kind

    def clone_cells(self):
        o = Obj(self.id, self.size, -1, self.name, self.kind)
        o.cells = dict(self.cells)
        return o


class Frame:
    __slots__ = ("f", "code", "pc", "regs", "prev", "ret", "allocas", "normal", "unw")

    def clone(self):
        g = Frame()
        g.f = self.f
        g.code = self.code
        g.pc = self.pc
        g.regs = dict(self.regs)
        g.prev = self.prev
        g.ret = self.ret
        g.allocas = list(self.allocas)
        g.normal = self.normal
        g.unw = self.unw
        return g


class State:
    _n = 0

    def __init__(self):
        State._n += 1
        self.sid = State._n
        self.mem = {}
        self.frames = []
        self.pc = []            # (zexpr, frozenset vars)
        self.known = {}
        self.next_obj = 64
        self.inputs = []        # (name, kind, term)
        self.names = {}
        self.notes = []
        self.trace = []
        self.flags = {}
        self.steps = 0
        self.access = None
        self.covers = set()
        self.exc = None         # exception in flight: (object, type info)
        self.caught = ()
        self.fib = None         # cooperative threads: (depth of the caller's stack, current one, stacks; None: ended)
        self.par = None         # a parallel region: Team
        self.tls = {}           # (thread, thread-local variable) -> address of the thread's copy

    def clone(self):
        s = State.__new__(State)
        State._n += 1
        s.sid = State._n
        # both sides must copy on write from now on
        s.mem = dict(self.mem)
        s.frames = [f.clone() for f in self.frames]
        s.pc = list(self.pc)
        s.known = dict(self.known)
        s.next_obj = self.next_obj
        s.inputs = list(self.inputs)
        s.names = dict(self.names)
        s.notes = list(self.notes)
        s.trace = list(self.trace)
        s.flags = dict(self.flags)
        s.steps = self.steps
        s.access = None if self.access is None else {k: set(v) for k, v in self.access.items()}
        s.covers = set(self.covers)
        s.exc = self.exc
        s.caught = self.caught
        s.fib = None
        if self.fib is not None:
            base, cur, stacks = self.fib
            s.fib = (base, cur, [None if x is None else [f.clone() for f in x] for x in stacks])
        s.par = None
        s.tls = dict(self.tls)
        if self.par is not None:
            s.par = self.par.clone()
            s.access = s.par.current(s)
        State._n += 1
        self.sid = State._n
        return s


class Team:
    """the threads of a parallel region, and the memory each uses between two barriers, under which lock"""

    def __init__(self, order, name):
        self.order = order              # fiber -> thread
        self.name = name
        self.epoch = [0] * len(order)
        self.lock = [None] * len(order)
        self.quiet = [0] * len(order)
        self.used = {}

    def clone(self):
        t = Team.__new__(Team)
        t.order = self.order
        t.name = self.name
        t.epoch = list(self.epoch)
        t.lock = list(self.lock)
        t.quiet = list(self.quiet)
        t.used = {k: {x: set(y) for x, y in v.items()} for k, v in self.used.items()}
        return t

    def current(self, st):
        if st.fib is None:
            return None
        t = self.order[st.fib[1]]
        if self.quiet[t]:
            return None
        return self.used.setdefault((self.epoch[t], t, self.lock[t]), {"r": set(), "w": set()})

    def conflict(self, mem):
        """memory that one thread writes while another uses it, or None"""
        groups = {}
        for (ep, t, lk), v in self.used.items():
            groups.setdefault(ep, []).append((t, lk, v))
        for g in groups.values():
            users, writers = {}, {}
            for t, lk, v in g:
                for k in ("r", "w"):
                    for o in {x[0] for x in v[k]}:
                        users.setdefault(o, set()).add(t)
                        if k == "w":
                            writers.setdefault(o, set()).add(t)
            hot = {o for o in writers if len(users[o]) > 1}
            if not hot:
                continue
            wr = {}
            for t, lk, v in g:
                for o, off, n in v["w"]:
                    if o in hot:
                        for b in range(off, off + n):
                            wr.setdefault((o, b), set()).add((t, lk))
            for t, lk, v in g:
                for k in ("r", "w"):
                    for o, off, n in v[k]:
                        if o not in hot:
                            continue
                        for b in range(off, off + n):
                            for t2, lk2 in wr.get((o, b), ()):
                                if t2 != t and (lk is None or lk != lk2):
                                    x = mem.get(o)
                                    return "%s+%d, threads %d and %d, %s" % (x.name if x else "?", off, t2, t, self.name)
        return None


def tosigned(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


def zbv(v, w):
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    return v


def zvars(e, cache={}):
    """set of names of uninterpreted constants in a z3 expression"""
    out = set()
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        st.extend(x.children())
    return out


class Machine:
    def __init__(self, mod, params=None, opts=None):
        self.m = mod
        self.params = params or {}
        self.opts = {"timeout": 20000, "max_paths": 20000, "max_fan": 200, "max_steps": 40_000_000,
                     "budget": 600}
        self.opts.update(opts or {})
        self.fn_addr = {}
        self.addr_fn = {}
        self.gaddr = {}
        self.stats = {"queries": 0, "solver_s": 0.0, "paths": 0, "checks": 0, "unsat": 0, "sat": 0, "unknown": 0,
                      "feas": 0, "forks": 0, "instr": 0, "trivial": 0}
        self.executed = set()
        self.ended = {}
        self.failures = []
        self.inconclusive = []
        self.covers = set()
        self.check_labels = {}
        self.qcache = {}
        self.t0 = time.time()
        self.undef_n = 0
        self.assumed_nonzero = set()
        self.builtins = dict(BUILTINS)
        self.overrides = {}
        self.vacuity = None
        self.t_fail = 0
        self.fail_count = {}
        self._ids = None
        self.teams = 0
        self._init_globals()
        self.tls_vars = {self.gaddr[n] >> SHIFT for n in self.m.tls if n in self.gaddr}
        self.base0 = {a >> SHIFT: self.base.mem[a >> SHIFT].clone_cells() for a in self.gaddr.values()}

    # ------------------------------------------------------------ globals
    def _init_globals(self):
        st = State()
        self.base = st
        nid = 1 << 12
        for name in list(self.m.funcs) + list(self.m.decls):
            a = (nid << SHIFT) + HALF
            nid += 1
            self.fn_addr[name] = a
            self.addr_fn[a] = name
        for name, (t, init) in self.m.globals.items():
            try:
                size = self.m.size(t)
            except (ValueError, KeyError):
                size = 8
            self.gaddr[name] = self.alloc(st, size, name, "global")
        for name, (t, init) in self.m.globals.items():
            if init is not None:
                self.store_const(st, self.gaddr[name], t, init)
            else:
                # external global: zero bytes
                o = self.obj(st, self.gaddr[name])
        self.ctors = []
        g = self.m.globals.get("@llvm.global_ctors")
        if g and g[1] and g[1][0] == "agg":
            for t, v in g[1][2]:
                fn = v[2][1][1]
                self.ctors.append((v[2][0][1][1], fn[1]))
            self.ctors.sort(key=lambda x: x[0])

    def alloc(self, st, size, name, kind):
        i = st.next_obj
        st.next_obj += 1
        if i >= (1 << 12) and i < (1 << 12) + len(self.fn_addr):
            i = st.next_obj = (1 << 12) + len(self.fn_addr) + 1
            st.next_obj += 1
        st.mem[i] = Obj(i, size, st.sid, name, kind)
        return (i << SHIFT) + HALF

    def obj(self, st, addr):
        return st.mem.get(addr >> SHIFT)

    def store_const(self, st, addr, t, v):
        m = self.m
        t = m.res(t)
        k = v[0]
        if k == "bytes":
            for i, b in enumerate(v[1]):
                self.store_raw(st, addr + i, 1, b)
            return
        if k == "zero":
            self.memset(st, addr, 0, m.size(t))
            return
        if k == "undef":
            return
        if k == "agg":
            if t.k == "struct":
                offs = m.layout(t)
                for (et, ev), o in zip(v[2], offs):
                    self.store_const(st, addr + o, et, ev)
            else:
                es = m.size(t.b)
                for i, (et, ev) in enumerate(v[2]):
                    self.store_const(st, addr + i * es, et, ev)
            return
        self.store_raw(st, addr, m.size(t), self.cval(t, v))

    def gep_off(self, bt, ops):
        """constant offsets"""
        m = self.m
        off = 0
        t = bt
        first = True
        for ot, ov in ops:
            i = self.cval(ot, ov)
            i = tosigned(i, ot.a)
            if first:
                off += i * m.size(t)
                first = False
            else:
                t = m.res(t)
                if t.k == "struct":
                    off += m.layout(t)[i]
                    t = t.a[i]
                else:
                    t = t.b
                    off += i * m.size(t)
        return off

    def cval(self, t, v):
        """constant operand -> runtime value"""
        k = v[0]
        if k == "int":
            if t.k == "int":
                return v[1] & ((1 << t.a) - 1)
            if t.k == "float":
                return rf_const(v[1])
            return v[1]
        if k == "fp":
            return rf_const(dbl(v[1]))
        if k == "glob":
            n = v[1]
            if n in self.m.aliases:
                return self.cval(t, self.m.aliases[n])
            if n in self.gaddr:
                return self.gaddr[n]
            if n in self.fn_addr:
                return self.fn_addr[n]
            raise EngineError("unknown global " + n)
        if k == "undef":
            t = self.m.res(t)
            if t.k in ("struct", "array", "vector"):
                n = len(t.a) if t.k == "struct" else t.a
                return tuple(self.cval(t.a[i] if t.k == "struct" else t.b, v) for i in range(n))
            return Undef(t)
        if k == "zero":
            t = self.m.res(t)
            if t.k == "float":
                return ZERO
            if t.k in ("int", "ptr"):
                return 0
            if t.k == "struct":
                return tuple(self.cval(x, v) for x in t.a)
            return tuple(self.cval(t.b, v) for _ in range(t.a))
        if k == "agg":
            return tuple(self.cval(et, ev) for et, ev in v[2])
        if k == "gep":
            base = self.cval(v[2][0][0], v[2][0][1])
            return (base + self.gep_off(v[1], v[2][1:])) & M64
        if k == "cast":
            x = self.cval(v[2], v[3])
            if v[1] == "trunc":
                return x & ((1 << v[4].a) - 1)
            return x
        if k == "cbin":
            a, b = self.cval(v[2], v[3]), self.cval(v[2], v[4])
            w = v[2].a if v[2].k == "int" else 64
            r = {"add": a + b, "sub": a - b, "mul": a * b, "xor": a ^ b, "and": a & b, "or": a | b}[v[1]]
            return r & ((1 << w) - 1)
        raise EngineError("const %r" % (v,))

    # ------------------------------------------------------------ memory
    def check_access(self, st, addr, size, write):
        if st.par is not None and (addr >> SHIFT) in self.tls_vars:     # named directly: the thread's own
            addr = self.tls_addr(st, addr & ~MASKO | HALF) + (addr & MASKO) - HALF
        o = st.mem.get(addr >> SHIFT)
        off = (addr & MASKO) - HALF
        if o is None:
            raise PathEnd("memory", "%s through invalid pointer 0x%x" % ("write" if write else "read", addr))
        if o.freed:
            raise PathEnd("memory", "%s of freed memory %s" % ("write" if write else "read", o.name))
        if off < 0 or off + size > o.size:
            raise PathEnd("memory", "%s out of bounds: offset %d size %d of object %s (%d bytes)" % (
                "write" if write else "read", off, size, o.name, o.size))
        if st.access is not None:
            st.access["w" if write else "r"].add((o.id, off, size))
        return o, off

    def wobj(self, st, o):
        if o.owner != st.sid:
            n = Obj(o.id, o.size, st.sid, o.name, o.kind)
            n.cells = dict(o.cells)
            n.freed = o.freed
            st.mem[o.id] = n
            return n
        return o

    def store_raw(self, st, addr, size, val):
        o, off = self.check_access(st, addr, size, True)
        o = self.wobj(st, o)
        c = o.cells
        old = c.get(off)
        if old is not None and old[0] == size:
            c[off] = (size, val)
            return
        self._clear(o, off, size)
        c[off] = (size, val)

    def _clear(self, o, off, size):
        """remove cells overlapping [off, off+size), splitting partial ones"""
        c = o.cells
        lo = off - 15
        for p in range(lo, off + size):
            x = c.get(p)
            if x is None:
                continue
            s, v = x
            if p + s <= off:
                continue
            del c[p]
            if p < off or p + s > off + size:
                bs = self._bytes(s, v)
                for i in range(s):
                    if not (off <= p + i < off + size):
                        c[p + i] = (1, bs[i])

    def _bytes(self, s, v):
        if isinstance(v, int):
            return [(v >> (8 * i)) & 255 for i in range(s)]
        if isinstance(v, Undef):
            return [v] * s
        if isinstance(v, RF):
            k = v.const()
            if k is not None:
                n = struct.unpack("<Q", struct.pack("<d", float(k)))[0] if s == 8 else \
                    struct.unpack("<I", struct.pack("<f", float(k)))[0]
                return self._bytes(s, n)
            return [("rfb", v, i) for i in range(s)]
        if isinstance(v, z3.BitVecRef):
            return [z3.simplify(z3.Extract(8 * i + 7, 8 * i, v)) for i in range(s)]
        if isinstance(v, tuple) and v and v[0] == "rfb":
            return [v]
        raise EngineError("bytes of %r" % (v,))

    def load_raw(self, st, addr, size, ty):
        o, off = self.check_access(st, addr, size, False)
        x = o.cells.get(off)
        if x is not None and x[0] == size:
            return x[1]
        # compose
        bs = []
        c = o.cells
        for i in range(off, off + size):
            b = None
            for p in range(i, i - 16, -1):
                y = c.get(p)
                if y is not None:
                    if p + y[0] > i:
                        b = self._bytes(y[0], y[1])[i - p]
                    break
            if b is None:
                return Undef(ty)
            bs.append(b)
        if all(isinstance(b, int) for b in bs):
            return int.from_bytes(bytes(bs), "little")
        if any(isinstance(b, Undef) for b in bs):
            return Undef(ty)
        if isinstance(bs[0], tuple) and bs[0][0] == "rfb":
            v = bs[0][1]
            if size == 8 and all(isinstance(b, tuple) and b[1] is v and b[2] == i for i, b in enumerate(bs)):
                return v
            raise EngineError("partial symbolic double")
        return z3.simplify(z3.Concat(*[zbv(b, 8) for b in reversed(bs)])) if size > 1 else bs[0]

    def conv(self, st, v, ty):
        """value as loaded -> value of type ty"""
        if ty.k == "float":
            if isinstance(v, RF):
                return v
            if isinstance(v, int):
                if v == 0:
                    return ZERO
                if ty.a == "double":
                    return rf_const(dbl(struct.unpack("<d", struct.pack("<Q", v))[0]))
                return rf_const(dbl(struct.unpack("<f", struct.pack("<I", v))[0]))
            if isinstance(v, Undef):
                return v
            raise EngineError("bits of symbolic integer as double")
        return v

    def load(self, st, addr, ty):
        ty = self.m.res(ty)
        if not isinstance(addr, int):
            addr = self.concretize(st, addr)
        if ty.k in ("struct",):
            offs = self.m.layout(ty)
            return tuple(self.load(st, addr + o, x) for o, x in zip(offs, ty.a))
        if ty.k in ("array", "vector"):
            s = self.m.size(ty.b)
            return tuple(self.load(st, addr + i * s, ty.b) for i in range(ty.a))
        v = self.conv(st, self.load_raw(st, addr, self.m.size(ty), ty), ty)
        if ty.k == "int" and ty.a == 1:
            if isinstance(v, int):
                v &= 1
            elif isinstance(v, z3.BitVecRef):
                v = z3.simplify(z3.Extract(0, 0, v) == 1)
        elif ty.k == "int" and isinstance(v, int) and ty.a < 64:
            v &= (1 << ty.a) - 1
        return v

    def store(self, st, addr, ty, v):
        ty = self.m.res(ty)
        if not isinstance(addr, int):
            addr = self.concretize(st, addr)
        if ty.k == "struct":
            for o, x, y in zip(self.m.layout(ty), ty.a, v):
                self.store(st, addr + o, x, y)
            return
        if ty.k in ("array", "vector"):
            s = self.m.size(ty.b)
            for i, y in enumerate(v):
                self.store(st, addr + i * s, ty.b, y)
            return
        if ty.k == "int" and ty.a == 1 and not isinstance(v, (int, Undef)):
            v = z3.If(self.zbool(v), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
        self.store_raw(st, addr, self.m.size(ty), v)

    def memset(self, st, addr, byte, n):
        if n == 0:
            return
        o, off = self.check_access(st, addr, n, True)
        o = self.wobj(st, o)
        if isinstance(byte, int):
            w = int.from_bytes(bytes([byte]) * 8, "little")
            self._clear_range(o, off, n)
            i = off
            end = off + n
            while i < end:
                if i % 8 == 0 and i + 8 <= end:
                    o.cells[i] = (8, w)
                    i += 8
                else:
                    o.cells[i] = (1, byte)
                    i += 1
        else:
            self._clear_range(o, off, n)
            for i in range(off, off + n):
                o.cells[i] = (1, byte)

    def _clear_range(self, o, off, n):
        c = o.cells
        if n > 4 * len(c):
            todo = [p for p in c if p + c[p][0] > off and p < off + n]
            full = [p for p in todo if p >= off and p + c[p][0] <= off + n]
            for p in full:
                del c[p]
            for p in todo:
                if p in c:
                    s, v = c.pop(p)
                    bs = self._bytes(s, v)
                    for i in range(s):
                        if not (off <= p + i < off + n):
                            c[p + i] = (1, bs[i])
        else:
            self._clear(o, off, n)

    def memcpy(self, st, dst, src, n):
        if n == 0:
            return
        so, soff = self.check_access(st, src, n, False)
        do, doff = self.check_access(st, dst, n, True)
        items = []
        c = so.cells
        if len(c) < n:
            rng = [p for p in c if p + c[p][0] > soff and p < soff + n]
        else:
            rng = [p for p in range(soff - 15, soff + n) if p in c and p + c[p][0] > soff]
        for p in rng:
            s, v = c[p]
            if p >= soff and p + s <= soff + n:
                items.append((p - soff, s, v))
            else:
                bs = self._bytes(s, v)
                for i in range(s):
                    if soff <= p + i < soff + n:
                        items.append((p + i - soff, 1, bs[i]))
        do = self.wobj(st, do)
        self._clear_range(do, doff, n)
        for p, s, v in items:
            do.cells[doff + p] = (s, v)

    def cstr(self, st, addr):
        out = bytearray()
        while True:
            b = self.load_raw(st, addr + len(out), 1, L.int_t(8))
            if not isinstance(b, int):
                b = self.concretize(st, b)
            if b == 0:
                return bytes(out).decode("latin1")
            out.append(b)

    # ------------------------------------------------------------ solver
    def zbool(self, c):
        if isinstance(c, Cmp):
            return c.z()
        if isinstance(c, int):
            return z3.BoolVal(bool(c))
        if isinstance(c, z3.BitVecRef):
            return c == 1
        if isinstance(c, Undef):
            self.undef_n += 1
            return z3.Bool("undef_b%d" % self.undef_n)
        return c

    def cvars(self, c):
        if isinstance(c, Cmp):
            return frozenset("#%d" % v for v in rf.collect_atoms([c.r.n] + [rf.CTX.factors[f] for f in c.r.d]))
        vs = set()
        for n in zvars(c):
            a = self.atom_by_name(n)
            vs.add(n if a is None else "#%d" % a)
        ids = [int(v[1:]) for v in vs if v.startswith("#")]
        if ids:
            extra = rf.collect_atoms([{((i, 1),): Fraction(1)} for i in ids])
            vs |= {"#%d" % i for i in extra}
        return frozenset(vs)

    def atom_by_name(self, n):
        d = getattr(self, "_abn", None)
        if d is None:
            d = self._abn = {}
            self._abn_n = 0
        atoms = rf.CTX.atoms
        while self._abn_n < len(atoms):
            d[atoms[self._abn_n].name] = self._abn_n
            self._abn_n += 1
        return d.get(n)

    def slice(self, st, vs):
        vs = set(vs)
        out = []
        rest = list(st.pc)
        changed = True
        while changed:
            changed = False
            nr = []
            for e in rest:
                if e[1] & vs:
                    out.append(e)
                    if not e[1] <= vs:
                        vs |= e[1]
                        changed = True
                else:
                    nr.append(e)
            rest = nr
        return out, vs

    def solve(self, exprs, vs, timeout=None, want_model=False):
        ids = [int(v[1:]) for v in vs if v.startswith("#")]
        cons = rf.atom_constraints(ids) + list(exprs)
        t = time.time()
        self.stats["queries"] += 1
        timeout = timeout or self.opts["timeout"]
        left = self.opts["budget"] - (t - self.t0)
        if left < 0:
            raise EngineError("time budget exhausted")
        timeout = int(min(timeout, max(1000, left * 1000)))
        s = z3.Solver()
        s.set("timeout", timeout)
        s.add(*cons)
        r = s.check()
        mdl = s.model() if r == z3.sat and want_model else None
        if r == z3.unknown:
            try:
                s2 = z3.Tactic("qfnra-nlsat").solver()
                s2.set("timeout", timeout)
                s2.add(*cons)
                r = s2.check()
                if r == z3.sat and want_model:
                    mdl = s2.model()
            except z3.Z3Exception:
                pass
        self.stats["solver_s"] += time.time() - t
        if self.opts.get("trace") and time.time() - t > 1:
            print("SLOW %.1fs %s" % (time.time() - t, r), [str(c)[:300] for c in cons][:12], flush=True)
        return (r, mdl) if want_model else r

    def feasible(self, st, z, vs):
        sl, avs = self.slice(st, vs)
        key = (z.get_id() if not isinstance(z, bool) else z, tuple(sorted(id(e) for e in sl)))
        r = self.qcache.get(key)
        if r is None:
            self.stats["feas"] += 1
            res = self.solve([e[0] for e in sl] + [z], avs)
            r = (res != z3.unsat, z, sl)     # keep refs alive so ids stay unique
            self.qcache[key] = r
        return r[0]

    def decide(self, st, c):
        """boolean value of a condition on this path, forking if both feasible"""
        if isinstance(c, int):
            return bool(c)
        if isinstance(c, Undef):
            self.undef_n += 1
            st.notes.append("branch on uninitialised value")
            c = z3.Bool("undef_b%d" % self.undef_n)
        if isinstance(c, Cmp):
            k = c.r.const()
            if k is not None:
                return {"<": k < 0, "<=": k <= 0, "==": k == 0, "!=": k != 0}[c.op]
            s = rf.rf_sign(c.r)
            if s:
                return {"<": s < 0, "<=": s < 0, "==": False, "!=": True}[c.op]
            key = c.key
            v = st.known.get(key)
            if v is not None:
                return v
            nkey = c.neg().key
            v = st.known.get(nkey)
            if v is not None:
                return not v
        else:
            if z3.is_true(c):
                return True
            if z3.is_false(c):
                return False
            c = z3.simplify(c)
            if z3.is_true(c):
                return True
            if z3.is_false(c):
                return False
            key = ("z", c.get_id())
            v = st.known.get(key)
            if v is not None:
                return v[0] if isinstance(v, tuple) else v
        z = self.zbool(c)
        vs = self.cvars(c)
        nz = c.neg().z() if isinstance(c, Cmp) else z3.Not(z)
        t = self.feasible(st, z, vs)
        f = self.feasible(st, nz, vs) if t else True
        zk = (True, c) if not isinstance(c, Cmp) else True
        fk = (False, c) if not isinstance(c, Cmp) else False
        if t and not f:
            st.known[key] = zk
            return True
        if f and not t:
            st.known[key] = fk
            return False
        raise Fork([([(z, vs)], {key: zk}), ([(nz, vs)], {key: fk})])

    def concretize(self, st, v):
        """concrete integer for a bit-vector, forking over every feasible value"""
        if isinstance(v, int):
            return v
        if isinstance(v, Undef):
            raise PathEnd("memory", "address or size derived from uninitialised memory")
        if isinstance(v, RF):
            raise EngineError("integer use of a real")
        if not isinstance(v, z3.BitVecRef):
            return 1 if self.decide(st, v) else 0
        v = z3.simplify(v)
        if z3.is_bv_value(v):
            return v.as_long()
        key = ("i", v.get_id())
        k = st.known.get(key)
        if k is not None:
            return k[0]
        vs = self.cvars(v)
        sl, avs = self.slice(st, vs)
        cons = [e[0] for e in sl]
        vals = []
        blk = []
        s = z3.Solver()
        s.set("timeout", self.opts["timeout"])
        s.add(*rf.atom_constraints([int(x[1:]) for x in avs if x.startswith("#")]))
        s.add(*cons)
        while True:
            t = time.time()
            self.stats["queries"] += 1
            r = s.check()
            self.stats["solver_s"] += time.time() - t
            if r == z3.unsat:
                break
            if r == z3.unknown:
                raise EngineError("concretize: unknown")
            x = s.model().eval(v, model_completion=True).as_long()
            vals.append(x)
            s.add(v != x)
            if len(vals) > self.opts["max_fan"]:
                if any(x.startswith("undef_") for x in vs):
                    raise PathEnd("memory", "address or size derived from uninitialised memory")
                raise EngineError("concretize: more than %d values" % self.opts["max_fan"])
        if len(vals) == 1:
            st.known[key] = (vals[0], v)
            return vals[0]
        if not vals:
            raise PathEnd("infeasible")
        raise Fork([([(v == x, vs)], {key: (x, v)}) for x in sorted(vals)])

    def floor_int(self, st, r):
        """integer floor of a real, forking over every feasible value"""
        c = r.const()
        if c is not None:
            return c.numerator // c.denominator
        key = ("fl", r.key)
        k = st.known.get(key)
        if k is not None:
            return k
        num = rf.signed_num(r)
        vs = self.cvars(Cmp("<", r))
        sl, avs = self.slice(st, vs)
        zi = z3.Int("flr!")
        # candidate enumeration by repeated models of the real term
        base = rf.atom_constraints([int(x[1:]) for x in avs if x.startswith("#")]) + [e[0] for e in sl]
        vals = []
        tries = 0
        excl = []
        while True:
            s = z3.Solver()
            s.set("timeout", self.opts["timeout"])
            s.add(*base)
            s.add(*excl)
            t = time.time()
            self.stats["queries"] += 1
            res = s.check()
            if res == z3.unknown:
                s = z3.Tactic("qfnra-nlsat").solver()
                s.set("timeout", self.opts["timeout"])
                s.add(*base)
                s.add(*excl)
                res = s.check()
            self.stats["solver_s"] += time.time() - t
            if res == z3.unsat:
                break
            if res == z3.unknown:
                raise EngineError("floor: unknown")
            mdl = s.model()
            env = self.model_env(mdl, avs)
            x = rf.eval_rf(r, env, {})
            if x != x or abs(x) == float("inf"):
                raise EngineError("floor: cannot evaluate model")
            added = False
            for n in (math.floor(x), math.floor(x + 1e-9), math.floor(x - 1e-9)):
                if n not in vals:
                    lo, hi = self.floor_cons(r, n)
                    excl.append(z3.Not(z3.And(lo, hi)))
                    vals.append(n)
                    added = True
            tries += 1
            if not added or tries > self.opts["max_fan"]:
                raise EngineError("floor: enumeration failed (%d values)" % len(vals))
        alts = []
        for n in sorted(vals):
            lo, hi = self.floor_cons(r, n)
            rr = self.solve(base + [lo, hi], avs)
            if rr == z3.unsat:
                continue
            alts.append(([(lo, vs), (hi, vs)], {key: n}))
        if not alts:
            raise PathEnd("infeasible")
        if len(alts) == 1:
            st.known[key] = alts[0][1][key]
            return st.known[key]
        raise Fork(alts)

    def floor_cons(self, r, n):
        lo = Cmp("<=", rf_sub(rf_const(n), r)).z()
        hi = Cmp("<", rf_sub(r, rf_const(n + 1))).z()
        return lo, hi

    def trunc_int(self, st, r):
        c = r.const()
        if c is not None:
            return int(c)
        neg = self.decide(st, Cmp("<", r))
        if neg:
            return -self.floor_int(st, rf_neg(r))
        return self.floor_int(st, r)

    def model_env(self, mdl, vs=None):
        env = {}
        for a in rf.CTX.atoms:
            if a.kind != "var":
                continue
            v = None
            if a.z is not None:
                v = mdl.eval(a.z, model_completion=False)
                if not (z3.is_rational_value(v) or z3.is_algebraic_value(v)):
                    v = None
            if v is None:
                lo, hi = a.lo, a.hi
                if lo is not None and hi is not None:
                    x = lo + (hi - lo) * Fraction(3 + (a.id * 7) % 11, 17)
                elif lo is not None:
                    x = lo + 1 + Fraction(a.id % 7, 8)
                elif hi is not None:
                    x = hi - 1
                else:
                    x = Fraction(1 + a.id % 5) if a.pos else Fraction(1 + a.id % 5, 2)
                env[a.name] = x
            elif z3.is_rational_value(v):
                env[a.name] = Fraction(v.numerator_as_long(), v.denominator_as_long())
            else:
                ap = v.approx(40)
                env[a.name] = Fraction(ap.numerator_as_long(), ap.denominator_as_long())
        return env

    # ------------------------------------------------------------ running
    def run(self, entry):
        if not entry.startswith("@"):
            entry = "@" + entry
        st = self.base.clone()
        for _, c in self.ctors:
            self.call_sync(st, c)
        self.push(st, self.m.funcs[entry], [], None)
        work = [st]
        while work:
            st = work.pop()
            try:
                self.exec_path(st, work)
            except Enough:
                return
            except PathEnd as e:
                self.stats["paths"] += 1
                self.ended[e.kind] = self.ended.get(e.kind, 0) + 1
                if e.kind in ("return", "infeasible", "assume"):
                    if e.kind == "return":
                        self.on_return(st)
                else:
                    self.on_bad_end(st, e)
            if self.stats["paths"] > self.opts["max_paths"]:
                raise EngineError("path limit exceeded")
            if time.time() - self.t0 > self.opts["budget"]:
                raise EngineError("time budget exhausted")
            if self.failures and time.time() - self.t_fail > self.opts.get("fail_grace", 40):
                break

    def on_return(self, st):
        self.covers |= st.covers
        if self.vacuity is None or not self.vacuity:
            # vacuity twin: is this completed path really satisfiable?
            vs = set()
            for e in st.pc:
                vs |= e[1]
            r = self.solve([e[0] for e in st.pc], vs, timeout=3000)
            if r == z3.unknown and self.sampled(st, vs):
                r = z3.sat
            if r == z3.unknown:
                r = self.solve([e[0] for e in st.pc], vs)
            self.vacuity = (r == z3.sat)

    def sampled(self, st, vs):
        """a concrete input that satisfies the path condition (numerically), if a few random ones contain it"""
        import random
        ids = sorted(int(v[1:]) for v in vs if v.startswith("#"))
        if len(ids) != len(vs):
            return False
        for env in self.jitter(st, None, random.Random(7), 60):
            cache = {}
            try:
                sub = []
                for i in ids:
                    x = rf.eval_atom(i, env, cache)
                    if x != x:
                        raise ValueError
                    sub.append((rf.z_atom(i), z3.RealVal(Fraction(x))))
                if all(z3.is_true(z3.simplify(z3.substitute(e[0], *sub))) for e in st.pc):
                    return True
            except (ValueError, KeyError, ZeroDivisionError, OverflowError, TypeError, AttributeError):
                continue
        return False

    def on_bad_end(self, st, e):
        if e.kind in st.flags.get("allow", ()):
            self.covers |= st.covers
            return
        where = [f.f.name for f in st.frames[-3:]]
        k = ("end:" + e.kind, tuple(where))
        self.check_labels["end:" + e.kind] = self.check_labels.get("end:" + e.kind, 0) + 1
        n = self.fail_count.get(k, 0)
        if n >= 4:
            return
        r, envs = self.models(st, [], [])
        if r == z3.unsat:
            return
        if r == z3.unknown:
            self.inconclusive.append({"label": "end:" + e.kind, "msg": e.msg, "where": where})
            return
        self.fail_count[k] = n + 1
        self.t_fail = self.t_fail or time.time()
        self.failures.append({"label": "end:" + e.kind, "msg": e.msg, "where": where, "envs": envs,
                              "notes": st.notes[:5]})

    # ------------------------------------------------------------ obligations
    def check(self, st, c, label, pair=None, note=None):
        """obligation: c holds on this path for every value; the solver decides pc & !c"""
        self.stats["checks"] += 1
        self.check_labels[label] = self.check_labels.get(label, 0) + 1
        if isinstance(c, Cmp):
            k = c.r.const()
            if k is not None:
                c = int({"<": k < 0, "<=": k <= 0, "==": k == 0, "!=": k != 0}[c.op])
        elif not isinstance(c, (int, Undef)):
            c = z3.simplify(c)
            if z3.is_true(c):
                c = 1
            elif z3.is_false(c):
                c = 0
        if isinstance(c, int) and c:
            if pair is not None and self.solver_identity(pair[0], pair[1]):
                self.stats["unsat"] += 1
            else:
                self.stats["trivial"] += 1
            return
        if self.fail_count.get(label, 0) >= 3:
            return
        if isinstance(c, int):
            nz, vs = z3.BoolVal(True), frozenset()
        elif isinstance(c, Undef):
            nz, vs = z3.BoolVal(True), frozenset()
            st.notes.append("check of an uninitialised value")
        else:
            nz = c.neg().z() if isinstance(c, Cmp) else z3.Not(c)
            vs = self.cvars(c)
        sl, avs = self.slice(st, vs)
        r, mdl = self.solve([e[0] for e in sl] + [nz], avs, want_model=True,
                            timeout=self.opts.get("check_timeout", self.opts["timeout"]))
        self.stats["unsat" if r == z3.unsat else "sat" if r == z3.sat else "unknown"] += 1
        if r == z3.unsat:
            return
        rr, envs = self.models(st, [nz], vs, cond=c if isinstance(c, Cmp) else None)
        if rr == z3.unsat:
            return
        if not envs:
            self.inconclusive.append({"label": label, "msg": "solver gave no verdict"})
            return
        self.fail_count[label] = self.fail_count.get(label, 0) + 1
        f = {"label": label, "msg": "", "where": [x.f.name for x in st.frames[-1:]], "envs": envs,
             "notes": st.notes[:5]}
        if note:
            f["msg"] = note
        if pair is not None:
            f["msg"] = "lhs=%s  rhs=%s" % (repr(pair[0])[:300], repr(pair[1])[:300])
        self.t_fail = self.t_fail or time.time()
        self.failures.append(f)
        if len(self.failures) >= self.opts.get("max_failures", 12):
            raise Enough()

    def solver_identity(self, a, b):
        """both sides already have the same normal form; let the solver confirm the identity"""
        if len(a.n) > 60 or a.d != b.d:
            return False
        t = time.time()
        s = self._ids
        if s is None:
            s = self._ids = z3.Solver()
            s.set("timeout", 200)
        s.push()
        s.add(rf.z_poly(a.n) != rf.z_poly(b.n))
        r = s.check()
        s.pop()
        self.stats["queries"] += 1
        self.stats["solver_s"] += time.time() - t
        return r == z3.unsat

    def models(self, st, extra, extra_vs, cond=None, n=6):
        """several diverse models of the whole path condition plus extra"""
        import random
        vs = set(extra_vs)
        for e in st.pc:
            vs |= e[1]
        ids = sorted(int(v[1:]) for v in vs if v.startswith("#"))
        cons = rf.atom_constraints(ids) + [e[0] for e in st.pc] + list(extra)
        envs = []
        rnd = random.Random(1)
        t0 = time.time()
        final = None
        for trial in range(n):
            s = z3.Solver()
            s.set("timeout", 4000 if trial else self.opts["timeout"])
            s.add(*cons)
            r = s.check()
            self.stats["queries"] += 1
            if r == z3.unknown:
                s = z3.Tactic("qfnra-nlsat").solver()
                s.set("timeout", 8000)
                s.add(*cons)
                r = s.check()
            if final is None or final == z3.unknown:
                final = r
            if r == z3.unsat:
                return r, []
            if trial == 0 and r == z3.sat:
                envs.append(self.input_env(st, s.model()))
            # diversify: pin variables one after the other to random values
            order = [i for i in ids if rf.CTX.atoms[i].kind == "var"]
            rnd.shuffle(order)
            s = z3.Solver()
            s.set("timeout", 1500)
            s.add(*cons)
            last = None
            bad = 0
            for i in order:
                a = rf.CTX.atoms[i]
                ok = False
                for _ in range(2):
                    if a.lo is not None and a.hi is not None:
                        x = a.lo + (a.hi - a.lo) * Fraction(rnd.randint(1, 63), 64)
                    elif a.pos or a.nonneg:
                        x = Fraction(rnd.randint(1, 40), 16)
                    else:
                        x = Fraction(rnd.randint(-40, 40), 16)
                    s.push()
                    s.add(rf.z_atom(i) == z3.Q(x.numerator, x.denominator))
                    r2 = s.check()
                    if r2 == z3.sat:
                        ok = True
                        last = s.model()
                        break
                    s.pop()
                    if r2 == z3.unknown:
                        bad += 1
                if time.time() - t0 > 40 or bad > 6:
                    break
            if last is not None:
                envs.append(self.input_env(st, last))
                final = z3.sat
            if time.time() - t0 > (25 if final == z3.sat else 60):
                break
        if envs or final == z3.unknown:
            envs += self.jitter(st, envs[0] if envs else None, rnd)
        return final, envs

    def jitter(self, st, base, rnd, n=40):
        """further candidate witnesses around the solver's model, to be judged by the native run"""
        out = []
        for t in range(n):
            env = {}
            for name, kind, term in st.inputs:
                if kind == "pin":
                    env[name] = term
                    continue
                if kind != "real":
                    env[name] = base[name] if base else 0
                    continue
                ids = list(term.n)[0] if len(term.n) == 1 else ()
                a = rf.CTX.atoms[ids[0][0]] if ids else None
                if base and rnd.random() < (0.7 if t % 2 else 0.3):
                    env[name] = base[name]
                    if t % 4 == 0 and a is not None and a.lo is None:
                        env[name] *= Fraction(rnd.randint(50, 150), 100)
                    continue
                if a is not None and a.lo is not None and a.hi is not None:
                    env[name] = a.lo + (a.hi - a.lo) * Fraction(rnd.randint(1, 255), 256)
                else:
                    x = Fraction(rnd.randint(1, 4000), 1000) * Fraction(10) ** rnd.choice((-1, 0, 0, 0, 1, 3, 7, 8))
                    if not (a is not None and (a.pos or a.nonneg)) and rnd.random() < 0.5:
                        x = -x
                    env[name] = x
            out.append(env)
        return out

    def path_model(self, st, extra, extra_vs=()):
        vs = set(extra_vs)
        for e in st.pc:
            vs |= e[1]
        r, mdl = self.solve([e[0] for e in st.pc] + list(extra), vs, want_model=True)
        if mdl is None:
            return r, None
        return r, self.input_env(st, mdl)

    def input_env(self, st, mdl):
        env = self.model_env(mdl)
        out = {}
        for name, kind, term in st.inputs:
            if kind == "real":
                out[name] = env[name]
            elif kind == "pin":
                out[name] = term
            else:
                v = mdl.eval(term, model_completion=True)
                out[name] = tosigned(v.as_long(), term.size())
        return out

    def call_sync(self, st, fname, args=()):
        f = self.m.funcs.get(fname)
        if f is None:
            return
        depth = len(st.frames)
        self.push(st, f, list(args), None)
        while len(st.frames) > depth:
            try:
                self.step_block(st)
            except PathEnd as e:
                if e.kind == "return" and not st.frames:
                    return
                raise

    def push(self, st, f, args, ret, normal=None):
        if f.code is None:
            self.decode(f)
        self.executed.add(f.name)
        fr = Frame()
        fr.f = f
        fr.code = f.code[f.order[0]]
        fr.pc = 0
        fr.prev = None
        fr.regs = {}
        for (t, n), a in zip(f.params, args):
            fr.regs[n] = a
        fr.ret = ret
        fr.allocas = []
        fr.normal = normal
        fr.unw = None
        if len(st.frames) > 400:
            raise PathEnd("recursion", "call depth")
        st.frames.append(fr)

    def exec_path(self, st, work):
        while True:
            try:
                while True:
                    self.step_block(st)
            except Fork as fk:
                self.stats["forks"] += 1
                alts = fk.alts
                for cons, known in alts[1:]:
                    s2 = st.clone()
                    s2.pc.extend(cons)
                    s2.known.update(known)
                    work.append(s2)
                cons, known = alts[0]
                st.pc.extend(cons)
                st.known.update(known)

    def step_block(self, st):
        fr = st.frames[-1]
        code = fr.code
        n = 0
        while True:
            ins = code[fr.pc]
            r = ins(st, fr)
            n += 1
            if r is None:
                fr.pc += 1
                continue
            # control transfer happened
            self.stats["instr"] += n
            st.steps += n
            if st.steps > self.opts.get("diverges", 1 << 60):
                raise PathEnd("diverges", "no end after %d steps" % st.steps)
            if st.steps > self.opts["max_steps"]:
                raise EngineError("step limit exceeded")
            if not st.frames:
                raise PathEnd("return")
            return

    # ------------------------------------------------------------ decode
    def decode(self, f):
        f.code = {}
        for b in f.order:
            f.code[b] = []
        for b in f.order:
            out = f.code[b]
            lines = f.blocks[b]
            phis = []
            i = 0
            while i < len(lines) and " = phi " in lines[i]:
                phis.append(self.parse_phi(lines[i]))
                i += 1
            if phis:
                out.append(self.mk_phis(phis))
            for ln in lines[i:]:
                try:
                    out.append(self.dec_instr(f, ln))
                except SyntaxError as e:
                    out.append(self.mk_err("decode: %s: %s" % (ln[:200], e)))

    def mk_err(self, msg):
        def g(st, fr):
            raise EngineError(msg)
        return g

    def parse_phi(self, ln):
        p = L.P(self.m, L.tokenize(ln))
        dst = L.unq(p.next())
        p.expect("=")
        p.expect("phi")
        while p.peek() in FMF:
            p.next()
        t = p.type()
        inc = {}
        while True:
            p.expect("[")
            v = self.operand(t, p.value(t))
            p.expect(",")
            lab = L.unq(p.next())
            p.expect("]")
            inc[lab] = v
            if not p.accept(","):
                break
        return dst, inc

    def mk_phis(self, phis):
        def g(st, fr):
            prev = fr.prev
            vals = []
            regs = fr.regs
            for dst, inc in phis:
                isreg, v = inc[prev]
                vals.append((dst, regs[v] if isreg else v))
            for d, v in vals:
                regs[d] = v
        return g

    def operand(self, t, v):
        if v[0] == "reg":
            return (True, v[1])
        return (False, self.cval(t, v))

    def jump(self, st, fr, frm, to):
        fr.prev = frm
        fr.code = fr.f.code[to]
        fr.pc = 0
        return True

    def dec_instr(self, f, ln):
        toks = L.tokenize(ln)
        p = L.P(self.m, toks)
        dst = None
        if p.kind() == "id" and p.peek(1) == "=":
            dst = L.unq(p.next())
            p.next()
        op = p.next()
        if op in ("tail", "musttail", "notail"):
            op = p.next()
        # current block name for branches
        m = self.m
        if op == "br":
            if p.peek() == "label":
                p.next()
                to = L.unq(p.next())
                blk = self._cur_block(f, ln)
                return self.mk_br(f, ln, to)
            t = p.type()
            c = self.operand(t, p.value(t))
            p.expect(",")
            p.expect("label")
            a = L.unq(p.next())
            p.expect(",")
            p.expect("label")
            b = L.unq(p.next())
            return self.mk_cbr(c, a, b)
        if op == "switch":
            t = p.type()
            v = self.operand(t, p.value(t))
            p.expect(",")
            p.expect("label")
            d = L.unq(p.next())
            p.expect("[")
            cases = []
            while not p.accept("]"):
                ct = p.type()
                cv = self.cval(ct, p.value(ct))
                p.expect(",")
                p.expect("label")
                cases.append((cv, L.unq(p.next())))
            return self.mk_switch(v, t.a, d, cases)
        if op == "ret":
            if p.peek() == "void":
                return self.mk_ret(None)
            t = p.type()
            return self.mk_ret(self.operand(t, p.value(t)))
        if op == "unreachable":
            def g(st, fr):
                raise PathEnd("unreachable", "reached unreachable in " + f.name)
            return g
        if op in ("call", "invoke"):
            return self.dec_call(f, p, dst, op == "invoke")
        if op == "load":
            atomic = p.accept("atomic")
            p.accept("volatile")
            t = p.type()
            p.expect(",")
            pt = p.type()
            a = self.operand(pt, p.value(pt))
            g = self.mk_load(dst, m.res(t), a)
            return self.unrecorded(g) if atomic else g
        if op == "store":
            atomic = p.accept("atomic")
            p.accept("volatile")
            t = p.type()
            v = self.operand(t, p.value(t))
            p.expect(",")
            pt = p.type()
            a = self.operand(pt, p.value(pt))
            g = self.mk_store(m.res(t), v, a)
            return self.unrecorded(g) if atomic else g
        if op == "getelementptr":
            while p.peek() in ("inbounds", "nuw", "nusw"):
                p.next()
            bt = p.type()
            p.expect(",")
            pt = p.type()
            base = self.operand(pt, p.value(pt))
            idx = []
            while p.accept(","):
                it = p.type()
                idx.append((it, self.operand(it, p.value(it))))
            return self.mk_gep(dst, bt, base, idx)
        if op == "alloca":
            p.accept("inalloca")
            t = p.type()
            n = (False, 1)
            while p.accept(","):
                if p.peek() == "align":
                    p.next()
                    p.next()
                else:
                    it = p.type()
                    n = self.operand(it, p.value(it))
            return self.mk_alloca(dst, m.size(t), n, f.name)
        if op in IBIN:
            while p.peek() in ("nuw", "nsw", "exact", "disjoint"):
                p.next()
            t = p.type()
            a = self.operand(t, p.value(t))
            p.expect(",")
            b = self.operand(t, p.value(t))
            return self.mk_ibin(dst, op, m.res(t), a, b)
        if op in FBIN:
            while p.peek() in FMF:
                p.next()
            t = p.type()
            a = self.operand(t, p.value(t))
            p.expect(",")
            b = self.operand(t, p.value(t))
            return self.mk_fbin(dst, op, m.res(t), a, b)
        if op == "fneg":
            while p.peek() in FMF:
                p.next()
            t = p.type()
            a = self.operand(t, p.value(t))
            vec = m.res(t).k == "vector"

            def g(st, fr, ia=a[0], va=a[1]):
                x = fr.regs[va] if ia else va
                if x.__class__ is Bad:
                    fr.regs[dst] = x
                    return
                fr.regs[dst] = tuple(rf_neg(self.real(st, y)) for y in x) if vec else rf_neg(self.real(st, x))
            return g
        if op == "icmp":
            if p.peek() == "samesign":
                p.next()
            pred = p.next()
            t = p.type()
            a = self.operand(t, p.value(t))
            p.expect(",")
            b = self.operand(t, p.value(t))
            return self.mk_icmp(dst, pred, m.res(t), a, b)
        if op == "fcmp":
            while p.peek() in FMF:
                p.next()
            pred = p.next()
            t = p.type()
            a = self.operand(t, p.value(t))
            p.expect(",")
            b = self.operand(t, p.value(t))
            return self.mk_fcmp(dst, pred, m.res(t), a, b)
        if op == "select":
            while p.peek() in FMF:
                p.next()
            ct = p.type()
            c = self.operand(ct, p.value(ct))
            p.expect(",")
            t = p.type()
            a = self.operand(t, p.value(t))
            p.expect(",")
            t2 = p.type()
            b = self.operand(t2, p.value(t2))
            return self.mk_select(dst, m.res(ct), m.res(t), c, a, b)
        if op in CASTS:
            while p.peek() in FMF or p.peek() in ("nneg", "nuw", "nsw"):
                p.next()
            t = p.type()
            a = self.operand(t, p.value(t))
            p.expect("to")
            t2 = p.type()
            return self.mk_cast(dst, op, m.res(t), m.res(t2), a)
        if op == "extractvalue":
            t = p.type()
            a = self.operand(t, p.value(t))
            idx = []
            while p.accept(","):
                idx.append(int(p.next()))

            def g(st, fr, ia=a[0], va=a[1]):
                x = fr.regs[va] if ia else va
                for i in idx:
                    x = x[i]
                fr.regs[dst] = x
            return g
        if op == "insertvalue":
            t = p.type()
            a = self.operand(t, p.value(t))
            p.expect(",")
            t2 = p.type()
            b = self.operand(t2, p.value(t2))
            idx = []
            while p.accept(","):
                idx.append(int(p.next()))

            def ins(x, v, ix):
                x = list(x)
                x[ix[0]] = v if len(ix) == 1 else ins(x[ix[0]], v, ix[1:])
                return tuple(x)

            def g(st, fr):
                x = fr.regs[a[1]] if a[0] else a[1]
                v = fr.regs[b[1]] if b[0] else b[1]
                fr.regs[dst] = ins(x, v, idx)
            return g
        if op == "extractelement":
            t = p.type()
            a = self.operand(t, p.value(t))
            p.expect(",")
            t2 = p.type()
            b = self.operand(t2, p.value(t2))

            def g(st, fr):
                x = fr.regs[a[1]] if a[0] else a[1]
                i = fr.regs[b[1]] if b[0] else b[1]
                fr.regs[dst] = x[self.concretize(st, i)]
            return g
        if op == "insertelement":
            t = p.type()
            a = self.operand(t, p.value(t))
            p.expect(",")
            t2 = p.type()
            b = self.operand(t2, p.value(t2))
            p.expect(",")
            t3 = p.type()
            c = self.operand(t3, p.value(t3))

            def g(st, fr):
                x = list(fr.regs[a[1]] if a[0] else a[1])
                i = fr.regs[c[1]] if c[0] else c[1]
                x[self.concretize(st, i)] = fr.regs[b[1]] if b[0] else b[1]
                fr.regs[dst] = tuple(x)
            return g
        if op == "shufflevector":
            t = p.type()
            a = self.operand(t, p.value(t))
            p.expect(",")
            t2 = p.type()
            b = self.operand(t2, p.value(t2))
            p.expect(",")
            t3 = p.type()
            c = self.operand(t3, p.value(t3))

            def g(st, fr):
                x = list(fr.regs[a[1]] if a[0] else a[1]) + list(fr.regs[b[1]] if b[0] else b[1])
                fr.regs[dst] = tuple(x[i] if isinstance(i, int) else Undef(None) for i in c[1])
            return g
        if op == "freeze":
            t = p.type()
            a = self.operand(t, p.value(t))

            def g(st, fr):
                fr.regs[dst] = fr.regs[a[1]] if a[0] else a[1]
            return g
        if op == "landingpad":
            pad = self.parse_pad(ln)

            def g(st, fr):
                fr.regs[dst] = (st.exc[0], self.pad_selector(pad, st.exc[1]))
            return g
        if op == "resume":
            def g(st, fr):
                st.frames.pop()
                self.drop(st, fr)
                self.unwind(st)
                return True
            return g
        if op == "fence":
            return lambda st, fr: None
        if op == "atomicrmw":
            p.accept("volatile")
            kind = p.next()
            pt = p.type()
            a = self.operand(pt, p.value(pt))
            p.expect(",")
            t = p.type()
            v = self.operand(t, p.value(t))
            t = m.res(t)

            def g(st, fr):
                ad = fr.regs[a[1]] if a[0] else a[1]
                x = fr.regs[v[1]] if v[0] else v[1]
                old = self.load(st, ad, t)
                if kind == "add":
                    nv = self.ibin("add", old, x, t.a, st)
                elif kind == "sub":
                    nv = self.ibin("sub", old, x, t.a, st)
                elif kind == "xchg":
                    nv = x
                elif kind == "fadd":
                    nv = rf_add(self.real(st, old), self.real(st, x))
                elif kind == "fsub":
                    nv = rf_sub(self.real(st, old), self.real(st, x))
                else:
                    raise EngineError("atomicrmw " + kind)
                self.store(st, ad, t, nv)
                fr.regs[dst] = old
            return self.unrecorded(g)
        raise SyntaxError("unsupported instruction " + op)

    def _cur_block(self, f, ln):
        return None

    def mk_br(self, f, ln, to):
        def g(st, fr):
            # find own block label lazily
            fr.prev = self._label_of(fr)
            fr.code = fr.f.code[to]
            fr.pc = 0
            return True
        return g

    def _label_of(self, fr):
        lab = self._lab.get(id(fr.code)) if hasattr(self, "_lab") else None
        if lab is None:
            if not hasattr(self, "_lab"):
                self._lab = {}
            for b, c in fr.f.code.items():
                self._lab[id(c)] = b
            lab = self._lab[id(fr.code)]
        return lab

    def mk_cbr(self, c, a, b):
        ic, vc = c

        def g(st, fr):
            x = fr.regs[vc] if ic else vc
            if isinstance(x, int):
                d = x & 1
            else:
                d = self.decide(st, x)
            fr.prev = self._label_of(fr)
            fr.code = fr.f.code[a if d else b]
            fr.pc = 0
            return True
        return g

    def mk_switch(self, v, w, d, cases):
        tab = dict(cases)

        def g(st, fr):
            x = fr.regs[v[1]] if v[0] else v[1]
            if isinstance(x, int):
                to = tab.get(x, d)
            else:
                to = d
                for cv, lab in cases:
                    if self.decide(st, z3.simplify(zbv(x, w) == cv)):
                        to = lab
                        break
            fr.prev = self._label_of(fr)
            fr.code = fr.f.code[to]
            fr.pc = 0
            return True
        return g

    def mk_ret(self, v):
        def g(st, fr):
            val = None
            if v is not None:
                val = fr.regs[v[1]] if v[0] else v[1]
            for a in fr.allocas:
                st.mem.pop(a >> SHIFT, None)
            st.frames.pop()
            if st.fib is not None and len(st.frames) == st.fib[0] and self.fiber_end(st):
                return True
            if st.frames:
                up = st.frames[-1]
                if fr.ret is not None:
                    up.regs[fr.ret] = val
                if fr.normal is not None:
                    up.prev = self._label_of(up)
                    up.code = up.f.code[fr.normal]
                    up.pc = 0
                else:
                    up.pc += 1
            return True
        return g

    def mk_load(self, dst, t, a):
        ia, va = a
        scalar = t.k not in ("struct", "array", "vector") and not (t.k == "int" and (t.a < 8 or t.a % 8))
        size = self.m.size(t)
        isf = t.k == "float"

        def g(st, fr):
            ad = fr.regs[va] if ia else va
            if scalar and isinstance(ad, int) and st.access is None and st.par is None:
                o = st.mem.get(ad >> SHIFT)
                if o is not None and not o.freed:
                    x = o.cells.get((ad & MASKO) - HALF)
                    if x is not None and x[0] == size:
                        v = x[1]
                        if isf and not isinstance(v, RF):
                            v = self.conv(st, v, t)
                        fr.regs[dst] = v
                        return
            fr.regs[dst] = self.load(st, ad, t)
        return g

    def unrecorded(self, g):
        """an atomic access does not count as a use of memory by a thread"""
        def h(st, fr):
            acc, st.access = st.access, None
            try:
                return g(st, fr)
            finally:
                st.access = acc
        return h

    def mk_store(self, t, v, a):
        iv, vv = v
        ia, va = a

        def g(st, fr):
            self.store(st, fr.regs[va] if ia else va, t, fr.regs[vv] if iv else vv)
        return g

    def mk_alloca(self, dst, size, n, fname):
        def g(st, fr):
            k = fr.regs[n[1]] if n[0] else n[1]
            a = self.alloc(st, size * self.concretize(st, k), "alloca %s" % fname, "stack")
            fr.allocas.append(a)
            fr.regs[dst] = a
        return g

    def mk_gep(self, dst, bt, base, idx):
        m = self.m
        off = 0
        dyn = []
        t = bt
        first = True
        for it, (isreg, v) in idx:
            if first:
                sz = m.size(t)
                first = False
            else:
                t = m.res(t)
                if t.k == "struct":
                    off += m.layout(t)[v]
                    t = t.a[v]
                    continue
                t = t.b
                sz = m.size(t)
            if isreg:
                dyn.append((v, sz, it.a))
            elif isinstance(v, Undef):
                pass
            else:
                off += tosigned(v, it.a) * sz
        ib, vb = base

        def g(st, fr):
            regs = fr.regs
            a = regs[vb] if ib else vb
            r = off
            for v, sz, w in dyn:
                x = regs[v]
                if isinstance(x, int):
                    if x >> (w - 1):
                        x -= 1 << w
                    r += x * sz
                else:
                    if isinstance(x, Undef):
                        raise PathEnd("memory", "uninitialised index")
                    x = zbv(x, w)
                    if w < 64:
                        x = z3.SignExt(64 - w, x)
                    r = (r if not isinstance(r, int) else z3.BitVecVal(r & M64, 64)) + x * sz
            if isinstance(r, int) and isinstance(a, int):
                regs[dst] = (a + r) & M64
            else:
                if isinstance(a, Undef):
                    raise PathEnd("memory", "uninitialised pointer")
                regs[dst] = z3.simplify(zbv(a, 64) + (z3.BitVecVal(r & M64, 64) if isinstance(r, int) else r))
        return g

    # --- integer ops
    def undef_int(self, st, w):
        self.undef_n += 1
        st.notes.append("uninitialised integer used")
        return z3.BitVec("undef_i%d" % self.undef_n, w)

    def tobv(self, x, w, st):
        if isinstance(x, int):
            return z3.BitVecVal(x, w)
        if isinstance(x, z3.BitVecRef):
            return x
        if isinstance(x, Undef):
            return self.undef_int(st, w)
        if isinstance(x, (Cmp, z3.BoolRef)):
            return z3.If(self.zbool(x), z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        raise EngineError("not an integer: %r" % (x,))

    def ibin(self, op, a, b, w, st):
        if isinstance(a, int) and isinstance(b, int):
            M = (1 << w) - 1
            if op == "add":
                return (a + b) & M
            if op == "sub":
                return (a - b) & M
            if op == "mul":
                return (a * b) & M
            if op == "and":
                return a & b
            if op == "or":
                return a | b
            if op == "xor":
                return a ^ b
            if op == "shl":
                return (a << b) & M if b < w else 0
            if op == "lshr":
                return a >> b if b < w else 0
            if op == "ashr":
                return (tosigned(a, w) >> min(b, w - 1)) & M
            if b == 0 and op in ("udiv", "urem", "sdiv", "srem"):
                raise PathEnd("divzero", "integer division by zero")
            if op == "udiv":
                return a // b
            if op == "urem":
                return a % b
            sa, sb = tosigned(a, w), tosigned(b, w)
            q = abs(sa) // abs(sb)
            if (sa < 0) != (sb < 0):
                q = -q
            if op == "sdiv":
                return q & M
            return (sa - q * sb) & M
        if w == 1:
            za, zb = self.zbool(a), self.zbool(b)
            if op == "and":
                if isinstance(a, int):
                    return b if a else 0
                if isinstance(b, int):
                    return a if b else 0
                return z3.And(za, zb)
            if op == "or":
                if isinstance(a, int):
                    return 1 if a else b
                if isinstance(b, int):
                    return 1 if b else a
                return z3.Or(za, zb)
            if op in ("xor", "add", "sub"):
                if b == 1 and isinstance(b, int):
                    return a.neg() if isinstance(a, Cmp) else z3.Not(za)
                if isinstance(b, int) and b == 0:
                    return a
                return z3.Xor(za, zb)
            raise EngineError("i1 " + op)
        if isinstance(a, RF) or isinstance(b, RF):
            return self.rf_bits(op, a, b, w)
        if op in ("udiv", "urem", "sdiv", "srem"):
            zb = self.tobv(b, w, st)
            if not isinstance(b, int) and self.decide(st, z3.simplify(zb == 0)):
                raise PathEnd("divzero", "integer division by zero")
        za, zb = self.tobv(a, w, st), self.tobv(b, w, st)
        r = {"add": lambda: za + zb, "sub": lambda: za - zb, "mul": lambda: za * zb, "and": lambda: za & zb,
             "or": lambda: za | zb, "xor": lambda: za ^ zb, "shl": lambda: za << zb,
             "lshr": lambda: z3.LShR(za, zb), "ashr": lambda: za >> zb, "udiv": lambda: z3.UDiv(za, zb),
             "urem": lambda: z3.URem(za, zb), "sdiv": lambda: za / zb, "srem": lambda: z3.SRem(za, zb)}[op]()
        r = z3.simplify(r)
        return r.as_long() if z3.is_bv_value(r) else r

    def rf_bits(self, op, a, b, w):
        # sign-bit games on doubles (fabs / isnan style); only constants supported
        if isinstance(a, RF) and a.const() is not None:
            a = int.from_bytes(bytes(self._bytes(8, a)), "little")
            return self.ibin(op, a, b, w, None)
        raise EngineError("bit operation on a symbolic double")

    def mk_ibin(self, dst, op, t, a, b):
        ia, va = a
        ib, vb = b
        if t.k == "vector":
            w = t.b.a

            def gv(st, fr):
                x = fr.regs[va] if ia else va
                y = fr.regs[vb] if ib else vb
                fr.regs[dst] = tuple(self.ibin(op, p, q, w, st) for p, q in zip(x, y))
            return gv
        w = t.a
        M = (1 << w) - 1
        if op == "add" and w > 1:
            def g(st, fr):
                x = fr.regs[va] if ia else va
                y = fr.regs[vb] if ib else vb
                if isinstance(x, int) and isinstance(y, int):
                    fr.regs[dst] = (x + y) & M
                else:
                    fr.regs[dst] = self.ibin(op, x, y, w, st)
            return g

        def g(st, fr):
            fr.regs[dst] = self.ibin(op, fr.regs[va] if ia else va, fr.regs[vb] if ib else vb, w, st)
        return g

    def icmp(self, pred, a, b, w, st):
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == "s":
                a, b = tosigned(a, w), tosigned(b, w)
            p = pred[-2:]
            if p == "eq":
                return int(a == b)
            if p == "ne":
                return int(a != b)
            if p == "lt":
                return int(a < b)
            if p == "le":
                return int(a <= b)
            if p == "gt":
                return int(a > b)
            return int(a >= b)
        if w == 1:
            za, zb = self.zbool(a), self.zbool(b)
            if pred == "eq":
                return z3.simplify(za == zb)
            if pred == "ne":
                return z3.simplify(za != zb)
            raise EngineError("icmp i1 " + pred)
        if isinstance(a, RF) or isinstance(b, RF):
            if isinstance(a, RF) and a.const() is not None:
                a = int.from_bytes(bytes(self._bytes(8, a)), "little")
                return self.icmp(pred, a, b, w, st)
            raise EngineError("icmp on bits of a symbolic double")
        za, zb = self.tobv(a, w, st), self.tobv(b, w, st)
        r = {"eq": lambda: za == zb, "ne": lambda: za != zb, "ult": lambda: z3.ULT(za, zb),
             "ule": lambda: z3.ULE(za, zb), "ugt": lambda: z3.UGT(za, zb), "uge": lambda: z3.UGE(za, zb),
             "slt": lambda: za < zb, "sle": lambda: za <= zb, "sgt": lambda: za > zb, "sge": lambda: za >= zb}[pred]()
        r = z3.simplify(r)
        if z3.is_true(r):
            return 1
        if z3.is_false(r):
            return 0
        return r

    def mk_icmp(self, dst, pred, t, a, b):
        ia, va = a
        ib, vb = b
        if t.k == "vector":
            w = t.b.a if t.b.k == "int" else 64

            def gv(st, fr):
                x = fr.regs[va] if ia else va
                y = fr.regs[vb] if ib else vb
                fr.regs[dst] = tuple(self.icmp(pred, p, q, w, st) for p, q in zip(x, y))
            return gv
        w = t.a if t.k == "int" else 64

        def g(st, fr):
            fr.regs[dst] = self.icmp(pred, fr.regs[va] if ia else va, fr.regs[vb] if ib else vb, w, st)
        return g

    # --- floating ops
    def real(self, st, x):
        if isinstance(x, RF):
            return x
        if isinstance(x, Bad):
            raise PathEnd("fdivzero", x.msg)
        if isinstance(x, Undef):
            self.undef_n += 1
            st.notes.append("uninitialised real used")
            nm = "undef_r%d" % self.undef_n
            return rf_atom(rf.CTX.atom(("var", nm), "var", nm))
        if isinstance(x, int):
            return self.conv(st, x, L.FLOATS["double"])
        raise EngineError("not a real: %r" % (x,))

    def fbin(self, st, op, a, b):
        if a.__class__ is Bad:
            return a
        if b.__class__ is Bad:
            return b
        garbage = b.__class__ is Undef
        a, b = self.real(st, a), self.real(st, b)
        if op == "fadd":
            return rf_add(a, b)
        if op == "fsub":
            return rf_sub(a, b)
        if op == "fmul":
            return trim(rf_mul(a, b))
        if op == "fdiv":
            c = b.const()
            if c is not None and c == 0:
                return Bad("real division by zero")
            if c is None and not garbage and not rf.rf_sign(b):
                # exclude the zero set of the denominator
                ck = Cmp("==", b)
                if st.known.get(ck.key) is None and st.known.get(ck.neg().key) is None:
                    if self.opts.get("divcheck", 1):
                        if self.decide(st, ck):
                            return Bad("real division by zero: denominator %r" % b)
                    else:
                        st.pc.append((ck.neg().z(), self.cvars(ck)))
                        st.known[ck.key] = False
                        self.assumed_nonzero.add(b.key)
                elif st.known.get(ck.key) is True or st.known.get(ck.neg().key) is False:
                    return Bad("real division by zero")
            return trim(rf_div(a, b))
        if op == "frem":
            ca, cb = a.const(), b.const()
            if ca is not None and cb:
                q = int(ca / cb)
                return rf_const(ca - q * cb)
            raise EngineError("frem on symbolic")
        raise EngineError(op)

    def mk_fbin(self, dst, op, t, a, b):
        ia, va = a
        ib, vb = b
        if t.k == "vector":
            def gv(st, fr):
                x = fr.regs[va] if ia else va
                y = fr.regs[vb] if ib else vb
                fr.regs[dst] = tuple(self.fbin(st, op, p, q) for p, q in zip(x, y))
            return gv

        if t.a == "float":
            # single precision is rounded when both operands are known
            def gf(st, fr):
                fr.regs[dst] = single(self.fbin(st, op, fr.regs[va] if ia else va, fr.regs[vb] if ib else vb))
            return gf

        def g(st, fr):
            fr.regs[dst] = self.fbin(st, op, fr.regs[va] if ia else va, fr.regs[vb] if ib else vb)
        return g

    def fcmp(self, st, pred, a, b):
        if pred == "true" or pred == "ord":
            return 1
        if pred == "false" or pred == "uno":
            return 0
        a, b = self.real(st, a), self.real(st, b)
        p = pred[1:]
        # program values are finite reals: comparisons with infinity are decided, comparisons
        # with the smallest normal number are comparisons with zero
        for x, y, flip in ((a, b, False), (b, a, True)):
            k = y.const()
            if k is None or k == 0 or x.const() is not None:
                continue
            if abs(k) >= HUGE:
                less = (k > 0) != flip
                return int({"eq": False, "ne": True, "lt": less, "le": less, "gt": not less, "ge": not less}[p])
            if abs(k) < TINY:
                up = (k > 0) != flip                  # a compared with +tiny (or -tiny with a)
                q = {"lt": "le", "ge": "gt"}.get(p, p) if up else {"gt": "ge", "le": "lt"}.get(p, p)
                zero = rf_const(0)
                return self.fcmp(st, "o" + q, zero if flip else a, b if flip else zero)
        d = rf_sub(a, b)
        c = d.const()
        if c is not None:
            return int({"eq": c == 0, "ne": c != 0, "lt": c < 0, "le": c <= 0, "gt": c > 0, "ge": c >= 0}[p])
        if p == "eq":
            return Cmp("==", d)
        if p == "ne":
            return Cmp("!=", d)
        if p == "lt":
            return Cmp("<", d)
        if p == "le":
            return Cmp("<=", d)
        if p == "gt":
            return Cmp("<", rf_neg(d))
        return Cmp("<=", rf_neg(d))

    def mk_fcmp(self, dst, pred, t, a, b):
        ia, va = a
        ib, vb = b
        if t.k == "vector":
            def gv(st, fr):
                x = fr.regs[va] if ia else va
                y = fr.regs[vb] if ib else vb
                fr.regs[dst] = tuple(self.fcmp(st, pred, p, q) for p, q in zip(x, y))
            return gv

        def g(st, fr):
            fr.regs[dst] = self.fcmp(st, pred, fr.regs[va] if ia else va, fr.regs[vb] if ib else vb)
        return g

    def mk_select(self, dst, ct, t, c, a, b):
        def g(st, fr):
            regs = fr.regs
            x = regs[c[1]] if c[0] else c[1]
            va = regs[a[1]] if a[0] else a[1]
            vb = regs[b[1]] if b[0] else b[1]
            if isinstance(x, int):
                regs[dst] = va if x & 1 else vb
                return
            if isinstance(x, tuple):
                regs[dst] = tuple((p if self.decide(st, k) else q) for k, p, q in zip(x, va, vb))
                return
            if t.k == "int" and t.a == 1 and not isinstance(x, Undef):
                # boolean connectives written as select
                if isinstance(vb, int) and vb == 0:
                    if isinstance(va, int):
                        regs[dst] = x if va else 0
                    else:
                        regs[dst] = z3.And(self.zbool(x), self.zbool(va))
                    return
                if isinstance(va, int) and va == 1:
                    regs[dst] = z3.Or(self.zbool(x), self.zbool(vb)) if not isinstance(vb, int) else (1 if vb else x)
                    return
                if not isinstance(va, Undef) and not isinstance(vb, Undef):
                    regs[dst] = z3.If(self.zbool(x), self.zbool(va), self.zbool(vb))
                    return
            if t.k == "int" and not isinstance(va, (RF, Undef)) and not isinstance(vb, (RF, Undef)) \
                    and not isinstance(x, (Cmp, Undef)) and t.a > 1:
                r = z3.simplify(z3.If(self.zbool(x), self.tobv(va, t.a, st), self.tobv(vb, t.a, st)))
                regs[dst] = r.as_long() if z3.is_bv_value(r) else r
                return
            if isinstance(va, RF) and isinstance(vb, RF) and va.key == vb.key:
                regs[dst] = va
                return
            regs[dst] = va if self.decide(st, x) else vb
        return g

    def cast(self, st, op, t, t2, x):
        if op in ("bitcast", "ptrtoint", "inttoptr", "addrspacecast"):
            if op == "bitcast" and t2.k == "float" and not isinstance(x, RF):
                return self.conv(st, x, t2)
            return x
        if op == "trunc":
            if isinstance(x, int):
                return x & ((1 << t2.a) - 1)
            if isinstance(x, Undef):
                return Undef(t2)
            if isinstance(x, RF):
                raise EngineError("trunc of double bits")
            if t2.a == 1:
                return z3.simplify(z3.Extract(0, 0, x) == 1)
            r = z3.simplify(z3.Extract(t2.a - 1, 0, x))
            return r.as_long() if z3.is_bv_value(r) else r
        if op in ("zext", "sext"):
            if isinstance(x, int):
                if op == "sext":
                    return tosigned(x, t.a) & ((1 << t2.a) - 1)
                return x
            if isinstance(x, Undef):
                return Undef(t2)
            if t.a == 1:
                one = 1 if op == "zext" else (1 << t2.a) - 1
                return z3.If(self.zbool(x), z3.BitVecVal(one, t2.a), z3.BitVecVal(0, t2.a))
            r = (z3.ZeroExt if op == "zext" else z3.SignExt)(t2.a - t.a, x)
            return z3.simplify(r)
        if op in ("fpext", "fptrunc"):
            return single(x) if op == "fptrunc" and t2.a == "float" else x
        if op in ("sitofp", "uitofp"):
            if isinstance(x, Undef):
                return x
            if t.a == 1 and not isinstance(x, int):
                v = 1 if self.decide(st, x) else 0
            else:
                v = self.concretize(st, x)
            if op == "sitofp":
                v = tosigned(v, t.a)
            return rf_const(v)
        if op in ("fptosi", "fptoui"):
            v = self.trunc_int(st, self.real(st, x))
            lim = 1 << t2.a
            if op == "fptoui" and v < 0 or v >= lim or v < -lim:
                st.notes.append("float to int out of range")
            return v & (lim - 1)
        raise EngineError("cast " + op)

    def mk_cast(self, dst, op, t, t2, a):
        ia, va = a
        if t.k == "vector" and t2.k == "vector":
            def gv(st, fr):
                x = fr.regs[va] if ia else va
                fr.regs[dst] = tuple(self.cast(st, op, t.b, t2.b, y) for y in x)
            return gv

        def g(st, fr):
            fr.regs[dst] = self.cast(st, op, t, t2, fr.regs[va] if ia else va)
        return g

    # --- calls
    def dec_call(self, f, p, dst, invoke):
        while p.peek() in FMF or p.peek() in L.LINK or p.peek() in L.PATTR or p.peek() in ("cc",):
            p.next()
        L.skip_pattrs(p)
        while p.peek() in L.PATTR or p.peek() in L.LINK:
            p.next()
        L.skip_pattrs(p)
        rt = p.type()
        if p.peek() == "(":     # function type given explicitly
            d = 0
            while True:
                y = p.next()
                if y == "(":
                    d += 1
                elif y == ")":
                    d -= 1
                    if d == 0:
                        break
        if p.peek() == "asm":
            return self.mk_err("inline asm")
        callee = p.value(L.PTR)
        p.expect("(")
        args = []
        if not p.accept(")"):
            while True:
                t = p.type()
                L.skip_pattrs(p)
                if t is L.META:
                    # skip metadata operand
                    dd = 0
                    while True:
                        y = p.peek()
                        if y in ("(", "{", "["):
                            dd += 1
                        if y in (")", "}", "]"):
                            if dd == 0:
                                break
                            dd -= 1
                        if y == "," and dd == 0:
                            break
                        p.next()
                    args.append((L.META, (False, None)))
                else:
                    args.append((t, self.operand(t, p.value(t))))
                if p.accept(")"):
                    break
                p.expect(",")
        normal = unw = None
        if invoke:
            while p.peek() != "to":
                p.next()
            p.next()
            p.expect("label")
            normal = L.unq(p.next())
            p.expect("unwind")
            p.expect("label")
            unw = L.unq(p.next())
        tys = [self.m.res(t) if t not in (L.META,) else t for t, _ in args]
        ops = [o for _, o in args]

        def finish(st, fr, val):
            if dst is not None:
                fr.regs[dst] = val
            if normal is not None:
                fr.prev = self._label_of(fr)
                fr.code = fr.f.code[normal]
                fr.pc = 0
                return True
            return None

        if callee[0] == "glob" and callee[1] in self.m.aliases:
            callee = self.m.aliases[callee[1]]
        static = callee[1] if callee[0] == "glob" else None
        cop = None if static else self.operand(L.PTR, callee)

        def g(st, fr):
            regs = fr.regs
            fr.unw = unw
            vals = [regs[v] if i else v for i, v in ops]
            name = static
            if name is None:
                a = regs[cop[1]] if cop[0] else cop[1]
                a = self.concretize(st, a)
                name = self.addr_fn.get(a)
                if name is None:
                    raise PathEnd("memory", "call through invalid function pointer 0x%x" % a)
            try:
                return self.do_call(st, fr, name, vals, tys, rt, finish, dst, normal)
            except Unwind as e:
                st.exc = e.args
                self.unwind(st)
                return True
        return g

    # ------------------------------------------------------------ exceptions
    def parse_pad(self, ln):
        """(is cleanup, caught type infos; None catches everything)"""
        t = ln[ln.index("landingpad"):]
        return (re.search(r"\bcleanup\b", t) is not None, [None if x == "null" else x for x in re.findall(r"catch ptr (null|@[\w$.]+)", t)])

    def bases(self, ti):
        g = self.m.globals.get(ti)
        out = []

        def scan(v):
            if isinstance(v, (tuple, list)):
                for x in v:
                    scan(x)
            elif isinstance(v, str) and v.startswith("@_ZTI"):
                out.append(v)
        if g and g[1] is not None:
            scan(g[1])
        if not out and ti in STD_BASES:
            out.append(STD_BASES[ti])
        return out

    def derives(self, ti, base):
        return ti == base or any(self.derives(b, base) for b in self.bases(ti))

    def type_id(self, ti):
        if not hasattr(self, "tids"):
            self.tids = {}
        return self.tids.setdefault(ti, len(self.tids) + 1)

    def pad_selector(self, pad, ti):
        for c in pad[1]:
            if c is None or self.derives(ti, c):
                return self.type_id(c)
        return 0 if pad[0] else None

    def drop(self, st, fr):
        for a in fr.allocas:
            st.mem.pop(a >> SHIFT, None)

    def unwind(self, st):
        while st.frames:
            fr = st.frames[-1]
            if fr.unw is not None:
                for ln in fr.f.blocks[fr.unw]:
                    if "landingpad" in ln:
                        if self.pad_selector(self.parse_pad(ln), st.exc[1]) is not None:
                            fr.prev = self._label_of(fr)
                            fr.code = fr.f.code[fr.unw]
                            fr.pc = 0
                            return
                        break
            st.frames.pop()
            self.drop(st, fr)
        raise PathEnd("exception", "uncaught exception " + str(st.exc[1]))

    # ------------------------------------------------------------ cooperative threads
    def fibers(self, st, n, fname, normal):
        """v_fibers(n, f): runs f(0) .. f(n-1), one at a time, until all have ended"""
        self.start_fibers(st, fname, [[i] for i in range(n)], normal)
        return True

    def start_fibers(self, st, fname, args, normal):
        base = len(st.frames)
        stacks = []
        f = self.m.funcs[fname]
        for a in args:
            self.push(st, f, a, None, normal)
            stacks.append([st.frames.pop()])
        st.fib = (base, 0, stacks)
        st.frames.extend(stacks[0])
        stacks[0] = []

    # ------------------------------------------------------------ threads of a parallel region
    def fork(self, st, fr, vals, normal):
        """runs the team, switching at barriers only, and records what each thread uses"""
        if st.par is not None or st.fib is not None:
            raise EngineError("nested parallel region")
        n, rev = st.flags.get("threads", (1, 0))
        order = list(range(n))
        if rev:
            order.reverse()
        fname = self.addr_fn[self.concretize(st, vals[2])]
        args = []
        for t in order:
            g = self.alloc(st, 4, "thread", "stack")
            self.store_raw(st, g, 4, t)
            args.append([g, g] + list(vals[3:]))
        self.teams += 1
        self.start_fibers(st, fname, args, normal)
        st.par = Team(order, fname)
        st.access = st.par.current(st)
        return True

    def team_end(self, st):
        team, st.par, st.access = st.par, None, None
        bad = team.conflict(st.mem)
        self.check(st, 0 if bad else 1, "threads use the same memory", note=bad)

    def tls_addr(self, st, a):
        t = self.thread(st)
        if t == 0:
            return a
        x = st.tls.get((t, a))
        if x is None:
            o0 = self.base0[a >> SHIFT]
            x = self.alloc(st, o0.size, o0.name + " of thread %d" % t, "global")
            st.mem[x >> SHIFT].cells = dict(o0.cells)
            st.tls[(t, a)] = x
        return x

    def thread(self, st):
        return 0 if st.par is None else st.par.order[st.fib[1]]

    def fiber_next(self, st, step=1):
        base, cur, stacks = st.fib
        for d in range(step, len(stacks) + step):
            nx = (cur + d) % len(stacks)
            if stacks[nx] is not None:
                if nx != cur:
                    if stacks[cur] is not None:
                        stacks[cur] = st.frames[base:]
                    del st.frames[base:]
                    st.frames.extend(stacks[nx])
                    stacks[nx] = []
                    st.fib = (base, nx, stacks)
                if st.par is not None:
                    st.access = st.par.current(st)
                return True
        st.fib = None
        if st.par is not None:
            self.team_end(st)
        return False

    def fiber_end(self, st):
        base, cur, stacks = st.fib
        stacks[cur] = None
        return self.fiber_next(st)

    def do_call(self, st, fr, name, vals, tys, rt, finish, dst, normal):
        if name == "@v_fibers":
            return self.fibers(st, vals[0], self.addr_fn[vals[1]], normal)
        if name == "@__kmpc_fork_call":
            return self.fork(st, fr, vals, normal)
        if name == "@__kmpc_barrier" and st.par is not None:
            st.par.epoch[self.thread(st)] += 1
        if name in ("@v_yield", "@__kmpc_barrier"):
            if st.fib is None:
                return finish(st, fr, None)
            if normal is not None:
                fr.prev = self._label_of(fr)
                fr.code = fr.f.code[normal]
                fr.pc = 0
            else:
                fr.pc += 1
            self.fiber_next(st)
            return True
        ov = self.overrides.get(name)
        if ov is not None:
            return finish(st, fr, ov(self, st, vals, tys, rt))
        fn = self.m.funcs.get(name)
        b = self.builtins.get(name[1:])
        if b is not None and (fn is None or name[1:] in FORCE_BUILTIN):
            return finish(st, fr, b(self, st, vals, tys, rt))
        if fn is not None:
            self.push(st, fn, vals, dst, normal)
            return True
        for pre, h in PREFIX:
            if name.startswith(pre):
                return finish(st, fr, h(self, st, vals, tys, rt))
        raise EngineError("unmodelled function " + name)


STD_BASES = {"@_ZTISt" + k: "@_ZTISt" + v for k, v in {
    "13runtime_error": "9exception", "11logic_error": "9exception", "12out_of_range": "11logic_error", "12length_error": "11logic_error",
    "16invalid_argument": "11logic_error", "9bad_alloc": "9exception", "8bad_cast": "9exception", "12domain_error": "11logic_error",
    "11range_error": "13runtime_error"}.items()}


class Unwind(Exception):
    pass


FMF = {"fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"}
IBIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"}
FBIN = {"fadd", "fsub", "fmul", "fdiv", "frem"}
CASTS = {"bitcast", "ptrtoint", "inttoptr", "addrspacecast", "trunc", "zext", "sext", "fpext", "fptrunc", "sitofp",
         "uitofp", "fptosi", "fptoui"}

from builtins_ import BUILTINS, PREFIX, FORCE_BUILTIN  # noqa: E402
