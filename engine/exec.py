"""Symbolic executor for the LLVM IR rustc emits for the harness crate.

One engine, several number domains (see dom.py): the same interpreter loop runs concretely with
IEEE doubles (used to validate the translator against the native build) and symbolically over
real-valued rational functions, where every branch becomes a literal of the path condition.
"""
import re
import struct
import time
from . import ir, cond as C
from .ir import UNDEF
from .poly import NAN

M64 = (1 << 64) - 1
SIGN = 1 << 63
ABSM = SIGN - 1


class Fork(Exception):
    def __init__(self, c):
        self.c = c


class Dead(Exception):
    """The current path is infeasible."""


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


class PanicOut(Exception):
    def __init__(self, why):
        self.why = why


class Ite:
    """Integer that depends on a condition."""
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class Bits:
    """to_bits of a float value."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Key(Bits):
    """Total-order key of a float value (bits with the lower 63 flipped when negative)."""
    __slots__ = ()


class NotBits(Bits):
    """Complement of the bits of a float value."""
    __slots__ = ()


class Odd(dict):
    pass


class Frame:
    __slots__ = ("fn", "blk", "prev", "ip", "env", "call", "visits", "ins")

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.blk, f.prev, f.ip, f.call, f.ins = self.fn, self.blk, self.prev, self.ip, self.call, self.ins
        f.env = dict(self.env)
        f.visits = dict(self.visits)
        return f


class State:
    __slots__ = ("frames", "mem", "path", "nobj", "nfresh", "samples", "steps", "notes", "ops")

    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        m = dict(self.mem)
        for k, v in m.items():
            if type(v) is Odd:
                m[k] = Odd(v)
        s.mem = m
        s.path = self.path.copy()
        s.nobj, s.nfresh, s.steps = self.nobj, self.nfresh, self.steps
        s.samples = list(self.samples)
        s.notes = list(self.notes)
        s.ops = dict(self.ops)
        return s


class Outcome:
    __slots__ = ("kind", "value", "state", "why", "out")

    def __init__(self, kind, value, state, why=""):
        self.kind, self.value, self.state, self.why, self.out = kind, value, state, why, None

    @property
    def path(self):
        return self.state.path


PANIC_RE = re.compile(r"panicking::|::panic|unwrap_failed|expect_failed|slice_index_fail|slice_start_index|slice_end_index|"
                      r"slice_error_fail|panic_fmt|panic_bounds|handle_alloc_error|capacity_overflow|"
                      r"len_mismatch_fail|panic_const|assert_failed|slice_index_order_fail|cell::panic")

PRED = {"eq": "=", "ne": "!=", "gt": ">", "ge": ">=", "lt": "<", "le": "<="}


def sgn(v, n):
    return v - (1 << n) if v >> (n - 1) else v


def as_i1(c):
    if c is True:
        return 1
    if c is False:
        return 0
    return c


def cnd(v):
    """i1 value -> condition."""
    if v is UNDEF:
        raise Unsupported("branch on undef")
    if type(v) is int:
        return v != 0
    return v


class Exec:
    def __init__(self, module, dom, demangle=None, redirect=None, intrinsics=None, deadline=None,
                 max_paths=4000, max_visits=400, feas_timeout=0.5, log=None):
        self.m, self.dom = module, dom
        dom.ex = self
        self.demangle = demangle or (lambda s: s)
        self.redirect = redirect or {}
        self.intr = {} if intrinsics is None else intrinsics
        self.deadline = deadline
        self.max_paths, self.max_visits = max_paths, max_visits
        self.feas_timeout = feas_timeout
        self.st = None
        self.gmem = {}
        self.gaddr = {}
        self.fnaddr = {}
        self.addrfn = {}
        self.ngl = 0
        self.cmemo = {}
        self.inf_only = {}
        self.ptrmemo = {}
        self.called = {}
        self.nins = 0
        self.npaths = 0
        self.nforks = 0
        self.unknown_feas = 0
        self.feas_queries = 0
        self.kindmemo = {}
        self.bounded = 0

    # ---- constants and globals ------------------------------------------------------------
    def cval(self, x):
        if type(x) is int:
            return x
        if x is UNDEF or x is None:
            return x
        k = x[0]
        if k == "d":
            return self.dom.const(x[1])
        if k == "g":
            return self.gptr(x[1])
        if k == "agg":
            return [self.cval(y) for y in x[1]]
        if k == "b":
            return x[1]
        if k == "gep":
            return self.gep(x[1], self.cval(x[2]), [self.cval(i) for i in x[3]])
        if k == "cx":
            a, b = self.cval(x[2]), self.cval(x[3])
            return (a - b if x[1] == "sub" else a + b) & M64
        raise Unsupported("const %r" % (x,))

    def gptr(self, name):
        a = self.gaddr.get(name)
        if a is not None:
            return a
        if name in self.m.fn_text or name in self.m.decls:
            self.ngl += 1
            a = (0x7000 << 32) + self.ngl * 16
            self.addrfn[a] = name
            self.gaddr[name] = a
            return a
        self.ngl += 1
        a = ((0x4000 + self.ngl) << 32) + 0x10000
        self.gaddr[name] = a
        ty, init = self.m.global_init(name)
        if init is not None:
            v = self.cval(init)
            self.store_to(self.gmem, a, ty, v)
        return a

    def gep(self, sty, base, idx):
        off = idx[0]
        if type(off) is not int:
            off = self.force(off)
        a = base + sgn(off & M64, 64) * ir.sizeof(sty)
        t = sty
        for i in idx[1:]:
            if type(i) is not int:
                i = self.force(i)
            if t[0] == "st":
                a += ir.field_offset(t, i)
                t = t[1][i]
            else:
                a += sgn(i & M64, 64) * ir.sizeof(t[2])
                t = t[2]
        return a & M64

    # ---- decisions ------------------------------------------------------------------------
    def decide(self, c):
        if c is True or c is False:
            return c
        if type(c) is Ite:
            return bool(self.force(c))
        st = self.st
        v = st.path.known(c)
        if v is not None:
            return v
        raise Fork(c)

    def force(self, v):
        while type(v) is Ite:
            v = v.a if self.decide(v.c) else v.b
        if v is UNDEF:
            return v
        if type(v) is tuple:
            return 1 if self.decide(v) else 0
        return v

    def fresh_bool(self, tag="z"):
        st = self.st
        st.nfresh += 1
        return ("b", "%s!%d_%d" % (tag, len(st.frames), st.nfresh))

    # ---- memory ---------------------------------------------------------------------------
    def alloc(self, size):
        st = self.st
        st.nobj += 1
        return (st.nobj << 32) + 0x10000

    def cell(self, mem, g):
        v = mem.get(g)
        if v is None and mem is not self.gmem:
            v = self.gmem.get(g)
            if type(v) is Odd:
                v = Odd(v)
        return v

    def put(self, mem, a, size, v):
        g = a >> 3
        o = a & 7
        if size == 8:
            if o == 0:
                mem[g] = v
                return
            if type(v) is Bits or not isinstance(v, int):
                if v is UNDEF:
                    for k in range(8):
                        self.put(mem, a + k, 1, UNDEF)
                    return
                raise Unsupported("unaligned 8-byte store")
            for k in range(8):
                self.put(mem, a + k, 1, (v >> (8 * k)) & 255)
            return
        if o + size > 8:
            if v is UNDEF:
                for k in range(size):
                    self.put(mem, a + k, 1, UNDEF)
                return
            v = self.force(v)
            for k in range(size):
                self.put(mem, a + k, 1, (v >> (8 * k)) & 255)
            return
        c = self.cell(mem, g)
        if type(c) is not Odd:
            d = Odd()
            if c is not None and c is not UNDEF:
                if type(c) is Ite:
                    c = self.force(c)
                if type(c) is not int:
                    c = self.dom.bits_int(c)
                    if c is None:
                        raise Unsupported("partial overwrite of a float")
                for k in range(8):
                    d[k] = (1, (c >> (8 * k)) & 255)
            c = d
        else:
            # drop overlapping parts, splitting concrete ones
            for k, (s, w) in list(c.items()):
                if k < o + size and o < k + s:
                    del c[k]
                    if not (o <= k and k + s <= o + size):
                        if w is UNDEF:
                            continue
                        w = self.force(w)
                        for j in range(s):
                            if not (o <= k + j < o + size):
                                c[k + j] = (1, (w >> (8 * j)) & 255)
        c[o] = (size, v)
        mem[g] = c

    def get_int(self, mem, a, size):
        """Raw cell value of `size` bytes (may be a float value when size is 8)."""
        g = a >> 3
        o = a & 7
        if size == 8 and o == 0:
            c = self.cell(mem, g)
            if type(c) is not Odd:
                return UNDEF if c is None else c
        elif size < 8 and o + size <= 8:
            c = self.cell(mem, g)
            if type(c) is Odd:
                e = c.get(o)
                if e is not None and e[0] == size:
                    return e[1]
            elif c is None or c is UNDEF:
                return UNDEF
            else:
                c = self.force(c)
                if type(c) is not int:
                    c2 = self.dom.bits_int(c)
                    if c2 is None:
                        if size == 4 and o == 4:
                            return ("hi", c)
                        raise Unsupported("partial read of a float")
                    c = c2
                return (c >> (8 * o)) & ((1 << (8 * size)) - 1)
        # byte by byte
        r = 0
        for k in range(size):
            b = self.get_byte(mem, a + k)
            if b is UNDEF:
                return UNDEF
            r |= b << (8 * k)
        return r

    def get_byte(self, mem, a):
        c = self.cell(mem, a >> 3)
        o = a & 7
        if c is None or c is UNDEF:
            return UNDEF
        if type(c) is Odd:
            for k, (s, w) in c.items():
                if k <= o < k + s:
                    if w is UNDEF:
                        return UNDEF
                    w = self.force(w)
                    return (w >> (8 * (o - k))) & 255
            return UNDEF
        c = self.force(c)
        if type(c) is not int:
            c = self.dom.bits_int(c)
            if c is None:
                raise Unsupported("byte of a float")
        return (c >> (8 * o)) & 255

    def load(self, ty, a):
        mem = self.st.mem
        k = ty[0]
        if k == "double":
            v = self.get_int(mem, a, 8)
            if type(v) is int:
                return self.dom.const(struct.unpack("<d", struct.pack("<Q", v))[0])
            if isinstance(v, Bits):
                return v.v
            if type(v) is Ite:
                v = self.force(v)
                return self.dom.const(struct.unpack("<d", struct.pack("<Q", v))[0])
            return v
        if k == "ptr":
            v = self.get_int(mem, a, 8)
            return v
        if k == "i":
            n = ty[1]
            s = (n + 7) // 8
            if s > 8:
                lo = self.get_int(mem, a, 8)
                hi = self.get_int(mem, a + 8, s - 8)
                lo, hi = self.force(lo), self.force(hi)
                if lo is UNDEF or hi is UNDEF:
                    return UNDEF
                return lo | (hi << 64)
            if s not in (1, 2, 4, 8):
                r = 0
                for j in range(s):
                    b = self.get_byte(mem, a + j)
                    if b is UNDEF:
                        return UNDEF
                    r |= b << (8 * j)
                return r
            v = self.get_int(mem, a, s)
            if v is UNDEF or type(v) is int or type(v) is Ite or isinstance(v, Bits):
                if type(v) is int and n < 8 * s:
                    v &= (1 << n) - 1
                return v
            if type(v) is tuple:
                return v if n == 1 else Ite(v, 1, 0)
            return Bits(v)
        if k in ("arr", "vec"):
            s = ir.sizeof(ty[2])
            return [self.load(ty[2], a + j * s) for j in range(ty[1])]
        if k == "st":
            return [self.load(f, a + ir.field_offset(ty, j)) for j, f in enumerate(ty[1])]
        if k == "float":
            v = self.get_int(mem, a, 4)
            if type(v) is int:
                return self.dom.const(struct.unpack("<f", struct.pack("<I", v))[0])
            return v
        raise Unsupported("load %r" % (ty,))

    def store_to(self, mem, a, ty, v):
        k = ty[0]
        if k == "double":
            self.put(mem, a, 8, v)
        elif k == "ptr":
            self.put(mem, a, 8, v)
        elif k == "i":
            s = (ty[1] + 7) // 8
            if isinstance(v, Bits) and type(v) is Bits:
                v = v.v
            if s > 8:
                v = self.force(v)
                if v is UNDEF:
                    self.put(mem, a, 8, UNDEF)
                    self.put(mem, a + 8, 8, UNDEF)
                else:
                    self.put(mem, a, 8, v & M64)
                    for j in range(8, s):
                        self.put(mem, a + j, 1, (v >> (8 * j)) & 255)
            elif s in (1, 2, 4, 8):
                if type(v) is tuple and v[0] != "hi":
                    v = Ite(v, 1, 0)
                self.put(mem, a, s, v)
            else:
                v = self.force(v)
                for j in range(s):
                    self.put(mem, a + j, 1, UNDEF if v is UNDEF else (v >> (8 * j)) & 255)
        elif k in ("arr", "vec"):
            s = ir.sizeof(ty[2])
            for j in range(ty[1]):
                self.store_to(mem, a + j * s, ty[2], v[j])
        elif k == "st":
            for j, f in enumerate(ty[1]):
                self.store_to(mem, a + ir.field_offset(ty, j), f, v[j])
        elif k == "float":
            self.put(mem, a, 4, v)
        else:
            raise Unsupported("store %r" % (ty,))

    def store(self, a, ty, v):
        if a < 0x10000:
            raise PanicOut("store through an invalid pointer")
        self.store_to(self.st.mem, a, ty, v)

    def memcpy(self, d, s, n):
        mem = self.st.mem
        if n <= 0:
            return
        if (d & 7) == (s & 7) == 0:
            items = []
            full = n >> 3
            for k in range(full):
                c = self.cell(mem, (s >> 3) + k)
                items.append(Odd(c) if type(c) is Odd else c)
            tail = []
            for k in range(full * 8, n):
                tail.append((k, self.get_byte(mem, s + k)))
            for k, c in enumerate(items):
                mem[(d >> 3) + k] = UNDEF if c is None else c
            for k, b in tail:
                self.put(mem, d + k, 1, b)
            return
        if n in (1, 2, 4) :
            v = self.get_int(mem, s, n)
            self.put(mem, d, n, v)
            return
        bs = [self.get_byte(mem, s + k) for k in range(n)]
        for k, b in enumerate(bs):
            self.put(mem, d + k, 1, b)

    # ---- main loop ------------------------------------------------------------------------
    def new_state(self, path=None, samples=()):
        st = State()
        st.frames, st.mem = [], {}
        st.path = path or C.Path()
        st.nobj, st.nfresh, st.steps = 0x10, 0, 0
        st.samples = list(samples)
        st.notes = []
        st.ops = {}
        return st

    def push(self, fn, args, call):
        f = Frame()
        f.fn, f.blk, f.prev, f.ip = fn, fn.entry, None, 0
        f.ins = fn.blocks[fn.entry]
        f.env = dict(zip(fn.params, args))
        f.call = call
        f.visits = {}
        self.st.frames.append(f)
        if len(self.st.frames) > 200:
            raise Unsupported("recursion depth")
        self.called[fn.name] = self.called.get(fn.name, 0) + 1

    def run(self, name, args, st):
        """Explore every path from a call of `name`; yields Outcomes."""
        fn = self.m.fn(name)
        if fn is None:
            raise Unsupported("no function " + name)
        self.st = st
        self.push(fn, args, None)
        work = [st]
        while work:
            st = work.pop()
            self.st = st
            try:
                o = self.run_path(st)
                self.npaths += 1
                if self.npaths > self.max_paths:
                    raise Budget("more than %d paths" % self.max_paths)
                yield o
            except Dead:
                continue
            except Fork as f:
                work.extend(self.split(st, f.c))

    def split(self, st, c):
        self.nforks += 1
        kids = []
        nc = C.Not(c)
        sims = [(C.And(c), st.path.copy()), (nc, st.path.copy())]
        feas = []
        for lit, path in sims:
            if not path.add(lit):
                feas.append(None)
                continue
            keep = self.dom.filter_samples(st.samples, lit) if st.samples else []
            feas.append((path, keep))
        alive = []
        for k, f in enumerate(feas):
            if f is None:
                continue
            path, keep = f
            if keep:
                alive.append((k, path, keep, True))
                continue
            other = feas[1 - k]
            v = self.dom.feasible(path, sims[k][0])
            self.feas_queries += 1
            if v == "unsat":
                continue
            if v == "unknown":
                self.unknown_feas += 1
            alive.append((k, path, keep, v == "sat"))
        if len(alive) == 1:
            k, path, keep, sure = alive[0]
            # the other side is impossible: the literal is implied, keep it only as a fact
            p2 = st.path.copy()
            p2.learn(sims[k][0])
            st.path = p2
            st.samples = keep if keep else st.samples
            return [st]
        if not alive:
            return []
        st2 = st.copy()
        out = []
        for s, (k, path, keep, sure) in zip((st, st2), alive):
            s.path = path
            s.samples = keep
            out.append(s)
        return out

    def run_path(self, st):
        frames = st.frames
        try:
            while True:
                f = frames[-1]
                ins = f.ins[f.ip]
                self.nins += 1
                st.steps += 1
                if not (self.nins & 1023):
                    if self.deadline is not None and time.time() > self.deadline:
                        raise Budget("time budget")
                op = ins[0]
                h = self.OPS.get(op)
                if h is None:
                    raise Unsupported("%r" % (ins,))
                n0 = st.nfresh
                try:
                    r = h(self, st, f, ins)
                except Fork:
                    st.nfresh = n0
                    raise
                if r is not None:
                    return r
        except PanicOut as p:
            return Outcome("panic", None, st, p.why)

    def v(self, f, x):
        if type(x) is str:
            return f.env[x]
        k = id(x)
        e = self.cmemo.get(k)
        if e is None:
            val = self.cval(x[1])
            self.cmemo[k] = e = (x, val)
        return e[1]

    # ---- instructions ---------------------------------------------------------------------
    def goto(self, f, label):
        f.prev = f.blk
        f.blk = label
        f.ins = f.fn.blocks[label]
        # phis, simultaneously
        vals = []
        k = 0
        for ins in f.ins:
            if ins[0] != "phi":
                break
            vals.append((ins[1], self.v(f, ins[3][f.prev])))
            k += 1
        for d, val in vals:
            f.env[d] = val
        f.ip = k
        n = f.visits.get(label, 0) + 1
        f.visits[label] = n
        if n > self.max_visits:
            self.bounded += 1
            return Outcome("bound", None, self.st, "block %s of %s" % (label, f.fn.name))

    def i_jmp(self, st, f, ins):
        return self.goto(f, ins[2])

    def i_br(self, st, f, ins):
        c = cnd(self.v(f, ins[2]))
        return self.goto(f, ins[3] if self.decide(c) else ins[4])

    def i_switch(self, st, f, ins):
        x = self.force(self.v(f, ins[2]))
        if x is UNDEF:
            raise Unsupported("switch on undef")
        return self.goto(f, ins[4].get(x, ins[3]))

    def i_ret(self, st, f, ins):
        val = None if ins[3] is None else self.v(f, ins[3])
        st.frames.pop()
        if not st.frames:
            return Outcome("ret", val, st)
        g = st.frames[-1]
        call = f.call
        if call[1] is not None:
            g.env[call[1]] = val
        if call[5] is not None:
            return self.goto(g, call[5])
        g.ip += 1

    def i_unreach(self, st, f, ins):
        return Outcome("unreachable", None, st, "unreachable in " + f.fn.name)

    def i_nop(self, st, f, ins):
        f.ip += 1

    def i_alloca(self, st, f, ins):
        n = ins[3]
        if n != 1:
            n = self.force(self.v(f, n))
        f.env[ins[1]] = self.alloc(ir.sizeof(ins[2]) * n)
        f.ip += 1

    def i_load(self, st, f, ins):
        a = self.force(self.v(f, ins[3]))
        if a is UNDEF or a < 0x10000:
            return Outcome("panic", None, st, "load through an invalid pointer")
        f.env[ins[1]] = self.load(ins[2], a)
        f.ip += 1

    def i_store(self, st, f, ins):
        a = self.force(self.v(f, ins[4]))
        self.store(a, ins[2], self.v(f, ins[3]))
        f.ip += 1

    def i_gep(self, st, f, ins):
        base = self.force(self.v(f, ins[3]))
        f.env[ins[1]] = self.gep(ins[2], base, [self.v(f, x) for _, x in ins[4]])
        f.ip += 1

    def i_fbin(self, st, f, ins):
        a, b = self.v(f, ins[4]), self.v(f, ins[5])
        if ins[3][0] == "vec":
            r = [self.fop(ins[2], x, y) for x, y in zip(a, b)]
        else:
            r = self.fop(ins[2], a, b)
        st.ops[ins[2]] = st.ops.get(ins[2], 0) + 1
        f.env[ins[1]] = r
        f.ip += 1

    def fop(self, op, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        d = self.dom
        if op == "fadd":
            return d.add(a, b)
        if op == "fsub":
            return d.sub(a, b)
        if op == "fmul":
            return d.mul(a, b)
        if op == "fdiv":
            return d.div(a, b)
        return d.rem(a, b)

    def i_fneg(self, st, f, ins):
        a = self.v(f, ins[3])
        f.env[ins[1]] = [self.dom.neg(x) for x in a] if ins[2][0] == "vec" else (UNDEF if a is UNDEF else self.dom.neg(a))
        f.ip += 1

    def i_fcmp(self, st, f, ins):
        a, b = self.v(f, ins[4]), self.v(f, ins[5])
        if ins[3][0] == "vec":
            r = [as_i1(self.dom.fcmp(ins[2], x, y)) for x, y in zip(a, b)]
        elif a is UNDEF or b is UNDEF:
            r = UNDEF
        else:
            r = as_i1(self.dom.fcmp(ins[2], a, b))
        f.env[ins[1]] = r
        f.ip += 1

    def i_icmp(self, st, f, ins):
        a, b = self.v(f, ins[4]), self.v(f, ins[5])
        ty = ins[3]
        if ty[0] == "vec":
            r = [as_i1(self.icmp(ins[2], ty[2], x, y)) for x, y in zip(a, b)]
        else:
            r = as_i1(self.icmp(ins[2], ty, a, b))
        f.env[ins[1]] = r
        f.ip += 1

    def icmp(self, pred, ty, a, b):
        n = ty[1] if ty[0] == "i" else 64
        if type(a) is int and type(b) is int:
            if pred == "eq":
                return a == b
            if pred == "ne":
                return a != b
            if pred[0] == "s":
                a, b = sgn(a, n), sgn(b, n)
            p = pred[1:]
            return a > b if p == "gt" else a >= b if p == "ge" else a < b if p == "lt" else a <= b
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if n == 1:
            ca, cb = cnd(a) if not isinstance(a, Ite) else cnd(self.force(a)), cnd(b) if not isinstance(b, Ite) else cnd(self.force(b))
            if pred == "eq":
                return C.Or(C.And(ca, cb), C.And(C.Not(ca), C.Not(cb)))
            if pred == "ne":
                return C.Or(C.And(ca, C.Not(cb)), C.And(C.Not(ca), cb))
            a, b = self.force(a), self.force(b)
            return self.icmp(pred, ty, a, b)
        if type(a) is Ite:
            x, y = self.icmp(pred, ty, a.a, b), self.icmp(pred, ty, a.b, b)
            return C.Or(C.And(a.c, x), C.And(C.Not(a.c), y))
        if type(b) is Ite:
            x, y = self.icmp(pred, ty, a, b.a), self.icmp(pred, ty, a, b.b)
            return C.Or(C.And(b.c, x), C.And(C.Not(b.c), y))
        if isinstance(a, Bits) or isinstance(b, Bits):
            return self.bits_cmp(pred, a, b)
        if isinstance(a, self.dom.SymIntT) or isinstance(b, self.dom.SymIntT):
            return self.dom.sym_icmp(pred, n, a, b)
        raise Unsupported("icmp %r %r %r" % (pred, a, b))

    def bits_cmp(self, pred, a, b):
        d = self.dom
        if isinstance(a, Bits) and isinstance(b, Bits):
            r = d.bits_order(pred, a, b)
            if r is not None:
                return r
        if type(a) is NotBits or type(b) is NotBits:
            if type(a) is type(b):
                return self.bits_cmp(pred, Bits(b.v), Bits(a.v)) if pred not in ("eq", "ne") else self.bits_cmp(pred, Bits(a.v), Bits(b.v))
            if type(a) is Bits or type(b) is Bits:
                if any(v is NAN or (type(v) is float and v != v) for v in (a.v, b.v)):
                    return self.fresh_bool("nb")
                ta, tb = (bool(self.decide(d.signbit(x.v))) ^ (type(x) is NotBits) for x in (a, b))
                if ta != tb:
                    if pred in ("eq", "ne"):
                        return pred == "ne"
                    return (pred[1] == "g") == ta if pred[0] == "u" else (pred[1] == "l") == ta
            raise Unsupported("compare complemented bits %s" % pred)
        if isinstance(a, Bits) and isinstance(b, Bits):
            if pred in ("eq", "ne"):
                return d.bits_eq(pred, a.v, b.v)
            if any(v is NAN or (type(v) is float and v != v) for v in (a.v, b.v)):
                if type(a.v) is float and type(b.v) is float and type(a) is Bits and type(b) is Bits:
                    x, y = (struct.unpack("<Q", struct.pack("<d", t.v))[0] for t in (a, b))
                    if pred[0] == "s":
                        x, y = x ^ SIGN, y ^ SIGN
                    return {"g": x > y, "l": x < y}[pred[1]] or (pred[2] == "e" and x == y)
                return self.fresh_bool("nb")
            if isinstance(a, Key) or isinstance(b, Key):
                return d.fcmp("o" + pred[1:], a.v, b.v)
            # order of the bit patterns: sign and magnitude
            na, nb = self.decide(d.signbit(a.v)), self.decide(d.signbit(b.v))
            if na != nb:
                return (pred[1] == "g") == bool(na) if pred[0] == "u" else (pred[1] == "l") == bool(na)
            if na:
                return d.fcmp("o" + pred[1:], b.v, a.v)
            return d.fcmp("o" + pred[1:], a.v, b.v)
        if isinstance(b, Bits):
            sw = {"gt": "lt", "lt": "gt", "ge": "le", "le": "ge"}
            if pred not in ("eq", "ne"):
                pred = pred[0] + sw[pred[1:]]
            a, b = b, a
        if type(a) is Bits:
            if (pred == "slt" and b == 0) or (pred == "sle" and b == M64) or (pred == "ugt" and b == ABSM) or (pred == "uge" and b == SIGN):
                return d.signbit(a.v)
            if (pred == "sgt" and b == M64) or (pred == "sge" and b == 0) or (pred == "ult" and b == SIGN) or (pred == "ule" and b == ABSM):
                return C.Not(d.signbit(a.v))
            if pred in ("eq", "ne"):
                return d.bits_eq_const(pred, a.v, b)
            return d.bits_cmp_const(pred, a.v, b)
        raise Unsupported("bits compare %s %r" % (pred, b))

    def i_bin(self, st, f, ins):
        op, ty = ins[2], ins[3]
        a, b = self.v(f, ins[4]), self.v(f, ins[5])
        if ty[0] == "vec":
            r = [self.bin(op, ty[2][1], x, y) for x, y in zip(a, b)]
        else:
            r = self.bin(op, ty[1], a, b)
        f.env[ins[1]] = r
        f.ip += 1

    def bin(self, op, n, a, b):
        if type(a) is int and type(b) is int:
            return self.binc(op, n, a, b)
        if a is UNDEF or b is UNDEF:
            if op == "and" and (a == 0 or b == 0):
                return 0
            return UNDEF
        if n == 1:
            if type(a) is Ite:
                a = self.force(a)
            if type(b) is Ite:
                b = self.force(b)
            ca, cb = cnd(a), cnd(b)
            if op == "and" or op == "mul":
                return as_i1(C.And(ca, cb))
            if op == "or":
                return as_i1(C.Or(ca, cb))
            if op in ("xor", "add", "sub"):
                if ca is True:
                    return as_i1(C.Not(cb))
                if cb is True:
                    return as_i1(C.Not(ca))
                return as_i1(C.Or(C.And(ca, C.Not(cb)), C.And(C.Not(ca), cb)))
        if isinstance(a, Bits) or isinstance(b, Bits):
            r = self.bits_bin(op, n, a, b)
            if r is not None:
                return r
        if type(a) is Ite and (type(b) is int) and type(a.a) is int and type(a.b) is int:
            return Ite(a.c, self.binc(op, n, a.a, b), self.binc(op, n, a.b, b))
        if type(b) is Ite and (type(a) is int) and type(b.a) is int and type(b.b) is int:
            return Ite(b.c, self.binc(op, n, a, b.a), self.binc(op, n, a, b.b))
        if isinstance(a, self.dom.SymIntT) or isinstance(b, self.dom.SymIntT):
            return self.dom.sym_bin(op, n, a, b)
        a2, b2 = self.force(a), self.force(b)
        if a2 is a and b2 is b:
            raise Unsupported("int op %s %r %r" % (op, a, b))
        return self.bin(op, n, a2, b2)

    def bits_bin(self, op, n, a, b):
        d = self.dom
        if isinstance(b, Bits) and not isinstance(a, Bits) and op in ("and", "or", "xor"):
            a, b = b, a
        if isinstance(a, Bits) and isinstance(b, Bits):
            ia, ib = d.bits_int(a.v), d.bits_int(b.v)
            if ia is not None and ib is not None:
                return self.binc(op, n, ia, ib)
            raise Unsupported("bits op %s" % op)
        if not isinstance(a, Bits):
            return None
        if type(b) is Ite:
            b = self.force(b)
        if type(a) is Bits:
            ia = d.bits_int(a.v)
            if ia is not None:
                return self.binc(op, n, ia, b)
        elif type(a) is NotBits:
            if op == "xor" and b == M64:
                return Bits(a.v)
            raise Unsupported("bits op %s on a complement" % op)
        if op == "and" and b == ABSM:
            return Bits(d.fabs(a.v))
        if op == "and" and b == SIGN:
            return Ite(d.signbit(a.v), SIGN, 0)
        if op == "lshr" and b == 63:
            return Ite(d.signbit(a.v), 1, 0)
        if op == "ashr" and b == 63:
            return Ite(d.signbit(a.v), M64, 0)
        if op == "xor" and b == SIGN:
            return Bits(d.neg(a.v))
        if op == "or" and b == SIGN:
            return Bits(d.neg(d.fabs(a.v)))
        if op in ("xor", "or") and b == 0:
            return a
        if op == "xor" and b == M64:
            return NotBits(a.v)
        if op == "xor" and b == ABSM:
            return Key(a.v)
        r = d.bits_op(op, a.v, b)
        if r is not None:
            return r
        raise Unsupported("bits op %s %#x" % (op, b if type(b) is int else -1))

    def binc(self, op, n, a, b):
        m = (1 << n) - 1
        if op == "add":
            return (a + b) & m
        if op == "sub":
            return (a - b) & m
        if op == "mul":
            return (a * b) & m
        if op == "and":
            return a & b
        if op == "or":
            return a | b
        if op == "xor":
            return a ^ b
        if op == "shl":
            return (a << b) & m if b < n else 0
        if op == "lshr":
            return a >> b if b < n else 0
        if op == "ashr":
            return (sgn(a, n) >> min(b, n - 1)) & m
        if op == "udiv":
            return a // b
        if op == "urem":
            return a % b
        x, y = sgn(a, n), sgn(b, n)
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        if op == "sdiv":
            return q & m
        return (x - q * y) & m

    def i_cast(self, st, f, ins):
        op, sty, dty = ins[2], ins[3], ins[4]
        v = self.v(f, ins[5])
        if sty[0] == "vec":
            r = [self.cast(op, sty[2], dty[2], x) for x in v]
        else:
            r = self.cast(op, sty, dty, v)
        f.env[ins[1]] = r
        f.ip += 1

    def cast(self, op, sty, dty, v):
        if v is UNDEF:
            return UNDEF
        if op in ("ptrtoint", "inttoptr", "addrspacecast", "ptrtoaddr"):
            return v
        if op == "bitcast":
            if sty[0] == "double" and dty[0] == "i":
                b = self.dom.bits_int(v)
                return b if b is not None else Bits(v)
            if sty[0] == "i" and dty[0] == "double":
                if type(v) is Ite:
                    v = self.force(v)
                if isinstance(v, Key):
                    raise Unsupported("float from key")
                if isinstance(v, Bits):
                    return v.v
                return self.dom.const(struct.unpack("<d", struct.pack("<Q", v))[0])
            if sty == dty:
                return v
            raise Unsupported("bitcast %r %r" % (sty, dty))
        if op == "zext":
            if type(v) is tuple:
                return Ite(v, 1, 0)
            if isinstance(v, self.dom.SymIntT):
                return v
            return v
        if op == "sext":
            n, m = sty[1], (1 << dty[1]) - 1
            if type(v) is tuple:
                return Ite(v, m, 0)
            if type(v) is Ite and type(v.a) is int and type(v.b) is int:
                return Ite(v.c, sgn(v.a, n) & m, sgn(v.b, n) & m)
            v = self.force(v)
            if type(v) is not int:
                raise Unsupported("sext %r" % (v,))
            return sgn(v, n) & m
        if op == "trunc":
            m = (1 << dty[1]) - 1
            if type(v) is Ite and type(v.a) is int and type(v.b) is int:
                if dty[1] == 1:
                    a, b = v.a & 1, v.b & 1
                    return as_i1(a != 0 if a == b else v.c if a else C.Not(v.c))
                return Ite(v.c, v.a & m, v.b & m)
            v = self.force(v)
            if isinstance(v, self.dom.SymIntT):
                return v
            if type(v) is not int:
                raise Unsupported("trunc %r" % (v,))
            return v & m
        if op in ("uitofp", "sitofp"):
            if isinstance(v, self.dom.SymIntT):
                return self.dom.from_int(v)
            v = self.force(v)
            if type(v) is not int:
                raise Unsupported("itofp")
            return self.dom.const(float(sgn(v, sty[1]) if op == "sitofp" else v))
        if op in ("fptoui", "fptosi"):
            return self.dom.to_int(op, v, dty[1])
        if op in ("fpext", "fptrunc"):
            return self.dom.fpconv(op, v)
        raise Unsupported("cast " + op)

    def i_select(self, st, f, ins):
        c = self.v(f, ins[3])
        a, b = self.v(f, ins[4]), self.v(f, ins[5])
        if ins[2][0] == "vec":
            f.env[ins[1]] = [x if self.decide(cnd(k)) else y for k, x, y in zip(c, a, b)]
            f.ip += 1
            return
        if c is UNDEF:
            raise Unsupported("select on undef")
        f.env[ins[1]] = self.select(cnd(c) if type(c) is not Ite else cnd(self.force(c)), a, b)
        f.ip += 1

    def select(self, c, a, b):
        if c is True:
            return a
        if c is False:
            return b
        if a is b:
            return a
        k = self.st.path.known(c)
        if k is not None:
            return a if k else b
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        ta, tb = type(a), type(b)
        if ta is tuple or tb is tuple:
            ca, cb = cnd(a), cnd(b)
            return as_i1(C.Or(C.And(c, ca), C.And(C.Not(c), cb)))
        if ta is int and tb is int:
            return a if a == b else Ite(c, a, b)
        if self.dom.same(a, b):
            return a
        m = self.dom.merge(c, a, b)
        if m is not None:
            return m
        return a if self.decide(c) else b

    def i_freeze(self, st, f, ins):
        v = self.v(f, ins[3])
        if v is UNDEF:
            v = 0 if ins[2][0] in ("i", "ptr") else self.dom.const(0.0)
        f.env[ins[1]] = v
        f.ip += 1

    def i_extractvalue(self, st, f, ins):
        v = self.v(f, ins[3])
        for i in ins[4]:
            v = v[i]
        f.env[ins[1]] = v
        f.ip += 1

    def i_insertvalue(self, st, f, ins):
        v = self.v(f, ins[3])
        e = self.v(f, ins[4])

        def ins_at(v, idx):
            v = list(v)
            if len(idx) == 1:
                v[idx[0]] = e
            else:
                v[idx[0]] = ins_at(v[idx[0]], idx[1:])
            return v
        f.env[ins[1]] = ins_at(v, ins[5])
        f.ip += 1

    def i_extractelement(self, st, f, ins):
        f.env[ins[1]] = self.v(f, ins[3])[self.force(self.v(f, ins[4]))]
        f.ip += 1

    def i_insertelement(self, st, f, ins):
        v = list(self.v(f, ins[3]))
        v[self.force(self.v(f, ins[5]))] = self.v(f, ins[4])
        f.env[ins[1]] = v
        f.ip += 1

    def i_shuffle(self, st, f, ins):
        a, b = self.v(f, ins[3]), self.v(f, ins[4])
        m = self.v(f, ins[5])
        s = list(a) + list(b)
        f.env[ins[1]] = [UNDEF if k is UNDEF else s[k] for k in m]
        f.ip += 1

    # ---- calls ----------------------------------------------------------------------------
    def i_call(self, st, f, ins):
        callee = ins[3]
        if type(callee) is str:
            a = self.force(f.env[callee])
            name = self.addrfn.get(a)
            if name is None:
                raise Unsupported("call through unknown pointer in " + f.fn.name)
        else:
            name = callee[1]
            if type(name) is tuple:
                name = name[1]
        kind = self.kindmemo.get(name)
        if kind is None:
            kind = self.kindmemo[name] = self.classify(name)
        k, h = kind
        if k == "skip":
            if ins[1] is not None:
                f.env[ins[1]] = 0
        elif k == "fn":
            args = [self.v(f, x) for _, x in ins[4]]
            self.push(h, args, ins)
            return
        elif k == "panic":
            return Outcome("panic", None, st, h)
        else:
            args = [self.v(f, x) for _, x in ins[4]]
            r = self.fab_vs_inf(f, ins, args[0]) if h is FABS else h(self, args, ins)
            if isinstance(r, Outcome):
                return r
            if ins[1] is not None:
                f.env[ins[1]] = r
        if ins[5] is not None:
            return self.goto(f, ins[5])
        f.ip += 1

    def fab_vs_inf(self, f, ins, a):
        """|a|; a value only ever compared with infinity needs no case split on its sign."""
        s = self.inf_only.get(f.fn)
        if s is None:
            s = self.inf_only[f.fn] = inf_only(f.fn)
        if ins[1] in s and a is not UNDEF and self.dom.lazy_abs:
            return [self.dom.abs_inf(x) for x in a] if type(a) is list else self.dom.abs_inf(a)
        return FABS(self, [a], ins)

    def classify(self, name):
        base = name[1:].strip('"')
        if base in self.intr:
            return "h", self.intr[base]
        if base == "vx_limit":
            return "skip", None
        if base.startswith("llvm."):
            b = base[5:]
            for pre in ("lifetime.", "assume", "dbg.", "experimental.noalias", "donothing", "invariant", "prefetch"):
                if b.startswith(pre):
                    return "skip", None
            if b.startswith("trap") or b.startswith("ubsantrap"):
                return "panic", "trap"
            for pre, h in LLVM.items():
                if b == pre or b.startswith(pre + "."):
                    return "h", h
            raise Unsupported("intrinsic " + base)
        if base in LIBM:
            fn = LIBM[base]
            return "h", lambda ex, args, ins: UNDEF if any(a is UNDEF for a in args) else getattr(ex.dom, fn)(*args)
        d = self.demangle(base)
        t = self.redirect.get(name)
        if t is not None:
            if callable(t):
                return "h", t
            g = self.m.fn("@" + t)
            if g is None:
                raise Unsupported("no stub " + t)
            return "fn", g
        if PANIC_RE.search(d):
            return "panic", d
        if base.startswith("__rust_alloc") or "___rust_alloc" in base or base.endswith("__rust_alloc"):
            return "h", lambda ex, args, ins: ex.alloc(ex.force(args[0]))
        if "__rust_alloc_zeroed" in base:
            return "h", h_zalloc
        if "__rust_dealloc" in base or "__rust_no_alloc_shim" in base:
            return "skip", None
        if base in ("memcmp", "bcmp"):
            return "h", h_memcmp
        g = self.m.fn(name)
        if g is not None:
            return "fn", g
        raise Unsupported("external " + d)

    OPS = {"jmp": i_jmp, "br": i_br, "switch": i_switch, "ret": i_ret, "unreachable": i_unreach, "nop": i_nop,
           "alloca": i_alloca, "load": i_load, "store": i_store, "gep": i_gep, "fbin": i_fbin, "fneg": i_fneg,
           "fcmp": i_fcmp, "icmp": i_icmp, "bin": i_bin, "cast": i_cast, "select": i_select, "freeze": i_freeze,
           "extractvalue": i_extractvalue, "insertvalue": i_insertvalue, "extractelement": i_extractelement,
           "insertelement": i_insertelement, "shufflevector": i_shuffle, "call": i_call}


def h_zalloc(ex, args, ins):
    n = ex.force(args[0])
    a = ex.alloc(n)
    for k in range(0, n, 8):
        ex.st.mem[(a + k) >> 3] = 0
    return a


def h_memcmp(ex, args, ins):
    a, b, n = (ex.force(x) for x in args)
    for k in range(n):
        x, y = ex.get_byte(ex.st.mem, a + k), ex.get_byte(ex.st.mem, b + k)
        if x != y:
            return (x - y) & 0xffffffff
    return 0


def regs(x):
    if type(x) is str:
        yield x
    elif type(x) in (tuple, list):
        for y in x:
            yield from regs(y)
    elif type(x) is dict:
        for y in x.values():
            yield from regs(y)


def is_inf(x):
    """A constant infinity, or a splat of it."""
    if type(x) is not tuple or x[0] != "c":
        return False
    v = x[1]
    return all(e == ("d", float("inf")) for e in v) if type(v) is list else v == ("d", float("inf"))


def inf_only(fn):
    """The fabs results of a function whose every use is a comparison with infinity."""
    cand, bad = set(), set()
    for blk in fn.blocks.values():
        for ins in blk:
            if ins[0] == "call" and ins[1] is not None and type(ins[3]) is tuple and "llvm.fabs" in str(ins[3]):
                cand.add(ins[1])
    if not cand:
        return cand
    for blk in fn.blocks.values():
        for ins in blk:
            if ins[0] == "fcmp" and (is_inf(ins[4]) or is_inf(ins[5])):
                continue
            own = ins[1] if len(ins) > 1 and type(ins[1]) is str else None
            seen = list(regs(ins[2:])) + ([own] if ins[0] not in ("call", "fcmp", "icmp", "bin") and own else [])
            bad.update(r for r in seen if r in cand)
    return cand - bad


def u1(fn):
    def h(ex, args, ins):
        a = args[0]
        if ins[2][0] == "vec":
            return [getattr(ex.dom, fn)(x) for x in a]
        return UNDEF if a is UNDEF else getattr(ex.dom, fn)(a)
    return h


def u2(fn):
    def h(ex, args, ins):
        if ins[2][0] == "vec":
            return [getattr(ex.dom, fn)(x, y) for x, y in zip(args[0], args[1])]
        if args[0] is UNDEF or args[1] is UNDEF:
            return UNDEF
        return getattr(ex.dom, fn)(args[0], args[1])
    return h


def h_fma(ex, args, ins):
    return ex.dom.fma(*args[:3])


def h_memcpy(ex, args, ins):
    n = ex.force(args[2])
    ex.memcpy(ex.force(args[0]), ex.force(args[1]), n)


def h_memset(ex, args, ins):
    d, v, n = ex.force(args[0]), ex.force(args[1]), ex.force(args[2])
    mem = ex.st.mem
    k = 0
    while k < n:
        if ((d + k) & 7) == 0 and n - k >= 8:
            mem[(d + k) >> 3] = UNDEF if v is UNDEF else v * 0x0101010101010101
            k += 8
        else:
            ex.put(mem, d + k, 1, v)
            k += 1


def minmax(pick):
    def h(ex, args, ins):
        n = ins[2][1]
        a, b = args[0], args[1]
        if a is UNDEF or b is UNDEF:
            return UNDEF
        a, b = ex.force(a), ex.force(b)
        if type(a) is not int or type(b) is not int:
            c = ex.icmp({"umin": "ult", "umax": "ugt", "smin": "slt", "smax": "sgt"}[pick], ins[2], a, b)
            return a if ex.decide(c) else b
        x, y = (a, b) if pick[0] == "u" else (sgn(a, n), sgn(b, n))
        r = min(x, y) if pick.endswith("min") else max(x, y)
        return r & ((1 << n) - 1)
    return h


def overflow(op, signed):
    def h(ex, args, ins):
        n = ins[2][1][0][1]
        a, b = ex.force(args[0]), ex.force(args[1])
        if a is UNDEF or b is UNDEF:
            return [UNDEF, UNDEF]
        if signed:
            a, b = sgn(a, n), sgn(b, n)
        r = a + b if op == "add" else a - b if op == "sub" else a * b
        m = (1 << n) - 1
        if signed:
            o = not (-(1 << (n - 1)) <= r < (1 << (n - 1)))
        else:
            o = not (0 <= r <= m)
        return [r & m, 1 if o else 0]
    return h


def satur(op, signed):
    def h(ex, args, ins):
        n = ins[2][1]
        a, b = ex.force(args[0]), ex.force(args[1])
        m = (1 << n) - 1
        if signed:
            a, b = sgn(a, n), sgn(b, n)
            r = a + b if op == "add" else a - b
            return max(-(1 << (n - 1)), min((1 << (n - 1)) - 1, r)) & m
        r = a + b if op == "add" else a - b
        return max(0, min(m, r))
    return h


def ucmp(signed):
    def h(ex, args, ins):
        n = ins[4][0][0][1]
        a, b = args[0], args[1]
        if isinstance(a, Bits) or isinstance(b, Bits):
            p = "s" if signed else "u"
            if ex.decide(ex.icmp(p + "lt", ("i", n), a, b)):
                return (1 << ins[2][1]) - 1
            return 1 if ex.decide(ex.icmp(p + "gt", ("i", n), a, b)) else 0
        a, b = ex.force(a), ex.force(b)
        if signed:
            a, b = sgn(a, n), sgn(b, n)
        return ((a > b) - (a < b)) & ((1 << ins[2][1]) - 1)
    return h


def h_fpclass(ex, args, ins):
    a = args[0]
    if a is UNDEF:
        return UNDEF
    return as_i1(ex.dom.fpclass(a, args[1]))


def h_ctlz(ex, args, ins):
    n = ins[2][1]
    return n - ex.force(args[0]).bit_length()


def h_cttz(ex, args, ins):
    n = ins[2][1]
    a = ex.force(args[0])
    return n if a == 0 else (a & -a).bit_length() - 1


def h_ctpop(ex, args, ins):
    return bin(ex.force(args[0])).count("1")


def h_abs(ex, args, ins):
    n = ins[2][1]
    return abs(sgn(ex.force(args[0]), n)) & ((1 << n) - 1)


def h_fsh(left):
    def h(ex, args, ins):
        n = ins[2][1]
        a, b, c = (ex.force(x) for x in args)
        c %= n
        x = (a << n) | b
        return ((x << c) >> n if left else x >> c) & ((1 << n) - 1)
    return h


def h_powi(ex, args, ins):
    n = sgn(ex.force(args[1]), 32)
    d = ex.dom
    r = d.const(1.0)
    for _ in range(abs(n)):
        r = d.mul(r, args[0])
    return d.div(d.const(1.0), r) if n < 0 else r


def h_expect(ex, args, ins):
    return args[0]


def h_bswap(ex, args, ins):
    n = ins[2][1] // 8
    return int.from_bytes(ex.force(args[0]).to_bytes(n, "little"), "big")


def h_fptosat(op):
    def h(ex, args, ins):
        return ex.dom.to_int_sat(op, args[0], ins[2][1])
    return h


def h_objsize(ex, args, ins):
    return M64


def h_reduce(op):
    def h(ex, args, ins):
        r = args[0]
        for x in args[1]:
            r = ex.fop(op, r, x)
        return r
    return h


def h_isconst(ex, args, ins):
    return 0


LLVM = {"sqrt": u1("sqrt"), "fabs": u1("fabs"), "minnum": u2("minnum"), "maxnum": u2("maxnum"),
        "minimumnum": u2("minnum"), "maximumnum": u2("maxnum"),
        "minimum": u2("minimum"), "maximum": u2("maximum"),
        "copysign": u2("copysign"), "fma": h_fma, "fmuladd": h_fma, "sin": u1("sin"), "cos": u1("cos"), "tan": u1("tan"),
        "exp": u1("exp"), "log": u1("log"), "pow": u2("pow"), "powi": h_powi, "asin": u1("asin"), "acos": u1("acos"),
        "atan": u1("atan"), "atan2": u2("atan2"), "floor": u1("floor"), "ceil": u1("ceil"), "trunc": u1("ftrunc"),
        "round": u1("fround"), "rint": u1("frint"), "hypot": u2("hypot"),
        "memcpy": h_memcpy, "memmove": h_memcpy, "memset": h_memset,
        "umin": minmax("umin"), "umax": minmax("umax"), "smin": minmax("smin"), "smax": minmax("smax"),
        "uadd.with.overflow": overflow("add", 0), "usub.with.overflow": overflow("sub", 0),
        "umul.with.overflow": overflow("mul", 0), "sadd.with.overflow": overflow("add", 1),
        "ssub.with.overflow": overflow("sub", 1), "smul.with.overflow": overflow("mul", 1),
        "uadd.sat": satur("add", 0), "usub.sat": satur("sub", 0), "sadd.sat": satur("add", 1),
        "ssub.sat": satur("sub", 1), "ucmp": ucmp(0), "scmp": ucmp(1), "is.fpclass": h_fpclass,
        "ctlz": h_ctlz, "cttz": h_cttz, "ctpop": h_ctpop, "abs": h_abs, "fshl": h_fsh(True), "fshr": h_fsh(False),
        "expect": h_expect, "bswap": h_bswap, "fptoui.sat": h_fptosat("u"), "fptosi.sat": h_fptosat("s"),
        "objectsize": h_objsize, "vector.reduce.fadd": h_reduce("fadd"), "vector.reduce.fmul": h_reduce("fmul"),
        "is.constant": h_isconst, "threadlocal.address": h_expect}

FABS = LLVM["fabs"]

LIBM = {n: n for n in ("sin", "cos", "tan", "asin", "acos", "atan", "atan2", "exp", "log", "pow", "hypot", "cbrt", "sqrt",
                       "sinh", "cosh", "tanh", "fabs", "floor", "ceil")}
LIBM["fmod"] = "rem"
LIBM["fmin"] = "minnum"
LIBM["fmax"] = "maxnum"
