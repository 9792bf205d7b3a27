"""Reader for the subset of LLVM textual IR that rustc emits for the harness crate."""
import re
import struct

TOK = re.compile(r'''\s*(?:
  (c"(?:[^"\\]|\\.)*")
 |([%@]"(?:[^"\\]|\\.)*"|[%@][\w.$\-]+)
 |("(?:[^"\\]|\\.)*")
 |(0x[KLMHR]?[0-9A-Fa-f]+|f0x[0-9A-Fa-f]+)
 |([+\-](?:inf|nan|qnan|snan)\b|[+\-]?\d+(?:\.\d+(?:e[+\-]?\d+)?)?)
 |(![\w.\-]*(?:\([^)]*\))?)
 |(\#\d+)
 |([A-Za-z_][\w.$\-]*:?)
 |(\.\.\.|[()\[\]{}<>,=*|])
)''', re.X)


class IRError(Exception):
    pass


COMMENT = re.compile(r"/\*.*?\*/")


def tokens(s):
    if "/*" in s:
        s = COMMENT.sub(" ", s)
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            if s[pos:].strip() == "" or s[pos:].lstrip().startswith(";"):
                break
            raise IRError("cannot tokenise: %r" % s[pos:pos + 60])
        pos = m.end()
        t = m.group(m.lastindex)
        out.append(t)
    return out


# types: ('i',n) ('double',) ('float',) ('ptr',) ('void',) ('arr',n,t) ('vec',n,t) ('st',[t..],packed) ('label',) ('metadata',)
I = {n: ("i", n) for n in (1, 8, 16, 32, 64, 128)}
PTR, DBL, FLT, VOID = ("ptr",), ("double",), ("float",), ("void",)


def size_align(t):
    k = t[0]
    if k == "i":
        n = (t[1] + 7) // 8
        p = 1
        while p < n:
            p *= 2
        return p, min(p, 16)
    if k in ("ptr", "double"):
        return 8, 8
    if k == "float":
        return 4, 4
    if k == "arr":
        s, a = size_align(t[2])
        return s * t[1], a
    if k == "vec":
        s, a = size_align(t[2])
        return s * t[1], s * t[1]
    if k == "st":
        off, al = 0, 1
        for f in t[1]:
            s, a = size_align(f)
            if t[2]:
                a = 1
            off = (off + a - 1) // a * a + s
            al = max(al, a)
        return (off + al - 1) // al * al, al
    raise IRError("size of %r" % (t,))


_sz = {}


def sizeof(t):
    k = repr(t)
    v = _sz.get(k)
    if v is None:
        v = _sz[k] = size_align(t)[0]
    return v


def field_offset(t, i):
    off = 0
    for j, f in enumerate(t[1]):
        s, a = size_align(f)
        if t[2]:
            a = 1
        off = (off + a - 1) // a * a
        if j == i:
            return off
        off += s
    raise IRError("field")


class P:
    """Token cursor."""

    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v

    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        x = self.next()
        if x != v:
            raise IRError("expected %r got %r in %s" % (v, x, " ".join(self.t)[:200]))

    def type(self):
        t = self.next()
        if t == "ptr":
            if self.accept("addrspace"):
                self.skip_parens()
            r = PTR
        elif t == "double":
            r = DBL
        elif t == "float":
            r = FLT
        elif t == "void":
            r = VOID
        elif t == "label":
            r = ("label",)
        elif t == "metadata":
            r = ("metadata",)
        elif t == "token":
            r = ("token",)
        elif re.fullmatch(r"i\d+", t):
            r = ("i", int(t[1:]))
        elif t == "[":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect("]")
            r = ("arr", n, e)
        elif t == "<":
            if self.peek() == "{":
                self.next()
                r = ("st", self.types_until("}"), True)
                self.expect(">")
            else:
                n = int(self.next())
                self.expect("x")
                e = self.type()
                self.expect(">")
                r = ("vec", n, e)
        elif t == "{":
            r = ("st", self.types_until("}"), False)
        elif t[0] == "%":
            r = self.mod.named_type(t)
        else:
            raise IRError("type %r in %s" % (t, " ".join(self.t)[:200]))
        return r

    def types_until(self, end):
        out = []
        if self.accept(end):
            return out
        while True:
            out.append(self.type())
            if self.accept(end):
                return out
            self.expect(",")

    def skip_parens(self):
        self.expect("(")
        d = 1
        while d:
            t = self.next()
            if t == "(":
                d += 1
            elif t == ")":
                d -= 1

    ATTR_ARG = {"align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "range", "captures",
                "initializes", "elementtype", "nofpclass", "memory", "allocsize", "alignstack", "inalloca", "preallocated",
                "byref", "dead_on_return"}
    ATTRS = {"noundef", "nonnull", "noalias", "nocapture", "readonly", "readnone", "writeonly", "signext", "zeroext",
             "inreg", "immarg", "returned", "nofree", "swiftself", "nest", "writable", "dead_on_unwind", "allocptr",
             "allocalign", "noext", "swifterror", "dead_on_return"}

    def attrs(self):
        while True:
            t = self.peek()
            if t is None:
                return
            if t in self.ATTR_ARG:
                self.next()
                if self.peek() == "(":
                    self.skip_parens()
                elif t == "align":
                    self.next()
            elif t in self.ATTRS:
                self.next()
            elif t[0] == '"':
                self.next()
                if self.accept("="):
                    self.next()
            else:
                return

    def value(self, ty):
        """Operand: register name (str) or ('c', value)."""
        t = self.next()
        if t[0] == "%":
            return t
        return ("c", self.const_tok(t, ty))

    def const(self, ty):
        return self.const_tok(self.next(), ty)

    def const_tok(self, t, ty):
        k = ty[0]
        if t == "zeroinitializer":
            return zero(ty)
        if t in ("undef", "poison"):
            return undef(ty)
        if t == "null":
            return 0
        if t == "none":
            return None
        if t[0] == "@":
            return ("g", t)
        if k == "i":
            if t == "true":
                return 1
            if t == "false":
                return 0
            if re.fullmatch(r"-?\d+", t):
                return int(t) & ((1 << ty[1]) - 1)
        if k == "double":
            if t.startswith("f0x"):
                return ("d", struct.unpack(">d", bytes.fromhex(t[3:].rjust(16, "0")))[0])
            if t.startswith("0x"):
                return ("d", struct.unpack(">d", bytes.fromhex(t[2:].rjust(16, "0")))[0])
            if t in ("+inf", "inf"):
                return ("d", float("inf"))
            if t in ("-inf",):
                return ("d", float("-inf"))
            if t in ("nan", "qnan", "+qnan", "-qnan", "+nan", "-nan"):
                if self.peek() == "(":
                    self.skip_parens()
                return ("d", float("nan"))
            return ("d", float(t))
        if k == "float":
            if t.startswith("0x"):
                return ("d", struct.unpack(">d", bytes.fromhex(t[2:].rjust(16, "0")))[0])
            return ("d", float(t))
        if t[0:2] == 'c"':
            return ("agg", [("b", x) for x in cstr(t)])
        if t == "[" or t == "<" or t == "{":
            if t == "<" and self.peek() == "{":
                self.next()
                end = "}"
                packed = True
            else:
                end = {"[": "]", "<": ">", "{": "}"}[t]
                packed = False
            out = []
            if not self.accept(end):
                while True:
                    ety = self.type()
                    out.append(self.const(ety))
                    if self.accept(end):
                        break
                    self.expect(",")
            if packed:
                self.expect(">")
            return ("agg", out)
        if t == "splat":
            self.expect("(")
            ety = self.type()
            v = self.const(ety)
            self.expect(")")
            return ("agg", [v] * ty[1])
        if t == "getelementptr":
            while self.peek() in ("inbounds", "nuw", "nusw") or self.peek() == "inrange":
                if self.next() == "inrange":
                    self.skip_parens()
            self.expect("(")
            sty = self.type()
            self.expect(",")
            pty = self.type()
            base = self.const(pty)
            idx = []
            while self.accept(","):
                it = self.type()
                idx.append(self.const(it))
            self.expect(")")
            return ("gep", sty, base, idx)
        if t in ("ptrtoint", "inttoptr", "bitcast", "addrspacecast"):
            self.expect("(")
            sty = self.type()
            v = self.const(sty)
            self.expect("to")
            self.type()
            self.expect(")")
            return v
        if t in ("sub", "add"):
            while self.peek() in ("nuw", "nsw"):
                self.next()
            self.expect("(")
            a = self.const(self.type())
            self.expect(",")
            b = self.const(self.type())
            self.expect(")")
            return ("cx", t, a, b)
        if t in ("asm",):
            raise IRError("inline asm")
        raise IRError("constant %r : %r in %s" % (t, ty, " ".join(self.t)[:300]))


def cstr(t):
    s = t[2:-1]
    out = []
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(0x5c)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return out


class Undef:
    def __repr__(self):
        return "undef"

    def __deepcopy__(self, m):
        return self


UNDEF = Undef()


def zero(ty):
    k = ty[0]
    if k in ("i", "ptr"):
        return 0
    if k in ("double", "float"):
        return ("d", 0.0)
    if k in ("arr", "vec"):
        return ("agg", [zero(ty[2])] * ty[1])
    if k == "st":
        return ("agg", [zero(f) for f in ty[1]])
    raise IRError("zero %r" % (ty,))


def undef(ty):
    k = ty[0]
    if k in ("arr", "vec"):
        return ("agg", [undef(ty[2])] * ty[1])
    if k == "st":
        return ("agg", [undef(f) for f in ty[1]])
    return UNDEF


class Fn:
    __slots__ = ("name", "params", "blocks", "entry", "ret", "nregs")


FMF = {"nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"}
BINOPS = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"}
FBIN = {"fadd", "fsub", "fmul", "fdiv", "frem"}
CASTS = {"trunc", "zext", "sext", "fptoui", "fptosi", "uitofp", "sitofp", "fptrunc", "fpext", "ptrtoint", "inttoptr",
         "bitcast", "addrspacecast", "ptrtoaddr"}
FLAGS = {"nuw", "nsw", "exact", "disjoint", "nneg", "inbounds", "nusw", "samesign"}


class Module:
    def __init__(self, text):
        self.types = {}
        self.fn_text = {}
        self.fns = {}
        self.decls = set()
        self.globals = {}
        lines = text.split("\n")
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith("define "):
                name = self._fname(ln)
                j = i + 1
                while lines[j] != "}":
                    j += 1
                self.fn_text[name] = lines[i:j]
                i = j + 1
                continue
            if ln.startswith("declare "):
                self.decls.add(self._fname(ln))
            elif ln.startswith("%") and " = type " in ln:
                nm, rest = ln.split(" = type ", 1)
                self.types[nm] = rest
            elif ln.startswith("@"):
                m = re.match(r'(@"(?:[^"\\]|\\.)*"|@[\w.$\-]+) = ', ln)
                self.globals[m.group(1)] = ln[m.end():]
            i += 1

    def _fname(self, ln):
        m = re.search(r'(@"(?:[^"\\]|\\.)*"|@[\w.$\-]+)\(', ln)
        return m.group(1)

    def named_type(self, t):
        v = self.types[t]
        if isinstance(v, str):
            if v.strip() == "opaque":
                raise IRError("opaque")
            v = P(tokens(v), self).type()
            self.types[t] = v
        return v

    def global_init(self, name):
        """(type, constant) of a global variable, or None for an external one."""
        ln = self.globals[name]
        toks = tokens(ln.split(", align")[0] if False else ln)
        p = P(toks, self)
        ext = False
        while p.peek() not in ("global", "constant"):
            t = p.next()
            if t in ("external",):
                ext = True
            if t == "thread_local" and p.peek() == "(":
                p.skip_parens()
            if t == "alias":
                raise IRError("alias " + name)
        p.next()
        ty = p.type()
        if ext:
            return ty, None
        return ty, p.const(ty)

    def fn(self, name):
        f = self.fns.get(name)
        if f is None:
            t = self.fn_text.get(name)
            if t is None:
                return None
            f = self.fns[name] = self.parse_fn(name, t)
        return f

    def parse_fn(self, name, lines):
        f = Fn()
        f.name = name
        head = lines[0]
        k = head.index(name + "(")
        p = P(tokens(head[k + len(name):]), self)
        p.expect("(")
        params = []
        if not p.accept(")"):
            n = 0
            while True:
                ty = p.type()
                p.attrs()
                if p.peek() and p.peek()[0] == "%":
                    params.append(p.next())
                else:
                    params.append("%%%d" % n)
                n += 1
                if p.accept(")"):
                    break
                p.expect(",")
        f.params = params
        f.blocks = {}
        cur = None
        f.entry = None
        i = 1
        while i < len(lines):
            ln = lines[i]
            i += 1
            s = ln.strip()
            if not s or s[0] == ";" or s.startswith("#dbg"):
                continue
            if not ln.startswith(" "):
                m = re.match(r'("(?:[^"\\]|\\.)*"|[\w.$\-]+):', ln)
                if not m:
                    raise IRError("label? " + ln)
                lab = "%" + m.group(1)
                cur = f.blocks[lab] = []
                if f.entry is None:
                    f.entry = lab
                continue
            if cur is None:
                lab = "%%%d" % len(params)
                cur = f.blocks[lab] = []
                f.entry = lab
            if s.startswith("switch "):
                while "]" not in s:
                    s += " " + lines[i].strip()
                    i += 1
            elif " invoke " in " " + s and " unwind " not in s:
                s += " " + lines[i].strip()
                i += 1
            elif s.endswith("landingpad { ptr, i32 }") or "landingpad" in s:
                while i < len(lines) and lines[i].strip().startswith(("cleanup", "catch", "filter")):
                    i += 1
            cur.append(self.parse_ins(s))
        return f

    def parse_ins(self, s):
        p = P(tokens(s), self)
        dest = None
        if len(p.t) > 1 and p.t[1] == "=":
            dest = p.next()
            p.next()
        op = p.next()
        while op in ("tail", "musttail", "notail"):
            op = p.next()
        if op in BINOPS:
            while p.peek() in FLAGS:
                p.next()
            ty = p.type()
            a = p.value(ty)
            p.expect(",")
            b = p.value(ty)
            return ("bin", dest, op, ty, a, b)
        if op in FBIN:
            while p.peek() in FMF:
                p.next()
            ty = p.type()
            a = p.value(ty)
            p.expect(",")
            b = p.value(ty)
            return ("fbin", dest, op, ty, a, b)
        if op == "fneg":
            while p.peek() in FMF:
                p.next()
            ty = p.type()
            return ("fneg", dest, ty, p.value(ty))
        if op in ("icmp", "fcmp"):
            while p.peek() in FMF or p.peek() in FLAGS:
                p.next()
            pred = p.next()
            ty = p.type()
            a = p.value(ty)
            p.expect(",")
            b = p.value(ty)
            return (op, dest, pred, ty, a, b)
        if op in CASTS:
            while p.peek() in FLAGS or p.peek() in FMF:
                p.next()
            ty = p.type()
            v = p.value(ty)
            p.expect("to")
            return ("cast", dest, op, ty, p.type(), v)
        if op == "load":
            p.accept("volatile")
            p.accept("atomic")
            ty = p.type()
            p.expect(",")
            p.type()
            return ("load", dest, ty, p.value(PTR))
        if op == "store":
            p.accept("volatile")
            p.accept("atomic")
            ty = p.type()
            v = p.value(ty)
            p.expect(",")
            p.type()
            return ("store", None, ty, v, p.value(PTR))
        if op == "getelementptr":
            while p.peek() in FLAGS:
                p.next()
            sty = p.type()
            p.expect(",")
            p.type()
            base = p.value(PTR)
            idx = []
            while p.accept(","):
                if p.peek() and p.peek()[0] == "!":
                    break
                it = p.type()
                idx.append((it, p.value(it)))
            return ("gep", dest, sty, base, idx)
        if op == "alloca":
            p.accept("inalloca")
            ty = p.type()
            n = 1
            if p.accept(","):
                if p.peek() != "align":
                    nt = p.type()
                    n = p.value(nt)
            return ("alloca", dest, ty, n)
        if op == "br":
            if p.accept("label"):
                return ("jmp", None, p.next())
            p.type()
            c = p.value(I[1])
            p.expect(",")
            p.expect("label")
            a = p.next()
            p.expect(",")
            p.expect("label")
            return ("br", None, c, a, p.next())
        if op == "switch":
            ty = p.type()
            v = p.value(ty)
            p.expect(",")
            p.expect("label")
            d = p.next()
            p.expect("[")
            cases = {}
            while not p.accept("]"):
                t = p.type()
                c = p.const(t)
                p.expect(",")
                p.expect("label")
                cases[c] = p.next()
            return ("switch", None, v, d, cases)
        if op == "phi":
            while p.peek() in FMF:
                p.next()
            ty = p.type()
            inc = {}
            while True:
                p.expect("[")
                v = p.value(ty)
                p.expect(",")
                inc[p.next()] = v
                p.expect("]")
                if not p.accept(","):
                    break
                if p.peek() != "[":
                    break
            return ("phi", dest, ty, inc)
        if op == "select":
            while p.peek() in FMF:
                p.next()
            ct = p.type()
            c = p.value(ct)
            p.expect(",")
            ty = p.type()
            a = p.value(ty)
            p.expect(",")
            ty = p.type()
            b = p.value(ty)
            return ("select", dest, ct, c, a, b)
        if op in ("call", "invoke"):
            while True:
                t = p.peek()
                if t in FMF or t in ("fastcc", "ccc", "coldcc", "cc"):
                    p.next()
                    continue
                if t in P.ATTR_ARG or t in P.ATTRS:
                    p.attrs()
                    continue
                break
            rty = p.type()
            if p.peek() == "(":
                # explicit function type
                p.skip_parens()
            if p.peek() == "asm":
                return ("asm", dest, s)
            callee = p.value(PTR)
            p.expect("(")
            args = []
            if not p.accept(")"):
                while True:
                    ty = p.type()
                    if ty[0] == "metadata":
                        d = 0
                        while True:
                            t = p.peek()
                            if d == 0 and t in (",", ")"):
                                break
                            p.next()
                            if t == "(":
                                d += 1
                            if t == ")":
                                d -= 1
                        args.append((ty, ("c", None)))
                    else:
                        p.attrs()
                        args.append((ty, p.value(ty)))
                    if p.accept(")"):
                        break
                    p.expect(",")
            normal = None
            if op == "invoke":
                while p.next() != "to":
                    pass
                p.expect("label")
                normal = p.next()
            return ("call", dest, rty, callee, args, normal)
        if op == "ret":
            ty = p.type()
            if ty == VOID:
                return ("ret", None, None, None)
            return ("ret", None, ty, p.value(ty))
        if op == "unreachable":
            return ("unreachable", None)
        if op == "resume":
            return ("unreachable", None)
        if op == "landingpad":
            return ("unreachable", None)
        if op == "extractvalue":
            ty = p.type()
            v = p.value(ty)
            idx = []
            while p.accept(","):
                if p.peek()[0] == "!":
                    break
                idx.append(int(p.next()))
            return ("extractvalue", dest, ty, v, idx)
        if op == "insertvalue":
            ty = p.type()
            v = p.value(ty)
            p.expect(",")
            ety = p.type()
            e = p.value(ety)
            idx = []
            while p.accept(","):
                if p.peek()[0] == "!":
                    break
                idx.append(int(p.next()))
            return ("insertvalue", dest, ty, v, e, idx)
        if op == "extractelement":
            ty = p.type()
            v = p.value(ty)
            p.expect(",")
            it = p.type()
            return ("extractelement", dest, ty, v, p.value(it))
        if op == "insertelement":
            ty = p.type()
            v = p.value(ty)
            p.expect(",")
            ety = p.type()
            e = p.value(ety)
            p.expect(",")
            it = p.type()
            return ("insertelement", dest, ty, v, e, p.value(it))
        if op == "shufflevector":
            ty = p.type()
            a = p.value(ty)
            p.expect(",")
            ty2 = p.type()
            b = p.value(ty2)
            p.expect(",")
            mt = p.type()
            m = p.value(mt)
            return ("shufflevector", dest, ty, a, b, m)
        if op == "freeze":
            ty = p.type()
            return ("freeze", dest, ty, p.value(ty))
        if op == "fence":
            return ("nop", None)
        return ("unsupported", dest, s)
