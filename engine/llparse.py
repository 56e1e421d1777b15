"""Parser for the textual LLVM IR (clang 18, opaque pointers) we need."""
import re
import struct

TOK = re.compile(r'''
   (?P<str>c?"(?:[^"\\]|\\[0-9a-fA-F]{2}|\\\\)*")
 | (?P<id>[%@$](?:"(?:[^"\\]|\\[0-9a-fA-F]{2})*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!\{[^}]*\}|![a-zA-Z0-9_.]*)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[KMLHR]?[0-9A-Fa-f]+|-?\d+)
 | (?P<word>[a-zA-Z_][a-zA-Z0-9_.]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[][(){}<>,=*|:])
 | (?P<ws>\s+)
 | (?P<cm>;.*$)
''', re.X)


def tokenize(line):
    out = []
    i = 0
    n = len(line)
    while i < n:
        m = TOK.match(line, i)
        if not m:
            raise SyntaxError("tokenize: %r at %d in %r" % (line[i:i + 20], i, line))
        i = m.end()
        k = m.lastgroup
        if k in ("ws", "cm"):
            continue
        out.append((k, m.group()))
    return out


# ---- types -----------------------------------------------------------------
class T:
    __slots__ = ("k", "a", "b", "_size", "_align", "_offs")

    def __init__(self, k, a=None, b=None):
        self.k = k      # int float ptr void array struct vector named label meta func
        self.a = a
        self.b = b
        self._size = None
        self._align = None
        self._offs = None

    def __repr__(self):
        if self.k == "int":
            return "i%d" % self.a
        if self.k == "float":
            return self.a
        if self.k in ("array", "vector"):
            return "[%s x %r]" % (self.a, self.b)
        if self.k == "struct":
            return "{%s}" % ",".join(map(repr, self.a))
        if self.k == "named":
            return self.a
        return self.k


VOID = T("void")
PTR = T("ptr")
LABEL = T("label")
META = T("meta")
INTS = {}
FLOATS = {"double": T("float", "double"), "float": T("float", "float"), "x86_fp80": T("float", "x86_fp80")}


def int_t(n):
    t = INTS.get(n)
    if t is None:
        t = INTS[n] = T("int", n)
    return t


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}     # name -> (type, init tokens or None)
        self.tls = set()
        self.funcs = {}
        self.decls = {}
        self.aliases = {}

    def res(self, t):
        while t.k == "named":
            t = self.types[t.a]
        return t

    def size(self, t):
        t = self.res(t)
        if t._size is not None:
            return t._size
        k = t.k
        if k == "int":
            n = (t.a + 7) // 8
            s = 1
            while s < n:
                s *= 2
            if t.a > 64:
                s = (t.a + 127) // 128 * 16
        elif k == "float":
            s = {"double": 8, "float": 4, "x86_fp80": 16}[t.a]
        elif k == "ptr":
            s = 8
        elif k in ("array", "vector"):
            s = t.a * self.size(t.b)
        elif k == "struct":
            self.layout(t)
            s = t._size
        else:
            raise ValueError("size of %r" % t)
        t._size = s
        return s

    def align(self, t):
        t = self.res(t)
        k = t.k
        if k in ("int", "float", "ptr"):
            return min(self.size(t), 16)
        if k == "array":
            return self.align(t.b)
        if k == "vector":
            return self.size(t)
        if k == "struct":
            if t.b:
                return 1
            return max([self.align(x) for x in t.a] or [1])
        raise ValueError("align %r" % t)

    def layout(self, t):
        if t._offs is not None:
            return t._offs
        off = 0
        offs = []
        for x in t.a:
            if not t.b:
                al = self.align(x)
                off = (off + al - 1) // al * al
            offs.append(off)
            off += self.size(x)
        al = self.align(t)
        t._size = (off + al - 1) // al * al
        t._offs = offs
        return offs


class P:
    """token cursor"""

    def __init__(self, mod, toks):
        self.m = mod
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None

    def kind(self, k=0):
        j = self.i + k
        return self.t[j][0] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x[1]

    def expect(self, s):
        x = self.next()
        if x != s:
            raise SyntaxError("expected %r got %r in %r" % (s, x, " ".join(b for a, b in self.t)))

    def accept(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def type(self):
        x = self.next()
        if x == "void":
            t = VOID
        elif x == "ptr":
            t = PTR
            if self.peek() == "addrspace":
                self.i += 4
        elif x == "label":
            t = LABEL
        elif x == "metadata":
            t = META
        elif x in FLOATS:
            t = FLOATS[x]
        elif re.fullmatch(r"i\d+", x):
            t = int_t(int(x[1:]))
        elif x == "[":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect("]")
            t = T("array", n, e)
        elif x == "{":
            es = []
            if not self.accept("}"):
                while True:
                    es.append(self.type())
                    if self.accept("}"):
                        break
                    self.expect(",")
            t = T("struct", es, False)
        elif x == "<":
            if self.peek() == "{":
                self.next()
                es = []
                if not self.accept("}"):
                    while True:
                        es.append(self.type())
                        if self.accept("}"):
                            break
                        self.expect(",")
                self.expect(">")
                t = T("struct", es, True)
            else:
                n = int(self.next())
                self.expect("x")
                e = self.type()
                self.expect(">")
                t = T("vector", n, e)
        elif x.startswith("%"):
            t = T("named", x)
        elif x == "opaque":
            t = T("struct", [], False)
        else:
            raise SyntaxError("type? %r in %r" % (x, " ".join(b for a, b in self.t)))
        # function type
        if self.peek() == "(" and t is not LABEL:
            # function type "ret (args)"; only in call; caller handles
            pass
        return t

    # value: returns ('reg', name) | ('const', ty, data) ...
    def value(self, ty):
        k = self.kind()
        x = self.next()
        if k == "id":
            if x[0] == "%":
                return ("reg", unq(x))
            return ("glob", unq(x))
        if k == "num":
            if ty.k == "float":
                return ("fp", parse_fp(x, ty))
            return ("int", int(x))
        if k == "str":
            return ("bytes", unescape(x[2:-1] if x.startswith("c") else x[1:-1]))
        if x == "true":
            return ("int", 1)
        if x == "false":
            return ("int", 0)
        if x == "null":
            return ("int", 0)
        if x in ("undef", "poison"):
            return ("undef", ty)
        if x == "zeroinitializer":
            return ("zero", ty)
        if x == "none":
            return ("int", 0)
        if x in ("[", "{", "<"):
            packed = False
            if x == "<" and self.peek() == "{":
                self.next()
                packed = True
            close = {"[": "]", "{": "}", "<": "}" if packed else ">"}[x]
            vs = []
            if not self.accept(close):
                while True:
                    t = self.type()
                    vs.append((t, self.value(t)))
                    if self.accept(close):
                        break
                    self.expect(",")
            if packed:
                self.expect(">")
            return ("agg", ty, vs)
        if x == "getelementptr":
            while self.peek() in ("inbounds", "nuw", "nusw"):
                self.next()
            if self.peek() == "inrange":
                while self.next() != ")":
                    pass
            self.expect("(")
            bt = self.type()
            self.expect(",")
            ops = []
            while True:
                self.accept("inrange")
                t = self.type()
                ops.append((t, self.value(t)))
                if self.accept(")"):
                    break
                self.expect(",")
            return ("gep", bt, ops)
        if x in ("bitcast", "inttoptr", "ptrtoint", "trunc", "zext", "sext", "addrspacecast"):
            self.expect("(")
            t = self.type()
            v = self.value(t)
            self.expect("to")
            t2 = self.type()
            self.expect(")")
            return ("cast", x, t, v, t2)
        if x in ("add", "sub", "mul", "xor", "and", "or"):
            while self.peek() in ("nuw", "nsw"):
                self.next()
            self.expect("(")
            t = self.type()
            a = self.value(t)
            self.expect(",")
            t2 = self.type()
            b = self.value(t2)
            self.expect(")")
            return ("cbin", x, t, a, b)
        if x == "blockaddress" or x == "dso_local_equivalent" or x == "no_cfi":
            raise SyntaxError("unsupported constant " + x)
        if x == "asm":
            raise SyntaxError("inline asm")
        raise SyntaxError("value? %r in %r" % (x, " ".join(b for a, b in self.t)))


def unq(x):
    if len(x) > 1 and x[1] == '"':
        return x[0] + unescape(x[2:-1]).decode("latin1")
    return x


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode("utf8")
            i += 1
    return bytes(out)


def parse_fp(x, ty):
    if x.startswith("0xK"):
        v = int(x[3:], 16)
        sign = v >> 79
        exp = (v >> 64) & 0x7fff
        man = v & ((1 << 64) - 1)
        if exp == 0 and man == 0:
            return 0.0
        return (-1) ** sign * float(man) * 2.0 ** (exp - 16383 - 63)
    if x.startswith("0x"):
        return struct.unpack("<d", struct.pack("<Q", int(x[2:], 16)))[0]
    return float(x)


class Func:
    __slots__ = ("name", "params", "ret", "blocks", "order", "vararg", "code")

    def __init__(self, name, ret, params, vararg):
        self.name = name
        self.ret = ret
        self.params = params
        self.vararg = vararg
        self.blocks = {}
        self.order = []
        self.code = None


PATTR = {"noundef", "nonnull", "zeroext", "signext", "noalias", "nocapture", "readonly", "readnone", "writeonly",
         "returned", "inreg", "nest", "immarg", "nofree", "noreturn", "swiftself", "allocptr", "dead_on_unwind",
         "writable", "allocalign"}


def skip_pattrs(p):
    while True:
        x = p.peek()
        if x in PATTR:
            p.next()
        elif x in ("dereferenceable", "dereferenceable_or_null", "align", "sret", "byval", "byref", "elementtype",
                   "inalloca", "preallocated", "initializes", "range", "nofpclass", "captures"):
            p.next()
            if p.peek() == "(":
                d = 0
                while True:
                    y = p.next()
                    if y == "(":
                        d += 1
                    elif y == ")":
                        d -= 1
                        if d == 0:
                            break
            elif x == "align":
                p.next()
        else:
            return


LINK = {"private", "internal", "available_externally", "linkonce", "weak", "common", "appending", "extern_weak",
        "linkonce_odr", "weak_odr", "external", "dso_local", "dso_preemptable", "hidden", "protected", "default",
        "unnamed_addr", "local_unnamed_addr", "fastcc", "ccc", "coldcc", "thread_local", "noundef", "nonnull",
        "zeroext", "signext", "noalias"}


def parse_module(text):
    m = Module()
    lines = text.split("\n")
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        if not ln or ln[0] in ";!^" or ln.startswith(("source_filename", "target ", "attributes", "module asm", "$")):
            i += 1
            continue
        if ln.startswith("%"):
            nm, _, rest = ln.partition(" = type ")
            p = P(m, tokenize(rest))
            t = p.type()
            m.types[unq(nm)] = t
            if unq(nm) != nm:
                m.types[nm] = t
            i += 1
            continue
        if ln.startswith("@"):
            toks = tokenize(strip_meta(ln))
            p = P(m, toks)
            nm = unq(p.next())
            p.expect("=")
            ext = False
            tls = False
            alias = False
            while True:
                x = p.peek()
                if x == "thread_local":
                    m.tls.add(nm)
                    p.next()
                    if p.peek() == "(":
                        while p.next() != ")":
                            pass
                    continue
                if x in LINK:
                    if x in ("external", "extern_weak"):
                        ext = True
                    p.next()
                    continue
                if x in ("constant", "global"):
                    p.next()
                    break
                if x == "alias":
                    alias = True
                    p.next()
                    break
                if x in ("addrspace",):
                    p.next(); p.next(); p.next(); p.next()
                    continue
                if x == "externally_initialized":
                    p.next()
                    continue
                raise SyntaxError("global: %r" % ln[:200])
            if alias:
                depth = 0
                while depth or p.peek() != ",":
                    x = p.next()
                    x = x[1] if isinstance(x, tuple) else x
                    depth += (x in "([{<") - (x in ")]}>")
                p.next()
                t = p.type()
                m.aliases[nm] = p.value(t)
            else:
                t = p.type()
                init = None
                if not ext and p.peek() is not None and p.peek() != ",":
                    init = p.value(t)
                m.globals[nm] = (t, init)
            i += 1
            continue
        if ln.startswith("declare"):
            mm = re.search(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(', ln)
            nm = unq(mm.group(1))
            m.decls[nm] = ln
            i += 1
            continue
        if ln.startswith("define"):
            i = parse_func(m, lines, i)
            continue
        raise SyntaxError("top: %r" % ln[:200])
    return m


METAEND = re.compile(r'(, ![a-zA-Z_.]+ ![0-9]+|, ![a-zA-Z_.]+ !\{[^}]*\}| ![a-zA-Z_.]+ ![0-9]+)+\s*(\{)?\s*$')


def strip_meta(ln):
    mm = METAEND.search(ln)
    if mm and '"' not in ln[mm.start():]:
        return ln[:mm.start()] + (" {" if mm.group(2) else "")
    return ln


def parse_func(m, lines, i):
    hdr = strip_meta(lines[i])
    p = P(m, tokenize(hdr))
    p.next()
    while True:
        x = p.peek()
        if x in LINK or x in PATTR:
            p.next()
        elif x in ("align", "dereferenceable", "dereferenceable_or_null", "range"):
            skip_pattrs(p)
        else:
            break
    ret = p.type()
    name = unq(p.next())
    p.expect("(")
    params = []
    vararg = False
    if not p.accept(")"):
        while True:
            if p.peek() == "...":
                p.next()
                vararg = True
                p.expect(")")
                break
            t = p.type()
            skip_pattrs(p)
            pn = None
            if p.kind() == "id":
                pn = unq(p.next())
            params.append((t, pn))
            if p.accept(")"):
                break
            p.expect(",")
    f = Func(name, ret, params, vararg)
    # unnamed params numbering
    i += 1
    cnt = 0
    fixed = []
    for t, pn in params:
        if pn is None:
            pn = "%%%d" % cnt
            cnt += 1
        elif pn[1:].isdigit():
            cnt = int(pn[1:]) + 1
        fixed.append((t, pn))
    f.params = fixed
    cur = None
    first_label = "%%%d" % cnt
    while True:
        ln = lines[i]
        if ln.startswith("}"):
            i += 1
            break
        s = ln.strip()
        if not s or s.startswith(";"):
            i += 1
            continue
        lm = re.match(r'^((?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)):(\s|$)', ln)
        if lm:
            cur = unq("%" + lm.group(1))
            f.blocks[cur] = []
            f.order.append(cur)
            i += 1
            continue
        if cur is None:
            cur = first_label
            f.blocks[cur] = []
            f.order.append(cur)
        # joins
        full = ln
        st = s
        if re.search(r'(^|= )switch ', st) and not st.rstrip().split("!")[0].rstrip().endswith("]"):
            while not lines[i].strip().startswith("]"):
                i += 1
                full += " " + lines[i]
        elif re.search(r'(^|= |tail )invoke ', st):
            i += 1
            full += " " + lines[i]
        elif "landingpad" in st:
            while lines[i + 1].strip().startswith(("cleanup", "catch", "filter")):
                i += 1
                full += " " + lines[i]
        f.blocks[cur].append(strip_meta(full.strip()))
        i += 1
    m.funcs[name] = f
    return i
