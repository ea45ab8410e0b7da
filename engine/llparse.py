"""Parser for the textual LLVM IR that rustc emits (the subset it uses)."""
import re
import expr as E

TOK = re.compile(
    r'\s*(?:(%"[^"]*"|%[\w.$\-]+)|(@"[^"]*"|@[\w.$\-]+)|(c"(?:[^"\\]|\\.)*"|"[^"]*")|(![\w.\-]*)|(#\d+)|'
    r'(-?\d+\.\d+(?:[eE][+\-]?\d+)?|0x[0-9A-Fa-f]+|[+\-]inf|[+\-]?nan|-?\d+)|([A-Za-z_$][\w.$]*)|(\.\.\.)|([(){}\[\]<>,=*:|]))')


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            if s[pos:].strip() == "" or s[pos:].lstrip().startswith(";"):
                break
            raise SyntaxError(f"token at {s[pos:pos+60]!r}")
        out.append(m.group().strip())
        pos = m.end()
    return out


# ---- types: ('i',w) ('ptr',) ('void',) ('f',w) ('arr',n,t) ('vec',n,t) ('st',[t],packed) ('other',name)
class Types:
    I = {}

    @staticmethod
    def int(w):
        t = Types.I.get(w)
        if t is None:
            t = Types.I[w] = ("i", w)
        return t


PTR = ("ptr",)
VOID = ("void",)


def size_of(t):
    k = t[0]
    if k == "i":
        b = (t[1] + 7) // 8
        if t[1] <= 64:
            a = 1
            while a < b:
                a *= 2
            return a if b > 1 else 1
        return (b + 15) // 16 * 16
    if k == "ptr":
        return 8
    if k == "f":
        return t[1] // 8
    if k == "arr":
        return t[1] * size_of(t[2])
    if k == "vec":
        if t[2][0] == "i" and t[2][1] % 8:
            return (t[1] * t[2][1] + 7) // 8
        return t[1] * size_of(t[2])
    if k == "st":
        return st_layout(t)[1]
    raise NotImplementedError(f"size of {t}")


def store_size(t):
    return (t[1] + 7) // 8 if t[0] == "i" else size_of(t)


def align_of(t):
    k = t[0]
    if k == "i":
        return min(size_of(t), 16)
    if k == "ptr":
        return 8
    if k == "f":
        return t[1] // 8
    if k == "arr":
        return align_of(t[2])
    if k == "vec":
        return size_of(t)
    if k == "st":
        if t[2]:
            return 1
        return max([align_of(x) for x in t[1]] or [1])
    raise NotImplementedError


_lay = {}


def st_layout(t):
    r = _lay.get(id(t))
    if r is not None and r[2] is t:
        return r
    off = 0
    offs = []
    for x in t[1]:
        if not t[2]:
            a = align_of(x)
            off = (off + a - 1) // a * a
        offs.append(off)
        off += size_of(x)
    if not t[2]:
        a = align_of(t)
        off = (off + a - 1) // a * a
    r = (offs, off, t)
    _lay[id(t)] = r
    return r


class Fn:
    __slots__ = ("name", "pretty", "params", "ret", "text", "blocks", "order", "noreturn", "index", "entry",
                 "vararg", "attrs", "livein", "dead", "deadmsg", "wto", "line")


class Module:
    def __init__(self, path):
        self.fns = {}
        self.decls = {}
        self.globals = {}      # name -> (type, tokens-of-init or None, constant?, text)
        self.attrs = {}
        self.types = {}
        self.aliases = {}
        self.load(path)

    def load(self, path):
        with open(path) as f:
            lines = f.read().split("\n")
        i = 0
        n = len(lines)
        prevcomment = None
        while i < n:
            l = lines[i]
            if not l:
                prevcomment = None
            elif l[0] == ";":
                if not l.startswith("; Function Attrs"):
                    prevcomment = l[2:]
            elif l.startswith("define"):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                fn = Fn()
                fn.line = i
                fn.text = lines[i:j]
                fn.pretty = prevcomment
                fn.blocks = None
                m = re.search(r'(@"[^"]*"|@[\w.$\-]+)\(', l)
                fn.name = m.group(1)
                fn.params = None
                m2 = re.findall(r'#(\d+)', l[l.rindex(")"):])
                fn.attrs = m2[-1] if m2 else None
                self.fns[fn.name] = fn
                i = j
                prevcomment = None
            elif l.startswith("declare"):
                m = re.search(r'(@"[^"]*"|@[\w.$\-]+)\(', l)
                m2 = re.findall(r'#(\d+)', l)
                self.decls[m.group(1)] = (l, m2[-1] if m2 else None, prevcomment)
            elif l[0] == "@":
                name, rest = l.split(" = ", 1)
                if re.search(r'\balias\b', rest.split('"')[0][:120]):
                    m = re.search(r'ptr (@"[^"]*"|@[\w.$\-]+)', rest)
                    self.aliases[name] = m.group(1)
                else:
                    self.globals[name] = rest
            elif l.startswith("attributes"):
                m = re.match(r"attributes #(\d+) = \{(.*)\}", l)
                self.attrs[m.group(1)] = m.group(2)
            elif l[0] == "%":
                name, rest = l.split(" = type ", 1)
                self.types[name] = rest
            i += 1

    def has_attr(self, grp, a):
        return grp is not None and re.search(r'\b' + a + r'\b', self.attrs.get(grp, "")) is not None

    def is_noreturn(self, name):
        f = self.fns.get(name)
        if f is not None:
            return self.has_attr(f.attrs, "noreturn")
        d = self.decls.get(name)
        if d is not None:
            return self.has_attr(d[1], "noreturn")
        return False


ATTR_PAREN = {"dereferenceable", "dereferenceable_or_null", "captures", "range", "sret", "byval", "initializes",
              "byref", "preallocated", "inalloca", "elementtype", "nofpclass", "align", "memory", "allocsize", "vscale_range", "addrspace", "dead_on_return"}
ATTRS = {"noundef", "nonnull", "noalias", "readonly", "writeonly", "readnone", "zeroext", "signext", "nofree", "returned",
         "immarg", "dead_on_unwind", "writable", "allocptr", "allocalign", "nocapture", "inreg", "swiftself", "nest",
         "noext", "dead_on_return", "captures"} | ATTR_PAREN


class P:
    """token stream parser"""

    def __init__(self, toks, eng):
        self.t = toks
        self.i = 0
        self.e = eng

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise SyntaxError(f"expected {x} got {y} in {' '.join(self.t)[:300]}")

    def skip_paren(self):
        self.expect("(")
        d = 1
        while d:
            x = self.next()
            if x == "(":
                d += 1
            elif x == ")":
                d -= 1

    def skip_attrs(self):
        while True:
            x = self.peek()
            if x is None:
                return
            if x in ATTRS:
                self.i += 1
                if self.peek() == "(":
                    self.skip_paren()
                elif x == "align":
                    self.i += 1
            elif x[0] == '"':
                self.i += 1
                if self.eat("="):
                    self.i += 1
            else:
                return

    def type(self):
        x = self.next()
        c = x[0]
        if c == "i" and x[1:].isdigit():
            t = Types.int(int(x[1:]))
        elif x == "ptr":
            t = PTR
            if self.peek() == "addrspace":
                self.i += 1
                self.skip_paren()
        elif x == "void":
            t = VOID
        elif x == "[":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect("]")
            t = ("arr", n, e)
        elif x == "{":
            fs = []
            while not self.eat("}"):
                fs.append(self.type())
                self.eat(",")
            t = ("st", fs, False)
        elif x == "<":
            if self.peek() == "{":
                self.i += 1
                fs = []
                while not self.eat("}"):
                    fs.append(self.type())
                    self.eat(",")
                self.expect(">")
                t = ("st", fs, True)
            else:
                n = int(self.next())
                self.expect("x")
                e = self.type()
                self.expect(">")
                t = ("vec", n, e)
        elif x in ("float",):
            t = ("f", 32)
        elif x == "double":
            t = ("f", 64)
        elif x in ("half", "bfloat"):
            t = ("f", 16)
        elif x in ("fp128", "x86_fp80"):
            t = ("f", 128)
        elif c == "%":
            t = P(tokenize(self.e.mod.types[x]), self.e).type()
        elif x in ("metadata", "token", "label", "opaque"):
            t = ("other", x)
        else:
            raise SyntaxError(f"type {x} in {' '.join(self.t)[:200]}")
        if self.peek() == "(":          # function type
            self.skip_paren()
            t = ("fnty", t)
        return t

    def value(self, t):
        """operand of type t: register name (str) or constant value"""
        x = self.next()
        c = x[0]
        if c == "%":
            return x
        return self.constant(t, x)

    def constant(self, t, x=None):
        e = self.e
        if x is None:
            x = self.next()
        c = x[0]
        if c == "@":
            return e.global_addr(x)
        k = t[0]
        if c.isdigit() or c in "-+" or x == "nan":
            if k == "i":
                return E.const(int(x, 0), t[1])
            if k == "f":
                return e.float_const(x, t[1])
        if k == "f" and x.startswith("f0x"):
            return E.const(int(x[1:], 16), t[1])
        if x == "true":
            return E.TRUE
        if x == "false":
            return E.FALSE
        if x == "null":
            return E.const(0, 64)
        if x in ("undef", "poison"):
            return e.undef(t)
        if x == "zeroinitializer":
            return e.zero(t)
        if c == "c" and x[1] == '"':
            return tuple(E.const(b, 8) for b in unescape(x[2:-1]))
        if x == "{" or x == "[" or (x == "<"):
            packed = False
            if x == "<" and self.peek() == "{":
                self.i += 1
                packed = True
                close = "}"
            else:
                close = {"{": "}", "[": "]", "<": ">"}[x]
            vals = []
            while not self.eat(close):
                tt = self.type()
                vals.append(self.value(tt))
                self.eat(",")
            if packed:
                self.expect(">")
            return tuple(vals)
        if x == "splat":
            self.expect("(")
            tt = self.type()
            v = self.value(tt)
            self.expect(")")
            return tuple([v] * t[1])
        if x == "getelementptr":
            while self.peek() in ("inbounds", "nuw", "nusw", "inrange"):
                self.i += 1
                if self.t[self.i - 1] == "inrange":
                    self.skip_paren()
            self.expect("(")
            st = self.type()
            self.expect(",")
            self.type()
            base = self.constant(PTR)
            idx = []
            while self.eat(","):
                it = self.type()
                idx.append(self.constant(it))
            self.expect(")")
            return gep(base, st, idx)
        if x in ("ptrtoint", "inttoptr", "bitcast", "ptrtoaddr"):
            self.expect("(")
            tt = self.type()
            v = self.constant(tt)
            self.expect("to")
            t2 = self.type()
            self.expect(")")
            if t2[0] == "i" and t2[1] < 64:
                v = E.trunc(v, t2[1])
            elif t2[0] == "i" and t2[1] > v.w:
                v = E.zext(v, t2[1])
            return v
        if x in ("trunc", "zext", "sext"):
            self.expect("(")
            tt = self.type()
            v = self.constant(tt)
            self.expect("to")
            t2 = self.type()
            self.expect(")")
            return {"trunc": E.trunc, "zext": E.zext, "sext": E.sext}[x](v, t2[1])
        if x in ("add", "sub", "mul", "xor", "and", "or", "shl", "lshr"):
            while self.peek() in ("nuw", "nsw"):
                self.i += 1
            self.expect("(")
            tt = self.type()
            a = self.constant(tt)
            self.expect(",")
            tt = self.type()
            b = self.constant(tt)
            self.expect(")")
            return E.binop(x, a, b)
        if x in ("blockaddress", "dso_local_equivalent", "no_cfi", "none", "asm"):
            return E.const(0, 64)
        raise SyntaxError(f"constant {x} of {t} in {' '.join(self.t)[:300]}")


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


def gep(base, t, idx):
    off = base
    first = True
    for ix in idx:
        if first:
            sz = size_of(t)
            first = False
        else:
            if t[0] == "st":
                k = ix.c
                off = E.binop("add", off, E.const(st_layout(t)[0][k], 64))
                t = t[1][k]
                continue
            t = t[2]
            sz = size_of(t)
        if ix.c is not None:
            off = E.binop("add", off, E.const(E.sgn(ix.c, ix.w) * sz, 64))
        else:
            j = E.sext(ix, 64) if ix.w < 64 else (ix if ix.w == 64 else E.trunc(ix, 64))
            off = E.binop("add", off, E.binop("mul", j, E.const(sz, 64)))
    return off


META = re.compile(r',\s*![\w.]+(?:\s+!\w+|\s*!\{[^}]*\})?')


def join_lines(text, first="%0"):
    """logical instruction lines; returns list of (label|None, [instr strings])"""
    out = []
    cur = None
    for l in text:
        if not l:
            continue
        if l[0] != " ":
            if l[0] == ";":
                continue
            m = re.match(r'("[^"]*"|[\w.$\-]+):', l)
            if m:
                cur = ("%" + m.group(1), [])
                out.append(cur)
                continue
            raise SyntaxError(l)
        s = l.strip()
        if s.startswith(";"):
            continue
        if s.startswith("#dbg_"):
            continue
        if cur is None:
            cur = (first, [])
            out.append(cur)
        if (l.startswith("    ") or s.startswith("]")) and cur[1]:
            cur[1][-1] += " " + s
        else:
            cur[1].append(s)
    return out
