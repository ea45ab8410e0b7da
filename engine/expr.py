"""Hash-consed bit-vector expressions with local simplification.

Width-1 nodes double as booleans.  Nodes are interned, so identity is equality.
`leafy` nodes are if-then-else DAGs whose leaves are all constants (a small
finite domain): operations on them are pushed to the leaves, which keeps the
enumerations of the encoded program (axes, directions, amounts, indices)
symbolic without ever creating arithmetic the SMT solver would have to
bit-blast.
"""
import math
import struct
import sys
sys.setrecursionlimit(200000)

LEAFY_MAX = 260          # ite nodes in a leafy DAG that operations may be pushed into


class N:
    __slots__ = ("op", "w", "a", "c", "leafy", "vals", "id", "x", "__weakref__")

    def __repr__(self):
        if self.c is not None:
            return f"{self.c}:{self.w}"
        return show(self)


def show(n, d=4):
    if n.c is not None:
        return f"{n.c}:{n.w}"
    if n.op == "var":
        return n.x
    if d == 0:
        return "…"
    return f"({n.op} " + " ".join(show(a, d - 1) if isinstance(a, N) else str(a) for a in n.a) + ")"


_tab = {}
_consts = {}
_cnt = [0]


def const(v, w):
    v &= (1 << w) - 1
    k = (v, w)
    n = _consts.get(k)
    if n is None:
        n = N()
        n.op = "const"
        n.w = w
        n.a = ()
        n.c = v
        n.leafy = 0
        n.vals = frozenset((v,))
        _cnt[0] += 1
        n.id = _cnt[0]
        n.x = None
        _consts[k] = n
    return n


TRUE = const(1, 1)
FALSE = const(0, 1)


def mk(op, w, *a, x=None):
    k = (op, w, a, x)
    n = _tab.get(k)
    if n is None:
        n = N()
        n.op = op
        n.w = w
        n.a = a
        n.c = None
        n.leafy = -1
        n.vals = None
        _cnt[0] += 1
        n.id = _cnt[0]
        n.x = x
        _tab[k] = n
    return n


_varc = [0]


def fresh(name, w):
    _varc[0] += 1
    return mk("var", w, x=f"{name}!{_varc[0]}")


def reset():
    _tab.clear()
    _memo.clear()
    _notmemo.clear()
    _eqmemo.clear()
    _itememo.clear()
    _varc[0] = 0


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


# ---------------------------------------------------------------- booleans
_notmemo = {}


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.a[0]
    return mk("not", 1, a)


def _excl(a, b):
    """cheap test: a and b cannot both hold"""
    if a.op == "not":
        return a.a[0] is b
    if b.op == "not":
        return b.a[0] is a
    if a.op == "eq" and b.op == "eq":
        if a.a[0] is b.a[0] and a.a[1].c is not None and b.a[1].c is not None:
            return a.a[1] is not b.a[1]
    return False


def _implies(a, b):
    """cheap test: a implies b"""
    if a is b:
        return True
    if b.op == "not":
        return _excl(a, b.a[0])
    if a.op == "and":
        if a.a[0] is b or a.a[1] is b:
            return True
    if b.op == "or":
        if b.a[0] is a or b.a[1] is a:
            return True
    return False


def and_(a, b):
    if a is b:
        return a
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if _excl(a, b):
        return FALSE
    if _implies(a, b):
        return a
    if _implies(b, a):
        return b
    # one level of structure
    if a.op == "and":
        x, y = a.a
        if _excl(x, b) or _excl(y, b):
            return FALSE
        if _implies(x, b) or _implies(y, b):
            return a
    if b.op == "and":
        x, y = b.a
        if _excl(x, a) or _excl(y, a):
            return FALSE
        if _implies(x, a) or _implies(y, a):
            return b
    if a.op == "or":
        x, y = a.a
        if _excl(x, b):
            return and_(y, b)
        if _excl(y, b):
            return and_(x, b)
        if _implies(b, x) or _implies(b, y):
            return b
    if b.op == "or":
        x, y = b.a
        if _excl(x, a):
            return and_(y, a)
        if _excl(y, a):
            return and_(x, a)
        if _implies(a, x) or _implies(a, y):
            return a
    if a.op == "not" and a.a[0].op == "and":      # b & !(x & y)
        x, y = a.a[0].a
        if x is b:
            return and_(b, not_(y))
        if y is b:
            return and_(b, not_(x))
    if b.op == "not" and b.a[0].op == "and":
        x, y = b.a[0].a
        if x is a:
            return and_(a, not_(y))
        if y is a:
            return and_(a, not_(x))
    if a.op == "not" and a.a[0].op == "or":       # b & !(x|y)
        x, y = a.a[0].a
        if x is b or y is b:
            return FALSE
    if b.op == "not" and b.a[0].op == "or":
        x, y = b.a[0].a
        if x is a or y is a:
            return FALSE
    if a.id > b.id:
        a, b = b, a
    return mk("and", 1, a, b)


def or_(a, b):
    if a is b:
        return a
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    if (a.op == "not" and a.a[0] is b) or (b.op == "not" and b.a[0] is a):
        return TRUE
    if a.op == "not" and b.op == "not":
        r = and_(a.a[0], b.a[0])
        return not_(r)
    if _implies(a, b):
        return b
    if _implies(b, a):
        return a
    if a.op == "and":
        x, y = a.a
        if _comp(x, b):
            return or_(y, b)
        if _comp(y, b):
            return or_(x, b)
        if _implies(b, x) and _implies(b, y):
            pass
    if b.op == "and":
        x, y = b.a
        if _comp(x, a):
            return or_(y, a)
        if _comp(y, a):
            return or_(x, a)
    if a.op == "and" and b.op == "and":
        x, y = a.a
        p, q = b.a
        for u, v in ((x, y), (y, x)):
            for r, s in ((p, q), (q, p)):
                if u is r:
                    if _comp(v, s):
                        return u
                    t = or_(v, s)
                    if t is TRUE:
                        return u
                    if t is v or t is s:
                        return and_(u, t)
    if a.op == "or":
        x, y = a.a
        if _comp(x, b) or _comp(y, b):
            return TRUE
        if _implies(b, x) or _implies(b, y):
            return a
    if b.op == "or":
        x, y = b.a
        if _comp(x, a) or _comp(y, a):
            return TRUE
        if _implies(a, x) or _implies(a, y):
            return b
    if a.id > b.id:
        a, b = b, a
    return mk("or", 1, a, b)


def _comp(a, b):
    return (a.op == "not" and a.a[0] is b) or (b.op == "not" and b.a[0] is a)


def xor1(a, b):
    if a is b:
        return FALSE
    if a.c is not None:
        return not_(b) if a.c else b
    if b.c is not None:
        return not_(a) if b.c else a
    if _comp(a, b):
        return TRUE
    neg = False
    if a.op == "not":
        a = a.a[0]
        neg = not neg
    if b.op == "not":
        b = b.a[0]
        neg = not neg
    if a.id > b.id:
        a, b = b, a
    r = mk("xor", 1, a, b)
    return not_(r) if neg else r


# ---------------------------------------------------------------- ite
_itememo = {}


def ite(c, a, b):
    if a is b or c is TRUE:
        return a
    if c is FALSE:
        return b
    if c.op == "not":
        c, a, b = c.a[0], b, a
    if a.w == 1:
        return ite1(c, a, b)
    k = (c, a, b)
    r = _itememo.get(k)
    if r is not None:
        return r
    # nested with the same condition
    a = _under(a, c, True)
    b = _under(b, c, False)
    if a is b:
        _itememo[k] = a
        return a
    # ite(c, a, ite(d, a, e)) -> ite(c|d, a, e)
    if b.op == "ite" and b.a[1] is a:
        r = ite(or_(c, b.a[0]), a, b.a[2])
    elif b.op == "ite" and b.a[2] is a:
        r = ite(or_(c, not_(b.a[0])), a, b.a[1])
    elif a.op == "ite" and a.a[1] is b:
        r = ite(and_(c, not_(a.a[0])), a.a[2], b)
    elif a.op == "ite" and a.a[2] is b:
        r = ite(and_(c, a.a[0]), a.a[1], b)
    else:
        r = mk("ite", a.w, c, a, b)
        if r.leafy < 0:
            la, lb = a.leafy, b.leafy
            if la >= 0 and lb >= 0:
                s = la + lb + 1
                r.leafy = s
                v = a.vals | b.vals
                r.vals = v
                if s > LEAFY_MAX:
                    # normalise: group equal leaves, else stop being leafy
                    if len(v) * 6 < s and len(v) <= 40:
                        r = _regroup(r, v)
                    else:
                        r.leafy = -1
                        r.vals = v if len(v) <= 64 else None
            elif a.vals is not None and b.vals is not None:
                v = a.vals | b.vals
                if len(v) <= 64:
                    r.vals = v
    _itememo[k] = r
    return r


def _regroup(r, vals):
    vs = sorted(vals)
    out = const(vs[-1], r.w)
    for v in reversed(vs[:-1]):
        g = _eqleaf(r, v, {})
        out = mk("ite", r.w, g, const(v, r.w), out) if g.c is None else (const(v, r.w) if g.c else out)
        if out.op == "ite":
            out.leafy = 1 + out.a[1].leafy + out.a[2].leafy
            out.vals = out.a[1].vals | out.a[2].vals
    return out


def _under(n, c, val):
    """n simplified knowing that c == val (top-level only)"""
    for _ in range(8):
        if n.op != "ite":
            return n
        d = n.a[0]
        if d is c:
            n = n.a[1] if val else n.a[2]
        elif val:
            if _excl(c, d):
                n = n.a[2]
            elif _implies(c, d):
                n = n.a[1]
            else:
                return n
        else:
            if _implies(d, c):
                n = n.a[2]
            elif d.op == "not" and d.a[0] is c:
                n = n.a[1]
            else:
                return n
    return n


def ite1(c, a, b):
    if a is b:
        return a
    if a.c is not None:
        return or_(c, b) if a.c else and_(not_(c), b)
    if b.c is not None:
        return or_(not_(c), a) if b.c else and_(c, a)
    if a is c:
        return or_(c, b)
    if b is c:
        return and_(c, a)
    if _comp(a, c):
        return and_(not_(c), b)
    if _comp(b, c):
        return or_(not_(c), a)
    if _comp(a, b):
        return xor1(c, b)
    if _implies(b, a) and _implies(c, a):
        pass
    return mk("ite", 1, c, a, b)


def _eqleaf(n, v, memo):
    """boolean: leafy node n equals value v"""
    if n.c is not None:
        return TRUE if n.c == v else FALSE
    if v not in n.vals:
        return FALSE
    r = memo.get(n)
    if r is None:
        c, a, b = n.a
        r = ite1(c, _eqleaf(a, v, memo), _eqleaf(b, v, memo))
        memo[n] = r
    return r


_eqmemo = {}


def eq(a, b):
    if a is b:
        return TRUE
    if a.c is not None:
        if b.c is not None:
            return TRUE if a.c == b.c else FALSE
        a, b = b, a
    if a.w == 1:
        return not_(xor1(a, b))
    if b.c is not None:
        if a.leafy >= 0:
            k = (a, b.c)
            r = _eqmemo.get(k)
            if r is None:
                r = _eqleaf(a, b.c, {})
                _eqmemo[k] = r
            return r
        if a.vals is not None and b.c not in a.vals:
            return FALSE
        op = a.op
        if op == "zext":
            i = a.a[0]
            if b.c >> i.w:
                return FALSE
            return eq(i, const(b.c, i.w))
        if op == "sext":
            i = a.a[0]
            s = sgn(b.c, b.w)
            if s < -(1 << (i.w - 1)) or s >= 1 << (i.w - 1):
                return FALSE
            return eq(i, const(b.c, i.w))
        if op == "ite":
            k = (a, b.c)
            r = _eqmemo.get(k)
            if r is None:
                r = ite1(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
                _eqmemo[k] = r
            return r
        if op == "add" and a.a[1].c is not None:
            return eq(a.a[0], const(b.c - a.a[1].c, a.w))
        if op == "xor" and a.a[1].c is not None:
            return eq(a.a[0], const(b.c ^ a.a[1].c, a.w))
        if op == "concat":
            # equality splits over the parts
            r = TRUE
            off = 0
            for p in reversed(a.a):
                r = and_(r, eq(p, const(b.c >> off, p.w)))
                off += p.w
                if r is FALSE:
                    return r
            return r
        return mk("eq", 1, a, b)
    if a.leafy >= 0 and b.leafy >= 0:
        if not (a.vals & b.vals):
            return FALSE
        r = _push2("eq", 1, a, b)
        if r is not None:
            return r
    if a.vals is not None and b.vals is not None and not (a.vals & b.vals):
        return FALSE
    if a.op == "concat" and b.op == "concat" and [x.w for x in a.a] == [x.w for x in b.a]:
        r = TRUE
        for x, y in zip(a.a, b.a):
            r = and_(r, eq(x, y))
        return r
    if a.op == b.op == "zext" and a.a[0].w == b.a[0].w:
        return eq(a.a[0], b.a[0])
    if a.op == "add" and b.op == "add" and a.a[1].c is not None and b.a[1].c is not None and a.a[0] is b.a[0]:
        return TRUE if a.a[1] is b.a[1] else FALSE
    if a.id > b.id:
        a, b = b, a
    return mk("eq", 1, a, b)


# ---------------------------------------------------------------- generic ops
def _ev(op, w, x, y, wi):
    m = (1 << wi) - 1
    if op == "add":
        return (x + y) & m
    if op == "sub":
        return (x - y) & m
    if op == "mul":
        return (x * y) & m
    if op == "and":
        return x & y
    if op == "or":
        return x | y
    if op == "xor":
        return x ^ y
    if op == "shl":
        return (x << y) & m if y < wi else 0
    if op == "lshr":
        return x >> y if y < wi else 0
    if op == "ashr":
        return (sgn(x, wi) >> min(y, wi - 1)) & m
    if op == "udiv":
        return x // y if y else m
    if op == "urem":
        return x % y if y else x
    if op == "sdiv":
        if y == 0:
            return m if sgn(x, wi) >= 0 else 1
        sx, sy = sgn(x, wi), sgn(y, wi)
        q = abs(sx) // abs(sy)
        return (q if (sx < 0) == (sy < 0) else -q) & m
    if op == "srem":
        if y == 0:
            return x
        sx, sy = sgn(x, wi), sgn(y, wi)
        r = abs(sx) % abs(sy)
        return (-r if sx < 0 else r) & m
    if op == "eq":
        return int(x == y)
    if op == "ult":
        return int(x < y)
    if op == "ule":
        return int(x <= y)
    if op == "slt":
        return int(sgn(x, wi) < sgn(y, wi))
    if op == "sle":
        return int(sgn(x, wi) <= sgn(y, wi))
    if op[0] == "f":
        return _fev(op, x, y, wi)
    raise KeyError(op)


def fdec(v, w):
    return struct.unpack("<d" if w == 64 else "<f", v.to_bytes(w // 8, "little"))[0]


def fenc(x, w):
    if x != x:
        return 0x7ff8 << 48 if w == 64 else 0x7fc00000
    try:
        return int.from_bytes(struct.pack("<d" if w == 64 else "<f", x), "little")
    except OverflowError:
        return int.from_bytes(struct.pack("<d" if w == 64 else "<f", math.copysign(math.inf, x)), "little")


def _fev(op, x, y, w):
    x, y = fdec(x, w), fdec(y, w)
    if op == "foeq":
        return int(x == y)
    if op == "folt":
        return int(x < y)
    if op == "fole":
        return int(x <= y)
    if op == "funo":
        return int(x != x or y != y)
    if op == "fadd":
        return fenc(x + y, w)
    if op == "fsub":
        return fenc(x - y, w)
    if op == "fmul":
        return fenc(x * y, w)
    if op == "fdiv":
        if y == 0:
            return fenc(math.nan if x == 0 or x != x else math.copysign(math.inf, x) * math.copysign(1, y), w)
        return fenc(x / y, w)
    raise KeyError(op)


def fbin(op, a, b):
    """floating point on bit patterns: fadd fsub fmul fdiv, and foeq folt fole funo"""
    w = 1 if op in ("foeq", "folt", "fole", "funo") else a.w
    if a.c is not None and b.c is not None:
        return const(_fev(op, a.c, b.c, a.w), w)
    if (a.c is not None or a.leafy >= 0) and (b.c is not None or b.leafy >= 0):
        r = _push2(op, w, a, b)
        if r is not None:
            return r
    return mk(op, w, a, b)


def fneg(a):
    return binop("xor", a, const(1 << a.w - 1, a.w))


def fmap(key, f, a, w):
    """f over the values of a floating point term with few values; None if it has many"""
    if a.c is not None:
        return const(f(a.c), w)
    if a.leafy >= 0:
        return _push1(lambda n: const(f(n.c), w), (key, w), a)
    if a.op == "ite":                       # a large tree over few different numbers
        memo = {}

        def go(x):
            if x.c is not None:
                return const(f(x.c), w)
            if x.op != "ite":
                return None
            r = memo.get(x, 0)
            if r == 0:
                p, q = go(x.a[1]), go(x.a[2])
                r = None if p is None or q is None else ite(x.a[0], p, q)
                memo[x] = r
            return r
        return go(a)
    return None


def ftoi(key, a, signed, w):
    """saturating conversion"""
    lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if signed else (0, (1 << w) - 1)

    def f(v):
        x = fdec(v, a.w)
        if x != x:
            return 0
        if math.isinf(x):
            return (hi if x > 0 else lo) & ((1 << w) - 1)
        return max(lo, min(hi, int(x))) & ((1 << w) - 1)
    return fmap(key, f, a, w)


def fround(kind, a):
    def f(v):
        x = fdec(v, a.w)
        if x != x or math.isinf(x):
            return v
        r = {"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc,
             "round": lambda x: math.copysign(math.floor(abs(x) + 0.5), x),
             "roundeven": round, "rint": round, "nearbyint": round}[kind](x)
        return fenc(math.copysign(float(r), x), a.w)
    return fmap("f" + kind, f, a, a.w)


def itofp(a, signed, w):
    f = lambda n: const(fenc(float(sgn(n.c, n.w) if signed else n.c), w), w)
    if a.c is not None:
        return f(a)
    if a.leafy >= 0:
        return _push1(f, ("itofp", signed, w), a)
    lo, hi = urange(a)
    if hi - lo <= 40 and not (signed and hi >> a.w - 1):
        r = f(const(hi, a.w))
        for v in range(hi - 1, lo - 1, -1):
            r = ite(eq(a, const(v, a.w)), f(const(v, a.w)), r)
        return r
    return mk("sitofp" if signed else "uitofp", w, a)


class _Big(Exception):
    pass


_memo = {}


def _push2(op, w, a, b):
    """apply op to two leafy/const nodes by walking both ite DAGs; None if too large"""
    k = (op, w, a, b)
    r = _memo.get(k, 0)
    if r != 0:
        return r
    memo = {}
    wi = a.w

    def go(x, y):
        if x.c is not None and y.c is not None:
            return const(_ev(op, w, x.c, y.c, wi), w)
        kk = (x, y)
        r = memo.get(kk)
        if r is not None:
            return r
        if len(memo) > 400:
            raise _Big
        if x.c is not None:
            c = y.a[0]
            r = ite(c, go(x, y.a[1]), go(x, y.a[2]))
        elif y.c is not None:
            c = x.a[0]
            r = ite(c, go(x.a[1], y), go(x.a[2], y))
        else:
            cx, cy = x.a[0], y.a[0]
            if cx is cy:
                r = ite(cx, go(x.a[1], y.a[1]), go(x.a[2], y.a[2]))
            elif cx.id < cy.id:
                r = ite(cx, go(x.a[1], _under(y, cx, True)), go(x.a[2], _under(y, cx, False)))
            else:
                r = ite(cy, go(_under(x, cy, True), y.a[1]), go(_under(x, cy, False), y.a[2]))
        memo[kk] = r
        return r

    try:
        r = go(a, b)
    except _Big:
        r = None
    _memo[k] = r
    return r


def _push1(f, key, a):
    k = (key, a)
    r = _memo.get(k)
    if r is not None:
        return r
    memo = {}

    def go(x):
        if x.c is not None:
            return f(x)
        r = memo.get(x)
        if r is None:
            r = ite(x.a[0], go(x.a[1]), go(x.a[2]))
            memo[x] = r
        return r

    r = go(a)
    _memo[k] = r
    return r


_lin = {}


def linear(n):
    """n as {term: coefficient}, the constant under None; exact, because nothing overflows"""
    r = _lin.get(n)
    if r is not None:
        return r
    if n.c is not None:
        r = {None: n.c}
    elif n.op == "zext":
        r = linear(n.a[0])
    elif n.op == "add" and urange(n.a[0])[1] + urange(n.a[1])[1] < 1 << n.w:
        r = dict(linear(n.a[0]))
        for t, c in linear(n.a[1]).items():
            r[t] = r.get(t, 0) + c
    elif n.op == "mul" and n.a[1].c is not None and urange(n.a[0])[1] * n.a[1].c < 1 << n.w:
        r = {t: c * n.a[1].c for t, c in linear(n.a[0]).items()}
    elif n.op == "extract" and n.x[1] == 0 and urange(n.a[0])[1] < 1 << n.w:
        r = linear(n.a[0])
    elif n.op == "concat":
        r, off = {}, 0
        for p in reversed(n.a):
            for t, c in linear(p).items():
                r[t] = r.get(t, 0) + (c << off)
            off += p.w
    elif n.op == "shl" and n.a[1].c is not None and urange(n.a[0])[1] << n.a[1].c < 1 << n.w:
        r = {t: c << n.a[1].c for t, c in linear(n.a[0]).items()}
    else:
        r = {n: 1}
    _lin[n] = r
    return r


def _lindiv(op, a, k):
    """a / k or a % k by splitting off the multiples of k; None if there are none"""
    if a.op not in ("add", "mul", "shl", "zext", "extract", "concat"):
        return None
    d = linear(a)
    if len(d) == 1 and next(iter(d.values())) < k and next(iter(d)).leafy < 0:
        return None
    w = a.w
    quot, rest, progress = [], [], False
    qc, rc = divmod(d.get(None, 0), k)
    for t, c in d.items():
        if t is None or not c:
            continue
        if t.leafy >= 0:
            quot.append(_push1(lambda n: const(n.c * c // k, w), ("lq", c, k, w), t))
            rest.append(_push1(lambda n: const(n.c * c % k, w), ("lr", c, k, w), t))
            progress = progress or quot[-1].c != 0
        else:
            u = t if t.w == w else zext(t, w) if t.w < w else trunc(t, w)
            q, r = divmod(c, k)
            if q:
                quot.append(binop("mul", u, const(q, w)))
                progress = True
            if r:
                rest.append(binop("mul", u, const(r, w)))
    hi = rc + sum(urange(t)[1] for t in rest)
    if hi >= k and not progress and not qc:
        return None

    def total(ts, c):
        r = const(0, w)
        for t in ts:
            r = binop("add", r, t)
        return binop("add", r, const(c, w)) if c else r
    if hi >> w:
        return None
    if op == "udiv":
        q = total(quot, qc)
        return q if hi < k else binop("add", q, binop("udiv", total(rest, rc), const(k, w)))
    r = total(rest, rc)
    return r if hi < k else binop("urem", r, const(k, w))


COMM = {"add", "mul", "and", "or", "xor"}


def binop(op, a, b):
    w = a.w
    if w == 1:
        if op == "and":
            return and_(a, b)
        if op == "or":
            return or_(a, b)
        if op == "xor" or op == "add" or op == "sub":
            return xor1(a, b)
        if op == "mul":
            return and_(a, b)
    ac, bc = a.c, b.c
    if ac is not None and bc is not None:
        return const(_ev(op, w, ac, bc, w), w)
    if ac is not None and op in COMM:
        a, b, ac, bc = b, a, bc, ac
    if bc is not None:
        m = (1 << w) - 1
        if bc == 0:
            if op in ("add", "sub", "or", "xor", "shl", "lshr", "ashr"):
                return a
            if op in ("and", "mul"):
                return b
        elif bc == m:
            if op == "and":
                return a
            if op == "or":
                return b
        if bc == 1 and op in ("mul", "udiv", "sdiv"):
            return a
        if op == "sub":
            return binop("add", a, const(-bc, w))
        if op == "add" and a.op == "add" and a.a[1].c is not None:
            return binop("add", a.a[0], const(a.a[1].c + bc, w))
        if op == "mul" and bc & (bc - 1) == 0:
            return binop("shl", a, const(bc.bit_length() - 1, w))
        if op in ("udiv", "urem") and bc > 1 and a.leafy < 0:
            r = _lindiv(op, a, bc)
            if r is not None:
                return r
        if op == "udiv" and bc and bc & (bc - 1) == 0:
            return binop("lshr", a, const(bc.bit_length() - 1, w))
        if op == "urem" and bc and bc & (bc - 1) == 0:
            return binop("and", a, const(bc - 1, w))
        if op == "and":
            # mask of low bits / byte-aligned field
            if bc & (bc + 1) == 0 and a.leafy < 0:
                lw = bc.bit_length()
                return zext(extract(a, lw - 1, 0), w)
        if op in ("shl", "lshr") and bc >= w:
            return const(0, w)
        if a.leafy < 0:
            if op == "lshr":
                return zext(extract(a, w - 1, bc), w)
            if op == "shl":
                return concat([extract(a, w - 1 - bc, 0), const(0, bc)])
            if op == "or" and a.op in ("concat", "zext"):
                r = _or_concat(a, b)
                if r is not None:
                    return r
    elif op == "sub":
        if a is b:
            return const(0, w)
        # (x + k1) - (x + k2)
        xa, ka = (a.a[0], a.a[1].c) if a.op == "add" and a.a[1].c is not None else (a, 0)
        xb, kb = (b.a[0], b.a[1].c) if b.op == "add" and b.a[1].c is not None else (b, 0)
        if xa is xb:
            return const(ka - kb, w)
        if a.leafy < 0 and a.op == "add" and a.a[1].c is None:
            if a.a[0] is b:
                return a.a[1]
            if a.a[1] is b:
                return a.a[0]
        if kb and b.leafy < 0:
            return binop("add", binop("sub", a, xb), const(-kb, w))
        if ka and a.leafy < 0:
            return binop("add", binop("sub", xa, b), const(ka, w))
    elif op == "or":
        if a is b:
            return a
        if a.leafy < 0 or b.leafy < 0:
            if a.op in ("concat", "zext") and b.op in ("concat", "zext"):
                r = _or_concat(a, b)
                if r is not None:
                    return r
    elif op in ("and",) and a is b:
        return a
    elif op == "xor" and a is b:
        return const(0, w)
    if (a.leafy >= 0) and (b.leafy >= 0):
        r = _push2(op, w, a, b)
        if r is not None:
            return r
    if op == "add" and bc is None:
        # keep constants outermost
        if a.op == "add" and a.a[1].c is not None:
            return binop("add", binop("add", a.a[0], b), a.a[1])
        if b.op == "add" and b.a[1].c is not None:
            return binop("add", binop("add", a, b.a[0]), b.a[1])
    if a.op == "ite" and bc is not None and a.leafy < 0 and a.vals is not None:
        return ite(a.a[0], binop(op, a.a[1], b), binop(op, a.a[2], b))
    if op in COMM and bc is None and a.id > b.id:
        a, b = b, a
    return mk(op, w, a, b)


def _or_concat(a, b):
    """or of values with disjoint byte fields -> concat"""
    w = a.w

    def fields(n):
        if n.c is not None:
            return None
        if n.op == "zext":
            return [(n.a[0], 0)]
        if n.op == "concat":
            out = []
            off = 0
            for p in reversed(n.a):
                if p.op == "zext":
                    out.append((p.a[0], off))
                elif p.c != 0:
                    out.append((p, off))
                off += p.w
            return out
        return None
    fa = fields(a)
    if b.c is not None:
        fb = []
        off = 0
        v = b.c
        while v:
            if v & 0xff:
                fb.append((const(v & 0xff, 8), off))
            v >>= 8
            off += 8
    else:
        fb = fields(b)
    if fa is None or fb is None:
        return None
    fs = sorted(fa + fb, key=lambda t: t[1])
    parts = []
    pos = 0
    for n, o in fs:
        if o < pos:
            return None
        if o > pos:
            parts.append(const(0, o - pos))
        if o + n.w > w:
            return None
        parts.append(n)
        pos = o + n.w
    if pos < w:
        parts.append(const(0, w - pos))
    return concat(list(reversed(parts)))


def cmp(op, a, b):
    """eq ne ult ule ugt uge slt sle sgt sge"""
    if op == "eq":
        return eq(a, b)
    if op == "ne":
        return not_(eq(a, b))
    if op in ("ugt", "uge", "sgt", "sge"):
        a, b = b, a
        op = {"ugt": "ult", "uge": "ule", "sgt": "slt", "sge": "sle"}[op]
    if op in ("ule", "sle"):
        return not_(_lt("ult" if op == "ule" else "slt", b, a))
    return _lt(op, a, b)


def urange(n):
    """(lo, hi) unsigned bounds"""
    if n.c is not None:
        return n.c, n.c
    if n.vals is not None:
        return min(n.vals), max(n.vals)
    if n.op == "zext":
        return urange(n.a[0])
    if n.op == "ite":
        x = n.x
        if x is None:
            a = urange(n.a[1])
            b = urange(n.a[2])
            x = (min(a[0], b[0]), max(a[1], b[1]))
            n.x = x
        return x
    if n.op == "and" and n.w > 1:
        return 0, min(urange(n.a[0])[1], urange(n.a[1])[1])
    if n.op == "urem" and n.a[1].c:
        return 0, min(urange(n.a[0])[1], n.a[1].c - 1)
    if n.op == "udiv" and n.a[1].c:
        l, h = urange(n.a[0])
        return l // n.a[1].c, h // n.a[1].c
    if n.op == "add":
        if n.x is None:
            l1, h1 = urange(n.a[0])
            l2, h2 = urange(n.a[1])
            top = 1 << n.w
            n.x = (l1 + l2, h1 + h2) if h1 + h2 < top else (l1 + l2 - top, h1 + h2 - top) if l1 + l2 >= top else (0, top - 1)
        return n.x
    if n.op == "mul":
        l1, h1 = urange(n.a[0])
        l2, h2 = urange(n.a[1])
        if h1 * h2 < 1 << n.w:
            return l1 * l2, h1 * h2
    if n.op == "concat":
        lo = hi = 0
        for p in n.a:
            l, h = urange(p)
            lo = lo << p.w | l
            hi = hi << p.w | h
        return lo, hi
    return 0, (1 << n.w) - 1


def _lt(op, a, b):
    if a is b:
        return FALSE
    w = a.w
    if a.c is not None and b.c is not None:
        return const(_ev(op, 1, a.c, b.c, w), 1)
    if w == 1:
        if op == "ult":
            return and_(not_(a), b)
        return and_(a, not_(b))
    if a.leafy >= 0 and b.leafy >= 0:
        r = _push2(op, 1, a, b)
        if r is not None:
            return r
    la, ha = urange(a)
    lb, hb = urange(b)
    half = 1 << (w - 1)
    if op == "slt" and ha < half and hb < half:
        op = "ult"
    if op == "ult":
        if ha < lb:
            return TRUE
        if la >= hb:
            return FALSE
        if b.c == 1:
            return eq(a, const(0, w))
        if a.op == "zext" and b.op == "zext" and a.a[0].w == b.a[0].w:
            return _lt(op, a.a[0], b.a[0])
        if a.op == "zext" and b.c is not None:
            return _lt(op, a.a[0], const(b.c, a.a[0].w))
        if b.op == "zext" and a.c is not None:
            return _lt(op, const(a.c, b.a[0].w), b.a[0])
    if a.op == "ite" and b.c is not None and a.leafy < 0:
        k = (op, a, b)
        r = _memo.get(k)
        if r is None:
            r = ite1(a.a[0], _lt(op, a.a[1], b), _lt(op, a.a[2], b))
            _memo[k] = r
        return r
    if b.op == "ite" and a.c is not None and b.leafy < 0:
        k = (op, a, b)
        r = _memo.get(k)
        if r is None:
            r = ite1(b.a[0], _lt(op, a, b.a[1]), _lt(op, a, b.a[2]))
            _memo[k] = r
        return r
    return mk(op, 1, a, b)


def zext(a, w):
    if a.w == w:
        return a
    if a.c is not None:
        return const(a.c, w)
    if a.w == 1:
        return ite(a, const(1, w), const(0, w))
    if a.leafy >= 0:
        return _push1(lambda x: const(x.c, w), ("zext", w), a)
    if a.op == "zext":
        return zext(a.a[0], w)
    if a.op == "concat" and a.a[0].c == 0:
        rest = a.a[1:]
        return zext(concat(list(rest)), w)
    if a.op == "ite":
        # keep ite on top: pointers and offsets stay resolvable
        k = ("zext", w, a)
        r = _memo.get(k)
        if r is None:
            r = ite(a.a[0], zext(a.a[1], w), zext(a.a[2], w))
            _memo[k] = r
        return r
    r = mk("zext", w, a)
    r.vals = a.vals
    return r


def sext(a, w):
    if a.w == w:
        return a
    if a.c is not None:
        return const(sgn(a.c, a.w), w)
    if a.w == 1:
        return ite(a, const(-1, w), const(0, w))
    if a.leafy >= 0:
        return _push1(lambda x: const(sgn(x.c, x.w), w), ("sext", w), a)
    if a.op == "ite":
        k = ("sext", w, a)
        r = _memo.get(k)
        if r is None:
            r = ite(a.a[0], sext(a.a[1], w), sext(a.a[2], w))
            _memo[k] = r
        return r
    if urange(a)[1] < 1 << (a.w - 1):
        return zext(a, w)
    return mk("sext", w, a)


def extract(a, hi, lo):
    w = hi - lo + 1
    if w == a.w:
        return a
    if a.c is not None:
        return const(a.c >> lo, w)
    if a.leafy >= 0:
        return _push1(lambda x: const(x.c >> lo, w), ("ex", hi, lo), a)
    op = a.op
    if op == "extract":
        b = a.x
        return extract(a.a[0], hi + b[1], lo + b[1])
    if op == "zext":
        i = a.a[0]
        if lo >= i.w:
            return const(0, w)
        if hi < i.w:
            return extract(i, hi, lo)
        return zext(extract(i, i.w - 1, lo), w)
    if op == "sext":
        i = a.a[0]
        if hi < i.w:
            return extract(i, hi, lo)
    if op == "concat":
        parts = []
        off = 0
        for p in reversed(a.a):
            l = max(lo, off)
            h = min(hi, off + p.w - 1)
            if l <= h:
                parts.append(extract(p, h - off, l - off))
            off += p.w
        return concat(list(reversed(parts)))
    if op == "ite":
        k = ("ex", hi, lo, a)
        r = _memo.get(k)
        if r is None:
            r = ite(a.a[0], extract(a.a[1], hi, lo), extract(a.a[2], hi, lo))
            _memo[k] = r
        return r
    if lo == 0 and op in ("add", "sub", "mul", "xor", "or", "and"):
        return binop(op, extract(a.a[0], hi, 0), extract(a.a[1], hi, 0))
    if op in ("xor", "or", "and"):
        return binop(op, extract(a.a[0], hi, lo), extract(a.a[1], hi, lo))
    return mk("extract", w, a, x=(hi, lo))


def trunc(a, w):
    return extract(a, w - 1, 0)


def concat(parts):
    """most significant first"""
    out = []
    for p in parts:
        if p.w == 0:
            continue
        if p.op == "concat":
            sub = p.a
        else:
            sub = (p,)
        for q in sub:
            if out:
                l = out[-1]
                if l.c is not None and q.c is not None:
                    out[-1] = const(l.c << q.w | q.c, l.w + q.w)
                    continue
                if l.op == "extract" and q.op == "extract" and l.a[0] is q.a[0] and l.x[1] == q.x[0] + 1:
                    out[-1] = extract(l.a[0], l.x[0], q.x[1])
                    continue
            out.append(q)
    if len(out) == 1:
        return out[0]
    if not out:
        raise ValueError
    w = sum(p.w for p in out)
    # all leafy -> combine into a leafy value when small
    if all(p.c is not None or (p.leafy >= 0 and p.leafy <= 30) for p in out):
        tot = 1
        for p in out:
            tot *= len(p.vals)
        if tot <= 64 and sum(1 for p in out if p.c is None) <= 2:
            r = const(0, w)
            off = 0
            ok = True
            for p in reversed(out):
                z = zext(p, w) if p.w < w else p
                s = binop("shl", z, const(off, w)) if off else z
                r = binop("or", r, s)
                off += p.w
            if r.leafy >= 0:
                return r
    if out[0].c == 0 and len(out) == 2:
        return zext(out[1], w)
    return mk("concat", w, *out)


def neg(a):
    return binop("sub", const(0, a.w), a)


def evaluate(n, env, memo=None):
    """concrete value of n under env: var-name -> int (missing = 0)"""
    if memo is None:
        memo = {}
    stack = [n]
    while stack:
        t = stack[-1]
        if t in memo:
            stack.pop()
            continue
        if t.c is not None:
            memo[t] = t.c
            stack.pop()
            continue
        if t.op == "var":
            memo[t] = env.get(t.x, 0) & ((1 << t.w) - 1)
            stack.pop()
            continue
        if t.op == "ite":
            c = memo.get(t.a[0])
            if c is None:
                stack.append(t.a[0])
                continue
            br = t.a[1] if c else t.a[2]
            v = memo.get(br)
            if v is None:
                stack.append(br)
                continue
            memo[t] = v
            stack.pop()
            continue
        miss = [x for x in t.a if x not in memo]
        if miss:
            stack.extend(miss)
            continue
        vs = [memo[x] for x in t.a]
        op = t.op
        if op == "not":
            v = 1 - vs[0]
        elif op == "zext":
            v = vs[0]
        elif op == "sext":
            v = sgn(vs[0], t.a[0].w) & ((1 << t.w) - 1)
        elif op == "extract":
            v = vs[0] >> t.x[1] & ((1 << t.w) - 1)
        elif op == "sitofp" or op == "uitofp":
            v = fenc(float(sgn(vs[0], t.a[0].w) if op == "sitofp" else vs[0]), t.w)
        elif op == "concat":
            v = 0
            for p, q in zip(t.a, vs):
                v = v << p.w | q
        else:
            v = _ev(op, t.w, vs[0], vs[1], t.a[0].w)
        memo[t] = v
        stack.pop()
    return memo[n]
