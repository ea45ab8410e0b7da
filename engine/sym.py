"""Symbolic executor for the LLVM IR of the real (rustc-compiled) code.

Path merging at control-flow joins (one state per join, values become
if-then-else terms), loops unrolled until the exit is decided, byte-precise
memory with concrete object identities.  Every panic, trap, undefined-behaviour
block, out-of-bounds access and failed harness check becomes an obligation that
an SMT solver decides for all values of the symbolic inputs.
"""
import heapq
import math
import re
import time
import z3
import expr as E
from expr import TRUE, FALSE, const, and_, or_, not_, ite, eq, binop
import llparse as L
from llparse import P, PTR, size_of, store_size, st_layout


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


class Infeasible(Exception):
    pass


# ------------------------------------------------------------------ paths
class Path:
    """a node of the tree of case splits; `leaves` is set for merged nodes"""
    __slots__ = ("parent", "cond", "depth", "full", "split", "leaves")

    def __init__(self, parent, cond, split=None, leaves=None):
        self.parent = parent
        self.cond = cond
        self.depth = parent.depth + 1 if parent else 0
        self.full = and_(parent.full, cond) if parent else TRUE
        self.split = split
        self.leaves = leaves


class Split:
    """an exhaustive case split of `node` into n exclusive alternatives"""
    __slots__ = ("node", "n")

    def __init__(self, node, n):
        self.node = node
        self.n = n


ROOT = Path(None, TRUE)


def ext(p, c, split=None):
    if c is TRUE and (split is None or split.n == 1):
        return p
    return Path(p, c, split)


def _leaves(p):
    return p.leaves if p.leaves is not None else (p,)


def merge_paths(p, q):
    """-> (merged, cond of p, cond of q) relative to the nearest common node"""
    p0, q0 = p, q
    dp = []
    dq = []
    while p.depth > q.depth:
        dp.append(p.cond)
        p = p.parent
    while q.depth > p.depth:
        dq.append(q.cond)
        q = q.parent
    while p is not q:
        dp.append(p.cond)
        dq.append(q.cond)
        p = p.parent
        q = q.parent
    a = TRUE
    for c in reversed(dp):
        a = and_(a, c)
    b = TRUE
    for c in reversed(dq):
        b = and_(b, c)
    # complete case splits collapse to the node that was split
    leaves = set(_leaves(p0))
    leaves.update(_leaves(q0))
    work = True
    while work:
        work = False
        groups = {}
        for l in leaves:
            if l.split is not None:
                groups.setdefault(l.split, []).append(l)
        for sp, ls in groups.items():
            if len(ls) == sp.n:
                leaves.difference_update(ls)
                leaves.update(_leaves(sp.node))
                work = True
                break
    if len(leaves) == 1:
        return next(iter(leaves)), a, b
    n = p
    fl = frozenset(leaves)
    while n is not None:
        if n.leaves == fl:
            return n, a, b
        n = n.parent
    o = or_(a, b)
    if o is TRUE:
        return p, a, b
    return Path(p, o, None, fl), a, b


# ------------------------------------------------------------------ memory
class Obj:
    __slots__ = ("cells", "owner", "size")

    def __init__(self, cells, owner, size):
        self.cells = cells
        self.owner = owner
        self.size = size


class State:
    __slots__ = ("path", "mem", "tok")
    cnt = 0

    def __init__(self, path, mem):
        self.path = path
        self.mem = mem
        State.cnt += 1
        self.tok = State.cnt

    def fork(self, path):
        s = State(path, dict(self.mem))
        State.cnt += 1
        self.tok = State.cnt       # both sides lose write ownership
        return s


def cell_byte(c):
    v, i = c
    if v.w == 8:
        return v
    return E.extract(v, 8 * i + 7, 8 * i)


class Sparse:
    """the cells of a huge object of which few are ever written"""
    __slots__ = ("d", "fill", "n")

    def __init__(self, n, fill, d=None):
        self.n, self.fill, self.d = n, fill, d if d is not None else {}

    def copy(self):
        return Sparse(self.n, self.fill, dict(self.d))

    def __getitem__(self, i):
        if isinstance(i, slice):
            f = self.fill
            return [self.d.get(k, f) for k in range(i.start, i.stop)]
        return self.d.get(i, self.fill)

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            for k, x in zip(range(i.start, i.stop), v):
                self.d[k] = x
        else:
            self.d[i] = v


SPARSE = 1 << 20


def merge_cells(d, a, b):
    """cells lists of equal length -> cells of ite(d, a, b)"""
    if a is b:
        return a
    if isinstance(a, Sparse) or isinstance(b, Sparse):
        assert isinstance(a, Sparse) and isinstance(b, Sparse) and a.fill == b.fill
        ks = list(a.d.keys() | b.d.keys())
        m = merge_cells(d, [a[k] for k in ks], [b[k] for k in ks])
        return Sparse(a.n, a.fill, dict(zip(ks, m)))
    out = []
    app = out.append
    for x, y in zip(a, b):
        if x is y or x == y:
            app(x)
        elif x is None:
            app(y)
        elif y is None:
            app(x)
        else:
            vx, ix = x
            vy, iy = y
            if ix == iy and vx.w == vy.w:
                app((ite(d, vx, vy), ix))
            else:
                app((ite(d, cell_byte(x), cell_byte(y)), 0))
    return out


def model_env(m):
    out = {}
    for d in m.decls():
        if d.arity():
            continue        # what Z3 makes of unspecified conversions
        v = m[d]
        out[d.name()] = int(z3.is_true(v)) if z3.is_bool(v) else v.as_long()
    return out


BACKOFF = {2, 3, 4, 6, 8, 11, 15, 20, 26, 32} | set(range(40, 100, 10)) | set(range(100, 1000, 25)) | set(range(1000, 100000, 100))
FMF = ("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc")
BASE = 0x10000000
SLOT = 1 << 20
FBASE = 0x700000000000


class Engine:
    def __init__(self, mod, merge=True, loop_max=20000, budget_s=600, relax_panics=True, verbose=False, no_format=False):
        self.mod = mod
        for f in mod.fns.values():
            f.blocks = None
        HOOKCACHE.clear()
        self.merge = merge
        self.loop_max = loop_max
        self.deadline = time.time() + budget_s
        self.relax = relax_panics
        self.no_format = no_format
        self.verbose = verbose
        self.slots = {}            # slot -> (objid, base, size)
        self.nextslot = 0
        self.gaddr = {}
        self.ginit = {}            # objid -> Obj for globals (lazy)
        self.gname = {}
        self.fnaddr = {}
        self.addrfn = {}
        self.obl = []              # (kind, label, guard)
        self.covers = {}           # id -> guard
        self.syms = []             # (var node, value node, guard, bits/domain)
        self.nondet_idx = 0
        self.case = None
        self.executed = {}
        self.stack = []
        self.ninstr = 0
        self.solver = None
        self.z = {}
        self.zkeep = []
        self.q_feas = 0
        self.q_hard = 0
        self.t_feas = 0.0
        self.rescache = {}
        self.nundef = 0
        self.maxloop = 0
        self.stubs = []
        self.warn = {}
        self.prints = 0
        self.nmerge = 0
        self.files = None
        self.hcache = {}
        self.fp = False            # floating point terms reach the solver
        self.models = []           # assignments seen to be reachable

    # ---------------------------------------------------------------- solver
    def to_z3(self, n):
        z = self.z
        r = z.get(n)
        if r is not None:
            return r
        stack = [n]
        while stack:
            t = stack[-1]
            if t in z:
                stack.pop()
                continue
            miss = [a for a in t.a if a not in z]
            if miss:
                stack.extend(miss)
                continue
            stack.pop()
            z[t] = self._z1(t, [z[a] for a in t.a])
        return z[n]

    def _z1(self, t, a):
        op, w = t.op, t.w
        if op == "const":
            return z3.BoolVal(bool(t.c)) if w == 1 else z3.BitVecVal(t.c, w)
        if op == "var":
            return z3.Bool(t.x) if w == 1 else z3.BitVec(t.x, w)
        if op == "not":
            return z3.Not(a[0])
        if op == "ite":
            return z3.If(a[0], a[1], a[2])
        if op == "eq":
            return a[0] == a[1]
        if w == 1 and op in ("and", "or", "xor"):
            return {"and": z3.And, "or": z3.Or, "xor": z3.Xor}[op](a[0], a[1])
        if op == "ult":
            return z3.ULT(a[0], a[1])
        if op == "slt":
            return a[0] < a[1]
        if op == "zext":
            return z3.ZeroExt(w - t.a[0].w, a[0])
        if op == "sext":
            return z3.SignExt(w - t.a[0].w, a[0])
        if op == "extract":
            r = z3.Extract(t.x[0], t.x[1], a[0])
            return r == z3.BitVecVal(1, 1) if w == 1 else r
        if op[0] == "f" or op in ("sitofp", "uitofp"):
            return self._zfp(t, a)
        if op == "concat":
            a = [z3.If(x, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) if p.w == 1 else x for x, p in zip(a, t.a)]
            return z3.Concat(*a)
        f = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y,
             "and": lambda x, y: x & y, "or": lambda x, y: x | y, "xor": lambda x, y: x ^ y,
             "shl": lambda x, y: x << y, "lshr": z3.LShR, "ashr": lambda x, y: x >> y,
             "udiv": z3.UDiv, "urem": z3.URem, "sdiv": lambda x, y: x / y, "srem": z3.SRem}[op]
        return f(a[0], a[1])

    def _zfp(self, t, a):
        op = t.op
        self.fp = True
        if op in ("sitofp", "uitofp"):
            sort = z3.Float32() if t.w == 32 else z3.Float64()
            f = z3.fpSignedToFP if op == "sitofp" else z3.fpUnsignedToFP
            return z3.fpToIEEEBV(f(z3.RNE(), a[0], sort))
        sort = z3.Float32() if t.a[0].w == 32 else z3.Float64()
        x, y = (z3.fpBVToFP(v, sort) for v in a)
        if op == "foeq":
            return z3.fpEQ(x, y)
        if op == "folt":
            return z3.fpLT(x, y)
        if op == "fole":
            return z3.fpLEQ(x, y)
        if op == "funo":
            return z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
        f = {"fadd": z3.fpAdd, "fsub": z3.fpSub, "fmul": z3.fpMul, "fdiv": z3.fpDiv}[op]
        return z3.fpToIEEEBV(f(z3.RNE(), x, y))

    def feasible(self, guard):
        if guard.c is not None:
            return bool(guard.c)
        r = self.hcache.get(guard)
        if r is not None:
            return r
        for m in self.models:
            if E.evaluate(guard, m[0], m[1]):
                self.hcache[guard] = True
                if m is not self.models[0]:
                    self.models.remove(m)
                    self.models.insert(0, m)
                return True
        t0 = time.time()
        if self.solver is None:
            self.solver = z3.Solver()
            self.solver.set("timeout", 15000)
        self.q_feas += 1
        s = self.solver
        s.push()
        s.add(self.to_z3(guard))
        res = s.check()
        if res == z3.sat:
            self.models.insert(0, (model_env(s.model()), {}))
            del self.models[12:]
        s.pop()
        if res == z3.unknown:
            # once more, all at once
            s = z3.Solver() if self.fp else z3.Then("simplify", "propagate-values", "solve-eqs", "bit-blast", "sat").solver()
            s.set("timeout", 60000)
            s.add(self.to_z3(guard))
            res = s.check()
            if res == z3.unknown:
                self.q_hard += 1
                if self.q_hard > 3:
                    raise Budget("feasibility query unknown")
                res = z3.sat        # what cannot be reached does no harm
        self.t_feas += time.time() - t0
        r = res == z3.sat
        self.hcache[guard] = r
        return r

    # ---------------------------------------------------------------- objects
    def alloc_slot(self, size):
        k = max(1, (size + SLOT - 1) // SLOT + (1 if size % SLOT == 0 and size else 0))
        s = self.nextslot
        self.nextslot += k + 1
        base = BASE + s * SLOT + 4096
        for i in range(k + 1):
            self.slots[s + i] = (s, base, size)
        return s, base

    def new_object(self, st, size, fill=None):
        oid, base = self.alloc_slot(size)
        st.mem[oid] = Obj(Sparse(size, fill) if size >= SPARSE else [fill] * size, st.tok, size)
        return base

    def global_addr(self, name):
        name = self.mod.aliases.get(name, name)
        a = self.gaddr.get(name)
        if a is not None:
            return a
        if name in self.mod.fns or name in self.mod.decls:
            k = len(self.fnaddr)
            a = const(FBASE + 16 * k, 64)
            self.fnaddr[name] = a
            self.addrfn[a.c] = name
            self.gaddr[name] = a
            return a
        rest = self.mod.globals.get(name)
        if rest is None:
            raise Unsupported(f"global {name}")
        i = re.search(r'\b(global|constant) ', rest)
        tail = rest[i.end():]
        toks = L.tokenize(_strip_meta(tail))
        p = P(toks, self)
        t = p.type()
        size = size_of(t)
        oid, base = self.alloc_slot(size)
        a = const(base, 64)
        self.gaddr[name] = a
        self.gname[oid] = name
        if p.peek() is None or p.peek() == ",":
            if "extern_weak" in rest[:i.start()]:
                # nobody provides it
                self.gaddr[name] = a = const(0, 64)
                return a
            raise Unsupported(f"external global {name}")
        v = p.constant(t)
        cells = [None] * size
        self.put(cells, 0, t, v)
        self.ginit[oid] = Obj(cells, 0, size)
        return a

    def float_const(self, x, w):
        import struct
        if x.startswith("0x"):
            d = struct.unpack(">d", struct.pack(">Q", int(x, 16)))[0]
        else:
            d = float(x)
        if w == 64:
            return const(struct.unpack("<Q", struct.pack("<d", d))[0], 64)
        if w == 32:
            return const(struct.unpack("<I", struct.pack("<f", d))[0], 32)
        return const(0, w)

    def undef(self, t):
        # undef/poison as zero would hide uses; a fresh variable over-approximates
        k = t[0]
        if k in ("st",):
            return tuple(self.undef(x) for x in t[1])
        if k in ("arr", "vec"):
            return tuple(self.undef(t[2]) for _ in range(t[1]))
        self.nundef += 1
        return E.fresh("undef", self.width(t))

    def zero(self, t):
        k = t[0]
        if k == "st":
            return tuple(self.zero(x) for x in t[1])
        if k in ("arr", "vec"):
            return tuple([self.zero(t[2])] * t[1])
        return const(0, self.width(t))

    def width(self, t):
        k = t[0]
        if k == "i" or k == "f":
            return t[1]
        if k == "ptr":
            return 64
        raise Unsupported(f"width of {t}")

    def put(self, cells, off, t, v):
        k = t[0]
        if k == "st":
            offs = st_layout(t)[0]
            for o, tt, x in zip(offs, t[1], v):
                self.put(cells, off + o, tt, x)
        elif k == "arr" or k == "vec":
            s = size_of(t[2])
            if k == "vec" and t[2] == ("i", 1):
                v = E.concat([E.zext(x, 1) for x in reversed(v)])
                n = size_of(t)
                v = E.zext(v, 8 * n)
                for i in range(n):
                    cells[off + i] = (v, i)
                return
            for i, x in enumerate(v):
                self.put(cells, off + i * s, t[2], x)
        else:
            n = store_size(t)
            if v.w != 8 * n:
                v = E.zext(v, 8 * n)
            for i in range(n):
                cells[off + i] = (v, i)

    def get(self, cells, off, t):
        k = t[0]
        if k == "st":
            return tuple(self.get(cells, off + o, tt) for o, tt in zip(st_layout(t)[0], t[1]))
        if k == "arr" or k == "vec":
            if k == "vec" and t[2] == ("i", 1):
                n = size_of(t)
                x = self.from_cells(cells, off, n)
                return tuple(E.extract(x, i, i) for i in range(t[1]))
            s = size_of(t[2])
            return tuple(self.get(cells, off + i * s, t[2]) for i in range(t[1]))
        n = store_size(t)
        v = self.from_cells(cells, off, n)
        w = self.width(t)
        return v if v.w == w else E.trunc(v, w)

    def from_cells(self, cells, off, n):
        c = cells[off]
        if c is not None and c[1] == 0 and c[0].w == 8 * n:
            v = c[0]
            for i in range(1, n):
                d = cells[off + i]
                if d is None or d[0] is not v or d[1] != i:
                    break
            else:
                return v
        parts = []
        for i in range(n - 1, -1, -1):
            d = cells[off + i]
            if d is None:
                self.nundef += 1
                d = (E.fresh("undef", 8), 0)
                cells[off + i] = d
            parts.append(cell_byte(d))
        return E.concat(parts)

    def obj(self, st, oid):
        o = st.mem.get(oid)
        if o is None:
            o = self.ginit.get(oid)
        return o

    def wobj(self, st, oid):
        o = st.mem.get(oid)
        if o is None:
            g = self.ginit.get(oid)
            if g is None:
                return None
            o = Obj(g.cells.copy(), st.tok, g.size)
            st.mem[oid] = o
            return o
        if o.owner != st.tok:
            o = Obj(o.cells.copy(), st.tok, o.size)
            st.mem[oid] = o
        return o

    def find_obj(self, a):
        if a < BASE:
            return None
        return self.slots.get((a - BASE) >> 20)

    def resolve(self, p):
        """address expression -> list of (guard, objid, offset-node); objid None = not an object"""
        if p.c is not None:
            r = self.find_obj(p.c)
            if r is None:
                return [(TRUE, None, p)]
            return [(TRUE, r[0], const(p.c - r[1], 64))]
        r = self.rescache.get(p)
        if r is None:
            r = self._resolve(p)
            self.rescache[p] = r
        return r

    def _resolve(self, p):
        if p.vals is not None:
            objs = {}
            for v in p.vals:
                o = self.find_obj(v)
                objs.setdefault(o[0] if o else None, o)
            if len(objs) == 1:
                (oid, o), = objs.items()
                if oid is not None:
                    return [(TRUE, oid, binop("sub", p, const(o[1], 64)))]
        if p.op == "ite":
            out = {}
            rs, bad = [], 0
            for br in p.a[1:]:
                try:
                    rs.append(self.resolve(br))
                except Unsupported:
                    # bytes that are no pointer: an access through them is an obligation
                    bad += 1
                    rs.append([(TRUE, None, br)])
            if bad == 2:
                raise Unsupported(f"unresolvable pointer {E.show(p, 2)}")
            for g, r in ((p.a[0], rs[0]), (not_(p.a[0]), rs[1])):
                for g2, oid, off in r:
                    gg = and_(g, g2)
                    if gg is FALSE:
                        continue
                    if oid in out:
                        g3, o3 = out[oid]
                        out[oid] = (or_(g3, gg), ite(gg, off, o3))
                    else:
                        out[oid] = (gg, off)
            return [(g, oid, off) for oid, (g, off) in out.items()]
        if p.op == "add":
            x, y = p.a
            if y.c is not None:
                o = self.find_obj(y.c)
                if o is not None:
                    return [(TRUE, o[0], binop("add", x, const(y.c - o[1], 64)))]
                return [(g, oid, binop("add", off, y)) for g, oid, off in self.resolve(x)]
            for x, y in ((x, y), (y, x)):
                lo, hi = E.urange(x)
                if lo >= BASE and hi < FBASE and (x.vals is not None or x.op in ("ite", "add")):
                    try:
                        r = self.resolve(x)
                    except Unsupported:
                        continue
                    if all(oid is not None for _, oid, _ in r):
                        return [(g, oid, binop("add", off, y)) for g, oid, off in r]
            for x, y in ((x, y), (y, x)):
                try:
                    r = self.resolve(x)
                except Unsupported:
                    continue
                if any(oid is not None for _, oid, _ in r):
                    return [(g, oid, binop("add", off, y)) for g, oid, off in r]
        if p.op == "var" and p.x.startswith("undef"):
            return [(TRUE, None, p)]
        if p.op == "concat" and all(q.c is not None or q.leafy >= 0 for q in p.a):
            # a pointer that was put together from bytes: every combination that may be possible
            acc = {0: TRUE}
            for q in p.a:
                nxt = {}
                for v in (q.vals if q.c is None else (q.c,)):
                    c = TRUE if q.c is not None else E._eqleaf(q, v, {})
                    for w, g in acc.items():
                        gg = and_(g, c)
                        if gg is not FALSE:
                            nxt[w << q.w | v] = gg
                acc = nxt
                if len(acc) > 256:
                    raise Unsupported(f"unresolvable pointer {E.show(p, 3)}")
            out = {}
            for v, g in acc.items():
                o = self.find_obj(v)
                oid, off = (o[0], const(v - o[1], 64)) if o else (None, p)
                if oid in out:
                    g3, o3 = out[oid]
                    out[oid] = (or_(g3, g), ite(g, off, o3) if oid is not None else p)
                else:
                    out[oid] = (g, off)
            return [(g, oid, off) for oid, (g, off) in out.items()]
        raise Unsupported(f"unresolvable pointer {E.show(p, 3)}")

    def oblige(self, kind, label, guard):
        if guard is FALSE:
            return
        self.obl.append((kind, label, guard))

    def where(self):
        return " <- ".join(self.pretty(f) for f in reversed(self.stack[-3:]))

    def pretty(self, name):
        f = self.mod.fns.get(name)
        if f is not None and f.pretty:
            return f.pretty
        return name

    def offsets(self, st, g, off, size, n):
        """possible concrete offsets of a symbolic offset for an n-byte access"""
        if off.c is not None:
            o = off.c
            return [o] if o + n <= size else []
        if off.vals is not None:
            return [v for v in sorted(off.vals) if v + n <= size]
        lo, hi = E.urange(off)
        step, r0 = _congruence(off)
        if step == 0:
            return [r0] if r0 + n <= size else []
        lo = max(lo, 0)
        hi = min(hi, size - n)
        if hi < lo:
            return []
        first = lo + (r0 - lo) % step
        r = range(first, hi + 1, step)
        if len(r) > 4096:
            if g is not None:
                p2 = State(ext(st.path, g), st.mem)
                return [v for v in self.possible(p2, off) if v + n <= size]
            raise Unsupported(f"symbolic offset with {len(r)} candidates {E.show(off)}")
        return list(r)

    def access(self, st, ptr, n, what):
        """[(guard, obj id, [(guard, concrete off)])] with bounds obligations"""
        out = []
        for g, oid, off in self.resolve(ptr):
            if n == 0:
                continue
            o = self.obj(st, oid) if oid is not None else None
            gg = and_(st.path.full, g)
            if gg is FALSE:
                continue
            if o is None:
                if not self.feasible(gg):
                    continue
                self.oblige("memory", f"{what} outside any live object in {self.where()}", gg)
                continue
            size = o.size
            if off.c is not None:
                if off.c + n <= size:
                    out.append((g, oid, [(TRUE, off.c)]))
                else:
                    self.oblige("memory", f"{what} out of bounds in {self.where()}", gg)
                continue
            cands = self.offsets(st, g, off, size, n)
            inb = not_(E.cmp("ult", const(size - n, 64), off)) if size >= n else FALSE
            if inb is not TRUE:
                self.oblige("memory", f"{what} out of bounds in {self.where()}", and_(gg, not_(inb)))
            lst = []
            for k in cands:
                c = eq(off, const(k, 64))
                if c is not FALSE:
                    lst.append((c, k))
            if lst:
                out.append((g, oid, lst))
        if not out and n:
            raise Infeasible
        return out

    def read_cells(self, st, ptr, n, what="read"):
        acc = self.access(st, ptr, n, what)
        res = None
        for g, oid, lst in acc:
            o = self.obj(st, oid)
            sub = None
            for c, k in reversed(lst):
                sl = o.cells[k:k + n]
                sub = sl if sub is None else merge_cells(c, sl, sub)
            res = sub if res is None else merge_cells(g, sub, res)
        return res if res is not None else []

    def write_cells(self, st, ptr, cells, what="write"):
        n = len(cells)
        acc = self.access(st, ptr, n, what)
        single = len(acc) == 1
        for g, oid, lst in acc:
            if oid in self.ginit and oid not in st.mem and self.is_const_global(oid):
                self.oblige("memory", f"write to constant in {self.where()}", and_(st.path.full, g))
                continue
            o = self.wobj(st, oid)
            if single and len(lst) == 1:
                k = lst[0][1]
                o.cells[k:k + n] = cells
            else:
                for c, k in lst:
                    cc = and_(g, c) if not single else c
                    o.cells[k:k + n] = merge_cells(cc, cells, o.cells[k:k + n])

    def is_const_global(self, oid):
        return " constant " in " " + self.mod.globals[self.gname[oid]][:200].split("[")[0].split("{")[0]

    def load(self, st, t, ptr):
        n = store_size(t)
        if n == 0:
            return self.zero(t)
        if ptr.c is not None:
            r = self.find_obj(ptr.c)
            if r is not None:
                o = st.mem.get(r[0])
                if o is None:
                    o = self.ginit.get(r[0])
                off = ptr.c - r[1]
                if o is not None and 0 <= off and off + n <= o.size:
                    return self.get(o.cells, off, t)
        cells = self.read_cells(st, ptr, n)
        return self.get(cells, 0, t)

    def store(self, st, t, v, ptr):
        n = store_size(t)
        if n == 0:
            return
        cells = [None] * n
        self.put(cells, 0, t, v)
        self.write_cells(st, ptr, cells)

    def memcpy(self, st, dst, src, ln):
        if ln.c is not None:
            if ln.c == 0:
                return
            if ln.c > 1 << 24:
                if self.feasible(st.path.full):
                    self.oblige("memory", f"huge copy in {self.where()}", st.path.full)
                raise Infeasible
            self.write_cells(st, dst, list(self.read_cells(st, src, ln.c, "copy source")), "copy target")
            return
        lens = self.possible(st, ln)
        # conditional prefix copies
        mx = 0
        segs = []
        for v in lens:
            if v > mx:
                segs.append((mx, v))
                mx = v
        for lo, hi in segs:
            c = not_(E.cmp("ult", ln, const(hi, 64)))    # len >= hi
            p2 = State(ext(st.path, c), st.mem)
            p2.tok = st.tok
            try:
                s = list(self.read_cells(p2, binop("add", src, const(lo, 64)), hi - lo, "copy source"))
                d = self.read_cells(p2, binop("add", dst, const(lo, 64)), hi - lo, "copy target")
                self.write_cells(p2, binop("add", dst, const(lo, 64)), merge_cells(c, s, d), "copy target")
            except Infeasible:
                pass

    def memmove(self, st, dst, src, ln):
        if ln.c is not None:
            return self.memcpy(st, dst, src, ln)
        lens = self.possible(st, ln)
        plan = []
        mx = 0
        for v in lens:
            if v > mx:
                c = not_(E.cmp("ult", ln, const(v, 64)))
                p2 = State(ext(st.path, c), st.mem)
                p2.tok = st.tok
                try:
                    plan.append((mx, v, c, list(self.read_cells(p2, binop("add", src, const(mx, 64)), v - mx, "copy source"))))
                except Infeasible:
                    pass
                mx = v
        for lo, hi, c, s in plan:
            p2 = State(ext(st.path, c), st.mem)
            p2.tok = st.tok
            try:
                d = self.read_cells(p2, binop("add", dst, const(lo, 64)), hi - lo, "copy target")
                self.write_cells(p2, binop("add", dst, const(lo, 64)), merge_cells(c, s, d), "copy target")
            except Infeasible:
                pass

    def possible(self, st, v, limit=512):
        """sorted list of the values v can take (over-approximation is fine)"""
        if v.c is not None:
            return [v.c]
        if v.vals is not None:
            return sorted(v.vals)
        # ask the solver
        out = set()
        if self.solver is None:
            self.solver = z3.Solver()
            self.solver.set("timeout", 60000)
        s = self.solver
        s.push()
        s.add(self.to_z3(st.path.full))
        zv = self.to_z3(v)
        while True:
            self.q_feas += 1
            r = s.check()
            if r == z3.unsat:
                break
            if r == z3.unknown:
                s.pop()
                raise Budget("value enumeration unknown")
            x = s.model().eval(zv, model_completion=True).as_long()
            out.add(x)
            if len(out) > limit:
                s.pop()
                raise Unsupported(f"more than {limit} values for {E.show(v)} in {self.where()}")
            s.add(zv != x)
        s.pop()
        return sorted(out)

    # ---------------------------------------------------------------- merging
    def vmerge(self, d, a, b):
        if a is b:
            return a
        if isinstance(a, tuple):
            return tuple(self.vmerge(d, x, y) for x, y in zip(a, b))
        return ite(d, a, b)

    def merge_states(self, a, b):
        """-> (state, d) where values merge as ite(d, from a, from b)"""
        self.nmerge += 1
        merged, da, db = merge_paths(a.path, b.path)
        d = da
        # pick the simpler discriminator
        if db.op == "not" and db.a[0] is da:
            pass
        elif _cost(db) < _cost(da):
            d = not_(db)
        mem = dict(b.mem)
        st = State(merged, mem)
        for oid, oa in a.mem.items():
            ob = mem.get(oid)
            if ob is None:
                g = self.ginit.get(oid)
                if g is not None:
                    mem[oid] = Obj(merge_cells(d, oa.cells, g.cells), st.tok, oa.size)
                else:
                    mem[oid] = oa
            elif oa is not ob:
                mem[oid] = Obj(merge_cells(d, oa.cells, ob.cells), st.tok, oa.size)
        for oid, ob in b.mem.items():
            if oid not in a.mem:
                g = self.ginit.get(oid)
                if g is not None:
                    mem[oid] = Obj(merge_cells(d, g.cells, ob.cells), st.tok, ob.size)
        return st, d

    # ---------------------------------------------------------------- functions
    def prepare(self, fn):
        if fn.blocks is not None:
            return
        text = fn.text
        head = text[0]
        i = head.index(fn.name + "(") + len(fn.name)
        pre = P(L.tokenize(re.sub(r'!\w+ !\d+', '', head[len("define"):head.index(fn.name + "(")])), self)
        # return type is the last type before the name
        fn.ret = _ret_type(pre)
        depth = 0
        j = i
        inq = False
        while True:
            ch = head[j]
            if ch == '"':
                inq = not inq
            if not inq:
                if ch == "(":
                    depth += 1
                elif ch == ")":
                    depth -= 1
                    if depth == 0:
                        break
            j += 1
        p = P(L.tokenize(head[i + 1:j]), self)
        params = []
        while p.peek() is not None:
            if p.eat("..."):
                continue
            t = p.type()
            p.skip_attrs()
            params.append((p.next(), t))
            p.eat(",")
        fn.params = params
        blocks = {}
        order = []
        for label, instrs in L.join_lines(text[1:], "%%%d" % sum(1 for r, _ in params if r[1:].isdigit())):
            phis = []
            body = []
            for s in instrs:
                ins = self.parse_instr(s)
                if ins is None:
                    continue
                if ins[0] == "phi":
                    phis.append(ins)
                else:
                    body.append(ins)
            blocks[label] = (phis, body)
            order.append(label)
        fn.blocks = blocks
        fn.entry = order[0]
        self.analyse(fn, order)

    def succs(self, body):
        t = body[-1]
        k = t[0]
        if k == "br":
            return [t[1]]
        if k == "cbr":
            return [t[2], t[3]]
        if k == "switch":
            return [t[2]] + [b for _, b in t[3]]
        if k == "invoke":
            return [t[5]]
        return []

    def analyse(self, fn, order):
        succ = {b: list(dict.fromkeys(self.succs(fn.blocks[b][1]))) for b in order}
        pred = {b: [] for b in order}
        for b in order:
            for s in succ[b]:
                pred[s].append(b)
        # dead: cannot reach ret
        alive = set()
        work = [b for b in order if fn.blocks[b][1][-1][0] == "ret"]
        while work:
            b = work.pop()
            if b in alive:
                continue
            alive.add(b)
            work.extend(pred[b])
        fn.dead = {b for b in order if b not in alive}
        # a block whose instructions call a noreturn function is dead as well (its terminator is unreachable)
        # order
        idx = {b: i for i, b in enumerate(_wto(fn.entry, succ))}
        fn.index = idx
        # liveness
        use = {}
        deff = {}
        for b in order:
            u = set()
            d = set()
            for ph in fn.blocks[b][0]:
                d.add(ph[1])
            for ins in fn.blocks[b][1]:
                for r in _uses(ins):
                    if r not in d:
                        u.add(r)
                dd = _def(ins)
                if dd:
                    d.add(dd)
            use[b] = u
            deff[b] = d
        phi_use = {}
        for b in order:
            for ph in fn.blocks[b][0]:
                for pb, v in ph[3].items():
                    if isinstance(v, str):
                        phi_use.setdefault(pb, set()).add((b, v))
        live = {b: set() for b in order}
        changed = True
        rev = sorted(order, key=lambda b: -idx.get(b, 0))
        while changed:
            changed = False
            for b in rev:
                out = set()
                for s in succ[b]:
                    out |= live[s]
                for s, v in phi_use.get(b, ()):
                    out.add(v)
                n = use[b] | (out - deff[b])
                if n != live[b]:
                    live[b] = n
                    changed = True
        # live-in includes this block's phi results
        fn.livein = {b: [r for r in live[b]] for b in order}

    def run_fn(self, name, args, st):
        """-> list of (state, value)"""
        name = self.mod.aliases.get(name, name)
        fn = self.mod.fns.get(name)
        if fn is None:
            raise Unsupported(f"external function {name}")
        self.prepare(fn)
        if len(self.stack) > 300:
            raise Budget("call depth")
        if self.stack.count(name) > 2 and not self.feasible(st.path.full):
            return []
        self.stack.append(name)
        self.executed[name] = self.executed.get(name, 0) + 1
        try:
            return self._run(fn, args, st)
        finally:
            self.stack.pop()

    def _run(self, fn, args, st):
        env0 = {}
        for (r, t), v in zip(fn.params, args):
            env0[r] = v
        idx = fn.index
        pending = {fn.entry: [(st, env0)]}
        heap = [(idx[fn.entry], fn.entry)]
        rets = []
        iters = {}
        lastpath = {}
        chk = set()
        dead = {}
        allocas = []
        blocks = fn.blocks
        while heap:
            _, b = heapq.heappop(heap)
            lst = pending.pop(b)
            if self.merge:
                while len(lst) > 1:
                    (s1, e1) = lst.pop()
                    (s0, e0) = lst.pop()
                    s, d = self.merge_states(s0, s1)
                    if e0 is not e1:
                        e = {}
                        for r, v in e0.items():
                            v1 = e1.get(r)
                            if v1 is None:
                                e[r] = v
                            else:
                                e[r] = v if v is v1 else self.vmerge(d, v, v1)
                        for r, v in e1.items():
                            if r not in e:
                                e[r] = v
                    else:
                        e = e0
                    lst.append((s, e))
            else:
                if len(lst) > 1:
                    pending[b] = lst[:-1]
                    heapq.heappush(heap, (idx[b], b))
                    lst = lst[-1:]
            s, env = lst[0]
            if b in chk:
                chk.discard(b)
                if s.path is not lastpath.get(b):
                    if not self.feasible(s.path.full):
                        dead[b] = dead.get(b, 0) + 1
                        continue
                    lastpath[b] = s.path
            try:
                outs = self.run_block(fn, b, s, env, allocas)
            except Infeasible:
                continue
            for o in outs:
                kind = o[0]
                if kind == "ret":
                    rets.append((o[1], o[2]))
                    continue
                _, s2, env2, tgt = o
                # phis
                phis = blocks[tgt][0]
                ne = {}
                for r in fn.livein[tgt]:
                    v = env2.get(r)
                    if v is not None:
                        ne[r] = v
                for ph in phis:
                    v = ph[3][b]
                    ne[ph[1]] = env2[v] if isinstance(v, str) else v
                if idx[tgt] <= idx[b]:
                    c = iters.get(tgt, 0)
                    if not self.merge or tgt not in pending:
                        c += 1
                        iters[tgt] = c
                    if c > self.maxloop:
                        self.maxloop = c
                    if c > self.loop_max:
                        raise Budget(f"loop bound {self.loop_max} in {self.pretty(fn.name)}")
                    if c in BACKOFF or dead.get(tgt, 0) > 2:
                        chk.add(tgt)
                    if time.time() > self.deadline:
                        raise Budget("time")
                p = pending.get(tgt)
                if p is None:
                    pending[tgt] = [(s2, ne)]
                    heapq.heappush(heap, (idx[tgt], tgt))
                else:
                    p.append((s2, ne))
        if self.merge:
            while len(rets) > 1:
                (s1, v1) = rets.pop()
                (s0, v0) = rets.pop()
                s, d = self.merge_states(s0, s1)
                rets.append((s, None if v0 is None else self.vmerge(d, v0, v1)))
        for s, _ in rets:
            for oid in allocas:
                s.mem.pop(oid, None)
        return rets

    def dead_target(self, fn, b, guard):
        """record the obligation for entering a block that cannot return"""
        msg = self.dead_msg(fn, b)
        kind = "ub" if msg is None else "panic"
        self.oblige(kind, f"{msg or 'unreachable code'} in {self.where()}", guard)

    def dead_msg(self, fn, b):
        seen = set()
        work = [b]
        while work:
            x = work.pop(0)
            if x in seen:
                continue
            seen.add(x)
            for ins in fn.blocks[x][1]:
                if ins[0] in ("call", "invoke") and isinstance(ins[2], tuple):
                    nm = ins[2][1]
                    if self.mod.is_noreturn(nm) or "panic" in nm or "unwrap_failed" in nm or "expect_failed" in nm:
                        p = self.mod.fns[nm].pretty if nm in self.mod.fns else (self.mod.decls[nm][2] if nm in self.mod.decls else nm)
                        return p or nm
            work.extend(self.succs(fn.blocks[x][1]))
        # ends in plain unreachable
        if any(fn.blocks[x][1][-1][0] != "unreachable" for x in seen):
            return "non-terminating code"
        return None

    def run_block(self, fn, b, st, env, allocas):
        """-> list of ('ret', st, val) | ('go', st, env, target)"""
        body = fn.blocks[b][1]
        work = [(st, env, 0)]
        outs = []
        while work:
            st, env, pc = work.pop()
            while True:
                ins = body[pc]
                pc += 1
                self.ninstr += 1
                op = ins[0]
                h = OPS.get(op)
                if h is not None:
                    h(self, st, env, ins)
                    continue
                if op == "call" or op == "invoke":
                    res = self.do_call(st, env, ins, allocas)
                    if not res:
                        break
                    if len(res) > 1:
                        for s2, v in res[1:]:
                            e2 = dict(env)
                            if ins[1]:
                                e2[ins[1]] = v
                            if op == "invoke":
                                outs.append(("go", s2, e2, ins[5]))
                            else:
                                work.append((s2, e2, pc))
                    st, v = res[0]
                    if ins[1]:
                        env[ins[1]] = v
                    if op == "invoke":
                        outs.append(("go", st, env, ins[5]))
                        break
                    continue
                if op == "alloca":
                    n = size_of(ins[2])
                    if ins[3] is not None:
                        n *= ins[3].c
                    a = self.new_object(st, n)
                    allocas.append((a - 4096 - BASE) >> 20)
                    env[ins[1]] = const(a, 64)
                    continue
                if op == "br":
                    tgt = ins[1]
                    if tgt in fn.dead:
                        self.dead_target(fn, tgt, st.path.full)
                    else:
                        outs.append(("go", st, env, tgt))
                    break
                if op == "cbr":
                    c = ins[1]
                    if isinstance(c, str):
                        c = env[c]
                    t, f = ins[2], ins[3]
                    self.branch(fn, st, env, [(c, t), (not_(c), f)], outs)
                    break
                if op == "switch":
                    v = ins[1]
                    if isinstance(v, str):
                        v = env[v]
                    self.do_switch(fn, st, env, v, ins[2], ins[3], outs)
                    break
                if op == "ret":
                    v = ins[1]
                    if isinstance(v, str):
                        v = env[v]
                    outs.append(("ret", st, v))
                    break
                if op == "unreachable":
                    self.oblige("ub", f"unreachable code in {self.where()}", st.path.full)
                    break
                raise Unsupported(f"instruction {op} in {self.pretty(fn.name)}: {ins}")
        if time.time() > self.deadline:
            raise Budget("time")
        return outs

    def branch(self, fn, st, env, alts, outs):
        """alts: [(cond, target)], exhaustive and exclusive"""
        live = []
        for c, t in alts:
            if c is FALSE:
                continue
            if t in fn.dead:
                g = and_(st.path.full, c)
                if g is not FALSE:
                    if c is TRUE:
                        self.dead_target(fn, t, g)
                        return
                    self.dead_target(fn, t, g)
                continue
            live.append((c, t))
        if not live:
            return
        if len(live) == 1 and (self.relax or live[0][0] is TRUE):
            outs.append(("go", st, env, live[0][1]))
            return
        if not self.merge:
            live = [(c, t) for c, t in live if self.feasible(and_(st.path.full, c))]
            if not live:
                return
        if self.relax and len(live) == len(alts) - 1 and len(live) > 1:
            # the missing alternative is an obligation of its own: close the case split
            rest = FALSE
            for c, t in live[:-1]:
                rest = or_(rest, c)
            live[-1] = (not_(rest), live[-1][1])
        base = st.path
        full = base.full
        first = True
        states = []
        for c, t in live:
            if and_(full, c) is FALSE:
                continue
            states.append((c, t))
        sp = Split(base, len(states))
        for i, (c, t) in enumerate(states):
            p = ext(base, c, sp)
            if i == len(states) - 1:
                st.path = p
                State.cnt += 1
                st.tok = State.cnt
                outs.append(("go", st, env, t))
            else:
                s2 = st.fork(p)
                outs.append(("go", s2, dict(env), t))

    def do_switch(self, fn, st, env, v, dflt, cases, outs):
        if v.c is not None:
            for k, t in cases:
                if k == v.c:
                    self.branch(fn, st, env, [(TRUE, t)], outs)
                    return
            self.branch(fn, st, env, [(TRUE, dflt)], outs)
            return
        groups = {}
        anyc = FALSE
        for k, t in cases:
            c = eq(v, const(k, v.w))
            anyc = or_(anyc, c)
            groups[t] = or_(groups.get(t, FALSE), c)
        d = not_(anyc)
        groups[dflt] = or_(groups.get(dflt, FALSE), d)
        self.branch(fn, st, env, [(c, t) for t, c in groups.items()], outs)

    # ---------------------------------------------------------------- calls
    def val(self, env, x):
        return env[x] if isinstance(x, str) else x

    def do_call(self, st, env, ins, allocas):
        callee = ins[2]
        args = [env[a] if isinstance(a, str) else a for a in ins[3]]
        if isinstance(callee, tuple):
            return self.call_named(st, callee[1], args, ins, allocas)
        f = env[callee] if isinstance(callee, str) else callee
        if f.c is not None:
            nm = self.addrfn.get(f.c)
            if nm is None:
                if not self.feasible(st.path.full):
                    return []
                self.oblige("memory", f"call of a non-function in {self.where()}", st.path.full)
                return []
            return self.call_named(st, nm, args, ins, allocas)
        if f.vals is None:
            vals = self.possible(st, f)
        else:
            vals = sorted(f.vals)
        res = []
        for v in vals:
            c = eq(f, const(v, 64))
            g = and_(st.path.full, c)
            if g is FALSE or not self.feasible(g):
                continue
            nm = self.addrfn.get(v)
            if nm is None:
                self.oblige("memory", f"call of a non-function in {self.where()}", g)
                continue
            res += self.call_named(st.fork(ext(st.path, c)), nm, args, ins, allocas)
        if self.merge:
            while len(res) > 1:
                (s1, v1) = res.pop()
                (s0, v0) = res.pop()
                s, d = self.merge_states(s0, s1)
                res.append((s, None if v0 is None else self.vmerge(d, v0, v1)))
        return res

    def call_named(self, st, name, args, ins, allocas):
        if self.no_format and "6format12format_inner" in name:
            # formatted messages are empty: what is in them decides nothing
            for k, x in ((0, 0), (8, 1), (16, 0)):
                self.store(st, ("i", 64), const(x, 64), binop("add", args[0], const(k, 64)))
            return [(st, None)]
        h = self.hook(name)
        if h is not None:
            r = h(self, st, args, ins)
            if r is DEAD:
                return []
            return [(st, r)]
        if self.mod.is_noreturn(name):
            d = self.mod.fns[name].pretty if name in self.mod.fns else self.mod.decls[name][2]
            self.oblige("panic", f"{d or name} in {self.where()}", st.path.full)
            return []
        return self.run_fn(name, args, st)

    def hook(self, name):
        h = HOOKCACHE.get(name, 0)
        if h == 0:
            h = None
            for rx, fnc in HOOKS:
                if rx.search(name):
                    h = fnc
                    break
            HOOKCACHE[name] = h
        return h

    # ---------------------------------------------------------------- instruction parser
    def parse_instr(self, s):
        s = _strip_meta(s)
        toks = L.tokenize(s)
        p = P(toks, self)
        dest = None
        if len(toks) > 1 and toks[1] == "=":
            dest = toks[0]
            p.i = 2
        op = p.next()
        if op in ("tail", "musttail", "notail"):
            op = p.next()
        if op == "load":
            atomic = False
            while p.peek() in ("atomic", "volatile"):
                p.i += 1
            t = p.type()
            p.expect(",")
            p.type()
            return ("load", dest, t, p.value(PTR))
        if op == "store":
            while p.peek() in ("atomic", "volatile"):
                p.i += 1
            t = p.type()
            v = p.value(t)
            p.expect(",")
            p.type()
            return ("store", None, t, v, p.value(PTR))
        if op == "getelementptr":
            while p.peek() in ("inbounds", "nuw", "nusw"):
                p.i += 1
            t = p.type()
            p.expect(",")
            p.type()
            base = p.value(PTR)
            idx = []
            while p.eat(","):
                it = p.type()
                idx.append(p.value(it))
            return ("gep", dest, t, base, idx)
        if op in BINOPS:
            while p.peek() in ("nuw", "nsw", "exact", "disjoint"):
                p.i += 1
            t = p.type()
            a = p.value(t)
            p.expect(",")
            b = p.value(t)
            return ("bin", dest, op, a, b)
        if op == "icmp":
            if p.peek() == "samesign":
                p.i += 1
            pred = p.next()
            t = p.type()
            a = p.value(t)
            p.expect(",")
            return ("icmp", dest, pred, a, p.value(t))
        if op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "ptrtoaddr"):
            while p.peek() in ("nneg", "nuw", "nsw"):
                p.i += 1
            t = p.type()
            v = p.value(t)
            p.expect("to")
            return ("cast", dest, op, t, v, p.type())
        if op == "freeze":
            t = p.type()
            return ("copy", dest, p.value(t))
        if op == "select":
            while p.peek() in FMF:
                p.i += 1
            t = p.type()
            c = p.value(t)
            p.expect(",")
            t = p.type()
            a = p.value(t)
            p.expect(",")
            t = p.type()
            return ("select", dest, c, a, p.value(t))
        if op == "phi":
            while p.peek() in FMF:
                p.i += 1
            t = p.type()
            inc = {}
            while p.eat("["):
                v = p.value(t)
                p.expect(",")
                inc[p.next()] = v
                p.expect("]")
                p.eat(",")
            return ("phi", dest, t, inc)
        if op == "br":
            if p.eat("label"):
                return ("br", p.next())
            t = p.type()
            c = p.value(t)
            p.expect(",")
            p.expect("label")
            a = p.next()
            p.expect(",")
            p.expect("label")
            return ("cbr", c, a, p.next())
        if op == "switch":
            t = p.type()
            v = p.value(t)
            p.expect(",")
            p.expect("label")
            d = p.next()
            p.expect("[")
            cases = []
            while not p.eat("]"):
                tt = p.type()
                k = p.constant(tt).c
                p.expect(",")
                p.expect("label")
                cases.append((k, p.next()))
            return ("switch", v, d, cases)
        if op == "ret":
            t = p.type()
            if t[0] == "void":
                return ("ret", None)
            return ("ret", p.value(t))
        if op == "unreachable":
            return ("unreachable",)
        if op in ("call", "invoke"):
            # calling convention, return attributes
            while True:
                x = p.peek()
                if x in ("fastcc", "ccc", "coldcc", "preserve_mostcc", "preserve_allcc") or x in FMF:
                    p.i += 1
                elif x == "cc":
                    p.i += 2
                elif x in L.ATTRS:
                    p.skip_attrs()
                else:
                    break
            rt = p.type()
            x = p.peek()
            if x == "asm":
                if dest is None:
                    return None
                return ("unsupported", dest, "asm")
            if x[0] == "@":
                nm = p.next()
                nm = self.mod.aliases.get(nm, nm)
                if nm.startswith("@llvm.") and nm.split(".")[1] in IGNORE_INTR or nm.startswith("@llvm.experimental.noalias") or nm.startswith("@llvm.lifetime"):
                    return None
                callee = ("@", nm)
            else:
                callee = p.value(PTR)
            p.expect("(")
            args = []
            while not p.eat(")"):
                if p.peek() == "metadata":
                    while p.peek() not in (",", ")"):
                        if p.peek() == "(":
                            p.skip_paren()
                        else:
                            p.i += 1
                    args.append(FALSE)
                else:
                    t = p.type()
                    p.skip_attrs()
                    args.append(p.value(t))
                p.eat(",")
            normal = None
            if op == "invoke":
                while p.peek() != "to":
                    p.i += 1
                p.expect("to")
                p.expect("label")
                normal = p.next()
                return ("invoke", dest if rt[0] != "void" else None, callee, args, rt, normal)
            return ("call", dest if rt[0] != "void" else None, callee, args, rt)
        if op == "alloca":
            if p.peek() == "inalloca":
                p.i += 1
            t = p.type()
            n = None
            if p.eat(",") and p.peek() != "align":
                tt = p.type()
                n = p.value(tt)
            return ("alloca", dest, t, n)
        if op == "extractvalue":
            t = p.type()
            v = p.value(t)
            idx = []
            while p.eat(","):
                idx.append(int(p.next()))
            return ("extractvalue", dest, v, idx)
        if op == "insertvalue":
            t = p.type()
            v = p.value(t)
            p.expect(",")
            t2 = p.type()
            x = p.value(t2)
            idx = []
            while p.eat(","):
                idx.append(int(p.next()))
            return ("insertvalue", dest, v, x, idx)
        if op == "extractelement":
            t = p.type()
            v = p.value(t)
            p.expect(",")
            t2 = p.type()
            return ("extractelement", dest, v, p.value(t2))
        if op == "insertelement":
            t = p.type()
            v = p.value(t)
            p.expect(",")
            t2 = p.type()
            x = p.value(t2)
            p.expect(",")
            t3 = p.type()
            return ("insertelement", dest, v, x, p.value(t3))
        if op == "shufflevector":
            t = p.type()
            a = p.value(t)
            p.expect(",")
            t = p.type()
            b = p.value(t)
            p.expect(",")
            t3 = p.type()
            return ("shufflevector", dest, a, b, p.value(t3))
        if op == "atomicrmw":
            if p.peek() == "volatile":
                p.i += 1
            o = p.next()
            p.type()
            ptr = p.value(PTR)
            p.expect(",")
            t = p.type()
            return ("atomicrmw", dest, o, t, ptr, p.value(t))
        if op == "cmpxchg":
            while p.peek() in ("weak", "volatile"):
                p.i += 1
            p.type()
            ptr = p.value(PTR)
            p.expect(",")
            t = p.type()
            c = p.value(t)
            p.expect(",")
            p.type()
            return ("cmpxchg", dest, t, ptr, c, p.value(t))
        if op == "fence":
            return None
        if op in ("landingpad", "cleanuppad", "catchpad"):
            return ("unsupported", dest, op)
        if op in ("resume", "cleanupret"):
            return ("unreachable",)
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem", "fcmp", "fneg", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc"):
            return self.parse_float(op, dest, p)
        return ("unsupported", dest, op)

    def parse_float(self, op, dest, p):
        while p.peek() in ("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "nneg"):
            p.i += 1
        pred = None
        if op == "fcmp":
            pred = p.next()
        t = p.type()
        a = p.value(t)
        b = None
        t2 = t
        if p.eat(","):
            b = p.value(t)
        elif p.eat("to"):
            t2 = p.type()
        return ("float", dest, op, pred, t, t2, a, b)


def _congruence(root):
    """(m, r) with value = r modulo m; m is 0 if the value is r"""
    memo = {}

    def pow2(m, r):
        m &= -m
        return m, r % m

    def one(n, sub):
        if n.c is not None:
            return 0, n.c
        if n.vals is not None:
            r = min(n.vals)
            return math.gcd(*(v - r for v in n.vals)), r
        if n.op == "and":
            return n.a[1].c & -n.a[1].c, 0
        if n.op == "add":
            (m1, r1), (m2, r2) = sub
            m, r = math.gcd(m1, m2), r1 + r2
            top = 1 << n.w
            a, b = n.a
            (la, ha), (lb, hb) = E.urange(a), E.urange(b)
            if ha + hb < top:
                pass
            elif b.c is not None and la + b.c >= top:
                r -= top        # always wraps: a subtraction
            elif m:
                return pow2(m, r)
            return (m, r % m) if m else (0, r % top)
        if n.op == "mul" and n.a[1].c is not None:
            m, r = sub[0]
            c = n.a[1].c
            m, r = m * c, r * c
            if m and E.urange(n.a[0])[1] * c >= 1 << n.w:
                m = math.gcd(m, 1 << n.w)
            return (m, r % m) if m else (0, r % (1 << n.w))
        if n.op == "concat":
            low = n.a[-1]
            m, r = sub[0]
            if low.c is not None:
                return 1 << low.w, low.c
            return pow2(m, r)
        if n.op == "zext":
            return sub[0]
        if n.op == "ite":
            (m1, r1), (m2, r2) = sub
            m = math.gcd(m1, m2, abs(r1 - r2))
            return (m, r1 % m) if m else (0, r1)
        return 1, 0

    def kids(n):
        if n.c is not None or n.vals is not None:
            return ()
        if n.op == "and" and n.a[1].c:
            return n.a[:1]
        if n.op == "add" and len(n.a) == 2:
            return n.a
        if n.op == "mul" and n.a[1].c is not None or n.op == "zext":
            return n.a[:1]
        if n.op == "concat":
            return n.a[-1:]
        if n.op == "ite":
            return n.a[1:]
        return ()

    stack = [root]
    while stack:
        n = stack[-1]
        if n in memo:
            stack.pop()
            continue
        ks = kids(n)
        todo = [k for k in ks if k not in memo]
        if todo:
            stack.extend(todo)
            continue
        memo[n] = one(n, [memo[k] for k in ks]) if ks or n.c is not None or n.vals is not None else (1, 0)
        stack.pop()
    m, r = memo[root]
    return (m, r % m) if m else (0, r)


def _cost(n):
    if n.c is not None:
        return 0
    if n.op == "not":
        n = n.a[0]
    if n.op in ("and", "or"):
        return 3 + sum(2 if x.op in ("and", "or", "xor", "ite") else 1 for x in n.a)
    return 1


def _strip_meta(s):
    if "!" not in s:
        return s
    # cut ", !xxx !n" / ", !xxx !{...}" suffixes outside strings
    out = []
    i = 0
    n = len(s)
    inq = False
    while i < n:
        ch = s[i]
        if ch == '"':
            inq = not inq
        if not inq and ch == "," and s[i:i + 3] == ", !":
            j = s.find("]", i)
            rest = s[i:]
            m = re.match(r',\s*![\w.]+(?:\s+!\d+|\s+!\{[^}]*\}|\s+![\w.]+\([^)]*\))?', rest)
            if m:
                i += m.end()
                continue
        out.append(ch)
        i += 1
    return "".join(out)


def _ret_type(p):
    """tokens between 'define' and the name: linkage/cc/attrs then the type"""
    toks = p.t
    # try every start position, the type must consume the rest
    for i in range(len(toks)):
        q = P(toks, p.e)
        q.i = i
        try:
            t = q.type()
        except (SyntaxError, IndexError, ValueError, KeyError):
            continue
        if q.i == len(toks):
            return t
    raise SyntaxError("return type of " + " ".join(toks))


def _uses(ins):
    op = ins[0]
    out = []

    def add(x):
        if isinstance(x, str) and x and x[0] == "%":
            out.append(x)
    if op == "load":
        add(ins[3])
    elif op == "store":
        add(ins[3])
        add(ins[4])
    elif op == "gep":
        add(ins[3])
        for x in ins[4]:
            add(x)
    elif op in ("bin", "icmp"):
        add(ins[3])
        add(ins[4])
    elif op == "cast":
        add(ins[4])
    elif op == "copy":
        add(ins[2])
    elif op == "select":
        add(ins[2])
        add(ins[3])
        add(ins[4])
    elif op == "cbr":
        add(ins[1])
    elif op == "switch":
        add(ins[1])
    elif op == "ret":
        add(ins[1])
    elif op in ("call", "invoke"):
        add(ins[2])
        for x in ins[3]:
            add(x)
    elif op == "alloca":
        add(ins[3])
    elif op == "extractvalue":
        add(ins[2])
    elif op in ("insertvalue", "extractelement"):
        add(ins[2])
        add(ins[3])
    elif op in ("insertelement",):
        add(ins[2])
        add(ins[3])
        add(ins[4])
    elif op == "shufflevector":
        add(ins[2])
        add(ins[3])
    elif op == "atomicrmw":
        add(ins[4])
        add(ins[5])
    elif op == "cmpxchg":
        add(ins[3])
        add(ins[4])
        add(ins[5])
    elif op == "float":
        add(ins[6])
        add(ins[7])
    return out


def _def(ins):
    if ins[0] in ("br", "cbr", "switch", "ret", "unreachable", "store"):
        return None
    return ins[1]


def _wto(entry, succ):
    """weak topological order (Bourdoncle): loop bodies contiguous, before loop exits"""
    out = []

    def sccs(nodes, starts):
        """Tarjan restricted to `nodes`; returns SCCs in topological order"""
        index = {}
        low = {}
        onst = set()
        stack = []
        res = []
        cnt = [0]
        for s0 in starts:
            if s0 in index or s0 not in nodes:
                continue
            work = [(s0, iter([x for x in succ[s0] if x in nodes]))]
            index[s0] = low[s0] = cnt[0]
            cnt[0] += 1
            stack.append(s0)
            onst.add(s0)
            while work:
                v, it = work[-1]
                adv = False
                for w in it:
                    if w not in index:
                        index[w] = low[w] = cnt[0]
                        cnt[0] += 1
                        stack.append(w)
                        onst.add(w)
                        work.append((w, iter([x for x in succ[w] if x in nodes])))
                        adv = True
                        break
                    elif w in onst:
                        low[v] = min(low[v], index[w])
                if adv:
                    continue
                work.pop()
                if work:
                    u = work[-1][0]
                    low[u] = min(low[u], low[v])
                if low[v] == index[v]:
                    comp = []
                    while True:
                        w = stack.pop()
                        onst.discard(w)
                        comp.append(w)
                        if w == v:
                            break
                    res.append((v, comp))
        res.reverse()
        return res

    def go(nodes, starts):
        for head, comp in sccs(nodes, starts):
            if len(comp) == 1:
                out.append(head)
            else:
                out.append(head)
                rest = set(comp)
                rest.discard(head)
                go(rest, [x for x in succ[head] if x in rest])

    allnodes = set()
    work = [entry]
    while work:
        b = work.pop()
        if b in allnodes:
            continue
        allnodes.add(b)
        work.extend(succ[b])
    go(allnodes, [entry])
    return out


BINOPS = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr"}
IGNORE_INTR = {"assume", "dbg", "prefetch", "invariant", "sideeffect"}


# ------------------------------------------------------------------ simple instructions
def o_load(e, st, env, ins):
    p = ins[3]
    env[ins[1]] = e.load(st, ins[2], env[p] if isinstance(p, str) else p)


def o_store(e, st, env, ins):
    v = ins[3]
    p = ins[4]
    e.store(st, ins[2], env[v] if isinstance(v, str) else v, env[p] if isinstance(p, str) else p)


def o_gep(e, st, env, ins):
    b = ins[3]
    env[ins[1]] = L.gep(env[b] if isinstance(b, str) else b, ins[2],
                        [env[i] if isinstance(i, str) else i for i in ins[4]])


def o_bin(e, st, env, ins):
    a, b = ins[3], ins[4]
    if isinstance(a, str):
        a = env[a]
    if isinstance(b, str):
        b = env[b]
    if isinstance(a, tuple):
        env[ins[1]] = tuple(binop(ins[2], x, y) for x, y in zip(a, b))
    else:
        env[ins[1]] = binop(ins[2], a, b)


def o_icmp(e, st, env, ins):
    a, b = ins[3], ins[4]
    if isinstance(a, str):
        a = env[a]
    if isinstance(b, str):
        b = env[b]
    if isinstance(a, tuple):
        env[ins[1]] = tuple(E.cmp(ins[2], x, y) for x, y in zip(a, b))
    else:
        env[ins[1]] = E.cmp(ins[2], a, b)


def o_cast(e, st, env, ins):
    _, d, op, t, v, t2 = ins
    if isinstance(v, str):
        v = env[v]
    if op == "bitcast":
        if t[0] == "vec" or t2[0] == "vec":
            n = size_of(t)
            if t[0] == "vec":
                x = E.concat(list(reversed(v)))
            else:
                x = v
            if t2[0] == "vec":
                w = e.width(t2[2])
                v = tuple(E.extract(x, i * w + w - 1, i * w) for i in range(t2[1]))
            else:
                v = x
        env[d] = v
        return
    if isinstance(v, tuple):
        w = e.width(t2[2])
        f = {"zext": E.zext, "sext": E.sext, "trunc": E.trunc}[op]
        env[d] = tuple(f(x, w) for x in v)
        return
    w = e.width(t2)
    if op == "zext":
        env[d] = E.zext(v, w)
    elif op == "sext":
        env[d] = E.sext(v, w)
    elif op == "trunc":
        env[d] = E.trunc(v, w)
    else:
        env[d] = v if v.w == w else (E.trunc(v, w) if v.w > w else E.zext(v, w))


def o_copy(e, st, env, ins):
    v = ins[2]
    env[ins[1]] = env[v] if isinstance(v, str) else v


def o_select(e, st, env, ins):
    c, a, b = ins[2], ins[3], ins[4]
    if isinstance(c, str):
        c = env[c]
    if isinstance(a, str):
        a = env[a]
    if isinstance(b, str):
        b = env[b]
    if isinstance(c, tuple):
        env[ins[1]] = tuple(ite(x, y, z) for x, y, z in zip(c, a, b))
    else:
        env[ins[1]] = e.vmerge(c, a, b) if c.c is None else (a if c.c else b)


def o_extractvalue(e, st, env, ins):
    v = e.val(env, ins[2])
    for i in ins[3]:
        v = v[i]
    env[ins[1]] = v


def _ins(v, idx, x):
    i = idx[0]
    l = list(v)
    l[i] = x if len(idx) == 1 else _ins(v[i], idx[1:], x)
    return tuple(l)


def o_insertvalue(e, st, env, ins):
    env[ins[1]] = _ins(e.val(env, ins[2]), ins[4], e.val(env, ins[3]))


def o_extractelement(e, st, env, ins):
    v = e.val(env, ins[2])
    i = e.val(env, ins[3])
    if i.c is not None:
        env[ins[1]] = v[i.c]
    else:
        r = v[-1]
        for k in range(len(v) - 2, -1, -1):
            r = ite(eq(i, const(k, i.w)), v[k], r)
        env[ins[1]] = r


def o_insertelement(e, st, env, ins):
    v = list(e.val(env, ins[2]))
    x = e.val(env, ins[3])
    i = e.val(env, ins[4])
    for k in range(len(v)):
        v[k] = ite(eq(i, const(k, i.w)), x, v[k])
    env[ins[1]] = tuple(v)


def o_shuffle(e, st, env, ins):
    a = e.val(env, ins[2])
    b = e.val(env, ins[3])
    m = ins[4]
    ab = tuple(a) + tuple(b)
    env[ins[1]] = tuple(ab[i.c] if i.c is not None else ab[0] for i in m)


def o_atomicrmw(e, st, env, ins):
    _, d, o, t, p, v = ins
    p = e.val(env, p)
    v = e.val(env, v)
    old = e.load(st, t, p)
    if o == "xchg":
        n = v
    elif o in ("add", "sub", "and", "or", "xor"):
        n = binop(o, old, v)
    elif o in ("umax", "umin", "max", "min"):
        c = E.cmp("ult" if o[0] == "u" else "slt", old, v)
        n = ite(c, v, old) if o.endswith("max") else ite(c, old, v)
    else:
        raise Unsupported("atomicrmw " + o)
    e.store(st, t, n, p)
    if d:
        env[d] = old


def o_cmpxchg(e, st, env, ins):
    _, d, t, p, c, n = ins
    p = e.val(env, p)
    c = e.val(env, c)
    n = e.val(env, n)
    old = e.load(st, t, p)
    same = eq(old, c)
    e.store(st, t, ite(same, n, old), p)
    if d:
        env[d] = (old, same)


def o_float(e, st, env, ins):
    _, d, op, pred, t, t2, a, b = ins
    a = e.val(env, a)
    b = e.val(env, b) if b is not None else None
    if not isinstance(a, E.N) or (b is not None and not isinstance(b, E.N)):
        raise Unsupported("floating point vectors")
    if op in ("sitofp", "uitofp"):
        env[d] = E.itofp(a, op[0] == "s", t2[1])
    elif op == "fneg":
        env[d] = E.fneg(a)
    elif op in ("fadd", "fsub", "fmul", "fdiv"):
        env[d] = E.fbin(op, a, b)
    elif op == "fcmp":
        f = E.fbin
        env[d] = {"oeq": lambda: f("foeq", a, b), "une": lambda: not_(f("foeq", a, b)),
                  "olt": lambda: f("folt", a, b), "ogt": lambda: f("folt", b, a),
                  "ole": lambda: f("fole", a, b), "oge": lambda: f("fole", b, a),
                  "ult": lambda: not_(f("fole", b, a)), "ugt": lambda: not_(f("fole", a, b)),
                  "ule": lambda: not_(f("folt", b, a)), "uge": lambda: not_(f("folt", a, b)),
                  "one": lambda: or_(f("folt", a, b), f("folt", b, a)),
                  "ueq": lambda: not_(or_(f("folt", a, b), f("folt", b, a))),
                  "uno": lambda: f("funo", a, b), "ord": lambda: not_(f("funo", a, b)),
                  "true": lambda: TRUE, "false": lambda: FALSE}[pred]()
    elif op in ("fptosi", "fptoui") and a.c is None:
        r = E.ftoi(op, a, op == "fptosi", t2[1])
        if r is None:
            raise Unsupported("symbolic floating point " + op)
        env[d] = r
    elif op in ("fpext", "fptrunc"):
        w1, w2 = t[1], t2[1]
        r = E.fmap(op, lambda v: E.fenc(E.fdec(v, w1), w2), a, w2)
        if r is None:
            raise Unsupported("symbolic floating point " + op)
        env[d] = r
    elif a.c is None:
        raise Unsupported("symbolic floating point " + op)
    else:
        x = E.fdec(a.c, t[1])
        if op in ("fptosi", "fptoui"):
            env[d] = const(int(x), t2[1])
        elif op in ("fpext", "fptrunc"):
            env[d] = const(E.fenc(x, t2[1]), t2[1])
        else:
            raise Unsupported(op)


def o_unsupported(e, st, env, ins):
    raise Unsupported(f"{ins[2]} in {e.where()}")


OPS = {"load": o_load, "store": o_store, "gep": o_gep, "bin": o_bin, "icmp": o_icmp, "cast": o_cast, "copy": o_copy,
       "select": o_select, "extractvalue": o_extractvalue, "insertvalue": o_insertvalue,
       "extractelement": o_extractelement, "insertelement": o_insertelement, "shufflevector": o_shuffle,
       "atomicrmw": o_atomicrmw, "cmpxchg": o_cmpxchg, "float": o_float, "unsupported": o_unsupported}


# ------------------------------------------------------------------ hooks: intrinsics, allocator, harness calls
DEAD = object()


def h_below(e, st, args, ins):
    n = args[0].c
    if n is None:
        raise Unsupported("vf_below with a symbolic bound")
    w = e.width(ins[4])
    k = len(e.syms)
    if e.case is not None and k < len(e.case):
        v = const(min(e.case[k], n - 1), w)
        e.syms.append((None, v, st.path.full, n))
        return v
    if n <= 1:
        v = const(0, w)
        e.syms.append((None, v, st.path.full, n))
        return v
    if n <= 2:
        b = E.fresh(f"b{k}", 1)
        v = ite(b, const(1, w), const(0, w))
    else:
        s = E.fresh(f"n{k}", max(2, (n - 1).bit_length()))
        v = const(n - 1, w)
        for i in range(n - 2, -1, -1):
            v = ite(eq(s, const(i, s.w)), const(i, w), v)
    e.syms.append((1, v, st.path.full, n))
    return v


def h_any(e, st, args, ins):
    bits = args[0].c
    k = len(e.syms)
    w = e.width(ins[4])
    if e.case is not None and k < len(e.case):
        v = const(e.case[k], w)
        e.syms.append((None, v, st.path.full, -bits))
        return v
    s = E.fresh(f"a{k}", bits)
    v = E.zext(s, w)
    e.syms.append((1, v, st.path.full, -bits))
    return v


def _b(x):
    return x if x.w == 1 else not_(eq(x, const(0, x.w)))


def h_assume(e, st, args, ins):
    c = _b(args[0])
    st.path = ext(st.path, c)
    if st.path.full is FALSE:
        return DEAD
    if not e.feasible(st.path.full):
        return DEAD
    return None


def _ids(e, st, x):
    """harness ids: the optimiser may have merged several calls into one"""
    if x.c is not None:
        return [(x.c, TRUE)]
    return [(v, eq(x, const(v, x.w))) for v in e.possible(st, x)]


def h_check(e, st, args, ins):
    c = _b(args[0])
    for i, here in _ids(e, st, args[1]):
        e.nchecks = getattr(e, "nchecks", 0) + 1
        g = and_(and_(st.path.full, here), not_(c))
        e.checks_seen[i] = e.checks_seen.get(i, 0) + 1
        e.oblige("check", f"check {i}", g)
    return None


def h_cover(e, st, args, ins):
    for i, here in _ids(e, st, args[0]):
        e.covers[i] = or_(e.covers.get(i, FALSE), and_(st.path.full, here))
    return None


def h_is_concrete(e, st, args, ins):
    return const(1 if args[0].c is not None else 0, e.width(ins[4]))


def do_alloc(e, st, size, zero=False):
    if size.c is None:
        vs = e.possible(st, size)
        n = max(vs) if vs else 0
    else:
        n = size.c
    if n > 1 << 28:
        big = and_(st.path.full, E.cmp("ugt", size, const(1 << 28, 64)))
        ok = [v for v in vs if v <= 1 << 28] if size.c is None else None
        if ok and not e.feasible(big):
            return const(e.new_object(st, max(ok), (const(0, 8), 0) if zero else None), 64)
        if e.feasible(st.path.full):
            raise Unsupported(f"allocation of {n} bytes in {e.where()}")
        raise Infeasible
    return const(e.new_object(st, n, (const(0, 8), 0) if zero else None), 64)


def h_alloc(e, st, args, ins):
    return do_alloc(e, st, args[0])


def h_alloc_zeroed(e, st, args, ins):
    return do_alloc(e, st, args[0], True)


def h_calloc(e, st, args, ins):
    return do_alloc(e, st, binop("mul", args[0], args[1]), True)


def h_posix_memalign(e, st, args, ins):
    p = do_alloc(e, st, args[2])
    e.store(st, PTR, p, args[0])
    return const(0, 32)


def h_free(e, st, args, ins):
    p = args[0]
    if p.c is not None:
        r = e.find_obj(p.c)
        if r is not None:
            st.mem.pop(r[0], None)
    return None


def do_realloc(e, st, p, old, size):
    q = do_alloc(e, st, size)
    oid = (q.c - 4096 - BASE) >> 20
    n = st.mem[oid].size
    # copy min(old, new) bytes; beyond that the content is uninitialised
    if old.c is not None and size.c is not None:
        m = min(old.c, size.c)
        if m:
            e.memcpy(st, q, p, const(m, 64))
    else:
        m = ite(E.cmp("ult", old, size), old, size)
        e.memcpy(st, q, p, m)
    h_free(e, st, [p], None)
    return q


def h_realloc(e, st, args, ins):
    p, size = args
    old = None
    for g, oid, off in e.resolve(p):
        n = const(st.mem[oid].size if oid in st.mem else 0, 64)
        old = n if old is None else ite(g, n, old)
    return do_realloc(e, st, p, old, size)


def h_rust_realloc(e, st, args, ins):
    return do_realloc(e, st, args[0], args[1], args[3])


def h_nop(e, st, args, ins):
    rt = ins[4]
    if rt[0] == "void":
        return None
    return e.zero(rt)


def h_memcpy(e, st, args, ins):
    e.memcpy(st, args[0], args[1], args[2])


def h_memmove(e, st, args, ins):
    e.memmove(st, args[0], args[1], args[2])


def h_memset(e, st, args, ins):
    n = args[2]
    v = args[1]
    if n.c is not None:
        if n.c:
            e.write_cells(st, args[0], [(v, 0)] * n.c)
        return None
    mx = 0
    for hi in e.possible(st, n):
        if hi > mx:
            c = not_(E.cmp("ult", n, const(hi, 64)))
            p2 = State(ext(st.path, c), st.mem)
            p2.tok = st.tok
            try:
                d = e.read_cells(p2, binop("add", args[0], const(mx, 64)), hi - mx)
                e.write_cells(p2, binop("add", args[0], const(mx, 64)), merge_cells(c, [(v, 0)] * (hi - mx), d))
            except Infeasible:
                pass
            mx = hi
    return None


def h_bcmp(e, st, args, ins, signed=False):
    a, b, n = args

    def prefix_ne(m):
        if m == 0:
            return FALSE
        x = e.read_cells(st, a, m)
        y = e.read_cells(st, b, m)
        same = TRUE
        for p, q in zip(x, y):
            if p is not None and q is not None and (p == q):
                continue
            p = cell_byte(p) if p is not None else E.fresh("undef", 8)
            q = cell_byte(q) if q is not None else E.fresh("undef", 8)
            same = and_(same, eq(p, q))
            if same is FALSE:
                break
        return not_(same)
    if n.c is not None:
        ne = prefix_ne(n.c)
    else:
        ne = FALSE
        for m in e.possible(st, n):
            c = eq(n, const(m, 64))
            if c is FALSE:
                continue
            try:
                s2 = State(ext(st.path, c), st.mem)
                x = prefix_ne(m)
            except Infeasible:
                continue
            ne = or_(ne, and_(c, x))
    return ite(ne, const(1, 32), const(0, 32))


def h_memcmp(e, st, args, ins):
    a, b, n = args
    if n.c is None:
        vs = e.possible(st, n)
    else:
        vs = [n.c]
    res = const(0, 32)
    for m in vs:
        c = eq(n, const(m, 64))
        if c is FALSE or m == 0:
            continue
        try:
            x = e.read_cells(st, a, m)
            y = e.read_cells(st, b, m)
        except Infeasible:
            continue
        r = const(0, 32)
        for p, q in reversed(list(zip(x, y))):
            p = cell_byte(p)
            q = cell_byte(q)
            r = ite(eq(p, q), r, ite(E.cmp("ult", p, q), const(-1, 32), const(1, 32)))
        res = ite(c, r, res)
    return res


def h_strlen(e, st, args, ins):
    p = args[0]
    n = 0
    while True:
        b = e.load(st, ("i", 8), binop("add", p, const(n, 64)))
        if b.c is None:
            raise Unsupported("strlen of symbolic bytes")
        if b.c == 0:
            return const(n, 64)
        n += 1


def _vec(f):
    def g(e, st, args, ins):
        if isinstance(args[0], tuple):
            k = len(args[0])
            return tuple(f(*[a[i] if isinstance(a, tuple) else a for a in args]) for i in range(k))
        return f(*args)
    return g


def _minmax(op, pick_less):
    def f(a, b, *r):
        c = E.cmp(op, a, b)
        return ite(c, a, b) if pick_less else ite(c, b, a)
    return _vec(f)


def _with_ov(op, signed):
    def f(e, st, args, ins):
        a, b = args
        w = a.w
        x = (E.sext if signed else E.zext)(a, 2 * w)
        y = (E.sext if signed else E.zext)(b, 2 * w)
        wide = binop(op, x, y)
        r = E.trunc(wide, w)
        if a.c is not None and b.c is not None or op != "mul":
            if op == "add" and not signed:
                ov = E.cmp("ult", r, a)
            elif op == "sub" and not signed:
                ov = E.cmp("ult", a, b)
            else:
                ov = not_(eq((E.sext if signed else E.zext)(r, 2 * w), wide))
        else:
            ov = not_(eq((E.sext if signed else E.zext)(r, 2 * w), wide))
        r2 = binop(op, a, b)
        return (r2, ov)
    return f


def _sat(op, signed):
    def f(a, b):
        w = a.w
        if not signed:
            if op == "sub":
                return ite(E.cmp("ult", a, b), const(0, w), binop("sub", a, b))
            r = binop("add", a, b)
            return ite(E.cmp("ult", r, a), const(-1, w), r)
        x = binop(op, E.sext(a, w + 1), E.sext(b, w + 1))
        mx = const((1 << (w - 1)) - 1, w)
        mn = const(1 << (w - 1), w)
        return ite(E.cmp("slt", E.sext(mx, w + 1), x), mx, ite(E.cmp("slt", x, E.sext(mn, w + 1)), mn, E.trunc(x, w)))
    return _vec(f)


def _bits(x):
    return [E.extract(x, i, i) for i in range(x.w)]


def i_ctpop(a):
    if a.c is not None:
        return const(bin(a.c).count("1"), a.w)
    r = const(0, a.w)
    for b in _bits(a):
        r = binop("add", r, E.zext(b, a.w))
    return r


def i_cttz(a, z=None):
    if a.c is not None:
        return const((a.c & -a.c).bit_length() - 1 if a.c else a.w, a.w)
    r = const(a.w, a.w)
    for i in range(a.w - 1, -1, -1):
        r = ite(E.extract(a, i, i), const(i, a.w), r)
    return r


def i_ctlz(a, z=None):
    if a.c is not None:
        return const(a.w - a.c.bit_length(), a.w)
    r = const(a.w, a.w)
    for i in range(a.w):
        r = ite(E.extract(a, i, i), const(a.w - 1 - i, a.w), r)
    return r


def i_bswap(a):
    return E.concat([E.extract(a, 8 * i + 7, 8 * i) for i in range(a.w // 8)])


def i_bitreverse(a):
    if a.c is not None:
        return const(int(bin(a.c)[2:].zfill(a.w)[::-1], 2), a.w)
    return E.concat([E.extract(a, i, i) for i in range(a.w)])


def i_fshl(a, b, c):
    w = a.w
    if c.c is not None:
        k = c.c % w
        if k == 0:
            return a
        return E.concat([E.extract(a, w - 1 - k, 0), E.extract(b, w - 1, w - k)])
    wide = E.concat([a, b])
    s = E.zext(binop("urem", c, const(w, w)), 2 * w)
    return E.extract(binop("shl", wide, s), 2 * w - 1, w)


def i_fshr(a, b, c):
    w = a.w
    if c.c is not None:
        k = c.c % w
        if k == 0:
            return b
        return E.concat([E.extract(a, k - 1, 0), E.extract(b, w - 1, k)])
    wide = E.concat([a, b])
    s = E.zext(binop("urem", c, const(w, w)), 2 * w)
    return E.extract(binop("lshr", wide, s), w - 1, 0)


def h_ucmp(e, st, args, ins):
    a, b = args
    w = e.width(ins[4])
    return ite(E.cmp("ult", a, b), const(-1, w), ite(eq(a, b), const(0, w), const(1, w)))


def h_scmp(e, st, args, ins):
    a, b = args
    w = e.width(ins[4])
    return ite(E.cmp("slt", a, b), const(-1, w), ite(eq(a, b), const(0, w), const(1, w)))


def h_is_constant(e, st, args, ins):
    return FALSE


def h_trap(e, st, args, ins):
    e.oblige("panic", f"trap in {e.where()}", st.path.full)
    return DEAD


def h_fround(kind):
    def f(e, st, args, ins):
        r = E.fround(kind, args[0])
        if r is None:
            raise Unsupported("symbolic floating point " + kind)
        return r
    return f


def h_ftoi(signed):
    def f(e, st, args, ins):
        w = e.width(ins[4])
        r = E.ftoi("fptosi" if signed else "fptoui", args[0], signed, w)
        if r is None:
            raise Unsupported("symbolic floating point to integer")
        return r
    return f


def h_fabs(e, st, args, ins):
    return binop("and", args[0], const((1 << args[0].w - 1) - 1, args[0].w))


def h_fminmax(mn):
    def f(e, st, args, ins):
        x, y = args[:2]
        less = E.fbin("folt", *((x, y) if mn else (y, x)))
        return ite(E.fbin("funo", x, x), y, ite(or_(less, E.fbin("funo", y, y)), x, y))
    return f


def h_abs(e, st, args, ins):
    a = args[0]
    return ite(E.cmp("slt", a, const(0, a.w)), E.neg(a), a)


def h_load_relative(e, st, args, ins):
    off = e.load(st, ("i", 32), binop("add", args[0], args[1]))
    return binop("add", args[0], E.sext(off, 64))


def _reduce(op):
    def f(e, st, args, ins):
        v = args[0]
        r = v[0]
        for x in v[1:]:
            r = binop(op, r, x)
        return r
    return f


HOOKS = [(re.compile(p), f) for p, f in [
    (r'^@vf_below$', h_below), (r'^@vf_any$', h_any), (r'^@vf_assume$', h_assume), (r'^@vf_check$', h_check),
    (r'^@vf_cover$', h_cover), (r'^@vf_is_concrete$', h_is_concrete),
    (r'_alloc_zeroed\b|12___rust_alloc_zeroed|19___rust_alloc_zeroed', h_alloc_zeroed),
    (r'no_alloc_shim', h_nop),
    (r'___rust_alloc$|^@__rust_alloc$|12___rust_alloc$', h_alloc),
    (r'___rust_dealloc$|^@__rust_dealloc$|^@free$', h_free),
    (r'___rust_realloc$|^@__rust_realloc$', h_rust_realloc),
    (r'^@malloc$', h_alloc), (r'^@realloc$', h_realloc), (r'^@calloc$', h_calloc), (r'^@posix_memalign$', h_posix_memalign),
    (r'^@llvm\.memcpy', h_memcpy), (r'^@memcpy$', h_memcpy), (r'^@llvm\.memmove', h_memmove), (r'^@llvm\.memset', h_memset),
    (r'^@bcmp$', h_bcmp), (r'^@memcmp$', h_memcmp), (r'^@strlen$', h_strlen),
    *[(r'^@llvm\.%s\.f' % k, h_fround(k)) for k in ("round", "floor", "ceil", "trunc", "rint", "roundeven", "nearbyint")],
    (r'^@llvm\.fptosi\.sat', h_ftoi(True)), (r'^@llvm\.fptoui\.sat', h_ftoi(False)), (r'^@llvm\.fabs', h_fabs),
    (r'^@llvm\.min(imum)?num', h_fminmax(True)), (r'^@llvm\.max(imum)?num', h_fminmax(False)),
    (r'^@llvm\.umax', _minmax("ult", False)), (r'^@llvm\.umin', _minmax("ult", True)),
    (r'^@llvm\.smax', _minmax("slt", False)), (r'^@llvm\.smin', _minmax("slt", True)),
    (r'^@llvm\.uadd\.with', _with_ov("add", False)), (r'^@llvm\.sadd\.with', _with_ov("add", True)),
    (r'^@llvm\.usub\.with', _with_ov("sub", False)), (r'^@llvm\.ssub\.with', _with_ov("sub", True)),
    (r'^@llvm\.umul\.with', _with_ov("mul", False)), (r'^@llvm\.smul\.with', _with_ov("mul", True)),
    (r'^@llvm\.uadd\.sat', _sat("add", False)), (r'^@llvm\.usub\.sat', _sat("sub", False)),
    (r'^@llvm\.sadd\.sat', _sat("add", True)), (r'^@llvm\.ssub\.sat', _sat("sub", True)),
    (r'^@llvm\.ctpop', _vec(i_ctpop)), (r'^@llvm\.cttz', _vec(i_cttz)), (r'^@llvm\.ctlz', _vec(i_ctlz)),
    (r'^@llvm\.bswap', _vec(i_bswap)), (r'^@llvm\.bitreverse', _vec(i_bitreverse)),
    (r'^@llvm\.fshl', _vec(i_fshl)), (r'^@llvm\.fshr', _vec(i_fshr)),
    (r'^@llvm\.ucmp', h_ucmp), (r'^@llvm\.scmp', h_scmp), (r'^@llvm\.abs', h_abs),
    (r'^@llvm\.is\.constant', h_is_constant), (r'^@llvm\.(ubsan)?trap', h_trap), (r'^@llvm\.load\.relative', h_load_relative),
    (r'^@llvm\.expect', lambda e, st, a, i: a[0]),
    (r'^@llvm\.threadlocal\.address', lambda e, st, a, i: a[0]),
    (r'^@llvm\.ptrmask', lambda e, st, a, i: binop("and", a[0], a[1])),
    (r'^@llvm\.vector\.reduce\.or', _reduce("or")), (r'^@llvm\.vector\.reduce\.and', _reduce("and")),
    (r'^@llvm\.vector\.reduce\.add', _reduce("add")),
    (r'^@llvm\.x86\.sse2\.pause', h_nop), (r'^@__cxa_thread_atexit_impl$', h_nop),
    (r'2io5stdio6__?print\b|2io5stdio6_print|2io5stdio7_eprint', h_nop),
]]
HOOKCACHE = {}


def run_harness(mod, entry, case=None, **kw):
    e = Engine(mod, **kw)
    e.checks_seen = {}
    e.case = case
    st = State(ROOT, {})
    t0 = time.time()
    try:
        res = e.run_fn("@" + entry, [], st)
    except Budget as b:
        b.engine = e
        raise
    e.t_exec = time.time() - t0
    e.returned = FALSE
    for s, _ in res:
        e.returned = or_(e.returned, s.path.full)
    return e
