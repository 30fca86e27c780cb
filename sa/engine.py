"""Whole-program, path-sensitive typestate dataflow over LLVM IR ("property simulation").

An abstract state is (SSA environment, abstract heap, ranges of value-numbered terms, ghost
facts).  Functions are analysed top-down on the canonicalised part of the heap reachable from
their arguments, with memoisation; inside a function, states meeting at a join point with the
same typestate skeleton are merged (ranges are joined) and loops run to a fixpoint with
widening.  No path is enumerated by a solver and no library code runs."""
import sys
from heapq import heappush, heappop
from .ir import AnalysisError, field_name

sys.setrecursionlimit(20000)

# ------------------------------------------------------------------ ranges (unsigned intervals)
_FULL = {}


def full(w):
    r = _FULL.get(w)
    if r is None:
        r = _FULL[w] = ((0, (1 << w) - 1),)
    return r


def r_inter(a, b):
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo = max(a[i][0], b[j][0])
        hi = min(a[i][1], b[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def r_union(a, b):
    if a == b:
        return a
    s = sorted(a + b)
    out = [s[0]]
    for lo, hi in s[1:]:
        if lo <= out[-1][1] + 1:
            if hi > out[-1][1]:
                out[-1] = (out[-1][0], hi)
        else:
            out.append((lo, hi))
    while len(out) > 12:
        k = min(range(len(out) - 1), key=lambda i: out[i + 1][0] - out[i][1])
        out[k:k + 2] = [(out[k][0], out[k + 1][1])]
    return tuple(out)


def r_compl(a, w):
    out = []
    p = 0
    for lo, hi in a:
        if lo > p:
            out.append((p, lo - 1))
        p = hi + 1
    m = (1 << w) - 1
    if p <= m:
        out.append((p, m))
    return tuple(out)


def r_has(a, v):
    for lo, hi in a:
        if lo <= v <= hi:
            return True
    return False


def cmp_set(pred, c, w):
    """set of x with (x pred c)"""
    m = (1 << w) - 1
    h = 1 << (w - 1)
    if pred == "eq":
        return ((c, c),)
    if pred == "ne":
        return r_compl(((c, c),), w)
    if pred == "ult":
        return ((0, c - 1),) if c > 0 else ()
    if pred == "ule":
        return ((0, c),)
    if pred == "ugt":
        return ((c + 1, m),) if c < m else ()
    if pred == "uge":
        return ((c, m),)
    neg = ((h, m),)
    if pred in ("slt", "sle"):
        incl = pred == "sle"
        if c < h:
            hi = c if incl else c - 1
            pos = ((0, hi),) if hi >= 0 else ()
            return r_union(pos, neg) if pos else neg
        hi = c if incl else c - 1
        return ((h, hi),) if hi >= h else ()
    if pred in ("sgt", "sge"):
        return r_compl(cmp_set("sle" if pred == "sgt" else "slt", c, w), w)
    raise AnalysisError("pred " + pred)


INV = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ule": "ugt", "ugt": "ule",
       "slt": "sge", "sge": "slt", "sle": "sgt", "sgt": "sle"}
SWAP = {"eq": "eq", "ne": "ne", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule",
        "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}
SIGNED = {"slt", "sle", "sgt", "sge"}


def c_(v, w):
    return ("c", v & ((1 << w) - 1), w)


NULL = ("c", 0, 64)
UNDEF = ("u",)


def width(t):
    k = t[0]
    if k in ("c", "s"):
        return t[2]
    if k == "o":
        return t[2]
    return 64


def tsize(t):
    if t[0] == "o":
        return 1 + sum(tsize(x) for x in t[3:] if isinstance(x, tuple))
    if t[0] == "p" and not isinstance(t[2], int):
        return 1 + sum(tsize(x) for x, _ in t[2][2])
    return 1


_TS = {}


def _t_syms(t, out):
    k = t[0]
    if k == "s":
        out.append(t)
    elif k == "o":
        for x in t[3:]:
            if isinstance(x, tuple):
                _t_syms(x, out)
    elif k == "p":
        out.append(t)
        if not isinstance(t[2], int):
            for x, _ in t[2][2]:
                _t_syms(x, out)


def t_syms(t, out):
    """symbols and objects mentioned in a value"""
    k = t[0]
    if k == "s":
        out.append(t)
    elif k == "c":
        return
    elif k == "p" and isinstance(t[2], int):
        out.append(t)
    elif k == "o" or k == "p":
        r = _TS.get(t)
        if r is None:
            l = []
            _t_syms(t, l)
            if len(_TS) > 400000:
                _TS.clear()
            r = _TS[t] = tuple(l)
        out.extend(r)


# ------------------------------------------------------------------ objects and states
NULLC = ("c", 0, 64)
# "nothing here yet", written by an initialiser into a heap structure: still the constant 0, but not
# evidence of a failed operation
NIL = ("c", 0, 64, "nil")
# result of a failed operation
BAD = ("c", 0, 64, "bad")


def merged_name(n):
    """does the name (or what it was loaded from) stand for a value joined from several paths?"""
    if not isinstance(n, tuple):
        return False
    if n and n[0] in ("m", "mp", "e", "iv", "k"):
        return True
    return any(merged_name(x) for x in n)


class Obj:
    __slots__ = ("kind", "status", "default", "site", "size", "fields", "gen", "struct", "summ", "_refs", "_fns")

    def __init__(self, kind, default, site=None, size=None, struct=None):
        self.kind = kind          # alloca / heap / ext / global / param / fd / ...
        self.status = "live"
        self.default = default    # undef / zero / sym
        self.site = site
        self.size = size          # term
        self.fields = {}          # key -> (value, bytes)
        self.gen = 0
        self.struct = struct
        self.summ = False
        self._refs = None
        self._fns = None

    def refs(self):
        """symbols and objects mentioned by the contents (objects are copied before they are written)"""
        r = self._refs
        if r is None:
            l = []
            for k, (v, z) in self.fields.items():
                t_syms(v, l)
                if isinstance(k, tuple) and k[0] == "L":
                    for x, _ in k[2]:
                        t_syms(x, l)
            if self.size is not None and self.size[0] != "c":
                t_syms(self.size, l)
            r = self._refs = tuple(set(l))
        return r

    def fns(self):
        r = self._fns
        if r is None:
            r = self._fns = tuple(sorted(((k, v[1]) for k, (v, z) in self.fields.items() if v[0] == "fn"), key=repr))
        return r

    def copy(self):
        o = Obj.__new__(Obj)
        o.kind = self.kind
        o.status = self.status
        o.default = self.default
        o.site = self.site
        o.size = self.size
        o.fields = dict(self.fields)
        o.gen = self.gen
        o.struct = self.struct
        o.summ = self.summ
        o._refs = None
        o._fns = None
        return o


from math import gcd

OWNED = ("heap",)     # kinds that are leak-tracked are those with .site != None


class State:
    __slots__ = ("env", "mem", "cons", "ghost", "dead", "trail")

    def __init__(self):
        self.env = {}
        self.mem = {}
        self.cons = {}
        self.ghost = {}
        self.dead = False
        self.trail = None

    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.mem = dict(self.mem)
        s.cons = dict(self.cons)
        s.ghost = dict(self.ghost)
        s.dead = self.dead
        s.trail = self.trail
        return s

    def wobj(self, oid):
        o = self.mem[oid].copy()
        self.mem[oid] = o
        return o


def lin(off, delta_c, delta_v=()):
    """pointer offset arithmetic"""
    if isinstance(off, int):
        c, v = off, {}
    else:
        c, v = off[1], dict(off[2])
    c += delta_c
    for t, k in delta_v:
        v[t] = v.get(t, 0) + k
        if v[t] == 0:
            del v[t]
    if not v:
        return c
    return ("L", c, tuple(sorted(v.items(), key=repr)))


def lindiff(a, b):
    """constant difference a-b or None"""
    ac, av = (a, ()) if isinstance(a, int) else (a[1], a[2])
    bc, bv = (b, ()) if isinstance(b, int) else (b[1], b[2])
    return ac - bc if av == bv else None


class Conflict(Exception):
    """two states that must stay apart"""


class Report:
    def __init__(self, kind, inst, msg, key, stack, extra=None):
        self.kind, self.inst, self.msg, self.key, self.stack = kind, inst, msg, key, stack
        self.extra = extra or {}

    def text(self):
        return "%s: %s in %s() at %s [%s]" % (self.kind, self.msg, self.inst.fn.name, self.inst.loc(),
                                             " <- ".join(self.stack))


class Engine:
    CAPS = (8, 8, 8)
    CAPL = 6
    CAPX = 6
    CAP1 = 160
    CAPX4 = (560, 630)

    def __init__(self, mod, models, plugin=None, opts=None):
        self.M = mod
        self.models = models
        self.plugin = plugin
        self.reports = {}
        self.memo = {}
        self.stack = []
        self.stats = dict(contexts=0, blocks=0, calls=0, memohits=0, extcalls=0, exits=0)
        self.sites = {}
        self.fns_seen = set()
        self.opts = opts or {}
        self.tmax = self.opts.get("terms", 14)
        self.vn = self.opts.get("vn")
        self.unmodelled = {}
        self.active = []
        self._iv = {}
        self._web = {}
        self._cweb = {}
        if "caps" in self.opts:
            self.CAPS = self.opts["caps"]
            self.CAPL = self.opts.get("capl", self.CAPL)
            self.CAPX = self.opts.get("capx", self.CAPX)
        if plugin and plugin.ghost_weakens:
            self.CAPX4 = (120, 630)
        self.check_leaks = self.opts.get("leaks", True)

    # -------------------------------------------------------------- reporting
    def report(self, kind, inst, msg, key=None, extra=None):
        k = (kind, inst.fn.name, key if key is not None else inst.id)
        if k not in self.reports:
            self.reports[k] = Report(kind, inst, msg, k, [s.name for s in self.stack][::-1], extra)

    # -------------------------------------------------------------- terms
    def rng(self, st, t):
        k = t[0]
        if k == "c":
            return ((t[1], t[1]),)
        if k == "p":
            o = st.mem.get(t[1])
            if o is not None and o.kind == "fd":
                return ((0, 0x7fffffff),)
            if o is not None and o.kind == "child":
                return ((1, 0x7fffffff),)
            return ((1, (1 << 64) - 1),)
        if k == "fn":
            return ((1, (1 << 64) - 1),)
        if k == "u":
            return full(64)
        w = t[2]
        r = st.cons.get(t)
        if k == "s":
            return r if r is not None else full(w)
        s = self._srng(st, t)
        return r_inter(r, s) if r is not None else s

    def _srng(self, st, t):
        op, w = t[1], t[2]
        F = full(w)
        if op == "zext":
            return self.rng(st, t[3])
        if op == "sext":
            a = self.rng(st, t[3])
            iw = width(t[3])
            h = 1 << (iw - 1)
            pos = r_inter(a, ((0, h - 1),))
            neg = r_inter(a, ((h, (1 << iw) - 1),))
            d = (1 << w) - (1 << iw)
            return r_union(pos, tuple((lo + d, hi + d) for lo, hi in neg)) if pos and neg else \
                (pos or tuple((lo + d, hi + d) for lo, hi in neg) or F)
        if op == "trunc":
            a = self.rng(st, t[3])
            if a and a[-1][1] < (1 << w):
                return a
            return F
        if op in ("add", "sub", "mul"):
            a = self.rng(st, t[3])
            b = self.rng(st, t[4])
            if not a or not b:
                return F
            if op == "add":
                lo, hi = a[0][0] + b[0][0], a[-1][1] + b[-1][1]
            elif op == "sub":
                lo, hi = a[0][0] - b[-1][1], a[-1][1] - b[0][0]
            else:
                lo, hi = a[0][0] * b[0][0], a[-1][1] * b[-1][1]
            m = (1 << w) - 1
            if 0 <= lo and hi <= m:
                return ((lo, hi),)
            if op == "add" and t[4][0] == "c" and lo > m:
                return ((lo & m, hi & m),)
            return F
        if op == "and":
            b = self.rng(st, t[4])
            a = self.rng(st, t[3])
            m = min(b[-1][1] if b else F[0][1], a[-1][1] if a else F[0][1])
            return ((0, m),)
        if op == "lshr" and t[4][0] == "c":
            a = self.rng(st, t[3])
            if a:
                return ((a[0][0] >> t[4][1], a[-1][1] >> t[4][1]),)
        if op == "urem" and t[4][0] == "c" and t[4][1]:
            return ((0, t[4][1] - 1),)
        if op == "udiv" and t[4][0] == "c" and t[4][1]:
            a = self.rng(st, t[3])
            if a:
                return ((a[0][0] // t[4][1], a[-1][1] // t[4][1]),)
        if op == "icmp":
            v = self.cmp(st, t[3], t[4], t[5])
            if v is None:
                return ((0, 1),)
            return ((1, 1),) if v else ((0, 0),)
        if op == "select":
            return r_union(self.rng(st, t[4]), self.rng(st, t[5]))
        if op == "or":
            a, b = self.rng(st, t[3]), self.rng(st, t[4])
            if a and b:
                hi = max(a[-1][1], b[-1][1])
                return ((max(a[0][0], b[0][0]), (1 << hi.bit_length()) - 1),)
        return F

    def cmp(self, st, pred, a, b):
        """three-valued comparison"""
        if a == b and a[0] != "u":
            return pred in ("eq", "ule", "uge", "sle", "sge")
        if a[0] == "p" and b[0] == "p":
            if a[1] != b[1]:
                oa, ob = st.mem.get(a[1]), st.mem.get(b[1])
                if pred in ("eq", "ne") and oa is not None and ob is not None and not (oa.summ or ob.summ) \
                        and (oa.kind in ("heap", "alloca") and ob.kind in ("heap", "alloca")):
                    return pred == "ne"
                return None
            d = lindiff(a[2], b[2])
            if d is None:
                return None
            return {"eq": d == 0, "ne": d != 0, "ult": d < 0, "ule": d <= 0, "ugt": d > 0, "uge": d >= 0,
                    "slt": d < 0, "sle": d <= 0, "sgt": d > 0, "sge": d >= 0}[pred]
        r = st.cons.get(("o", "icmp", 1, pred, a, b))
        if r is not None and len(r) == 1 and r[0][0] == r[0][1]:
            return bool(r[0][0])
        w = max(width(a), 1)
        if a[0] == "p" and st.mem.get(a[1]) is not None and st.mem[a[1]].kind == "fd":
            w = 32
        ra, rb = self.rng(st, a), self.rng(st, b)
        if not ra or not rb:
            return None
        if len(rb) == 1 and rb[0][0] == rb[0][1]:
            S = cmp_set(pred, rb[0][0] & ((1 << w) - 1), w)
            i = r_inter(ra, S)
            if not i:
                return False
            if i == ra:
                return True
            return None
        if len(ra) == 1 and ra[0][0] == ra[0][1]:
            S = cmp_set(SWAP[pred], ra[0][0] & ((1 << w) - 1), w)
            i = r_inter(rb, S)
            if not i:
                return False
            if i == rb:
                return True
            return None
        alo, ahi, blo, bhi = ra[0][0], ra[-1][1], rb[0][0], rb[-1][1]
        if pred in SIGNED:
            h = 1 << (w - 1)
            if not ((ahi < h) and (bhi < h)):
                return None
        p = pred[-2:] if pred not in ("eq", "ne") else pred
        if p == "eq":
            return False if not r_inter(ra, rb) else None
        if p == "ne":
            return True if not r_inter(ra, rb) else None
        if p == "lt":
            return True if ahi < blo else False if alo >= bhi else None
        if p == "le":
            return True if ahi <= blo else False if alo > bhi else None
        if p == "gt":
            return True if alo > bhi else False if ahi <= blo else None
        if p == "ge":
            return True if alo >= bhi else False if ahi < blo else None
        return None

    def refine(self, st, t, S, depth=0):
        """constrain term t to S; returns False when infeasible"""
        r = r_inter(self.rng(st, t), S)
        if not r:
            return False
        k = t[0]
        if k in ("c", "p", "fn", "u"):
            return True
        st.cons[t] = r
        if depth > 8:
            return True
        if k == "o":
            op, w = t[1], t[2]
            if op == "icmp" and len(r) == 1 and r[0][0] == r[0][1]:
                return self.assume(st, t[3] if r[0][0] else INV[t[3]], t[4], t[5], depth + 1)
            if op == "zext":
                iw = width(t[3])
                return self.refine(st, t[3], r_inter(r, full(iw)) or ((0, 0),), depth + 1)
            if op == "sext":
                iw = width(t[3])
                m = (1 << iw) - 1
                h = 1 << (iw - 1)
                out = ()
                for lo, hi in r:
                    if hi < h:
                        out = r_union(out, ((lo, hi),)) if out else ((lo, hi),)
                    elif lo >= (1 << w) - h:
                        x = ((lo & m, hi & m),)
                        out = r_union(out, x) if out else x
                    else:
                        return True
                return self.refine(st, t[3], out, depth + 1)
            if op in ("add", "sub") and t[4][0] == "c":
                m = (1 << w) - 1
                d = t[4][1] if op == "sub" else -t[4][1]
                out = ()
                for lo, hi in r:
                    l2, h2 = (lo + d) & m, (hi + d) & m
                    seg = ((l2, h2),) if l2 <= h2 else r_union(((0, h2),), ((l2, m),))
                    out = r_union(out, seg) if out else seg
                return self.refine(st, t[3], out, depth + 1)
            if op == "trunc" and r != full(w):
                a = self.rng(st, t[3])
                if a and a[-1][1] < (1 << w):
                    return self.refine(st, t[3], r, depth + 1)
            if op == "and" and r == ((1, 1),) and w == 1:
                return self.refine(st, t[3], r, depth + 1) and self.refine(st, t[4], r, depth + 1)
            if op == "or" and r == ((0, 0),):
                return self.refine(st, t[3], r, depth + 1) and self.refine(st, t[4], r, depth + 1)
            if op == "xor" and w == 1 and t[4][0] == "c" and len(r) == 1 and r[0][0] == r[0][1]:
                v = r[0][0] ^ t[4][1]
                return self.refine(st, t[3], ((v, v),), depth + 1)
            if op == "select" and len(r) >= 1:
                fa = r_inter(self.rng(st, t[4]), r)
                fb = r_inter(self.rng(st, t[5]), r)
                if not fa:
                    return self.refine(st, t[3], ((0, 0),), depth + 1)
                if not fb:
                    return self.refine(st, t[3], ((1, 1),), depth + 1)
        return True

    def assume(self, st, pred, a, b, depth=0):
        v = self.cmp(st, pred, a, b)
        if v is False:
            return False
        if v is True and pred != "eq":
            pass
        if a[0] == "p" and b[0] == "p":
            return True
        ra, rb = self.rng(st, a), self.rng(st, b)
        wa, wb = width(a), width(b)
        ok = True
        if a[0] not in ("c", "p", "fn", "u") and rb:
            if len(rb) == 1 and rb[0][0] == rb[0][1]:
                ok = ok and self.refine(st, a, cmp_set(pred, rb[0][0], wa), depth + 1)
            elif pred == "eq":
                ok = ok and self.refine(st, a, rb, depth + 1)
            elif pred in ("ult", "ule") or (pred in ("slt", "sle") and rb[-1][1] < 1 << (wa - 1)):
                hi = rb[-1][1] - (1 if pred.endswith("lt") else 0)
                if hi < 0:
                    return False
                ok = ok and self.refine(st, a, cmp_set(pred[0] + "le", hi, wa), depth + 1)
            elif pred in ("ugt", "uge") or (pred in ("sgt", "sge") and rb[-1][1] < 1 << (wa - 1)):
                lo = rb[0][0] + (1 if pred.endswith("gt") else 0)
                if lo <= (1 << wa) - 1:
                    ok = ok and self.refine(st, a, cmp_set(pred[0] + "ge", lo, wa), depth + 1)
        if ok and b[0] not in ("c", "p", "fn", "u"):
            ra = self.rng(st, a)
            p2 = SWAP[pred]
            if ra:
                if len(ra) == 1 and ra[0][0] == ra[0][1]:
                    ok = self.refine(st, b, cmp_set(p2, ra[0][0], wb), depth + 1)
                elif p2 == "eq":
                    ok = self.refine(st, b, ra, depth + 1)
                elif p2 in ("ugt", "uge") or (p2 in ("sgt", "sge") and ra[-1][1] < 1 << (wb - 1)):
                    lo = ra[0][0] + (1 if p2.endswith("gt") else 0)
                    if lo <= (1 << wb) - 1:
                        ok = self.refine(st, b, cmp_set(p2[0] + "ge", lo, wb), depth + 1)
                elif p2 in ("ult", "ule") or (p2 in ("slt", "sle") and ra[-1][1] < 1 << (wb - 1)):
                    hi = ra[-1][1] - (1 if p2.endswith("lt") else 0)
                    if hi < 0:
                        return False
                    ok = self.refine(st, b, cmp_set(p2[0] + "le", hi, wb), depth + 1)
        if ok and a[0] != "c" and b[0] != "c":
            st.cons[("o", "icmp", 1, pred, a, b)] = ((1, 1),)
            st.cons[("o", "icmp", 1, INV[pred], a, b)] = ((0, 0),)
        return ok

    def fresh(self, st, name, w, r=None):
        t = ("s", name, w)
        if t in st.cons:
            del st.cons[t]
        if r is not None and r != full(w):
            st.cons[t] = r
        return t

    def binop(self, st, I, op, w, a, b):
        m = (1 << w) - 1
        if a[0] == "u" or b[0] == "u":
            return UNDEF
        if a[0] == "c" and b[0] == "c":
            x, y = a[1], b[1]
            sx = x - (1 << w) if x >> (w - 1) else x
            sy = y - (1 << w) if y >> (w - 1) else y
            try:
                v = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "and": lambda: x & y,
                     "or": lambda: x | y, "xor": lambda: x ^ y, "shl": lambda: x << y if y < w else 0,
                     "lshr": lambda: x >> y if y < w else 0, "ashr": lambda: sx >> min(y, w - 1),
                     "udiv": lambda: x // y, "urem": lambda: x % y,
                     "sdiv": lambda: int(sx / sy), "srem": lambda: sx - sy * int(sx / sy)}[op]()
                return c_(v, w)
            except (KeyError, ZeroDivisionError):
                return self.fresh(st, ("i", I.id), w)
        if a[0] == "p" or b[0] == "p":
            if op == "sub" and a[0] == "p" and b[0] == "p" and a[1] == b[1]:
                d = lindiff(a[2], b[2])
                if d is not None:
                    return c_(d, w)
            if op == "and" and w < 64:
                pass
            if op == "add" and a[0] == "p" and b[0] == "c":
                d = b[1] - (1 << w) if b[1] >> (w - 1) else b[1]
                return ("p", a[1], lin(a[2], d))
            return self.fresh(st, ("i", I.id), w)
        if a[0] == "fn" or b[0] == "fn":
            return self.fresh(st, ("i", I.id), w)
        if op in ("add", "mul", "and", "or", "xor") and a[0] == "c":
            a, b = b, a
        if b[0] == "c":
            v = b[1]
            if v == 0 and op in ("add", "sub", "or", "xor", "shl", "lshr", "ashr"):
                return a
            if v == 0 and op in ("mul", "and"):
                return b
            if v == 1 and op in ("mul", "udiv", "sdiv"):
                return a
            if op == "and" and v == m:
                return a
            if op == "sub":
                op, b = "add", c_(-v, w)
                v = b[1]
            if op == "shl" and v < w:
                op, b = "mul", c_(1 << v, w)
                v = b[1]
            if op == "add" and a[0] == "o" and a[1] == "add" and a[4][0] == "c":
                return self.binop(st, I, "add", w, a[3], c_(a[4][1] + v, w))
            if op == "xor" and w == 1 and v == 1 and a[0] == "o" and a[1] == "icmp":
                return ("o", "icmp", 1, INV[a[3]], a[4], a[5])
            if op == "and" and v == 1 and a[0] == "o" and a[1] in ("zext",) and width(a[3]) == 1:
                return a
        if a == b and op in ("sub", "xor"):
            return c_(0, w)
        if a == b and op in ("and", "or"):
            return a
        if op == "add" and repr(a) > repr(b) and b[0] != "c":
            a, b = b, a
        t = ("o", op, w, a, b)
        if tsize(t) > self.tmax:
            r = self._srng(st, t)
            return self.fresh(st, ("i", I.id), w, r)
        return t

    def cast(self, st, I, op, w, a):
        if a[0] == "u":
            return UNDEF
        if a[0] in ("p", "fn"):
            return a
        iw = width(a)
        if iw == w:
            return a
        if a[0] == "c":
            v = a[1]
            if op == "sext" and v >> (iw - 1):
                v -= 1 << iw
            return c_(v, w)
        if op == "trunc":
            if a[0] == "o" and a[1] in ("zext", "sext"):
                x = a[3]
                if width(x) == w:
                    return x
                if width(x) > w:
                    return self.cast(st, I, "trunc", w, x)
                return ("o", a[1], w, x)
        if op == "zext" and a[0] == "o" and a[1] == "zext":
            return ("o", "zext", w, a[3])
        if op == "zext" and a[0] == "o" and a[1] == "trunc" and width(a[3]) == w:
            r = self.rng(st, a[3])
            if r and r[-1][1] < (1 << iw):
                return a[3]
        t = ("o", op, w, a)
        if tsize(t) > self.tmax:
            return self.fresh(st, ("i", I.id), w, self._srng(st, t))
        return t

    def icmp(self, st, I, pred, a, b):
        if a[0] == "u" or b[0] == "u":
            return UNDEF
        v = self.cmp(st, pred, a, b)
        if v is not None:
            return c_(1 if v else 0, 1)
        # (zext i1 x) != 0
        if b[0] == "c" and a[0] == "o" and a[1] == "zext" and width(a[3]) == 1 and b[1] in (0, 1):
            if pred in ("eq", "ne"):
                x = a[3]
                if (pred == "ne") == (b[1] == 0):
                    return x
                if x[0] == "o" and x[1] == "icmp":
                    return ("o", "icmp", 1, INV[x[3]], x[4], x[5])
                return ("o", "xor", 1, x, c_(1, 1))
        if a[0] == "c":
            a, b, pred = b, a, SWAP[pred]
        if b[0] == "c" and a[0] == "o" and a[1] == "zext" and pred in ("eq", "ne", "ult", "ule", "ugt", "uge"):
            iw = width(a[3])
            if b[1] < (1 << iw):
                return self.icmp(st, I, pred, a[3], c_(b[1], iw))
        t = ("o", "icmp", 1, pred, a, b)
        if tsize(t) > 24:
            return self.fresh(st, ("i", I.id), 1)
        return t

    # -------------------------------------------------------------- memory
    def opnd(self, st, o):
        k = o[0]
        if k == "v":
            return st.env.get(o[1], UNDEF)
        if k == "c":
            return o if len(o) == 3 else NULLC
        if k == "g":
            oid = ("G", o[1])
            if oid not in st.mem:
                g = self.M.globals.get(o[1])
                ob = Obj("global", "sym", None, c_(g["size"], 64) if g else None)
                st.mem[oid] = ob
            return ("p", oid, o[2])
        if k == "f":
            return ("fn", o[1])
        if k == "undef":
            return UNDEF
        return ("s", ("unk",), 64)

    def target(self, st, v, I, what):
        """object and offset a pointer value designates, reporting invalid dereferences; None if unknown"""
        k = v[0]
        if k == "c":
            if v[1] < 4096:
                if v is not NIL and v != NIL:
                    self.report("null-deref", I, "%s through a null pointer" % what)
                st.dead = True
            return None
        if k == "u":
            self.report("uninit", I, "%s through an uninitialised pointer" % what)
            st.dead = True
            return None
        if k == "p":
            o = st.mem.get(v[1])
            if o is None:
                return None
            if o.status == "freed":
                self.report("use-after-free", I, "%s of %s" % (what, self.oname(o)))
                st.dead = True
                return None
            return v[1], v[2]
        if k == "s":
            if not self.refine(st, v, ((1, (1 << 64) - 1),)):
                self.nullderef(st, v, I, "%s through a pointer known to be null" % what)
                return None
            oid = ("D", v[1])
            if oid not in st.mem:
                st.mem[oid] = Obj("ext", "sym")
            elif st.mem[oid].status == "freed":
                self.report("use-after-free", I, "%s of memory freed earlier" % what)
                st.dead = True
                return None
            return oid, 0
        if k == "o":
            if v[1] == "add" and v[3][0] == "p":
                return None
        return None

    def nullderef(self, st, v, I, msg):
        """the null came out of a join of several paths: whether this path exists is not known, so it is
        abandoned silently; nulls that arrive unmerged are constants and are reported"""
        st.dead = True
        o = st.mem.get(("D", v[1]))
        n = v[1]
        while n[0] == "old":
            n = n[1:]
        if (o is not None and o.site) or merged_name(n):
            return
        self.report("null-deref", I, msg)

    def oname(self, o):
        if o.site:
            return "%s from %s() at %s" % (o.kind, o.site[0], o.site[1])
        return o.kind

    def defval(self, st, oid, o, key, size, w):
        if oid[0] == "G":
            g = self.M.globals.get(oid[1])
            if g and g["const"] and g["init"] is not None and isinstance(key, int):
                if g.get("bytes") is not None and key + size <= len(g["bytes"]) and key >= 0:
                    return c_(int.from_bytes(g["bytes"][key:key + size], "little"), size * 8)
                for off, sz, v in g["init"]:
                    if off == key and sz == size and v[0] == "c":
                        return c_(v[1], size * 8)
                    if off == key and sz == size and v[0] == "f":
                        return ("fn", v[1])
                    if off == key and sz == size and v[0] == "g":
                        return self.opnd(st, v)
                    if v == ("zero",) and off <= key and key + size <= off + sz:
                        return c_(0, size * 8)
        if o.default == "zero":
            return NIL if size == 8 else c_(0, size * 8)
        if o.default == "undef":
            return UNDEF
        return ("s", ("L", oid, key, o.gen), size * 8)

    def load(self, st, oid, off, size, I=None):
        o = st.mem[oid]
        w = size * 8
        f = o.fields.get(off)
        if f is not None:
            v, sz = f
            if sz == size:
                return v
            if v[0] == "u":
                return v
            if sz > size and v[0] == "c":
                return c_(v[1], w)
            if sz > size and v[0] in ("s", "o") and width(v) == sz * 8:
                return ("o", "trunc", w, v)
            return self.fresh(st, ("i", I.id) if I else ("ld", repr(off)), w)
        if isinstance(off, int):
            # covered by another field?
            for k, (v, sz) in o.fields.items():
                if isinstance(k, int) and k < off + size and off < k + sz:
                    if v[0] == "c" and k <= off and off + size <= k + sz:
                        return c_(v[1] >> (8 * (off - k)), w)
                    return self.fresh(st, ("i", I.id) if I else ("ld", repr(off)), w)
            v = self.defval(st, oid, o, off, size, w)
            if o.default == "sym" or v[0] != "u":
                if oid[0] != "G":
                    o = st.wobj(oid)
                    o.fields[off] = (v, size)
            return v
        # symbolic offset, not stored before at this very offset
        if oid[0] == "G":
            g = self.M.globals.get(oid[1])
        if o.default == "undef" and not o.fields:
            return UNDEF
        v = ("s", ("L", oid, off, o.gen), w)
        if size >= 4:
            for k, (x, z) in list(o.fields.items()):
                if x[0] in ("p", "s") and not (isinstance(k, tuple) and k[0] == "ctx") and \
                        self.may_overlap(o, k, z, off, size):
                    self.escape(st, x)
            o = st.mem[oid]
        if tsize(("p", oid, off)) < 10:
            o = st.wobj(oid)
            o.fields[off] = (v, size)
            return v
        return self.fresh(st, ("i", I.id) if I else ("ld", repr(off)), w)

    def escape(self, st, v):
        """value stored where we do not track it: stop ownership tracking of what it designates"""
        work = [v]
        while work:
            v = work.pop()
            if v[0] == "p":
                oid = v[1]
            elif v[0] == "s":
                oid = ("D", v[1])
            else:
                continue
            o = st.mem.get(oid)
            if o is None or not o.site or o.summ:
                continue
            o = st.wobj(oid)
            o.summ = True
            for k, (x, z) in o.fields.items():
                if not (isinstance(k, tuple) and k[0] == "ctx") and x[0] in ("p", "s"):
                    work.append(x)

    def collective(self, st, oid):
        """an object that now stands for several concrete ones: so does what it owns"""
        o = st.mem.get(oid)
        if o is None:
            return
        if not o.summ:
            o = st.wobj(oid)
            o.summ = True
        for k, (x, z) in o.fields.items():
            if not (isinstance(k, tuple) and k[0] == "ctx") and x[0] in ("p", "s"):
                self.escape(st, x)

    def may_overlap(self, o, a, za, b, zb):
        """can [a, a+za) and [b, b+zb) of object o overlap?"""
        d = lindiff(a, b)
        if d is not None:
            return d < zb and -d < za
        ta = () if isinstance(a, int) else a[2]
        tb = () if isinstance(b, int) else b[2]
        g = 0
        for _, c in ta + tb:
            g = gcd(g, abs(c))
        ca = a if isinstance(a, int) else a[1]
        cb = b if isinstance(b, int) else b[1]
        if g > 1:
            r = (ca - cb) % g
            if r >= zb and g - r >= za:
                return False
        # offsets that vary inside an array member stay inside it
        ra, rb = self.member(o, a, za), self.member(o, b, zb)
        if ra and rb:
            return ra[0] < rb[1] and rb[0] < ra[1]
        return True

    def member(self, o, off, z):
        if isinstance(off, int):
            return off, off + z
        if not o.struct:
            return None
        c = off[1]
        best = None
        for n, (fo, fs) in self.M.fields.get(o.struct, {}).items():
            if fo <= c < fo + fs and fs > z and (best is None or fs < best[1] - best[0]):
                best = (fo, fo + fs)
        return best

    def store(self, st, oid, off, size, v, region=None):
        o = st.wobj(oid)
        F = o.fields
        if o.summ and size >= 4:
            self.escape(st, v)
            if st.mem[oid] is not o:
                o = st.mem[oid]
                F = o.fields
        if isinstance(off, int):
            for k in [k for k in F if k != off]:
                if isinstance(k, int):
                    sz = F[k][1]
                    if k < off + size and off < k + sz:
                        old, sz0 = F[k]
                        if old[0] == "c" and k <= off and off + size <= k + sz0 and v[0] == "c":
                            mask = ((1 << (8 * size)) - 1) << (8 * (off - k))
                            F[k] = (c_((old[1] & ~mask) | (v[1] << (8 * (off - k))), sz0 * 8), sz0)
                            return
                        del F[k]
                elif k[0] == "L":
                    if self.may_overlap(o, k, F[k][1], off, size):
                        del F[k]
            F[off] = (v, size)
            return
        # symbolic offset: weak on everything it may overlap in the region
        for k in list(F):
            if k == off:
                if F[k][0] != v:
                    self.escape(st, F[k][0])
                continue
            if isinstance(k, tuple) and k[0] == "ctx":
                continue
            if not self.may_overlap(o, k, F[k][1], off, size):
                continue
            if isinstance(k, int) and region is not None and region[0] is not None and \
                    (k + F[k][1] <= region[0] or k >= region[1]):
                continue
            self.escape(st, F[k][0])
            del F[k]
        if o.default == "undef" or o.default == "zero":
            o.default = "sym"
        o.gen = (o.gen or 0) if isinstance(o.gen, tuple) else 1
        # ownership of what is put at a computed place is not tracked
        self.escape(st, v)
        if tsize(("p", oid, off)) < 10:
            F[off] = (v, size)

    def clobber(self, st, v, I, lo=0, size=None, what="write"):
        """an external function overwrites [v+lo, +size) with unknown initialised data"""
        if v[0] == "c" and v[1] == 0:
            return
        t = self.target(st, v, I, what)
        if t is None:
            return
        oid, off = t
        if oid[0] == "G":
            return
        o = st.wobj(oid)
        if isinstance(off, int) and isinstance(size, int):
            off += lo
            whole = False
            lay = self.layout(o.struct)
            keys = set()
            for n, (fo, fs) in lay.items():
                if off <= fo and fo + fs <= off + size:
                    keys.add((fo, fs))
            for k in list(o.fields):
                if isinstance(k, int):
                    sz = o.fields[k][1]
                    if k < off + size and off < k + sz:
                        if off <= k and k + sz <= off + size:
                            keys.add((k, sz))
                        del o.fields[k]
                elif k[0] == "L":
                    del o.fields[k]
            for k, sz in keys:
                o.fields[k] = (("s", ("cl", I.id, oid if oid[0] != "D" else "d", k), sz * 8), sz)
            part = not self.opts.get("coarse") and o.default != "sym" and size <= 64 and not (
                off == 0 and (o.size is None or o.size[0] != "c" or o.size[1] <= size))
            if not keys and part:
                # a part of an object whose other bytes are known to be zero or unwritten
                o.fields[off] = (("s", ("cl", I.id, oid if oid[0] != "D" else "d", off), size * 8), size)
            elif not keys:
                o.default = "sym"
                o.gen = I.id
        else:
            for k in list(o.fields):
                if not (isinstance(k, tuple) and k[0] == "ctx"):
                    if isinstance(k, int) and isinstance(off, int) and k + o.fields[k][1] <= off + lo:
                        continue
                    self.escape(st, o.fields[k][0])
                    del o.fields[k]
            o.default = "sym"
            o.gen = I.id

    def layout(self, struct):
        if not struct:
            return {}
        c = self.M.__dict__.setdefault("_lay", {})
        if struct not in c:
            f = self.M.fields.get(struct, {})
            leaf = {}
            for n, (o, s) in f.items():
                if any(n2 != n and n2.startswith(n + ".") for n2 in f):
                    continue
                if s in (1, 2, 4, 8):
                    leaf[n] = (o, s)
            # unions: keep one leaf per offset
            byoff = {}
            for n, (o, s) in leaf.items():
                if o not in byoff or s > byoff[o][1][1]:
                    byoff[o] = (n, (o, s))
            c[struct] = {n: v for n, v in byoff.values()}
        return c[struct]

    def memcpy(self, st, d, s, n, I):
        td = self.target(st, d, I, "memcpy write")
        if st.dead:
            return
        ts = self.target(st, s, I, "memcpy read")
        if st.dead or td is None:
            return
        if n[0] != "c" or ts is None:
            self.clobber(st, d, I)
            return
        n = n[1]
        if n == 0:
            return
        do, doff = td
        so, soff = ts
        if do[0] == "G":
            return
        od, os_ = st.mem[do], st.mem[so]
        if not isinstance(doff, int):
            self.clobber(st, d, I)
            return
        lay = {}
        if od.struct and doff == 0 and n == self.M.structsize.get(od.struct):
            lay = self.layout(od.struct)
        elif os_.struct and soff == 0 and n == self.M.structsize.get(os_.struct):
            lay = {k: (o + doff, z) for k, (o, z) in self.layout(os_.struct).items()}
        vals = {}
        for nme, (fo, fs) in lay.items():
            so_off = lin(soff, fo - doff)
            vals[fo] = (self.load(st, so, so_off, fs, I), fs)
        if isinstance(soff, int):
            for k, (v, sz) in list(st.mem[so].fields.items()):
                if isinstance(k, int) and soff <= k and k + sz <= soff + n and (k - soff + doff) not in vals:
                    if lay and any(fo <= k - soff + doff < fo + fs for fo, fs in lay.values()):
                        continue
                    vals[k - soff + doff] = (v, sz)
        self.clobber(st, d, I, 0, n)
        o = st.wobj(do)
        for k in [k for k in o.fields if isinstance(k, int) and doff <= k < doff + n]:
            del o.fields[k]
        for k, x in vals.items():
            o.fields[k] = x
        if not vals and os_.default == "undef" and not os_.fields and not lay:
            pass

    def memset(self, st, d, b, n, I):
        td = self.target(st, d, I, "memset")
        if td is None or st.dead:
            return
        oid, off = td
        if oid[0] == "G":
            return
        o = st.mem[oid]
        if n[0] == "c" and isinstance(off, int) and b == c_(0, 8):
            sz = n[1]
            whole = o.size is not None and o.size[0] == "c" and off == 0 and o.size[1] <= sz
            if not whole and o.size == n and off == 0:
                whole = True
            o = st.wobj(oid)
            if whole:
                for k in list(o.fields):
                    if not (isinstance(k, tuple) and k[0] == "ctx"):
                        del o.fields[k]
                o.default = "zero"
                return
            lay = self.layout(o.struct)
            for k in list(o.fields):
                if isinstance(k, int) and off <= k < off + sz:
                    o.fields[k] = (c_(0, o.fields[k][1] * 8), o.fields[k][1])
            for nme, (fo, fs) in lay.items():
                if off <= fo and fo + fs <= off + sz:
                    o.fields[fo] = (c_(0, fs * 8), fs)
            if o.default == "undef" and not lay:
                o.default = "sym"
            return
        if n == o.size and off == 0 and b == c_(0, 8):
            o = st.wobj(oid)
            o.fields = {}
            o.default = "zero"
            return
        self.clobber(st, d, I)

    # -------------------------------------------------------------- heap objects
    def newobj(self, st, I, kind, default="undef", size=None, tag="", track=True):
        oid = ("H", ("i", I.id), tag)
        self.retire(st, oid)
        o = Obj("heap" if kind == "malloc" else kind, default, (I.fn.name, I.loc(), kind) if track else None, size)
        st.mem[oid] = o
        return ("p", oid, 0)

    def retire(self, st, oid):
        """a site allocates again while its previous object is still around: rename the old one"""
        if oid not in st.mem:
            return
        old = ("H", ("old",) + oid[1:], "")
        if st.mem[oid].status != "live":
            # nobody should look at it again; keep as freed summary
            pass
        prev = st.mem.get(old)
        self.rename(st, {oid: old}, {})
        if prev is not None:
            o = st.wobj(old)
            if prev.status != o.status or prev.site:
                o.status = "live"
                for k, (x, z) in prev.fields.items():
                    self.escape(st, x)
                self.collective(st, old)

    def rename(self, st, omap, smap):
        def rv(v):
            k = v[0]
            if k == "p":
                oid = omap.get(v[1], v[1])
                if oid[0] == "D" and oid[1] in smap:
                    oid = ("D", smap[oid[1]])
                off = v[2]
                if not isinstance(off, int):
                    off = lin(off[1], 0, [(rv(t), c) for t, c in off[2]])
                return ("p", oid, off) if (oid != v[1] or off != v[2]) else v
            if k == "s":
                n = smap.get(v[1])
                return ("s", n, v[2]) if n is not None else v
            if k == "o":
                return v[:3] + tuple(rv(x) if isinstance(x, tuple) else x for x in v[3:])
            return v

        def rk(k):
            if isinstance(k, tuple) and k[0] == "L":
                return lin(k[1], 0, [(rv(t), c) for t, c in k[2]])
            return k
        st.env = {i: rv(v) for i, v in st.env.items()}
        mem = {}
        for oid, o in st.mem.items():
            n = omap.get(oid, oid)
            if n[0] == "D" and n[1] in smap:
                n = ("D", smap[n[1]])
            for x in o.refs():
                if (x[1] in smap) if x[0] == "s" else (x[1] in omap or x[1][0] == "D" and x[1][1] in smap
                                                       or not isinstance(x[2], int)):
                    break
            else:
                mem[n] = o
                continue
            o2 = o.copy()
            o2.fields = {rk(k): (rv(v), z) for k, (v, z) in o.fields.items()}
            if o2.size is not None:
                o2.size = rv(o2.size)
            mem[n] = o2
        st.mem = mem
        st.cons = {rv(t): r for t, r in st.cons.items()}
        st.ghost = {k: self._rg(v, rv) for k, v in st.ghost.items()}

    def _rg(self, v, rv):
        """rename inside ghost values: values marked as ('val', x)"""
        if isinstance(v, tuple):
            if len(v) == 2 and v[0] == "val":
                return ("val", rv(v[1]))
            return tuple(self._rg(x, rv) for x in v)
        if isinstance(v, frozenset):
            return frozenset(self._rg(x, rv) for x in v)
        return v

    @staticmethod
    def ghost_vals(v, out):
        if isinstance(v, tuple):
            if len(v) == 2 and v[0] == "val":
                out.append(v[1])
                return
            for x in v:
                Engine.ghost_vals(x, out)
        elif isinstance(v, frozenset):
            for x in v:
                Engine.ghost_vals(x, out)

    def reach(self, st, roots):
        """objects and symbols reachable from values"""
        objs, syms = set(), set()
        work = []
        for r in roots:
            t_syms(r, work)
        while work:
            t = work.pop()
            if t[0] == "s":
                if t[1] in syms:
                    continue
                syms.add(t[1])
                oid = ("D", t[1])
                if oid not in st.mem:
                    n = t[1]
                    continue
            else:
                oid = t[1]
            if oid in objs:
                continue
            objs.add(oid)
            o = st.mem.get(oid)
            if o is None:
                continue
            if oid[0] == "D" and oid[1] not in syms:
                syms.add(oid[1])
            r = o._refs
            work.extend(r if r is not None else o.refs())
        return objs, syms

    def gc(self, st, live, I, keep=()):
        """drop dead values; owned objects that became unreachable are leaks"""
        if live is not None:
            st.env = {i: v for i, v in st.env.items() if i in live}
        roots = list(st.env.values())
        gv = []
        for v in st.ghost.values():
            self.ghost_vals(v, gv)
        ents = [("p", oid, 0) for oid, o in st.mem.items()
                if oid[0] in ("E", "G") or o.kind == "global" or (o.kind == "alloca" and oid[0] == "A")]
        for oid in st.mem:
            if oid[0] == "D" and oid[1][0] == "e":
                ents.append(("s", oid[1], 64))
        for t in st.cons:
            if t[0] == "s" and t[1][0] == "e":
                ents.append(t)
        objs, syms = self.reach(st, roots + ents + list(keep))
        if self.check_leaks:
            # an object that is known not to exist owns nothing either
            absent = []
            for oid, o in st.mem.items():
                if oid not in objs and oid[0] == "D" and o.site:
                    none = 0xffffffff if o.kind == "fd" else 0
                    if self.rng(st, ("s", oid[1], 32 if o.kind == "fd" else 64)) == ((none, none),):
                        absent.append(("p", oid, 0))
            gone = self.reach(st, absent)[0] if absent else ()
            for oid, o in st.mem.items():
                if oid in gone:
                    continue
                if oid not in objs and o.site and o.status == "live" and not o.summ:
                    if oid[0] == "H":
                        self.leak(st, o, I)
                    elif oid[0] == "D" and oid[1][0] != "e":
                        t = ("s", oid[1], 32 if o.kind == "fd" else 64)
                        none = 0xffffffff if o.kind == "fd" else 0
                        if self.rng(st, t) != ((none, none),):
                            self.leak(st, o, I)
        if gv:
            o2, s2 = self.reach(st, gv)
            objs |= o2
            syms |= s2
        st.mem = {oid: o for oid, o in st.mem.items() if oid in objs}
        if st.cons:
            nc = {}
            for t, r in st.cons.items():
                if t[0] == "s":
                    if t[1] in syms:
                        nc[t] = r
                else:
                    l = []
                    t_syms(t, l)
                    if all((x[1] in syms) if x[0] == "s" else (x[1] in objs) for x in l):
                        nc[t] = r
            st.cons = nc

    def leak(self, st, o, I):
        if self.plugin and not self.plugin.want_leak(self, st, o, I):
            return
        self.report("leak", I, "%s is never released on a path reaching here" % self.oname(o),
                    key=(o.site[0], o.site[1], o.kind, I.loc()), extra=dict(site=o.site, kind=o.kind))

    # -------------------------------------------------------------- merging
    def icat(self, st, v, lvl):
        k = v[0]
        if k == "c":
            if v[2] <= 1 or lvl == 0:
                return "z" if v[1] == 0 else "n"
            if v[2] == 32 and v[1] <= 11 or v[2] == 8 and v[1] <= 1:
                return "z" if v[1] == 0 else "n"
            return "x"
        if k == "p":
            o = st.mem.get(v[1])
            if o is not None and o.status != "live":
                return "F"
            if lvl and (o is None or o.kind != "global"):
                if o is not None and o.site and v[1][0] in ("H", "X", "D"):
                    return "x"
                if lvl >= 2:
                    return "x"
            return ("p", v[1])
        if k == "fn":
            return v
        if k == "u":
            return "u" if lvl < 2 else "x"
        if k == "s" and v[1][0] == "iv":
            return "x"
        if k == "s" and ("D", v[1]) in st.mem:
            o = st.mem[("D", v[1])]
            if o.status != "live":
                return "F"
            if lvl and o.site:
                return "x"
            if lvl >= 2:
                return "x"
            return ("d", v[1])
        r = self.rng(st, v)
        if lvl and not (width(v) == 32 and r and r[-1][1] <= 11) and width(v) != 1:
            return "x"
        if not r:
            return "x"
        if r[0][0] > 0:
            return "n"
        if r == ((0, 0),):
            return "z"
        return "x"

    def zcat(self, st, v):
        r = self.rng(st, v)
        if not r or v[0] == "u":
            return "x"
        return "z" if r == ((0, 0),) else "n" if r[0][0] > 0 else "x"

    def condweb(self):
        """parameters and values that decide several branches of the function: cleanup code tests the same
        flag as the code that acquired"""
        if not self.stack or not self.opts.get("cond"):
            return frozenset()
        F = self.stack[-1]
        w = self._cweb.get(F.name)
        if w is None:
            byid = {}
            cnt = {}
            for B in F.blocks:
                for I in B.insts:
                    byid[I.id] = I
            for B in F.blocks:
                I = B.insts[-1]
                if I.op != "br" or len(I.succ) < 2 or I.ops[0][0] != "v":
                    continue
                v = I.ops[0][1]
                for _ in range(6):
                    cnt[v] = cnt.get(v, 0) + 1
                    J = byid.get(v)
                    if J is None or J.op not in ("icmp", "zext", "trunc", "xor", "freeze"):
                        break
                    if J.op in ("icmp", "xor") and J.ops[1][0] != "c":
                        break
                    if J.ops[0][0] != "v":
                        break
                    v = J.ops[0][1]
                else:
                    cnt[v] = cnt.get(v, 0) + 1
            w = frozenset(v for v, n in cnt.items() if n > 1 and
                          (byid.get(v) is None or byid[v].op not in ("phi", "load") or byid[v].w <= 8))
            self._cweb[F.name] = w
        return w

    def retweb(self):
        """values that flow to the function result through phis and selects (the error variable)"""
        if not self.stack:
            return {"ret"}
        F = self.stack[-1]
        w = F.__dict__.get("_retweb") if hasattr(F, "__dict__") else None
        if w is None:
            w = {"ret"}
            work = []
            byid = {}
            for B in F.blocks:
                for I in B.insts:
                    byid[I.id] = I
                    if I.op == "ret" and I.ops and I.ops[0][0] == "v":
                        work.append(I.ops[0][1])
            while work:
                i = work.pop()
                if i in w:
                    continue
                w.add(i)
                I = byid.get(i)
                if I is None:
                    continue
                if I.op == "phi":
                    work.extend(o[1] for o, _ in I.incoming if o[0] == "v")
                elif I.op == "select":
                    work.extend(o[1] for o in I.ops[1:] if o[0] == "v")
            self._web[F.name] = w
            try:
                F._retweb = w
            except AttributeError:
                pass
        return w



    def skel(self, st, lvl):
        if lvl >= 5:
            # emergency: too many states even so.  Facts that merging weakens soundly do not keep states apart
            p = self.plugin
            return None if p and p.ghost_weakens else p.ghost_key(st) if p else None
        if lvl == 4:
            web = self.retweb()
            return (frozenset((i, c) for i, c in ((i, self.icat(st, v, lvl)) for i, v in st.env.items()
                                                  if i in web) if c in ("z", "n")),
                    self.plugin.ghost_key(st) if self.plugin else frozenset(st.ghost.items()))
        g = self.plugin.ghost_key(st) if self.plugin else frozenset(st.ghost.items())
        fns = []
        for oid, o in st.mem.items():
            if o.kind == "heap" and o.status == "live":
                h = o.fns()
                if len(h) > 1 or h and lvl < 2:
                    fns.append(h)
        fns = tuple(sorted(fns, key=repr))
        g = (g, fns)
        if lvl >= 2 and self.opts.get("undef"):
            # which variables nothing was stored to yet
            g += (frozenset(oid for oid, o in st.mem.items() if oid[0] == "A" and o.default == "undef" and
                            o.size is not None and o.size[0] == "c" and o.size[1] <= 8 and
                            o.fields.get(0, (UNDEF,))[0] == UNDEF),)
        if lvl >= 1 and self.opts.get("nulls"):
            # which members hold the null of a failed allocation or lookup
            g += (frozenset((oid[0] if oid[0] == "H" else oid, k) for oid, o in st.mem.items()
                            if o.kind in ("heap", "ext", "param", "alloca") and o.status == "live" and not o.summ
                            for k, x in o.fields.items() if x[0] == BAD),)
        if lvl >= 3:
            web = self.retweb()
            return (frozenset((i, c) for i, c in ((i, self.icat(st, v, lvl)) for i, v in st.env.items()
                                                  if i in web) if c in ("z", "n")), frozenset(), g)
        if lvl == 2:
            web = self.retweb()
            cw = self.condweb()
            e = frozenset((i, self.icat(st, v, lvl) if i in web else self.zcat(st, v))
                          for i, v in st.env.items() if i in web or i in cw)
        elif lvl == 1:
            cw = self.condweb()
            e = frozenset((i, self.zcat(st, v) if i in cw else self.icat(st, v, lvl)) for i, v in st.env.items())
        else:
            e = frozenset((i, self.icat(st, v, lvl)) for i, v in st.env.items())
        m = []
        for oid, o in st.mem.items():
            if o.kind == "global" and o.status == "live" and not o.fields:
                continue
            if lvl and o.site and o.status == "live" and oid[0] in ("H", "X", "D"):
                continue
            if lvl >= 1 and o.status != "live":
                continue
            items = []
            for k, (v, z) in o.fields.items():
                if z > 8:
                    continue
                if o.default == "sym" and v[0] == "s" and v[1] == ("L", oid, k, o.gen):
                    c = self.icat(st, v, lvl)
                    if c == "x":
                        continue
                    items.append((k, c))
                    continue
                c = self.icat(st, v, lvl)
                if isinstance(k, tuple) and k[0] == "L":
                    if lvl or c in ("x", "n", "z"):
                        continue
                if o.default == "sym" and c == "x":
                    continue
                if lvl and c in ("x",):
                    continue
                if lvl >= 2 and c not in ("F",) and not (isinstance(c, tuple) and c[0] == "fn"):
                    continue
                items.append((k, c))
            if not items and (lvl or oid[0] == "D") and o.status == "live" and not o.site:
                continue
            if lvl:
                m.append((oid if oid[0] != "D" else "D", frozenset(items)))
            else:
                m.append((oid, o.status, o.summ, frozenset(items)))
        return (e, frozenset(m), g)

    def numbered(self, A, B, a, b, slot, w):
        """value numbering of joins: pairs that differ from an earlier pair by the same constant keep that relation.
        -> (term, constant to add, True when it is new)"""
        x, y = self.vn(self, A, a), self.vn(self, B, b)
        d = x[0]
        k = (x[1], y[0] - d, y[1], w)
        if k in self.pairs:
            t, d0 = self.pairs[k]
            return t, d - d0, False
        t = ("s", slot, w)
        self.pairs[k] = (t, d)
        if a != t or b != t:
            self.redef.add(slot)
        return t, 0, True

    def mergeint(self, A, B, a, b, slot, out, widen):
        w = width(a)
        if width(b) != w:
            return ("s", slot, max(w, width(b)))
        t = ("s", slot, w)
        if self.vn:
            t, d, new = self.numbered(A, B, a, b, slot, w)
            if not new:
                return self.binop(A, None, "add", w, t, ("c", d % (1 << w), w)) if d else t
        ra, rb = self.rng(A, a), self.rng(B, b)
        r = r_union(ra, rb) if ra and rb else full(w)
        if widen and r != ra:
            r = full(w) if r[0][0] == 0 or not r_inter(((0, 0),), full(w)) else r_compl(((0, 0),), w)
        out[t] = r
        return t

    def merge(self, A, B, blk, widen, lvl=0):
        """join of B into A; always succeeds.  Objects are matched by the slots that hold them."""
        pairA, pairB = {}, {}          # oid -> partner oid or None (null on the other side)
        name = {}                      # (oidA|None, oidB|None) -> result oid
        symname = {}                   # result D-oid -> (sym name, width)
        work = []
        bad = set()                    # (side, oid) to be escaped
        used = set()
        ov = {}
        self.pairs = {}
        self.redef = set()
        memA, memB = A.mem, B.mem

        def hobj(st, v):
            """(oid, object, nullable) when v designates a heap-like owned object"""
            if v[0] == "p":
                o = st.mem.get(v[1])
                if o is not None and v[1][0] in ("H", "X"):
                    return v[1], o, False
                if o is not None and v[1][0] == "D" and o.site:
                    return v[1], o, False
            elif v[0] == "s":
                oid = ("D", v[1])
                o = st.mem.get(oid)
                if o is not None and o.site:
                    return oid, o, True
            return None

        def uniq(n, own=False):
            k = n
            i = 0
            while k in used or (not own and k in memA):
                i += 1
                k = n[:1] + (("dup", i) + (n[1] if isinstance(n[1], tuple) else (n[1],)),) + n[2:]
            used.add(k)
            return k

        def pair(oa, ob, nullable, fd):
            pairA_ = pairA.get(oa, 0) if oa is not None else 0
            pairB_ = pairB.get(ob, 0) if ob is not None else 0
            key = (oa, ob)
            if key in name:
                return name[key]
            if (oa is not None and oa in pairA) or (ob is not None and ob in pairB):
                return None
            base = oa if oa is not None else ob
            if nullable:
                nm = base[1] if base[0] == "D" else ("mp", base)
                n = ("D", nm)
                n = uniq(n, n == oa)
                symname[n] = (n[1], 32 if fd else 64)
            else:
                n = uniq(base, base == oa)
                if n[0] == "D":
                    symname[n] = (n[1], 32 if fd else 64)
            name[key] = n
            if oa is not None:
                pairA[oa] = ob
            if ob is not None:
                pairB[ob] = oa
            work.append((oa, ob, n))
            return n

        def isnull(v, fd):
            return v[0] == "c" and v[1] == (0xffffffff if fd else 0)

        def loose(side, st, v):
            h = hobj(st, v)
            if h:
                bad.add((side, h[0]))

        def mv(a, b, slot):
            ha, hb = hobj(A, a), hobj(B, b)
            if ha or hb:
                res = None
                fd = (ha or hb)[1].kind == "fd"
                if ha and hb:
                    if ha[1].kind == hb[1].kind and ha[1].status == hb[1].status or lvl >= 2:
                        offs = (a[2] if a[0] == "p" else 0, b[2] if b[0] == "p" else 0)
                        key = (ha[0], hb[0])
                        n = name.get(key)
                        nullable = ha[2] or hb[2]
                        if n is None:
                            if nullable and offs != (0, 0):
                                n = None
                            else:
                                # pointers already known non-null stay plain unless one side may be null
                                n = pair(ha[0], hb[0], nullable or ha[0][0] == "D" or hb[0][0] == "D", fd)
                        if n is not None:
                            if offs == (0, 0) and n in symname and (nullable or a[0] == "s" or b[0] == "s"):
                                s, w = symname[n]
                                ra, rb = self.rng(A, a) if a[0] == "s" else None, \
                                    self.rng(B, b) if b[0] == "s" else None
                                nn = ((0, 0x7fffffff),) if fd else ((1, (1 << 64) - 1),)
                                t = ("s", s, w)
                                r = r_union(ra or nn, rb or nn)
                                ov[t] = r_union(ov[t], r) if t in ov else r
                                return t
                            if n in symname and offs == (0, 0) and a[0] == "p" and b[0] == "p":
                                return ("p", n, 0)
                            if a[0] == "p" and b[0] == "p":
                                if a[2] == b[2]:
                                    return ("P2", n, a, b)
                                return ("p", n, ("L", 0, ((("s", slot + ("off",), 64), 1),)))
                elif ha and isnull(b, fd) and (a[0] == "s" or a[2] == 0):
                    n = pair(ha[0], None, True, fd)
                    if n is not None:
                        return nullsym(n, A, a, fd, b)
                elif hb and isnull(a, fd) and (b[0] == "s" or b[2] == 0):
                    n = pair(None, hb[0], True, fd)
                    if n is not None:
                        return nullsym(n, B, b, fd, a)
                if ha:
                    bad.add((0, ha[0]))
                if hb:
                    bad.add((1, hb[0]))
                if a[0] == "u" or b[0] == "u":
                    return UNDEF if lvl < 2 else ("s", slot, 64)
                return ("s", slot, 32 if fd else 64)
            if a == b and (not self.vn or a[0] not in ("s", "o", "p") or not own(a)):
                return a
            if a[0] == "c" and b[0] == "c" and a[:3] == b[:3]:
                return a if len(a) == 4 else b
            if self.vn and a[0] == "p" and b[0] == "s" and a[1] == ("D", b[1]) and self.rng(B, b)[0][0]:
                b = ("p", a[1], 0)
            elif self.vn and b[0] == "p" and a[0] == "s" and b[1] == ("D", a[1]) and self.rng(A, a)[0][0]:
                a = ("p", b[1], 0)
            if a[0] == "p" and b[0] == "p" and a[1] == b[1]:
                if self.vn:
                    t, d, new = self.numbered(A, B, a, b, slot + ("off",), 64)
                    return ("p", a[1], lin(0, d, ((t, 1),)))
                return ("p", a[1], ("L", 0, ((("s", slot + ("off",), 64), 1),)))
            if a[0] == "u" or b[0] == "u":
                if lvl < 2:
                    return UNDEF
                w = width(a if b[0] == "u" else b)
                return ("s", slot, w)
            if a[0] == "fn" and b[0] == "fn":
                na = a[1] if isinstance(a[1], tuple) else (a[1],)
                nb = b[1] if isinstance(b[1], tuple) else (b[1],)
                return ("fn", tuple(sorted(set(na) | set(nb))))
            if a[0] in ("p", "fn") or b[0] in ("p", "fn"):
                t = ("s", slot, 64)
                nn = ((1, (1 << 64) - 1),)
                if r_inter(self.rng(A, a), nn) == self.rng(A, a) and r_inter(self.rng(B, b), nn) == self.rng(B, b):
                    ov[t] = nn
                else:
                    ov[t] = full(64)
                return t
            return self.mergeint(A, B, a, b, slot, ov, widen)

        def own(v):
            l = []
            t_syms(v, l)
            return any(x[0] == "s" and x[1][:2] == ("m", blk) for x in l)

        def nullsym(n, st, v, fd, nv):
            s, w = symname[n]
            t = ("s", s, w)
            r = self.rng(st, v) if v[0] == "s" else (((0, 0x7fffffff),) if fd else ((1, (1 << 64) - 1),))
            r = r_union(r, ((nv[1], nv[1]),))
            ov[t] = r_union(ov[t], r) if t in ov else r
            return t

        S = State()
        newenv = {}
        fixed = [oid for oid in memA if oid in memB and oid[0] not in ("H", "X") and
                 not (oid[0] == "D" and memA[oid].site) and not (oid[0] == "D" and memB[oid].site)]
        # objects known by name on both sides (entry objects, locals, globals, pointees of symbols)
        for oid in fixed:
            used.add(oid)
            pairA[oid] = oid
            pairB[oid] = oid
            name[(oid, oid)] = oid
        for oid in list(memA) + list(memB):
            if oid[0] == "D" and oid not in pairA:
                a, b = memA.get(oid), memB.get(oid)
                if a is not None and b is not None and a.site and b.site:
                    pairA[oid] = oid
                    pairB[oid] = oid
                    name[(oid, oid)] = oid
                    used.add(oid)
                    symname[oid] = (oid[1], 32 if a.kind == "fd" else 64)
                    work.append((oid, oid, oid))
        objres = {}

        def mobj(oa, ob, n):
            a, b = memA.get(oa) if oa is not None else None, memB.get(ob) if ob is not None else None
            if a is None or b is None:
                objres[n] = (a, 0) if a is not None else (b, 1)
                return
            if a is b:
                ch = None
                for k, (v, z) in a.fields.items():
                    if v[0] == "p" or v[0] == "s" or self.vn and v[0] == "o":
                        v2 = mv(v, v, ("m", blk, n, k))
                        if v2 is not v and v2 != v:
                            if ch is None:
                                ch = {}
                            ch[k] = (v2, z)
                o = a
                if ch:
                    o = a.copy()
                    o.fields.update(ch)
                objres[n] = (o, 2)
                return
            o = a.copy()
            o.fields = {}
            if b.default != a.default:
                o.default = "sym" if "sym" in (a.default, b.default) or "zero" in (a.default, b.default) else "undef"
            if a.gen != b.gen:
                o.gen = ("g", blk)
            if a.size != b.size:
                o.size = None
            if a.status != b.status:
                o.status = "live"
                o.summ = True
            if a.struct != b.struct:
                o.struct = a.struct or b.struct
            o.summ = o.summ or a.summ or b.summ
            if b.site and a.site and a.site != b.site:
                o.site = min(a.site, b.site)
            elif bool(a.site) != bool(b.site):
                o.site = a.site or b.site
                o.summ = True
            keys = list(a.fields) + [k for k in b.fields if k not in a.fields]
            for k in keys:
                fa, fb = a.fields.get(k), b.fields.get(k)
                if fa is None or fb is None:
                    if isinstance(k, tuple):
                        if k[0] == "ctx":
                            o.fields[k] = fa or fb
                            loose(0 if fa else 1, A if fa else B, (fa or fb)[0])
                        else:
                            loose(0 if fa else 1, A if fa else B, (fa or fb)[0])
                        continue
                    z = (fa or fb)[1]
                    if fa is None:
                        fa = (self.defval(A, oa, a, k, z, z * 8), z)
                    if fb is None:
                        fb = (self.defval(B, ob, b, k, z, z * 8), z)
                if fa[1] != fb[1]:
                    loose(0, A, fa[0])
                    loose(1, B, fb[0])
                    continue
                o.fields[k] = (mv(fa[0], fb[0], ("m", blk, n, k)), fa[1])
            objres[n] = (o, 2)

        for i, a in A.env.items():
            newenv[i] = mv(a, B.env.get(i, UNDEF), ("m", blk, i))
        for oid in fixed:
            mobj(oid, oid, oid)
        while work:
            mobj(*work.pop())
        # everything else exists on one side only
        for side, X, P in ((0, A, pairA), (1, B, pairB)):
            for oid, o in X.mem.items():
                if oid in P:
                    continue
                if oid[0] in ("H", "X", "D") and (oid[0] != "D" or o.site):
                    n = uniq(oid, side == 0)
                    if n[0] == "D":
                        symname[n] = (n[1], 32 if o.kind == "fd" else 64)
                else:
                    n = oid
                    used.add(oid)
                P[oid] = None
                name[(oid, None) if side == 0 else (None, oid)] = n
                o2 = o
                if oid[0] in ("D", "G") and not o.site:
                    o2 = o.copy()
                    o2.fields = {}
                    for k, (v, z) in o.fields.items():
                        if v[0] == "s" and v[1] == ("L", oid, k, o.gen):
                            o2.fields[k] = (v, z)
                        else:
                            loose(side, X, v)
                objres[n] = (o2, side)
        # renamings of both sides into the result
        ren = [{}, {}]
        for (oa, ob), n in name.items():
            if oa is not None and oa != n:
                ren[0][oa] = n
            if ob is not None and ob != n:
                ren[1][ob] = n

        def rv(v, side):
            R = ren[side]
            if not R:
                return v
            k = v[0]
            if k == "p":
                off = v[2]
                n = R.get(v[1], v[1])
                if not isinstance(off, int):
                    off = lin(off[1], 0, [(rv(t, side), c) for t, c in off[2]])
                if n == v[1] and off == v[2]:
                    return v
                return ("p", n, off)
            if k == "s":
                n = R.get(("D", v[1]))
                return ("s", n[1], v[2]) if n is not None and n[0] == "D" else v
            if k == "o":
                return v[:3] + tuple(rv(x, side) if isinstance(x, tuple) else x for x in v[3:])
            return v

        def fin(v):
            if v[0] == "P2":
                a = rv(v[2], 0)
                return ("p", v[1], a[2])
            # values common to both sides mention only identically named things
            if ren[0]:
                if v[0] == "o" or (v[0] == "p" and not isinstance(v[2], int)):
                    return rv(v, 0) if v[0] == "o" else \
                        ("p", v[1], lin(v[2][1], 0, [(rv(t, 0), c) for t, c in v[2][2]]))
            return v
        S.env = {i: fin(v) for i, v in newenv.items()}
        for n, (o, side) in objres.items():
            ch = {}
            for k, (v, z) in o.fields.items():
                if v[0] == "c":
                    continue
                v2 = fin(v) if side == 2 else rv(v, side)
                if v2 is not v:
                    ch[k] = (v2, z)
            if ch:
                o = o.copy()
                o.fields.update(ch)
            S.mem[n] = o
        for side, oid in bad:
            P = pairA if side == 0 else pairB
            key = (oid, P.get(oid)) if side == 0 else (P.get(oid), oid)
            n = name.get(key)
            o = S.mem.get(n)
            if o is not None and o.site and not o.summ:
                self.collective(S, n)
        for n in [n for n, o in S.mem.items() if o.summ]:
            self.collective(S, n)
        ca = {rv(t, 0): r for t, r in A.cons.items()} if ren[0] else A.cons
        cb = {rv(t, 1): r for t, r in B.cons.items()} if ren[1] else B.cons
        for t, ra in ca.items():
            rb = cb.get(t)
            if self.redef and t[0] == "o":
                l = []
                t_syms(t, l)
                if any(x[1] in self.redef for x in l):
                    continue
            if rb is not None:
                if ra == rb:
                    S.cons[t] = ra
                else:
                    r = r_union(ra, rb)
                    if widen:
                        r = None if r != ra else r
                    if r is not None and t[0] != "c" and r != full(t[2]):
                        S.cons[t] = r
        syms = [None, None]

        def mentioned(side):
            if syms[side] is None:
                l = []
                X = (A, B)[side]
                for v in X.env.values():
                    t_syms(v, l)
                for o in X.mem.values():
                    l.extend(o.refs())
                syms[side] = {x[1] for x in (rv(y, side) for y in l) if x[0] == "s"}
            return syms[side]
        for side, (X, Y) in ((0, (ca, cb)), (1, (cb, ca))):
            for t, r in X.items():
                if t[0] == "s" and t not in Y and t not in S.cons and t[1] not in mentioned(1 - side):
                    S.cons[t] = r
        for t, r in ov.items():
            if r != full(t[2]):
                S.cons[t] = r
            elif t in S.cons:
                del S.cons[t]
        ga, gb = A.ghost, B.ghost
        if ren[0] and ga:
            ga = {k: self._rg(v, lambda x: rv(x, 0)) for k, v in ga.items()}
        if ren[1] and gb:
            gb = {k: self._rg(v, lambda x: rv(x, 1)) for k, v in gb.items()}
        S.ghost = self.plugin.ghost_merge(ga, gb) if self.plugin else dict(ga)
        l = []
        for v in S.env.values():
            t_syms(v, l)
        for oid, o in S.mem.items():
            if oid[0] == "D" and not o.summ and (o.site or oid[1][0] == "e"):
                l.append(("s", oid[1], 64))
            l.extend(o.refs())
        for v in S.ghost.values():
            gv = []
            self.ghost_vals(v, gv)
            for x in gv:
                t_syms(x, l)
        known = {x[1] for x in l}
        held = {x[1] for x in l if x[0] == "p"}
        for oid in [oid for oid, o in S.mem.items() if o.summ and oid not in held and oid[0] in ("H", "X")]:
            del S.mem[oid]
        for oid in [oid for oid, o in S.mem.items() if o.summ and oid[0] == "D" and oid[1] not in known
                    and oid not in held]:
            del S.mem[oid]
        for oid in [oid for oid, o in S.mem.items() if oid[0] == "D" and not o.site and oid[1] not in known
                    and oid not in held]:
            del S.mem[oid]
        nc = {}
        for t, r in S.cons.items():
            if t[0] == "s":
                if t[1] in known:
                    nc[t] = r
            else:
                l = []
                t_syms(t, l)
                if all(x[1] in known for x in l):
                    nc[t] = r
        S.cons = nc
        if A.trail and B.trail:
            i = 0
            while i < len(A.trail) and i < len(B.trail) and A.trail[i] == B.trail[i]:
                i += 1
            S.trail = A.trail[:i]
        return S

    def same(self, A, B, loose=False):
        """A (the join) brings nothing over B"""
        if A.env != B.env or A.ghost != B.ghost:
            return False
        if not loose:
            if len(A.mem) != len(B.mem):
                return False
            for t, r in B.cons.items():
                ra = A.cons.get(t)
                if ra != r and (ra is None or r_inter(ra, r) != ra):
                    return False
        for k, a in A.mem.items():
            b = B.mem.get(k)
            if a is b:
                continue
            if loose and k[0] == "D" and not a.site:
                continue
            if b is None:
                return False
            if a.status != b.status or a.summ != b.summ or a.site != b.site:
                return False
            if loose and a.default == "sym":
                continue
            if a.fields != b.fields or a.default != b.default:
                return False
            if not loose and (a.size != b.size or a.gen != b.gen):
                return False
        return True

    # -------------------------------------------------------------- intraprocedural
    def run_fn(self, F, st):
        """-> list of (State, return value); st.env holds the parameters"""
        self.fns_seen.add(F.name)
        self.stats["contexts"] += 1
        self.stack.append(F)
        try:
            return self._run_fn(F, st)
        finally:
            self.stack.pop()

    def _run_fn(self, F, st0):
        exits = []
        pend = {}          # block -> {skel: state}
        done = {}          # block -> {skel: (state, count)}
        lvl = {}
        heap = []
        inq = set()

        def push(b, st, frm):
            B = F.blocks[b]
            st.env = dict(st.env)
            if frm is not None:
                self.phis(F, st, B, frm)
            live = B.live_in | {I.id for I in B.insts if I.op == "phi"}
            if (frm, b) in F.backedges:
                self.age(F, st, b)
            if len(B.preds) > 1 or B.loophead or frm is None:
                self.gc(st, live, F.blocks[frm].insts[-1] if frm is not None else B.insts[0])
            else:
                st.env = {i: v for i, v in st.env.items() if i in live}
            if st.dead:
                return
            if st.trail:
                st.trail = tuple(x for x in st.trail if x[0] != b and b in F.loops[x[0]])
            if (frm, b) in F.loopexits:
                # held back until the loop is stable: older versions are superseded
                wait.setdefault(b, []).append((st, hold))
            elif not (len(B.preds) > 1 or B.loophead):
                pend.setdefault(b, {})[("raw", len(pend.get(b, ())))] = st
            elif not settle(b, st):
                return
            if b not in inq:
                inq.add(b)
                heappush(heap, (B.rpo, b))

        def settle(b, st):
            B = F.blocks[b]
            L = lvl.get(b, 0)
            d = done.setdefault(b, {})
            if L < 5 and len(d) >= (self.CAPS + self.CAPX4)[L]:
                lvl[b] = L = L + 1
                todo = [(x, cnt) for x, cnt in d.values()]
                pend.pop(b, None)
                done[b] = d = {}
                if B.loophead:
                    purge(lambda x: x[0] == b)
                for x, cnt in todo:
                    self.insert(F, B, b, d, pend, x, L, cnt)
            if not self.insert(F, B, b, d, pend, st, L, 0) and b not in pend:
                return False
            return True

        def purge(f):
            for w in list(wait):
                l = [(x, h) for x, h in wait[w] if not any(f(y) for y in h)]
                if len(l) != len(wait[w]):
                    wait[w] = l

        wait = {}
        version = {}
        hold = ()
        push(0, st0, None)
        steps = 0
        while heap:
            _, b = heappop(heap)
            inq.discard(b)
            B = F.blocks[b]
            for st, _ in wait.pop(b, ()):
                settle(b, st)
            states = pend.pop(b, {})
            if len(states) > self.CAPL and len(B.preds) == 1 and not B.loophead:
                for L in (0, 1, 2, 3):
                    out = {}
                    for st in states.values():
                        sk = self.skel(st, L)
                        out[sk] = self.merge(out[sk], st, b, False, L) if sk in out else st
                    states = out
                    if len(states) <= self.CAPL:
                        break
            for sk, s in states.items():
                steps += 1
                if steps > 60000:
                    raise AnalysisError("analysis of %s does not converge" % F.name)
                self.stats["blocks"] += 1
                s = s.copy()
                if B.loophead:
                    k = (b, lvl.get(b, 0), sk)
                    v = version[k] = version.get(k, 0) + 1
                    if v > 1:
                        purge(lambda x: x[:3] == k)
                    s.trail = (s.trail or ()) + (k + (v,),)
                hold = s.trail or ()
                self.exec_block(F, B, s, push, exits)
        return exits

    def insert(self, F, B, b, d, pend, st, L, cnt0):
        """add a state to the set at a join point; False when it brings nothing new"""
        sk = self.skel(st, L)
        if sk in d:
            old, cnt = d[sk]
            widen = B.loophead and cnt >= 3 or cnt > 12
            if (st.trail == old.trail or not old.trail) and self.same(st, old):
                return False
            new = self.merge(old, st, b, widen, L)
            if self.same(new, old, cnt > 16):
                return False
            d[sk] = (new, max(cnt, cnt0) + 1)
            pend.setdefault(b, {})[sk] = new
            return True
        if len(d) > self.CAP1 * 4:
            if self.opts.get("debug"):
                self.debug_explosion(d)
            raise AnalysisError("state explosion in %s block %d (%s)" % (F.name, b, B.insts[0].loc()))
        d[sk] = (st, cnt0)
        pend.setdefault(b, {})[sk] = st
        return True

    def debug_explosion(self, d):
        from collections import Counter
        ks = list(d)
        C1, C2 = Counter(), Counter()
        for sk in ks:
            for x in sk[0]:
                C1[x] += 1
            for x in sk[1]:
                for y in x[-1]:
                    C2[x[:-1] + (y,)] += 1
        N = len(ks)
        for C in (C1, C2):
            for x, c in C.most_common():
                if c != N:
                    print("   ", c, x)
        print("ghosts", len(set(sk[2] for sk in ks)))

    def phis(self, F, st, B, frm):
        new = []
        for I in B.insts:
            if I.op != "phi":
                break
            for o, pb in I.incoming:
                if pb == frm:
                    new.append((I.id, self.opnd(st, o)))
                    break
        iv = self.indvars(F, B) if B.loophead and not self.vn and (frm, B.idx) not in F.backedges else ()
        for i, v in new:
            if i in iv and v[0] == "c":
                w = v[2]
                t = ("s", ("iv", i), w)
                for x in [x for x in st.cons if x[0] == "s" and x[1] == t[1]]:
                    del st.cons[x]
                st.cons[t] = ((v[1], v[1]),)
                v = t
            st.env[i] = v

    def indvars(self, F, B):
        """loop counters: phis whose value on every back edge is themselves plus a constant"""
        c = self._iv.get((F.name, B.idx))
        if c is None:
            c = {}
            defs = {I.id: I for b in F.loops.get(B.idx, ()) for I in F.blocks[b].insts}
            for I in B.insts:
                if I.op != "phi" or I.kind != "i":
                    continue
                step = None
                for o, pb in I.incoming:
                    if (pb, B.idx) not in F.backedges:
                        continue
                    d = defs.get(o[1]) if o[0] == "v" else None
                    if d is not None and d.op == "add" and d.ops[0] == ("v", I.id) and d.ops[1][0] == "c":
                        k, w = d.ops[1][1], d.ops[1][2]
                        k = k - (1 << w) if k >> (w - 1) else k
                        step = k if step in (None, k) else 0
                    else:
                        step = 0
                if step:
                    c[I.id] = step
            self._iv[(F.name, B.idx)] = c
        return c



    def age(self, F, st, h):
        """back edge: values named after instructions of the loop body belong to the previous iteration"""
        body = F.loops.get(h, ())
        ids = set()
        for b in body:
            for I in F.blocks[b].insts:
                ids.add(I.id)
        smap = {}
        seen = []
        for v in st.env.values():
            t_syms(v, seen)
        for oid, o in st.mem.items():
            seen.extend(o.refs())
        hphis = {I.id for I in F.blocks[h].insts if I.op == "phi"}
        cache = {}

        def holds(v, n):
            l = []
            t_syms(v, l)
            return any(x[0] == "s" and x[1] == n for x in l)

        def stale(n):
            r = cache.get(n)
            if r is None:
                r = cache[n] = stale_(n)
            return r

        def stale_(n):
            k = n[0]
            if k == "i" or k == "k" or k == "cl":
                return n[1] in ids
            if k == "iv":
                return n[1] in ids
            if k == "m":
                if n[1] not in body:
                    return False
                if n[1] != h:
                    return True
                if len(n) == 3 or n[3] == "off":
                    return n[2] in hphis and not holds(st.env.get(n[2], UNDEF), n)
                o = st.mem.get(n[2])
                return o is None or n[3] not in o.fields or not holds(o.fields[n[3]][0], n)
            if k == "L":
                if isinstance(n[3], int) and n[3] > 1 and n[3] in ids:
                    return True
                if n[1][0] == "D" and stale(n[1][1]):
                    return True
                if isinstance(n[2], tuple) and n[2][0] == "L":
                    l = []
                    for x, _ in n[2][2]:
                        t_syms(x, l)
                    return any(x[0] == "s" and stale(x[1]) for x in l)
            return False
        for t in seen:
            if t[0] == "s" and t[1] not in smap and stale(t[1]):
                smap[t[1]] = ("old",) + t[1]
        for oid in st.mem:
            if oid[0] == "D" and oid[1] not in smap and stale(oid[1]):
                smap[oid[1]] = ("old",) + oid[1]
        if smap:
            # what was known about places computed from the previous iteration's values is forgotten
            for oid, o in list(st.mem.items()):
                dk = []
                for k in o.fields:
                    if isinstance(k, tuple) and k[0] == "L":
                        l = []
                        for x, _ in k[2]:
                            t_syms(x, l)
                        if any(x[0] == "s" and x[1] in smap for x in l):
                            dk.append(k)
                if dk:
                    o = st.wobj(oid)
                    for k in dk:
                        self.escape(st, o.fields.pop(k)[0])
            # drop constraints of names about to be reused
            tgt = set(smap.values())
            for t in [t for t in st.cons if t[0] == "s" and t[1] in tgt]:
                del st.cons[t]
            coll = []
            for n in tgt:
                if ("D", n) in st.mem:
                    p = st.mem[("D", n)]
                    for k, (x, z) in p.fields.items():
                        self.escape(st, x)
                    if p.site:
                        coll.append(("D", n))
                    del st.mem[("D", n)]
            self.rename(st, {}, smap)
            for oid in coll:
                if oid in st.mem and st.mem[oid].site:
                    st.wobj(oid).status = "live"
                    self.collective(st, oid)
        # a counter is the same abstract value in every iteration
        iv = self.indvars(F, F.blocks[h]) if not self.vn else {}
        for i, step in iv.items():
            v = st.env.get(i)
            if v is None or v[0] not in ("s", "o"):
                continue
            w = v[2]
            r = self.rng(st, v)
            if not r:
                continue
            t = ("s", ("iv", i), w)
            st.env[i] = t
            if r != full(w):
                st.cons[t] = r
            elif t in st.cons:
                del st.cons[t]

    def exec_block(self, F, B, st, push, exits):
        self.exec_from(F, B, 0, st, push, exits)

    def exec_from(self, F, B, i, st, push, exits):
        insts = B.insts
        n = len(insts)
        while i < n:
            I = insts[i]
            op = I.op
            if op == "phi":
                i += 1
                continue
            if op == "call":
                outs = self.call(st, I)
                if len(outs) == 1:
                    st, v = outs[0]
                    if st.dead:
                        return
                    if v is not None:
                        st.env[I.id] = v
                    i += 1
                    continue
                for s, v in outs:
                    if s.dead:
                        continue
                    if v is not None:
                        s.env[I.id] = v
                    self.exec_from(F, B, i + 1, s, push, exits)
                return
            if op == "br":
                if len(I.succ) == 1:
                    push(I.succ[0], st, B.idx)
                    return
                c = self.opnd(st, I.ops[0])
                if c[0] == "u":
                    self.report("uninit", I, "branch on an uninitialised value")
                    return
                r = self.rng(st, c)
                t, f = r_has(r, 1), r_has(r, 0)
                if I.succ[0] == I.succ[1]:
                    push(I.succ[0], st, B.idx)
                    return
                if t:
                    s = st.copy() if f else st
                    if self.refine(s, c, ((1, 1),)):
                        push(I.succ[0], s, B.idx)
                if f:
                    if self.refine(st, c, ((0, 0),)):
                        push(I.succ[1], st, B.idx)
                return
            if op == "switch":
                c = self.opnd(st, I.ops[0])
                if c[0] == "u":
                    self.report("uninit", I, "switch on an uninitialised value")
                    return
                w = width(c)
                rest = full(w)
                bysucc = {}
                for k, v in enumerate(I.cases):
                    bysucc.setdefault(I.succ[k + 1], []).append(v)
                    rest = r_inter(rest, cmp_set("ne", v, w))
                for b, vs in bysucc.items():
                    for v in vs:
                        s = st.copy()
                        if self.refine(s, c, ((v, v),)):
                            push(b, s, B.idx)
                if self.refine(st, c, rest):
                    push(I.succ[0], st, B.idx)
                return
            if op == "ret":
                v = self.opnd(st, I.ops[0]) if I.ops else None
                if v is not None and v[0] == "u" and F.rettype[0] != "v":
                    self.report("uninit", I, "returns an uninitialised value")
                st.env = {}
                # locals die
                keep = [v] if v is not None else []
                st.mem = {oid: o for oid, o in st.mem.items() if oid[0] != "A"} if not self._addr_kept(st, v) \
                    else {oid: o for oid, o in st.mem.items() if oid[0] != "A"}
                self.gc(st, None, I, keep)
                if self.plugin:
                    self.plugin.on_return(self, st, I, v)
                exits.append((st, v, I))
                return
            if op == "unreachable":
                return
            v = self.simple(st, I)
            if st.dead:
                return
            if v is not None:
                st.env[I.id] = v
            i += 1

    def _addr_kept(self, st, v):
        return False

    def simple(self, st, I):
        op = I.op
        if op == "load":
            p = self.opnd(st, I.ops[0])
            t = self.target(st, p, I, "read")
            if st.dead:
                return None
            if t is None:
                return self.fresh(st, ("i", I.id), I.w)
            if self.plugin and self.plugin.wants_mem:
                v = self.plugin.on_load(self, st, I, t)
                if v is not None:
                    return v
            return self.load(st, t[0], t[1], I.size, I)
        if op == "store":
            v = self.opnd(st, I.ops[0])
            p = self.opnd(st, I.ops[1])
            t = self.target(st, p, I, "write")
            if st.dead:
                return None
            if t is None:
                self.escape(st, v)
                return None
            if self.plugin and self.plugin.wants_mem:
                self.plugin.on_store(self, st, I, t, v)
            if t[0][0] == "G":
                g = self.M.globals.get(t[0][1])
                if g and g["const"]:
                    return None
            if v == NULLC and st.mem[t[0]].kind in ("heap", "ext", "param"):
                v = NIL
            reg = self._region.get((I.fn.name, I.ops[1][1])) if I.ops[1][0] == "v" else None
            self.store(st, t[0], t[1], I.size, v, reg)
            return None
        if op == "gep":
            b = self.opnd(st, I.ops[0])
            off, var, pathl, region = I.gep
            dv = []
            for o, scale in var:
                x = self.opnd(st, o)
                if x[0] == "c":
                    v = x[1] - (1 << x[2]) if x[1] >> (x[2] - 1) else x[1]
                    off += v * scale
                elif x[0] == "u":
                    self.report("uninit", I, "address computed from an uninitialised index")
                    st.dead = True
                    return None
                elif x[0] == "p":
                    dv.append((self.fresh(st, ("i", I.id), 64), 1))
                else:
                    # linear in add-with-constant (sign-extended indices keep their term)
                    if x[0] == "o" and x[1] == "add" and x[4][0] == "c" and x[2] == 64:
                        cv = x[4][1] - (1 << 64) if x[4][1] >> 63 else x[4][1]
                        off += cv * scale
                        x = x[3]
                    dv.append((x, scale))
            if b[0] == "p":
                o = st.mem.get(b[1])
                if o is not None and o.struct is None and I.structname and isinstance(b[2], int) and b[2] == 0 \
                        and not dv and o.kind in ("heap", "ext", "param") and not o.summ:
                    st.wobj(b[1]).struct = I.structname
                return ("p", b[1], lin(b[2], off, dv))
            if b[0] == "c":
                if dv and b == BAD:
                    return b
                return c_(b[1] + off, 64) if not dv else self.fresh(st, ("i", I.id), 64)
            if b[0] == "u":
                return UNDEF
            if b[0] == "s":
                if off == 0 and not dv:
                    if pathl or I.structname:
                        pass
                    return b
                # address of a member of what the symbol points to
                oid = ("D", b[1])
                if oid not in st.mem:
                    st.mem[oid] = Obj("ext", "sym", struct=I.structname)
                elif st.mem[oid].struct is None and I.structname and not dv:
                    st.wobj(oid).struct = I.structname
                if pathl and not self.refine(st, b, ((1, (1 << 64) - 1),)):
                    self.nullderef(st, b, I, "member access through a pointer known to be null")
                    return None
                return ("p", oid, lin(0, off, dv))
            return self.fresh(st, ("i", I.id), 64)
        if op == "alloca":
            oid = ("A", I.id)
            st.mem[oid] = Obj("alloca", "undef", None, c_(I.size, 64), I.structname)
            return ("p", oid, 0)
        if op == "icmp":
            return self.icmp(st, I, I.pred, self.opnd(st, I.ops[0]), self.opnd(st, I.ops[1]))
        if op in ("zext", "sext", "trunc"):
            return self.cast(st, I, op, I.w, self.opnd(st, I.ops[0]))
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"):
            return self.binop(st, I, op, I.w, self.opnd(st, I.ops[0]), self.opnd(st, I.ops[1]))
        if op in ("ptrtoint", "inttoptr", "bitcast", "freeze", "addrspacecast"):
            return self.opnd(st, I.ops[0])
        if op == "select":
            c, a, b = (self.opnd(st, o) for o in I.ops)
            r = self.rng(st, c)
            if r == ((1, 1),):
                return a
            if r == ((0, 0),):
                return b
            if a == b:
                return a
            if a[0] in ("p", "fn", "u") or b[0] in ("p", "fn", "u"):
                return self.fresh(st, ("i", I.id), I.w)
            t = ("o", "select", I.w, c, a, b)
            if tsize(t) > self.tmax:
                return self.fresh(st, ("i", I.id), I.w, r_union(self.rng(st, a), self.rng(st, b)))
            return t
        if I.kind == "v":
            return None
        return self.fresh(st, ("i", I.id), I.w)

    _region = {}

    # -------------------------------------------------------------- calls
    def call(self, st, I):
        c = I.callee
        if c[0] == "f":
            name = c[1]
        else:
            v = self.opnd(st, c)
            if v[0] == "fn" and isinstance(v[1], tuple):
                outs = []
                args = [self.opnd(st, o) for o in I.ops]
                for n in v[1]:
                    s2 = st.copy()
                    outs += self.call_fn(s2, I, self.M.fns[n], args) if n in self.M.fns else \
                        self.call_ext(s2, I, n, args)
                return outs
            if v[0] == "fn":
                name = v[1]
            elif v[0] == "c" or v[0] == "u":
                self.report("null-deref" if v[0] == "c" else "uninit", I, "call through an invalid function pointer")
                return []
            else:
                return self.indirect(st, I, v)
        args = [self.opnd(st, o) for o in I.ops]
        if name in self.M.fns:
            return self.call_fn(st, I, self.M.fns[name], args)
        return self.call_ext(st, I, name, args)

    def indirect(self, st, I, v):
        self.unmodelled["indirect call in %s at %s" % (I.fn.name, I.loc())] = 1
        st = self.havoc_args(st, I, [self.opnd(st, o) for o in I.ops])
        return [(st, self.fresh(st, ("i", I.id), I.w) if I.kind != "v" else None)]

    def havoc_args(self, st, I, args):
        for a in args:
            if a[0] == "p" and st.mem.get(a[1]) is not None and a[1][0] != "G" and st.mem[a[1]].status == "live":
                self.clobber(st, a, I)
        return st

    def call_ext(self, st, I, name, args):
        self.stats["extcalls"] += 1
        self.sites.setdefault(name, set()).add((I.fn.name, I.loc()))
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove") or name in ("memcpy", "memmove"):
            if self.plugin:
                self.plugin.on_ext(self, st, I, "memcpy", args, None, "ok")
            self.memcpy(st, args[0], args[1], args[2], I)
            return [(st, args[0] if I.kind != "v" else None)] if not st.dead else []
        if name.startswith("llvm.memset") or name == "memset":
            if self.plugin:
                self.plugin.on_ext(self, st, I, "memset", args, None, "ok")
            self.memset(st, args[0], args[1], args[2], I)
            return [(st, args[0] if I.kind != "v" else None)] if not st.dead else []
        m = self.models.get(name)
        if m is None:
            self.unmodelled[name] = self.unmodelled.get(name, 0) + 1
            st = self.havoc_args(st, I, args)
            return [(st, self.fresh(st, ("i", I.id), I.w) if I.kind != "v" else None)]
        for k, a in enumerate(args):
            if a[0] == "u" and not (name == "execl"):
                self.report("uninit", I, "uninitialised value passed to %s() as argument %d" % (name, k + 1))
                st.dead = True
                return []
        outs = m(self, st, I, args)
        if self.plugin:
            for s, v, tag in outs:
                if not s.dead:
                    self.plugin.on_ext(self, s, I, name, args, v, tag)
        return [(s, v) for s, v, tag in outs if not s.dead]

    def call_fn(self, st, I, F, args):
        self.stats["calls"] += 1
        if self.plugin:
            r = self.plugin.on_call(self, st, I, F, args)
            if r is not None:
                return r
        if F.name in self.active:
            st = self.havoc_args(st, I, args)
            return [(st, self.fresh(st, ("i", I.id), I.w) if I.kind != "v" else None)]
        ent, back = self.project(st, F, args)
        key = (F.name, self.freeze(ent))
        res = self.memo.get(key)
        if res is None:
            self.active.append(F.name)
            try:
                exits = self.run_fn(F, ent.copy())
            finally:
                self.active.pop()
            res = self.fold_exits(F, exits)
            self.stats["exits"] += len(res)
            self.memo[key] = res
        else:
            self.stats["memohits"] += 1
        outs = []
        for xs, v in res:
            s = st.copy() if len(res) > 1 else st
            s, rv = self.unproject(s, I, xs, v, back)
            if self.plugin:
                self.plugin.after_call(self, s, I, F, args, rv)
            if not s.dead:
                outs.append((s, rv))
        return outs

    def footprint(self, F, k, seen=()):
        """window [lo, hi) of bytes the callee may touch directly through pointer parameter k, or None"""
        C = self.M.__dict__.setdefault("_foot", {})
        if (F.name, k) in C:
            return C[(F.name, k)]
        if (F.name, k) in seen:
            return None
        seen = seen + ((F.name, k),)
        pid, kind = F.params[k][0], F.params[k][1]
        lo, hi = 0, 0
        ok = kind == "p"
        offs = {pid: 0}
        if ok:
            for B in F.blocks:
                for I in B.insts:
                    if I.op == "gep" and I.ops[0][0] == "v" and I.ops[0][1] in offs:
                        if I.gep[1]:
                            ok = False
                        else:
                            offs[I.id] = offs[I.ops[0][1]] + I.gep[0]
            changed = ok
            for B in F.blocks:
                if not ok:
                    break
                for I in B.insts:
                    for n, o in enumerate(I.ops):
                        if o[0] != "v" or o[1] not in offs:
                            continue
                        a = offs[o[1]]
                        if I.op == "gep" and n == 0:
                            continue
                        if I.op == "load" or (I.op == "store" and n == 1):
                            lo, hi = min(lo, a), max(hi, a + I.size)
                            continue
                        if I.op == "icmp":
                            continue
                        if I.op == "call" and I.callee[0] == "f":
                            c = I.callee[1]
                            if c in self.M.fns:
                                G = self.M.fns[c]
                                w = self.footprint(G, n, seen) if n < len(G.params) else None
                                if w is not None:
                                    lo, hi = min(lo, a + w[0]), max(hi, a + w[1])
                                    continue
                            elif (c.startswith("llvm.mem") or c in ("memcpy", "memset", "memmove")) and \
                                    I.ops[2][0] == "c":
                                lo, hi = min(lo, a), max(hi, a + I.ops[2][1])
                                continue
                        ok = False
                    if I.op == "phi":
                        for o, pb in I.incoming:
                            if o[0] == "v" and o[1] in offs:
                                ok = False
        r = (lo, hi) if ok and hi - lo <= 64 else None
        if len(seen) == 1 or r is not None:
            C[(F.name, k)] = r
        return r

    def project(self, st, F, args):
        """canonical local heap for a call; back maps canonical names to caller names"""
        views = {}
        if len(args) <= len(F.params) and not self.opts.get("noviews"):
            cand = {}
            for k, a in enumerate(args):
                if a[0] == "p" and a[1][0] != "G" and st.mem.get(a[1]) is not None and \
                        st.mem[a[1]].status == "live" and st.mem[a[1]].kind in ("alloca", "heap", "ext", "param"):
                    w = self.footprint(F, k)
                    if w is not None and (isinstance(a[2], int) or w[0] == 0):
                        cand[k] = w
            for k, w in list(cand.items()):
                oid, off = args[k][1], args[k][2]
                o = st.mem[oid]
                rest = [a for j, a in enumerate(args) if j != k]
                gv = []
                for g in st.ghost.values():
                    self.ghost_vals(g, gv)
                win = {}
                for f, (v, z) in o.fields.items():
                    if isinstance(off, int):
                        if isinstance(f, int) and f < off + w[1] and off + w[0] < f + z:
                            win[f - off] = (v, z)
                        elif isinstance(f, tuple) and f[0] == "L":
                            win = None
                            break
                    else:
                        d = lindiff(f, off) if not (isinstance(f, tuple) and f[0] != "L") else None
                        if d is not None and w[0] <= d < w[1]:
                            win[d] = (v, z)
                if win is None:
                    continue
                objs, _ = self.reach(st, rest + gv + [v for v, z in win.values()] +
                                     [("p", x, 0) for x, q in st.mem.items() if q.kind == "global"])
                if oid in objs:
                    continue
                vo = ("V", k)
                x = Obj(o.kind if o.kind != "heap" else "ext", o.default, None, None)
                if isinstance(off, int) and o.size is not None and o.size[0] == "c":
                    x.size = None
                x.fields = win
                x.gen = 0
                if x.default == "zero" or x.default == "undef":
                    # bytes of the window not written yet keep the object's default
                    pass
                st.mem[vo] = x
                views[k] = (vo, oid, off, w, dict(win))
                args = args[:k] + [("p", vo, 0)] + args[k + 1:]
        E, back = self._project(st, F, args)
        for vo, oid, off, w, win in views.values():
            del st.mem[vo]
        return E, back + (views,)

    def _project(self, st, F, args):
        gv = []
        gk = sorted(st.ghost)
        for k in gk:
            self.ghost_vals(st.ghost[k], gv)
        globs = [("p", oid, 0) for oid, o in st.mem.items() if o.kind == "global" and
                 not (self.M.globals.get(oid[1]) or {}).get("const")]
        omap, smap = {}, {}
        order = []
        work = []
        direct = set()
        for a in args:
            if a[0] == "s":
                direct.add(("D", a[1]))
            elif a[0] == "p":
                direct.add(a[1])

        def known(oid):
            """what the caller knows about an object is passed on, except stray facts about foreign memory"""
            o = st.mem.get(oid)
            if o is None:
                return False
            return oid[0] != "D" or bool(o.site) or o.status != "live" or oid in direct

        def note(l):
            for t in l:
                if t[0] == "s":
                    if t[1] not in smap:
                        # names starting with @ mean the same thing everywhere
                        smap[t[1]] = ("e", len(smap)) if t[1][0] != "@" else t[1]
                        if known(("D", t[1])):
                            work.append(("D", t[1]))
                else:
                    oid = t[1]
                    if oid[0] == "D" and oid[1] not in smap:
                        smap[oid[1]] = ("e", len(smap)) if oid[1][0] != "@" else oid[1]
                    work.append(oid)

        def visit(v):
            l = []
            t_syms(v, l)
            note(l)
            while work:
                oid = work.pop(0)
                if oid in omap:
                    continue
                o = st.mem.get(oid)
                if o is None or not known(oid):
                    omap[oid] = ("E", len(omap)) if oid[0] != "D" and oid[0] != "G" else \
                        (("D", smap[oid[1]]) if oid[0] == "D" else oid)
                    continue
                if oid[0] == "D":
                    omap[oid] = ("D", smap[oid[1]])
                elif oid[0] == "G":
                    omap[oid] = oid
                else:
                    omap[oid] = ("E", len(omap))
                order.append(oid)
                for k in sorted((k for k in o.fields if isinstance(k, int)), key=int):
                    l = []
                    t_syms(o.fields[k][0], l)
                    note(l)
                for k in [k for k in o.fields if not isinstance(k, int)]:
                    if k[0] == "L":
                        self.escape(st, o.fields[k][0])
                    else:
                        l = []
                        t_syms(o.fields[k][0], l)
                        note(l)
        for a in args:
            visit(a)
        for g in globs:
            visit(g)
        for g in gv:
            visit(g)

        def rv(v):
            k = v[0]
            if k == "p":
                off = v[2]
                if not isinstance(off, int):
                    off = lin(off[1], 0, [(rv(t), c) for t, c in off[2]])
                return ("p", omap[v[1]], off)
            if k == "s":
                return ("s", smap[v[1]], v[2])
            if k == "o":
                return v[:3] + tuple(rv(x) if isinstance(x, tuple) else x for x in v[3:])
            return v
        E = State()
        for (pid, _, _, _), a in zip(F.params, args):
            E.env[pid] = rv(a)
        for oid in order:
            o = st.mem[oid]
            o2 = o.copy()
            f = {}
            for k, (v, z) in o.fields.items():
                if isinstance(k, tuple) and k[0] == "L":
                    if o2.default == "undef":
                        o2.default = "sym"
                    continue
                f[k] = (rv(v), z)
            o2.fields = f
            if o2.size is not None and o2.size[0] != "c":
                l = []
                t_syms(o2.size, l)
                o2.size = rv(o2.size) if all(x[0] == "s" and x[1] in smap for x in l) else None
            o2.gen = 0 if o2.default != "sym" else o2.gen
            E.mem[omap[oid]] = o2
        for t, r in st.cons.items():
            if t[0] != "s" or t[1] not in smap:
                continue
            r = self.coarse(r, t[2])
            if r is not None:
                E.cons[rv(t)] = r
        E.ghost = {k: self._rg(v, rv) for k, v in st.ghost.items()}
        back = ({v: k for k, v in omap.items()}, {v: k for k, v in smap.items()}, order)
        return E, back

    @staticmethod
    def coarse(r, w):
        """range information worth carrying into a callee: small enumerations, zero / non-zero, sign"""
        if r[-1][1] <= 255 or w <= 16 and r != full(w):
            return r
        if w == 32 and r[-1][1] <= 0x7fffffff:
            return ((0, 0x7fffffff),) if r[0][0] == 0 else ((1, 0x7fffffff),)
        if r[0][0] > 0:
            return ((1, (1 << w) - 1),)
        return None

    def freeze(self, st):
        mem = []
        for oid, o in st.mem.items():
            if oid[0] == "G" and (self.M.globals.get(oid[1]) or {}).get("const"):
                continue
            mem.append((oid, o.kind, o.status, o.default, o.site, o.size, o.gen, o.struct, o.summ,
                        frozenset(o.fields.items())))
        return (frozenset(st.env.items()), frozenset(mem), frozenset(st.cons.items()),
                frozenset(st.ghost.items()))

    def fold_exits(self, F, exits):
        """canonicalise and merge the exit states of one context"""
        sts = []
        for st, v, I in exits:
            st.env = {"ret": v} if v is not None else {}
            if self.tmax < 100:
                self.forget_terms(st)
            self.canon_exit(st)
            sts.append(st)
        for L in (0, 1, 2, 3):
            out = {}
            for st in sts:
                sk = self.skel(st, L)
                if sk in out:
                    out[sk] = self.merge(out[sk], st, ("x", F.name), False, L)
                else:
                    out[sk] = st
            if len(out) <= self.CAPX:
                break
            sts = list(out.values())
        res = []
        for st in out.values():
            v = st.env.get("ret")
            st.env = {}
            res.append((st, v))
        return res

    def forget_terms(self, st):
        """compound integer terms left in memory become opaque symbols (their range is kept)"""
        tm = {}
        ret = st.env.get("ret")
        for oid, o in list(st.mem.items()):
            hit = {}
            for k, (v, z) in o.fields.items():
                if v[0] == "o":
                    if v not in tm:
                        t = ("s", ("t", len(tm)), v[2])
                        r = self.coarse(self.rng(st, v), v[2])
                        tm[v] = (t, r)
                    hit[k] = (tm[v][0], z)
            if hit:
                o = st.wobj(oid)
                o.fields.update(hit)
        if ret is not None and ret in tm:
            st.env["ret"] = tm[ret][0]
        for t, r in tm.values():
            if r is not None:
                st.cons[t] = r

    def canon_exit(self, st):
        """name everything created inside the callee by order of reachability"""
        omap, smap = {}, {}
        gv = []
        for k in sorted(st.ghost):
            self.ghost_vals(st.ghost[k], gv)
        work = []
        seen = set()

        def note(v):
            l = []
            t_syms(v, l)
            for t in l:
                if t[0] == "s":
                    n = t[1]
                    if n[0] not in ("e", "@") and n not in smap:
                        smap[n] = ("x", len(smap))
                    if ("D", n) in st.mem:
                        work.append(("D", n))
                else:
                    oid = t[1]
                    if oid[0] == "D":
                        if oid[1][0] not in ("e", "@") and oid[1] not in smap:
                            smap[oid[1]] = ("x", len(smap))
                    elif oid[0] == "H" and oid not in omap:
                        omap[oid] = ("X", len(omap))
                    work.append(oid)

        def drain():
            while work:
                oid = work.pop(0)
                if oid in seen:
                    continue
                seen.add(oid)
                o = st.mem.get(oid)
                if o is None:
                    continue
                for k in sorted(o.fields, key=repr):
                    if isinstance(k, tuple) and k[0] == "L":
                        for x, _ in k[2]:
                            note(x)
                    note(o.fields[k][0])
                if o.size is not None and o.size[0] != "c":
                    note(o.size)
        if "ret" in st.env:
            note(st.env["ret"])
            drain()
        for oid in sorted((o for o in st.mem if o[0] in ("E", "G")), key=repr):
            work.append(oid)
        for oid in sorted((o for o in st.mem if o[0] == "D" and o[1][0] in ("e", "@")), key=repr):
            work.append(oid)
        drain()
        for g in gv:
            note(g)
            drain()
        for oid in st.mem:
            if oid[0] == "H" and oid not in omap:
                omap[oid] = ("X", len(omap))
            if oid[0] == "D" and oid[1][0] not in ("e", "@") and oid[1] not in smap:
                smap[oid[1]] = ("x", len(smap))
        if omap or smap:
            self.rename(st, omap, smap)

    def unproject(self, st, I, xs, v, back):
        ob, sb, order, views = back
        site = I.id

        # names of the new things in the caller
        def so(oid):
            if oid in ob:
                return ob[oid]
            if oid[0] == "X":
                return ("H", ("k", site, oid[1]), "")
            if oid[0] == "D":
                return ("D", ss(oid[1]))
            return oid

        def ss(n):
            if n in sb:
                return sb[n]
            if n[0] == "@":
                return n
            if n[0] == "x":
                return ("k", site, n[1])
            if n[0] == "L":
                return ("k", site) + n
            return ("k", site, n)

        def rv(t):
            k = t[0]
            if k == "p":
                off = t[2]
                if not isinstance(off, int):
                    off = lin(off[1], 0, [(rv(x), c) for x, c in off[2]])
                return ("p", so(t[1]), off)
            if k == "s":
                return ("s", ss(t[1]), t[2])
            if k == "o":
                return t[:3] + tuple(rv(x) if isinstance(x, tuple) else x for x in t[3:])
            return t
        # retire stale instances of the names we are about to introduce
        newobjs = [so(oid) for oid in xs.mem if oid[0] == "X"]
        stale = {}
        for n in newobjs:
            if n in st.mem:
                stale[n] = ("H", ("old",) + n[1:], "")
        newsyms = {}
        for oid, o in st.mem.items():
            for t in o.refs():
                if t[0] == "s" and t[1][0] == "k" and t[1][1] == site:
                    newsyms[t[1]] = ("old",) + t[1]
        for val in st.env.values():
            l = []
            t_syms(val, l)
            for t in l:
                if t[0] == "s" and t[1][0] == "k" and t[1][1] == site:
                    newsyms[t[1]] = ("old",) + t[1]
        if stale or newsyms:
            prevs = {n: st.mem.get(n) for n in stale.values()}
            self.rename(st, stale, newsyms)
            back_needs = {**{k: v for k, v in stale.items()}}
            ob = {c: back_needs.get(o, o) for c, o in ob.items()}
            sb = {c: newsyms.get(n, n) for c, n in sb.items()}
            for n, p in prevs.items():
                if p is not None and n in st.mem:
                    for k, (x, z) in p.fields.items():
                        self.escape(st, x)
                    st.wobj(n).status = "live"
                    self.collective(st, n)
        else:
            for t in [t for t in st.cons if t[0] == "s" and t[1][0] == "k" and t[1][1] == site]:
                del st.cons[t]
        passed = set(order)
        for oid in passed:
            st.mem.pop(stale.get(oid, oid) if stale else oid, None)
        # projected-out objects: those no longer present in the exit state were dropped by the callee's gc
        present = set()
        for oid, o in xs.mem.items():
            n = so(oid)
            o2 = o.copy()
            f = {}
            for k, (val, z) in o.fields.items():
                k2 = k
                if isinstance(k, tuple) and k[0] == "L":
                    k2 = lin(k[1], 0, [(rv(t), c) for t, c in k[2]])
                f[k2] = (rv(val), z)
            o2.fields = f
            if o2.size is not None:
                o2.size = rv(o2.size)
            if isinstance(o2.gen, tuple) or (o2.gen and o2.default == "sym"):
                o2.gen = ("k", site)
            st.mem[n] = o2
        for t, r in xs.cons.items():
            t2 = rv(t)
            if t2[0] == "s" and t2 in st.cons:
                r = r_inter(st.cons[t2], r) or r
            st.cons[t2] = r
        views = {v[0]: v for v in views.values()}
        for vo, oid, off, w, win in views.values():
            x = st.mem.pop(vo, None)
            n = stale.get(oid, oid) if stale else oid
            o = st.mem.get(n)
            if x is None or o is None:
                continue
            o = st.wobj(n)
            if x.default == "sym" and o.default != "sym":
                # bytes without a field of their own were written through the view
                o.default = "sym"
            if isinstance(off, int):
                for f in [f for f, (_, z) in o.fields.items()
                          if isinstance(f, int) and f < off + w[1] and off + w[0] < f + z]:
                    del o.fields[f]
                for f, q in x.fields.items():
                    if isinstance(f, int):
                        o.fields[off + f] = q
            else:
                off2 = off
                if newsyms or stale:
                    off2 = self._renoff(off, stale, newsyms)
                ch = {f: q for f, q in x.fields.items() if isinstance(f, int) and win.get(f) != q}
                for f, q in ch.items():
                    self.store(st, n, lin(off2, f), q[1], q[0])
        def gv(t):
            t = rv(t)
            if t[0] == "p" and t[1] in views and isinstance(t[2], int):
                vo, oid, off, w, win = views[t[1]]
                n = stale.get(oid, oid) if stale else oid
                return ("p", n, lin(self._renoff(off, stale, newsyms) if not isinstance(off, int) else off, t[2]))
            return t
        st.ghost = {k: self._rg(val, gv) for k, val in xs.ghost.items()}
        return st, (rv(v) if v is not None else None)

    @staticmethod
    def _renoff(off, omap, smap):
        def rv(t):
            if t[0] == "s":
                return ("s", smap.get(t[1], t[1]), t[2])
            if t[0] == "p":
                return ("p", omap.get(t[1], t[1]), t[2])
            if t[0] == "o":
                return t[:3] + tuple(rv(x) if isinstance(x, tuple) else x for x in t[3:])
            return t
        return lin(off[1], 0, [(rv(t), c) for t, c in off[2]])

    # -------------------------------------------------------------- roots
    def run_root(self, name, setup=None):
        F = self.M.fns.get(name)
        if F is None:
            raise AnalysisError("entry point %s not found" % name)
        st = State()
        for k, (pid, kind, w, pname) in enumerate(F.params):
            st.env[pid] = ("s", ("e", k), w)
        if setup:
            setup(self, st, F)
        if self.plugin:
            self.plugin.on_root(self, st, F)
        self.active.append(name)
        try:
            exits = self.run_fn(F, st)
        finally:
            self.active.pop()
        if self.plugin:
            self.stack.append(F)
            for s, v, I in exits:
                self.plugin.on_root_exit(self, s, v, I, F)
            self.stack.pop()
        return exits


class Plugin:
    """ghost-state client; all hooks optional"""
    wants_mem = False
    ghost_weakens = False          # ghost_merge keeps what both states know, so any two may be merged

    def want_leak(self, eng, st, o, I):
        return True

    def ghost_key(self, st):
        return frozenset(st.ghost.items())

    def ghost_merge(self, a, b):
        return dict(a)

    def on_ext(self, eng, st, I, name, args, ret, tag):
        pass

    def on_call(self, eng, st, I, F, args):
        return None

    def after_call(self, eng, st, I, F, args, ret):
        pass

    def on_return(self, eng, st, I, v):
        pass

    def on_root(self, eng, st, F):
        pass

    def on_root_exit(self, eng, st, v, I, F):
        pass

    def on_load(self, eng, st, I, t):
        pass

    def on_store(self, eng, st, I, t, v):
        pass
