"""Making a delta: the instructions describe the differences found, all of them and nothing else."""
from .. import models
from ..engine import Engine, c_, NIL, lin as plin
from ..run import parallel
from .api import leaf, done
from .format import sym, at, name, D
from .conduit import lin, add, bounds, zero, ptr, known
from .pipeline import NZ
from .shadow import Shadowed, SH

MAX = (1 << 31) - 1
FEW = 1 << 28           # instructions; their lists would not fit into memory otherwise
FAR = 1 << 62           # places in packages


def neg(L):
    return -L[0], tuple((t, -k) for t, k in L[1])


def arg(*n):
    def f(eng, st, F, pid):
        st.env[pid] = sym(64, *n)
        eng.refine(st, st.env[pid], NZ)
    return f


def number(w, hi, *n):
    def f(eng, st, F, pid):
        st.env[pid] = sym(w, *n)
        eng.refine(st, st.env[pid], ((0, hi),))
    return f


class Lists(Shadowed):
    """reads the list of differences, element by element"""
    members = ("old_off", "old_len", "new_off", "new_len")

    def __init__(self, M, bad, quiet=False):
        super().__init__(bad)
        self.M, self.quiet = M, quiet
        self.size = M.structsize.get("diff_copy", 0)
        self.where = {n: o for n, (o, z) in leaf(M, "diff_copy").items()} if "diff_copy" in M.fields else {}
        self.cut = {k: v for k, v in self.cut.items() if k in M.fns}
        self.arrays_seen = []
        self.elements = self.words = 0

    def judge(self, *r, **k):
        return True if self.quiet else super().judge(*r, **k)

    def run_setup(self, init, params):
        def setup(eng, st, F):
            self.begin(st, init)
            for (pid, kind, w, n), f in zip(F.params, params):
                f(eng, st, F, pid)
        return setup

    def c_resize(self, e, st, I, a):
        t = e.target(st, a[0], I, "write")
        if t is None or not isinstance(t[1], int):
            st.ghost["lost"] = 1
            return [(st, c_(1, 1))]
        if t not in self.arrays_seen:
            self.arrays_seen.append(t)
        k = self.arrays_seen.index(t)
        v = sym(64, "array", k)
        if self.quiet:
            self.turn(st, 1 + min(k, 2))
        e.refine(st, v, NZ)
        e.store(st, t[0], t[1], 8, v)
        return [(st, c_(1, 1))]

    def few(self, e, st, k):
        for t, _ in self.val(e, st, k)[1]:
            e.refine(st, t, ((0, FEW),))

    def plus(self, e, st, I, k, v, op="add"):
        w = self.slots[k] * 8
        self.set(st, k, e.binop(st, I, op, w, self.get(st, k), v if isinstance(v, tuple) else c_(v % (1 << w), w)))

    # ------------------------------------------------------------ differences, in order
    def on_load(self, eng, st, I, t):
        oid, off = t
        if oid != ("D", at("diffs")) or I.size != 8 or st.ghost.get("lost"):
            return None
        text = "the differences are not taken one after the other"
        d = self.differ(eng, st, ("p", oid, off), self.get(st, "pos"))
        if d[0][1]:
            b = self.val(eng, st, "begun")
            o = ptr(eng, st, ("p", oid, off))[1]
            x = add(o, ((b[0] - 1) * self.size, tuple((t, k * self.size) for t, k in b[1])), -1)
            if not x[1]:
                d = (x, False)
        if d[0][1]:
            self.judge(eng, st, I, text, d[0], one=d[1])
            return None
        d = d[0][0]
        if self.size <= d < 2 * self.size:
            self.next_element(eng, st, I)
            d -= self.size
        n = [k for k, o in self.where.items() if o == d]
        if not self.judge(eng, st, I, text, ok=bool(n) and self.get(st, "begun") != c_(0, 64)):
            return None
        return self.get(st, n[0])

    def next_element(self, e, st, I):
        self.elements += 1
        self.element_ends(e, st, I, "the next difference is taken")
        p = self.get(st, "pos")
        self.set(st, "pos", ("p", p[1], plin(p[2], self.size)))
        self.plus(e, st, I, "begun", 1)
        self.turn(st, 0)
        for n in self.members:
            self.set(st, n, self.new(e, st, I, n, 64, ((0, FAR),)))


class Copies(Lists):
    """differences into instructions"""
    slots = {"pos": 8, "begun": 8, "old_off": 8, "old_len": 8, "new_off": 8, "new_len": 8, "want": 8, "oleft": 8, "nleft": 8, "place": 8,
             "ecount": 4, "elast": 4, "icount": 4, "e0": 4, "e4": 4, "i0": 4, "i4": 4,
             "r_ext": 8, "r_int": 8, "r_ext_count": 4, "r_int_count": 4}
    marks = ("e", "i", "led", "le", "ge", "up", "down", "over", "under", "all", "none", "first")

    which = {}
    cut = {"resize16": Lists.c_resize, "resize32": Lists.c_resize}

    # what the path says of the way from the place reached to the data wanted: joins of states forget the conditions
    RANGES = {"le": (None, 0), "ge": (0, None), "up": (None, MAX), "down": (-MAX, None), "over": (MAX, None), "under": (None, -MAX)}

    def ghost_key(self, st):
        if SH in st.mem and not st.ghost.get("lost"):
            e = self.eng
            d = add(self.val(e, st, "want"), self.val(e, st, "place"), -1)
            fs = None
            for k, (lo, hi) in self.RANGES.items():
                if not st.ghost.get(k):
                    fs = self.facts(e, st) if fs is None else fs
                    if self.atmost(e, st, *((d, hi) if lo is None else (neg(d), -lo)), fs):
                        st.ghost[k] = 1
            if not st.ghost.get("none"):
                d = add(self.val(e, st, "ecount"), self.val(e, st, "elast"), -1)
                if self.settled(e, st, d):
                    st.ghost["none"] = 1
            if not st.ghost.get("all"):
                d = add(lin(e, st, sym(64, "count")), self.val(e, st, "begun"), -1)
                if self.atmost(e, st, d, 0, self.facts(e, st) if fs is None else fs):
                    st.ghost["all"] = 1
            for x, y in (("le", "up"), ("ge", "down"), ("over", "ge"), ("under", "le")):
                if st.ghost.get(x):
                    st.ghost[y] = 1
        return super().ghost_key(st)

    def settled(self, e, st, d):
        if zero(e, st, d):
            return True
        fs = self.facts(e, st)
        return self.atmost(e, st, d, 0, fs) and self.atmost(e, st, neg(d), 0, fs)

    def moved(self, st):
        for k in self.RANGES:
            st.ghost.pop(k, None)

    def next_element(self, e, st, I):
        d = add(lin(e, st, sym(64, "count")), self.val(e, st, "begun"), -1)
        self.judge(e, st, I, "more differences are taken than there are", d, 1)
        super().next_element(e, st, I)
        st.ghost.pop("all", None)
        for k, n in (("want", "old_off"), ("oleft", "old_len"), ("nleft", "new_len")):
            self.set(st, k, self.get(st, n))
        self.moved(st)

    def element_ends(self, e, st, I, what):
        self.judge(e, st, I, "%s although copies of old data may be missing for the one before" % what, self.val(e, st, "oleft"))
        self.judge(e, st, I, "%s although copies of new data may be missing for the one before" % what, self.val(e, st, "nleft"))
        self.judge(e, st, I, "%s although an instruction is incomplete" % what, ok=not st.ghost.get("e") and not st.ghost.get("i"))

    def on_store(self, eng, st, I, t, v):
        oid, off = t
        if oid[0] == "D" and oid[1][0] == "@" and "r_%s" % oid[1][1] in self.slots and off == 0:
            self.set(st, "r_%s" % oid[1][1], v)
        if self.quiet or st.ghost.get("lost") or oid[0] != "D" or oid[1][:2] != at("array"):
            return
        k = self.which.get(oid[1])
        if k is None:
            return
        self.words += 1
        self.few(eng, st, k + "count")
        kind = {"e": "external", "i": "internal"}[k]
        pos = (off, ()) if isinstance(off, int) else ptr(eng, st, ("p", ("D", "x"), off))[1]
        n = self.val(eng, st, k + "count")
        d = add(pos, (8 * n[0], tuple((t, 8 * c) for t, c in n[1])), -1)
        text = "%s copies are not written one after the other" % kind
        if I.size != 4 or d not in ((0, ()), (4, ())):
            self.judge(eng, st, I, text, d if d[1] else None, ok=bool(d[1]) and I.size == 4, one=self.merged(pos) != self.merged(n))
            return
        m = tuple(sorted(set(st.ghost.get(k, ())) | {d[0]}))
        if k == "e" and d[0] == 0 and v[0] != "c":
            self.leads(eng, st, I, v)       # at once: joins would blur it
            st.ghost["led"] = 1
        elif k == "i" and d[0] == 0:
            x, y = lin(eng, st, v), add(self.val(eng, st, "ecount"), self.val(eng, st, "elast"), -1)
            self.judge(eng, st, I, "an internal copy does not count the external copies before it", add(x, y, -1),
                       one=self.merged(x) != self.merged(y))
        else:
            self.set(st, "%s%d" % (k, d[0]), v)
        if len(m) < 2:
            st.ghost[k] = m
            return
        st.ghost.pop(k, None)
        w0, w1 = self.get(st, k + "0"), self.get(st, k + "4")
        (self.external if k == "e" else self.internal)(eng, st, I, w0, w1)
        self.plus(eng, st, I, k + "count", 1)

    def length(self, e, st, I, w, left, hi, text):
        """what a length word stands for, as 64 bits"""
        x = w
        if x[0] == "c":
            x = c_(w[1], 64)
        else:
            while x[0] == "o" and x[1] in ("trunc", "zext"):
                x = x[3]
            b = bounds(e, st, lin(e, st, x))
            if not b or b[0] < 0 or b[1] > hi:
                self.judge(e, st, I, "a length may not fit into its instruction", ok=False) if not self.merged(lin(e, st, x)) else \
                    st.ghost.__setitem__("lost", 1)
                return None
            if x[2] != 64:
                x = ("o", "zext", 64, x)
        self.judge(e, st, I, text, add(self.val(e, st, left), lin(e, st, x), -1), 0)
        return x

    def leads(self, e, st, I, w0):
        x = w0
        d = add(self.val(e, st, "want"), self.val(e, st, "place"), -1)
        if x[0] == "o" and x[1] == "trunc":
            x = x[3]
        L = lin(e, st, x) if w0[0] != "c" else ((w0[1] - (1 << 32) if w0[1] >> 31 else w0[1]), ())
        if not self.judge(e, st, I, "an external copy does not lead to the old data to copy", add(L, d, -1),
                          one=self.merged(L) != self.merged(d)):
            return
        self.ghost_key(st)
        if not (st.ghost.get("up") and st.ghost.get("down")):
            self.judge(e, st, I, "the way to the old data to copy may not fit into the instruction", ok=False)

    def external(self, e, st, I, w0, w1):
        self.turn(st, 1)
        led = st.ghost.pop("led", None)
        st.ghost.pop("none", None)
        if self.get(st, "begun") == c_(1, 64):
            # what the first difference becomes keeps states apart
            st.ghost["first"] = (st.ghost.get("first", ()) + ("empty" if not led and w1[:2] == ("c", 0) else "part" if w1[0] == "c" else "rest",))[:2]
        if not led and w1[:2] == ("c", 0):
            k = w0[1] - (1 << 32) if w0[1] >> 31 else w0[1]
            if k:
                self.ghost_key(st)
                g = "over" if k > 0 else "under"
                if abs(k) > MAX or not st.ghost.get(g):
                    d = add(self.val(e, st, "want"), self.val(e, st, "place"), -1)
                    self.judge(e, st, I, "an empty copy may lead past the old data to copy", d if k > 0 else neg(d), abs(k),
                               ok=not st.ghost.get("le" if k > 0 else "ge"))
            self.plus(e, st, I, "place", k)
            self.moved(st)
            return
        if not led:
            self.leads(e, st, I, w0)
        n = self.length(e, st, I, w1, "oleft", MAX, "more old data are copied than were found equal")
        if n is None:
            return
        self.plus(e, st, I, "want", n)
        self.plus(e, st, I, "oleft", n, "sub")
        self.set(st, "place", self.get(st, "want"))
        self.moved(st)

    def internal(self, e, st, I, w0, w1):
        j = lambda t, *r, **k: self.judge(e, st, I, t, *r, **k)
        self.turn(st, 2)
        j("new data are inserted before the old data that come first are copied", self.val(e, st, "oleft"))
        self.set(st, "elast", self.get(st, "ecount"))
        n = self.length(e, st, I, w1, "nleft", MAX, "more new data are inserted than are missing")
        if n is not None:
            self.plus(e, st, I, "nleft", n, "sub")

    def ends(self, e, st, I):
        j = lambda t, *r, **k: self.judge(e, st, I, t, *r, **k)
        self.element_ends(e, st, I, "success is reported")
        if not st.ghost.get("all"):
            j("success is reported before all differences are taken", add(self.val(e, st, "begun"), lin(e, st, sym(64, "count")), -1), 0)
        if not st.ghost.get("none"):
            j("external copies after the last new data are not asked for", add(self.val(e, st, "ecount"), self.val(e, st, "elast"), -1))
        for k, o in (("e", "ext"), ("i", "int")):
            v = self.get(st, "r_%s_count" % o)
            x, y = lin(e, st, v), self.val(e, st, k + "count")
            j("the number of %s copies given is not that of those written" % {"e": "external", "i": "internal"}[k],
              add(x, y, -1), one=self.merged(x) != self.merged(y))


def shape(M, fn, names):
    F = M.fns.get(fn)
    return F is not None and [p[3] for p in F.params] == names and "diff_copy" in M.fields and \
        set(leaf(M, "diff_copy")) == {"old_off", "old_len", "new_off", "new_len"}


def execute(ctx, cfg, p, root, setup, caps):
    p.eng = None
    exits = Shadowed.run(p, ctx, cfg, root, setup, caps)
    return [x for x in exits if p.ok(x[0], x[1])]


def copies(ctx, cfg):
    M = ctx.prog.mods[cfg]
    if not shape(M, "create_diff_copies", ["diff_copies", "diff_copies_len", "ext_copies_ret", "ext_copies_count_ret",
                                           "int_copies_ret", "int_copies_count_ret"]):
        return None

    def bad(t, I):
        ctx.violation("copies:" + t, "create_diff_copies()%s: %s (configuration %s)" % (", " + I.loc() if I is not None else "", t, cfg))
    size = M.structsize["diff_copy"]
    init = {"pos": ("p", ("D", at("diffs")), -size)}
    params = (arg("diffs"), number(64, 1 << 40, "count"), arg("ext"), arg("ext_count"), arg("int"), arg("int_count"))
    p = Copies(M, bad, quiet=True)
    got = {"ext": set(), "int": set()}
    for st, v, I in execute(ctx, cfg, p, "create_diff_copies", p.run_setup(init, params), 8):
        for k in got:
            x = p.get(st, "r_" + k)
            if x[0] == "s" and x[1][:2] == at("array"):
                got[k].add(x[1])
    if len(got["ext"]) != 1 or len(got["int"]) != 1 or got["ext"] == got["int"]:
        if got["ext"] & got["int"]:
            bad("the same list is given for external and internal copies", None)
        return None
    seen = p.arrays_seen
    p = Copies(M, bad)
    p.arrays_seen = seen
    p.which = {got["ext"].pop(): "e", got["int"].pop(): "i"}
    for st, v, I in execute(ctx, cfg, p, "create_diff_copies", p.run_setup(init, params), 8):
        p.ends(p.eng, st, I)
    return p


class Data(Lists):
    """where the new data of each internal copy are"""
    slots = {"pos": 8, "begun": 8, "old_off": 8, "old_len": 8, "new_off": 8, "new_len": 8, "ints": 8, "len": 4, "from": 8, "left": 8, "total": 8,
             "r_dest": 8, "r_total": 8}
    marks = ("size", "pending", "all", "some")

    def __init__(self, M, bad):
        super().__init__(M, bad)
        self.models = dict(self.models, malloc=self.m_malloc, calloc=self.m_malloc)

    def m_malloc(self, e, st, I, a):
        v = sym(64, "array")
        e.refine(st, v, NZ)
        return [(st, v, "ok")]

    def element_ends(self, e, st, I, what):
        self.judge(e, st, I, "%s although new data may be left of the one before" % what, self.val(e, st, "left"))

    def next_element(self, e, st, I):
        super().next_element(e, st, I)
        self.set(st, "from", self.get(st, "new_off"))
        self.set(st, "left", self.get(st, "new_len"))
        st.ghost.pop("some", None)

    def ghost_key(self, st):
        if SH in st.mem and not st.ghost.get("lost"):
            e = self.eng
            if st.ghost.get("pending") and not st.ghost.get("size"):
                r = e.rng(st, self.get(st, "len"))
                if r and r[-1][1] == 0:
                    st.ghost["size"] = "none"
                elif r and r[0][0] > 0:
                    st.ghost["size"] = "some"
            if not st.ghost.get("some"):
                b = bounds(e, st, self.val(e, st, "left"))
                if b and b[0] > 0:
                    st.ghost["some"] = 1
            if not st.ghost.get("all"):
                d = add(lin(e, st, sym(32, "count")), self.val(e, st, "ints"), -1)
                if self.atmost(e, st, d, 0, self.facts(e, st)):
                    st.ghost["all"] = 1
        return super().ghost_key(st)

    def on_load(self, eng, st, I, t):
        oid, off = t
        if oid != ("D", at("ints")):
            return super().on_load(eng, st, I, t)
        if I.size != 4 or st.ghost.get("lost"):
            return None
        pos = (off, ()) if isinstance(off, int) else ptr(eng, st, ("p", ("D", "x"), off))[1]
        self.many(eng, st)
        n = self.val(eng, st, "ints")
        d = add(pos, (8 * n[0], tuple((t, 8 * c) for t, c in n[1])), -1)
        text = "the internal copies are not taken one after the other"
        if d[1] or d[0] not in (-8, -4, 0, 4) or d[0] < 0 and n == (0, ()):
            self.judge(eng, st, I, text, d if d[1] else None, ok=bool(d[1]), one=self.merged(pos) != self.merged(n))
            return None
        if d[0] >= 0:
            self.judge(eng, st, I, "the next internal copy is taken although the new data of the one before are not given", ok=not st.ghost.get("pending"))
            self.turn(st, 1)
            self.plus(eng, st, I, "ints", 1)
            self.set(st, "len", self.new(eng, st, I, "len", 32))
            st.ghost["pending"] = 1
            st.ghost.pop("size", None)
            st.ghost.pop("all", None)
            self.words += 1
        return self.get(st, "len") if d[0] in (-4, 4) else None

    def many(self, e, st):
        for t, _ in self.val(e, st, "ints")[1]:
            e.refine(st, t, ((0, FEW),))

    def on_store(self, eng, st, I, t, v):
        oid, off = t
        if oid[0] == "D" and oid[1][0] == "@" and "r_%s" % oid[1][1] in self.slots and off == 0:
            self.set(st, "r_%s" % oid[1][1], v)
        if st.ghost.get("lost") or oid != ("D", at("array")):
            return
        j = lambda t, *r, **k: self.judge(eng, st, I, t, *r, **k)
        pos = (off, ()) if isinstance(off, int) else ptr(eng, st, ("p", ("D", "x"), off))[1]
        self.many(eng, st)
        n = self.val(eng, st, "ints")
        j("the place of new data is not given for the internal copy in turn", add(pos, (8 * n[0] - 8, tuple((t, 8 * c) for t, c in n[1])), -1),
          one=self.merged(pos) != self.merged(n))
        j("the place of new data is given twice for an internal copy", ok=bool(st.ghost.get("pending")))
        self.ghost_key(st)
        if st.ghost.get("size") != "none":
            o, x = ptr(eng, st, v)
            y = self.val(eng, st, "from")
            text = "the new data of an internal copy do not follow those of the one before"
            j(text, add(x, y, -1), ok=o == ("D", at("new")), one=self.merged(x) != self.merged(y))
            j("no new data are left of a difference to give for an internal copy", self.val(eng, st, "left"), 1) if not st.ghost.get("some") else None
        n = ("o", "zext", 64, self.get(st, "len"))
        self.plus(eng, st, I, "from", n)
        self.plus(eng, st, I, "left", n, "sub")
        self.plus(eng, st, I, "total", n)
        for k in ("pending", "size", "some"):
            st.ghost.pop(k, None)

    def ends(self, e, st, I):
        j = lambda t, *r, **k: self.judge(e, st, I, t, *r, **k)
        j("the place of new data is not given for an internal copy", ok=not st.ghost.get("pending"))
        j("success is reported before all internal copies are taken", ok=bool(st.ghost.get("all")))
        x, y = lin(e, st, self.get(st, "r_total")), self.val(e, st, "total")
        j("the length of new data given is not that of all internal copies", add(x, y, -1), one=self.merged(x) != self.merged(y))
        j("something other than the places of new data is given", ok=self.get(st, "r_dest") == sym(64, "array"))


def data(ctx, cfg):
    M = ctx.prog.mods[cfg]
    if not shape(M, "create_int_data_array", ["diff_copies", "new", "int_copies", "int_copies_count", "int_data_array_ret", "int_data_len_ret"]):
        return None

    def bad(t, I):
        ctx.violation("data:" + t, "create_int_data_array()%s: %s (configuration %s)" % (", " + I.loc() if I is not None else "", t, cfg))
    init = {"pos": ("p", ("D", at("diffs")), -M.structsize["diff_copy"])}
    params = (arg("diffs"), arg("new"), arg("ints"), number(32, FEW, "count"), arg("dest"), arg("total"))
    p = Data(M, bad)
    for st, v, I in execute(ctx, cfg, p, "create_int_data_array", p.run_setup(init, params), 8):
        p.ends(p.eng, st, I)
    return p


class Match(Lists):
    """matches found into differences, and the add block"""
    slots = {"O": 8, "N": 8, "eq": 8, "mo": 8, "mn": 8, "from": 8, "cnt": 8, "f_old_off": 8, "f_old_len": 8, "f_new_off": 8, "f_new_len": 8,
             "ao": 8, "an": 8, "aleft": 8, "filled": 8, "buf": 8, "list": 8, "r_argument11": 4}
    marks = ("m", "done", "did", "aleft", "full")

    def __init__(self, M, add_, bad):
        super().__init__(M, bad)
        self.addblk = add_
        self.models = dict(self.models, free=lambda e, st, I, a: [(st, None, "ok")])
        self.searches = self.bytes = self.added = 0

    # ------------------------------------------------------------ bytes compared
    def on_load(self, eng, st, I, t):
        oid, off = t
        if I.size == 1 and oid in (("D", at("old")), ("D", at("new"))):
            return ("o", "byte", 8, ("p", oid, off))
        return None

    def byte(self, v):
        while v[0] == "o" and v[1] in ("zext", "sext"):
            v = v[3]
        return v[3] if v[0] == "o" and v[1] == "byte" else None

    def where_is(self, e, st, p):
        return ptr(e, st, p)[1]

    def ghost_key(self, st):
        if SH in st.mem and not st.ghost.get("lost"):
            e = self.eng
            for t, r in list(st.cons.items()):
                if t[0] != "o" or t[1] != "icmp" or t[3] not in ("eq", "ne") or r != (((1, 1),) if t[3] == "eq" else ((0, 0),)):
                    continue
                x, y = self.byte(t[4]), self.byte(t[5])
                if x is None or y is None or {x[1], y[1]} != {("D", at("old")), ("D", at("new"))}:
                    continue
                if x[1] != ("D", at("old")):
                    x, y = y, x
                k = self.val(e, st, "eq")
                if zero(e, st, add(self.where_is(e, st, x), add(self.val(e, st, "O"), k), -1)) and \
                        zero(e, st, add(self.where_is(e, st, y), add(self.val(e, st, "N"), k), -1)):
                    st.cons = dict(st.cons)
                    del st.cons[t]
                    self.set(st, "eq", e.binop(st, None, "add", 64, self.get(st, "eq"), c_(1, 64)))
                    self.bytes += 1
            fs = None
            if not st.ghost.get("done"):
                fs = self.facts(e, st)
                if self.atmost(e, st, add(lin(e, st, sym(64, "new_len")), self.val(e, st, "N"), -1), 0, fs):
                    st.ghost["done"] = 1
            if not st.ghost.get("aleft"):
                fs = self.facts(e, st) if fs is None else fs
                if self.atmost(e, st, self.val(e, st, "aleft"), 0, fs):
                    st.ghost["aleft"] = "none"
        return super().ghost_key(st) + self.ties(st)

    def ties(self, st):
        """whether a variable is the number of equal bytes, and whether two of them fill the gap up to the match: states in which
        they do are kept apart from those in which a condition says that something is left between"""
        if SH not in st.mem or st.ghost.get("lost"):
            return ()
        e = self.eng
        vals = {(0, ())}
        for v in st.env.values():
            if v[0] in ("s", "o") and v[2] == 64:
                vals.add(self.norm(lin(e, st, v)))
        eq = self.norm(self.val(e, st, "eq"))
        gap = add(self.val(e, st, "mn"), self.val(e, st, "N"), -1)
        return (bool(eq[1]) and eq in vals, bool(gap[1]) and any(self.norm(add(gap, x, -1)) in vals for x in vals))

    def norm(self, L):
        return L[0], tuple(sorted(L[1], key=repr))

    # ------------------------------------------------------------ calls
    def named(self, I, a, want, text):
        for k, n in want.items():
            if name(a[k]) != n:
                self.bad(I, text % name(a[k]) if "%s" in text else text)
                return False
        return True

    def c_hash(self, e, st, I, a):
        self.named(I, a, {1: "old", 2: "old_len"}, "the index is made of something other than the old data")
        v = sym(64, "index")
        e.refine(st, v, NZ)
        t = e.target(st, a[0], I, "write")
        e.store(st, t[0], t[1], 8, v)
        return [(st, c_(0, 32))]

    def c_search(self, e, st, I, a):
        self.named(I, a, {0: "index", 1: "old", 2: "old_len", 3: "new", 4: "new_len"}, "matches are searched in something other than the data compared")
        j = lambda t, *r, **k: self.judge(e, st, I, t, *r, **k)
        self.against(e, st, I, "the search does not continue after the last match", a[6], "from")
        self.elements_done(e, st, I, "the next match is searched")
        for k, n in ((7, "mo"), (8, "ml")):
            t = e.target(st, a[k], I, "write")
            v = self.new(e, st, I, n, 64, ((0, FAR),))
            e.store(st, t[0], t[1], 8, v)
            if n == "mo":
                self.set(st, "mo", v)
            else:
                ml = v
        mn = self.new(e, st, I, "mn", 64, ((0, FAR),))
        e.refine(st, ("o", "icmp", 1, "ule", mn, sym(64, "new_len")), ((1, 1),))
        self.set(st, "mn", mn)
        self.set(st, "from", e.binop(st, I, "add", 64, mn, ml))
        self.turn(st, 0)
        self.searches += 1
        return [(st, mn)]

    def elements_done(self, e, st, I, what):
        if self.addblk and st.ghost.get("aleft") != "none":
            self.judge(e, st, I, "%s although the add block may lack bytes of the difference before" % what, self.val(e, st, "aleft"))
        self.judge(e, st, I, "%s although a difference is incomplete" % what, ok=not st.ghost.get("m"))

    def c_init(self, e, st, I, a):
        self.named(I, a, {2: "argument12", 3: "argument13"}, "the add block is not compressed as asked")
        if not self.addblk:
            self.bad(I, "an add block is made although none is wanted")
        v = sym(64, "stream")
        e.refine(st, v, NZ)
        t = e.target(st, a[0], I, "write")
        e.store(st, t[0], t[1], 8, v)
        return [(st, c_(0, 32))]

    def c_write(self, e, st, I, a):
        j = lambda t, *r, **k: self.judge(e, st, I, t, *r, **k)
        j("something is written to an add block that is not made", ok=bool(self.addblk) and name(a[0]) == "stream")
        n = lin(e, st, a[1])
        b = self.get(st, "buf")
        o, x = ptr(e, st, a[2])
        text = "what is written to the add block is not what was made for it"
        j(text, x, ok=b[0] == "p" and o == b[1])
        if not st.ghost.get("full") or st.ghost["full"] != 1:
            d = add(self.val(e, st, "filled"), n, -1)
            j("more is written to the add block than was made for it", d, 0, one=None)
        j("more is written to the add block than the difference has", add(self.val(e, st, "aleft"), n, -1), 0)
        for k, op in (("ao", "add"), ("an", "add"), ("aleft", "sub")):
            self.plus(e, st, I, k, a[1], op)
        st.ghost.pop("aleft", None)
        self.set(st, "filled", c_(0, 64))
        self.turn(st, 2)
        return [(st, c_(0, 32))]

    def c_finish(self, e, st, I, a):
        self.named(I, a, {0: "stream", 1: "argument10"}, "the add block is not given to the caller")
        self.elements_done(e, st, I, "the add block is finished")
        t = e.target(st, a[2], I, "write")
        e.store(st, t[0], t[1], 8, sym(64, "addlen"))
        self.did(st, "add")
        return [(st, c_(0, 32))]

    def did(self, st, k):
        st.ghost["did"] = tuple(sorted(set(st.ghost.get("did", ())) | {k}))

    def list_given(self, e, st, I, a):
        self.judge(e, st, I, "something other than the list of differences is used", ok=a == self.get(st, "list") or
                   a[0] == "c" and self.get(st, "list")[0] == "c" or self.merged(lin(e, st, a)))

    def c_copies(self, e, st, I, a):
        self.elements_done(e, st, I, "instructions are made")
        if not st.ghost.get("done"):
            self.judge(e, st, I, "instructions are made before all new data are compared",
                       add(self.val(e, st, "N"), lin(e, st, sym(64, "new_len")), -1), 0)
        self.list_given(e, st, I, a[0])
        self.against(e, st, I, "the number of differences is wrong", a[1], "cnt")
        self.named(I, a, {2: "argument6", 3: "argument7", 4: "argument8", 5: "argument9"}, "the instructions are not given to the caller where they are expected")
        for n, z, k in (("intlist", 8, 4), ("intcount", 4, 5), ("extlist", 8, 2), ("extcount", 4, 3)):
            t = e.target(st, a[k], I, "write")
            e.store(st, t[0], t[1], z, sym(z * 8, n))
        self.did(st, "copies")
        return [(st, c_(0, 32))]

    def c_data(self, e, st, I, a):
        self.list_given(e, st, I, a[0])
        self.named(I, a, {1: "new", 2: "intlist", 3: "intcount", 4: "argument4", 5: "argument5"},
                   "the new data are not given for the internal copies, or not to the caller")
        self.did(st, "data")
        return [(st, c_(0, 32))]

    # ------------------------------------------------------------ differences and add block
    def on_store(self, eng, st, I, t, v):
        oid, off = t
        if oid == ("D", at("argument11")) and off == 0 and I.size == 4:
            self.set(st, "r_argument11", v)
        if st.ghost.get("lost"):
            return
        if oid[0] == "D" and oid[1][:2] == at("array"):
            return self.member(eng, st, I, oid, off, v)
        if I.size != 1:
            return
        parts = []

        def leaves(x, k):
            if x[0] == "o" and x[1] in ("zext", "sext", "trunc"):
                leaves(x[3], k)
            elif x[0] == "o" and x[1] in ("add", "sub"):
                leaves(x[3], k)
                leaves(x[4], k if x[1] == "add" else -k)
            elif x[0] == "o" and x[1] == "mul" and x[4][0] == "c" and x[4][1] == (1 << x[2]) - 1:
                leaves(x[3], -k)
            else:
                parts.append((k, self.byte(x)))
        leaves(v, 1)
        if not any(p for k, p in parts):
            return
        j = lambda t, *r, **k: self.judge(eng, st, I, t, *r, **k)
        pos = (off, ()) if isinstance(off, int) else ptr(eng, st, ("p", ("D", "x"), off))[1]
        y = self.val(eng, st, "filled")
        j("the add block is not made byte by byte", add(pos, y, -1), one=self.merged(pos) != self.merged(y))
        parts = {p[1][1] if p else None: (k, p) for k, p in parts}
        text = "a byte of the add block is not the new one less the old one"
        if not j(text, ok=set(parts) == {at("new"), at("old")} and parts[at("new")][0] == 1 and parts[at("old")][0] == -1):
            return
        for n, k in (("new", "an"), ("old", "ao")):
            x, y = self.where_is(eng, st, parts[at(n)][1]), add(self.val(eng, st, k), self.val(eng, st, "filled"))
            j("a byte of the add block is made of the wrong %s byte" % n, add(x, y, -1), one=self.merged(x) != self.merged(y))
        self.set(st, "buf", ("p", oid, 0))
        self.plus(eng, st, I, "filled", 1)
        self.turn(st, 3)
        self.added += 1

    def member(self, e, st, I, oid, off, v):
        j = lambda t, *r, **k: self.judge(e, st, I, t, *r, **k)
        pos = (off, ()) if isinstance(off, int) else ptr(e, st, ("p", ("D", "x"), off))[1]
        n = self.val(e, st, "cnt")
        d = add(pos, (self.size * n[0], tuple((t, self.size * c) for t, c in n[1])), -1)
        f = [k for k, o in self.where.items() if o == d[0]]
        if d[1] or not f or I.size != 8:
            j("the differences are not listed one after the other", d if d[1] else None, ok=bool(d[1]), one=self.merged(pos) != self.merged(n))
            return
        self.words += 1
        self.set(st, "f_" + f[0], v)
        self.set(st, "list", ("s", oid[1], 64))
        m = tuple(sorted(set(st.ghost.get("m", ())) | {f[0]}))
        st.ghost["m"] = m
        if len(m) < 4:
            return
        st.ghost.pop("m")
        self.elements += 1
        g = lambda k: lin(e, st, self.get(st, "f_" + k))
        O, N = self.val(e, st, "O"), self.val(e, st, "N")
        if self.get(st, "f_old_len")[:2] != ("c", 0):
            j("a difference does not begin where the old data of the match do", add(g("old_off"), O, -1), one=self.merged(g("old_off")) != self.merged(O))
            if not self.addblk:
                j("without add block, old data are to be copied that may differ from the new", add(self.val(e, st, "eq"), g("old_len"), -1), 0)
        x = add(add(g("new_off"), g("old_len"), -1), N, -1)
        j("new data do not begin where the match ends", x)
        x = g("new_len")
        if not zero(e, st, x):
            j("the length of new data may be negative", x, 0)
        for k, z in (("ao", "O"), ("an", "N")):
            self.set(st, k, self.get(st, z))
        self.set(st, "aleft", self.get(st, "f_old_len"))
        for k in ("aleft", "done"):
            st.ghost.pop(k, None)
        b = lambda op, x, y: e.binop(st, I, op, 64, x, y)
        N2 = self.value(add(g("new_off"), g("new_len")))
        self.set(st, "N", N2)
        L = add(add(self.val(e, st, "mo"), self.val(e, st, "mn"), -1), lin(e, st, N2))
        self.set(st, "O", self.value(L))
        self.set(st, "eq", c_(0, 64))
        self.plus(e, st, I, "cnt", 1)

    def value(self, L):
        v = None
        for t, k in L[1]:
            if t[2] != 64:
                t = ("o", "zext", 64, t)
            x = t if k == 1 else ("o", "mul", 64, t, c_(k % (1 << 64), 64))
            v = x if v is None else ("o", "add", 64, v, x)
        c = c_(L[0] % (1 << 64), 64)
        return c if v is None else ("o", "add", 64, v, c) if L[0] else v

    def ends(self, e, st, I):
        j = lambda t, *r, **k: self.judge(e, st, I, t, *r, **k)
        want = {"copies", "data"} | ({"add"} if self.addblk else set())
        j("success is reported without %s" % {"copies": "instructions", "data": "new data", "add": "add block"}[(sorted(want - set(st.ghost.get("did", ()))) or ["add"])[0]],
          ok=set(st.ghost.get("did", ())) == want)
        if self.addblk:
            j("the length given is not that of the add block", ok=name(self.get(st, "r_argument11")).split(":")[0] == "addlen"
              if isinstance(name(self.get(st, "r_argument11")), str) else False)

    cut = {"hash_create": c_hash, "hash_search": c_search, "hash_free": lambda p, e, st, I, a: [(st, None)], "compstrm_init": c_init,
           "compstrm_write": c_write, "compstrm_finish": c_finish, "compstrm_destroy": lambda p, e, st, I, a: [(st, c_(0, 32))],
           "create_diff_copies": c_copies, "create_int_data_array": c_data, "resize16": Lists.c_resize, "resize32": Lists.c_resize}


def match(ctx, cfg, add_):
    M = ctx.prog.mods[cfg]
    F = M.fns.get("make_diff")
    if F is None or len(F.params) != 14 or "diff_copy" not in M.fields or set(leaf(M, "diff_copy")) != set(Lists.members) or \
            any(f not in M.fns for f in ("create_diff_copies", "create_int_data_array", "hash_search", "hash_create")):
        return None

    def bad(t, I):
        ctx.violation("diff:" + t, "make_diff()%s, %s add block: %s (configuration %s)" % (
            ", " + I.loc() if I is not None else "", "with" if add_ else "without", t, cfg))
    null = lambda eng, st, F, pid: st.env.__setitem__(pid, NIL)
    params = [arg("old"), number(64, 1 << 40, "old_len"), arg("new"), number(64, 1 << 40, "new_len")] + \
        [arg("argument%d" % k) for k in range(4, 10)] + [arg("argument%d" % k) if add_ else null for k in (10, 11)] + \
        [number(F.params[12][2], 5, "argument12"), number(32, 9, "argument13")]
    p = Match(M, add_, bad)
    good = 0
    for st, v, I in execute(ctx, cfg, p, "make_diff", p.run_setup({}, params), 8):
        p.ends(p.eng, st, I)
        good += 1
    if not good and not ctx.violations:
        bad("no difference is ever found", None)
    return p


def one(ctx, cfg, what):
    p = WHAT[what](ctx, cfg)
    c = ctx.coverage
    if p is None:
        c.setdefault("not_recognised", []).append("%s (%s)" % (what, cfg))
        return
    for k, n in (("elements", "differences_followed"), ("words", "words_judged"), ("judged", "obligations"), ("undecided", "undecided")):
        c[n] = c.get(n, 0) + getattr(p, k)


WHAT = {"copies": copies, "data": data, "match": lambda c, f: match(c, f, 0), "match with add block": lambda c, f: match(c, f, 1)}


def describing(ctx):
    parallel(ctx, one, [(cfg, w) for cfg in ctx.configs for w in WHAT])
    ctx.coverage["explanation"] = (
        "abstract interpretation of create_diff_copies(), create_int_data_array() and make_diff() with symbolic differences, instructions and "
        "matches; positions, lengths and counts that should be reached are carried along, loops are joined with value numbering, and each word "
        "written, byte added and difference listed is compared with them")
    ctx.require(ctx.coverage.get("words_judged", 0) > 3 or ctx.violations, "no instructions are judged")
    done(ctx)
