"""Reading a delta: instructions that would leave the old data or the new data are refused."""
from ..engine import c_
from ..run import parallel
from .api import done, fix
from .conduit import add, bounds, ptr
from .differ import Lists, neg
from .format import D, DLT, Trace, at, empty_delta, leaf, okret, out, r_rpm, sym
from .shadow import SH


def r_num(w):
    def f(p, e, st, I, a):
        v = p.new(e, st, I, "read", w)
        st.ghost.pop("last", None)
        if a[1][0] == "p" and a[1][1] in st.mem and st.mem[a[1][1]].kind == "heap":
            st.ghost["last"] = (a[1][1], a[1][2], v)
        elif w == 32:
            k = "magic%d" % st.ghost.get("read", 0)
            st.ghost["read"] = st.ghost.get("read", 0) + 1
            if k in p.fixed:
                v = c_(p.fixed[k], 32)
        t = e.target(st, a[1], I, "write")
        if t is not None:
            e.store(st, t[0], t[1], w // 8, v)
            p.member(e, st, t, v)
        return okret(st, I)
    return f


class Within(Lists):
    """the two lists of instructions and what they add up to"""
    slots = {"ic": 4, "ec": 4, "idl": 8, "edl": 8, "iw": 4, "ilen": 4, "isum": 8, "ew": 4, "e0": 4, "e1": 4, "p0": 8, "p1": 8}
    marks = ("blurred", "ibad", "ebad", "igood", "egood", "full", "iok", "eok0", "eok1", "iall", "eall")
    opts = dict(Lists.opts, noviews=True)
    fields = {"int_copies_count": "ic", "ext_copies_count": "ec", "int_data_len": "idl", "ext_data_len": "edl"}
    arrays = ()
    blurred = False
    start = {"i": c_(1, 32), "e": c_(0, 32)}

    def __init__(self, M, fixed, bad):
        super().__init__(M, bad)
        self.fixed = fixed
        self.offs = {o: self.fields[n] for n, (o, z) in leaf(M, D).items() if n in self.fields}
        self.lists = {M.fields[D][n][0]: n for n in ("int_copies", "ext_copies")}
        self.models.update({"read": lambda e, st, I, a: [(st, a[2], "ok")], "lseek": lambda e, st, I, a: [(st, c_(0, 64), "ok")]})
        self.models["lseek64"] = self.models["lseek"]
        self.taken = 0

    def begin(self, st, init):
        super().begin(st, init)
        st.mem[SH].kind = "global"      # goes along into functions called

    def member(self, e, st, t, v):
        for o, n in self.lists.items():
            if self.holds(e, st, o) == t[0]:
                # what was judged before is not what is there now
                self.restart(e, st, n[0])
                st.ghost.pop(n[0] + "good", None)
        if t[0] in st.mem and st.mem[t[0]].struct == D and t[1] in self.offs:
            k = self.offs[t[1]]
            if v[0] in "cso" and len(v) > 2 and v[2] == self.slots[k] * 8 or v[0] == "c":
                self.set(st, k, v)
                for m in {"i": ("iok", "iall", "igood"), "e": ("eok0", "eok1", "eall", "egood")}[k[0]]:
                    st.ghost.pop(m, None)

    def restart(self, e, st, k):
        if self.get(st, k + "w") != self.start[k]:
            for s in {"i": ("isum",), "e": ("p0", "p1")}[k]:
                self.set(st, s, c_(0, 64))
            self.set(st, k + "w", self.start[k])
            for m in {"i": ("iok", "iall", "ibad"), "e": ("eok0", "eok1", "eall", "ebad", "full")}[k]:
                st.ghost.pop(m, None)

    def on_store(self, eng, st, I, t, v):
        if SH in st.mem:
            self.member(eng, st, t, v)
            if st.ghost.get("last") and st.ghost["last"][0] == t[0]:
                st.ghost["last"] = (t[0], t[1], v)

    def on_load(self, eng, st, I, t):
        oid, off = t
        if I.size != 4 or oid not in st.mem or st.mem[oid].kind != "heap" or st.ghost.get("lost") or SH not in st.mem:
            return None
        n = [k for o, k in self.lists.items() if self.holds(eng, st, o) == oid]
        if not n:
            return None
        l = st.ghost.get("last")
        pos = (off, ()) if isinstance(off, int) else ptr(eng, st, ("p", ("D", "x"), off))[1]
        if l and l[0] == oid:
            if l[1] == off:
                return l[2]
            return None
        k = n[0][0]
        w = self.val(eng, st, k + "w")
        d = add(pos, (4 * w[0], tuple((t, 4 * c) for t, c in w[1])), -1)
        what = {"i": "internal", "e": "external"}[k]
        first = pos in ((0, ()), (4, ()))
        if first and d[1] or not d[1] and d[0] < -8 and first:
            # from the first one again
            self.passed(eng, st, I, k)
            if st.ghost.get(k + "all") and not st.ghost.get(k + "bad"):
                st.ghost[k + "good"] = 1
            self.restart(eng, st, k)
            d = (pos[0] - 4 * self.start[k][1], ())
        if self.get(st, k + "w") == self.start[k] and (d[1] or d[0] not in (0, 4)) or st.ghost.get(k + "bad"):
            return None         # not from the first one on, or not judged
        if d[1]:
            self.judged += 1
            if self.merged(pos) != self.merged(w):
                st.ghost[k + "bad"] = "the %s copies are not judged one after the other" % what
            else:
                st.ghost["lost"] = 1
                self.undecided += 1
            return None
        d = d[0]
        if k == "i":
            if d == 0:
                self.passed(eng, st, I, "i")
                self.take_internal(eng, st, I)
                return self.get(st, "ilen")
            return self.get(st, "ilen") if d == -8 else None
        if d in (0, 4):
            self.passed(eng, st, I, "e")
            self.take_external(eng, st, I)
            d -= 8
        if d == -4 and not st.ghost.get("full"):
            st.ghost["full"] = 1
            self.set(st, "p1", self.get(st, "p0"))
            self.plus(eng, st, I, "p1", ("o", "zext", 64, self.get(st, "e1")))
        return {-8: self.get(st, "e0"), -4: self.get(st, "e1")}.get(d)

    def holds(self, e, st, o):
        oid = [k for k, x in st.mem.items() if x.struct == D]
        v = st.mem[oid[0]].fields.get(o) if oid else None
        return v[0][1] if v and v[0][0] == "p" else None

    def number(self, e, st, k, turn):
        """those of the first turns keep their names"""
        n = st.ghost["turns"][turn]
        if n == self.turns:
            e.rename(st, {}, {at(k, n): at(k, n + 1)})
        self.set(st, k, sym(32, k, n))

    def take_internal(self, e, st, I):
        self.taken += 1
        self.turn(st, 0)
        self.number(e, st, "ilen", 0)
        self.plus(e, st, I, "isum", ("o", "zext", 64, self.get(st, "ilen")))
        self.plus(e, st, I, "iw", 2)
        for k in ("iok", "iall"):
            st.ghost.pop(k, None)

    def take_external(self, e, st, I):
        self.taken += 1
        self.turn(st, 1)
        self.number(e, st, "e0", 1)
        self.number(e, st, "e1", 1)
        self.set(st, "p0", self.get(st, "p1"))
        self.plus(e, st, I, "p0", ("o", "sext", 64, self.get(st, "e0")))
        self.set(st, "p1", c_(0, 64))
        self.plus(e, st, I, "ew", 2)
        for k in ("eok0", "eok1", "eall", "full"):
            st.ghost.pop(k, None)

    def ghost_key(self, st):
        if SH in st.mem and not st.ghost.get("lost"):
            e = self.eng
            fs = None
            v = lambda k: self.val(e, st, k)
            for m, x, y, c in (("iok", "isum", "idl", 1), ("eok0", "p0", "edl", 1), ("eok1", "p1", "edl", 1), ("iall", "ic", "iw", 2), ("eall", "ec", "ew", 2)):
                if not st.ghost.get(m) and (m != "eok1" or st.ghost.get("full") or self.get(st, "ew") == c_(0, 32)):
                    fs = self.facts(e, st) if fs is None else fs
                    a = v(x)
                    a = (a[0] * c, tuple((t, k * c) for t, k in a[1]))
                    d = add(a, v(y), -1)
                    if m == "eok0":
                        # places before the data are found by comparing as unsigned, or on their own; not by where the copy ends
                        t = {t for t, k in v("e1")[1] if bounds(e, st, v("e1")) != (0, 0)}
                        some = lambda s: [f for f in self.facts(e, st, s) if not t & {x for x, k in f[1]}]
                        yes = self.atmost(e, st, d, 0, some(False)) or self.atmost(e, st, d, 0, some(True)) and self.positive(e, st, a, some(True))
                    else:
                        # numbers of words may also be compared as bytes
                        yes = any(self.atmost(e, st, (d[0] * n, tuple((t, k * n) for t, k in d[1])), (c - 1 if x == "ic" else 0) * n, fs)
                                  for n in ((1, 4) if c == 2 else (1,)))
                    if yes:
                        st.ghost[m] = 1
        return super().ghost_key(st)

    def atmost(self, e, st, L, c, fs):
        none = lambda d: d[0] <= c and all(bounds(e, st, (0, (t,))) == (0, 0) for t in d[1])
        return super().atmost(e, st, L, c, fs) or any(none(add(L, f, -1)) for f in fs)

    def positive(self, e, st, a, fs):
        b = bounds(e, st, a)
        return b and b[1] < 1 << 63 or any(not d[1] and d[0] <= 0 for d in (add(neg(a), f, -1) for f in fs))

    def passed(self, e, st, I, k):
        """the copy before was found to stay within the data"""
        if st.ghost.get(k + "bad"):
            return
        self.ghost_key(st)
        v = lambda k: self.val(e, st, k)
        bad, self.bad = self.bad, lambda I, t: st.ghost.update({k + "bad": t})
        if k == "i" and not st.ghost.get("iok"):
            self.judge(e, st, I, "the new data may be too short for an internal copy", add(v("idl"), v("isum"), -1), 0, one=False)
        if k == "e" and self.get(st, "ew") != self.start[k]:
            if not st.ghost.get("eok0"):
                self.judge(e, st, I, "an external copy may begin outside of the old data", ok=self.merged(v("p0")))
            self.judge(e, st, I, "the length of an external copy is not judged", ok=bool(st.ghost.get("full")))
            if not st.ghost.get("eok1"):
                self.judge(e, st, I, "an external copy may end outside of the old data", add(v("edl"), v("p1"), -1), 0, one=False)
        self.bad = bad

    def on_return(self, eng, st, I, v):
        # callers see other names
        if SH in st.mem and any(self.merged(self.val(eng, st, k)) for k in ("iw", "isum", "ew", "p0", "p1")):
            st.ghost["blurred"] = 1
        super().on_return(eng, st, I, v)

    def merged(self, L):
        return self.blurred or super().merged(L)

    def ends(self, e, st, I):
        self.blurred = bool(st.ghost.get("blurred"))
        for k in "ie":
            self.passed(e, st, I, k)
            if st.ghost.get(k + "good"):
                continue
            if st.ghost.get(k + "bad"):
                self.bad(I, "success is reported although %s" % st.ghost[k + "bad"])
            elif not st.ghost.get(k + "all"):
                c = self.val(e, st, k + "c")
                d = add(self.val(e, st, k + "w"), (2 * c[0], tuple((t, 2 * n) for t, n in c[1])), -1)
                self.judge(e, st, I, "success is reported although not all %s copies are judged" % {"i": "internal", "e": "external"}[k], d, 0, one=False)

    cut = {"decompstrm_read_be32": r_num(32), "decompstrm_read_be64": r_num(64), "decompstrm_read": lambda p, e, st, I, a: okret(st, I),
           "decompstrm_init": lambda p, e, st, I, a: (out(e, st, a[0], sym(64, "stream"), 8), okret(st, I))[1],
           "decompstrm_destroy": lambda p, e, st, I, a: okret(st, I),
           "deltarpm_decode_comp": lambda p, e, st, I, a: [(st, c_(1, I.w))], "rpm_read": r_rpm,
           "rpm_get_comp": lambda p, e, st, I, a: okret(st, I),
           "rpm_size_full": lambda p, e, st, I, a: [(st, sym(32, "size"))],
           "read_be32": r_num(32)}


CASES = {"an rpm-only delta": {"magic0": 0x6472706d, "magic1": DLT + 3, "magic4": DLT + 3},
         "a standard delta of version 3": {"magic0": 0xedabeedb, "magic1": DLT + 3},
         "a standard delta of version 2": {"magic0": 0xedabeedb, "magic1": DLT + 2}}


def one(ctx, cfg, what):
    M = ctx.prog.mods[cfg]

    def bad(t, I):
        ctx.violation("within:" + t, "read_deltarpm(), %s%s: %s (configuration %s)" % (what, ", " + I.loc() if I is not None else "", t, cfg))
    p = Within(M, CASES[what], bad)
    f = fix(a0=empty_delta, a1="ptr")

    def setup(eng, st, F):
        p.begin(st, {k + "w": v for k, v in p.start.items()})
        f(eng, st, F)
    p.eng = None
    n = 0
    for st, v, I in Trace.run(p, ctx, cfg, "read_deltarpm", setup, 8):
        if p.ok(st, v):
            p.ends(p.eng, st, I)
            n += 1
    c = ctx.coverage
    for k, x in (("successful_paths_judged", n), ("instructions_followed", p.taken), ("obligations", p.judged), ("undecided", p.undecided)):
        c[k] = c.get(k, 0) + x


def staying(ctx):
    parallel(ctx, one, [(cfg, w) for cfg in ctx.configs for w in CASES])
    ctx.coverage["explanation"] = (
        "abstract interpretation of read_deltarpm() with every number read a symbol; the numbers of the two instruction lists are added up beside "
        "what the reader does, and on every way to success the comparisons made must imply that each place reached lies within the data")
    ctx.require(ctx.coverage.get("successful_paths_judged", 0) or ctx.violations, "no delta is ever read")
    done(ctx)
