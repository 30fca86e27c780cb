"""What the query functions answer, from the delta as read to the value handed out."""
from .. import models
from ..engine import Obj, c_
from ..run import Broken, parallel
from .api import fix, leaf, done
from .format import Trace, D, ANY, name, okret, out, structat, sym, at, obj, place, insts

Q = "drpm"
# tag number -> (name, query functions, what it answers for standard / rpm-only deltas)
TAGS = {
    0: ("FILENAME", ("string",), "copy of filename"), 1: ("VERSION", ("uint", "ulong", "ullong"), "version"),
    2: ("TYPE", ("uint", "ulong", "ullong"), "type"), 3: ("COMP", ("uint", "ulong", "ullong"), "comp"),
    4: ("SEQUENCE", ("string",), "hex of sequence, sequence_len bytes"), 5: ("SRCNEVR", ("string",), "copy of src_nevr"),
    6: ("TGTNEVR", ("string",), None), 7: ("TGTSIZE", ("uint", "ulong", "ullong"), "tgt_size"),
    8: ("TGTMD5", ("string",), "hex of tgt_md5, 16 bytes"), 9: ("TGTCOMP", ("uint", "ulong", "ullong"), "tgt_comp"),
    10: ("TGTCOMPPARAM", ("string",), "hex of tgt_comp_param, tgt_comp_param_len bytes"),
    11: ("TGTHEADERLEN", ("ulong", "ullong"), "tgt_header_len"),
    12: ("ADJELEMS", ("ulong_array",), "array offadj_elems, 2*offadj_elems_count"),
    13: ("TGTLEAD", ("string",), "hex of tgt_leadsig, tgt_leadsig_len bytes"),
    14: ("PAYLOADFMTOFF", ("ulong", "ullong"), "payload_fmt_off"),
    15: ("INTCOPIES", ("ulong_array",), "array int_copies, 2*int_copies_count"),
    16: ("EXTCOPIES", ("ulong_array",), "array ext_copies, 2*ext_copies_count"),
    17: ("EXTDATALEN", ("ullong",), "ext_data_len"), 18: ("INTDATALEN", ("ullong",), "int_data_len"),
}
ABSENT = {10: "tgt_comp_param_len", 12: "offadj_elems_count", 15: "int_copies_count", 16: "ext_copies_count"}


class Conv(Trace):
    cut = {"dump_hex": lambda p, e, st, I, a: (p.cp(e, st, a[0], "hex of %s, %s bytes" % (p.src(e, st, a[1]), name(a[2]))), [(st, None)])[1],
           "rpm_get_nevr": lambda p, e, st, I, a: (out(e, st, a[1], sym(64, "nevr of " + str(name(a[0]))), 8), okret(st, I))[1]}

    def __init__(self):
        super().__init__()

    def ghost_key(self, st):
        # states that have allocated different things stay apart: a member is null exactly when its length is zero
        return tuple(sorted(n for _, n in st.ghost.get("cp", ()))), st.ghost.get("al", ())

    def ghost_merge(self, a, b):
        c = tuple(x for x in a.get("cp", ()) if x in b.get("cp", ()))
        g = {k: v for k, v in a.items() if k != "cp" and b.get(k) == v}
        if c:
            g["cp"] = c
        return g

    def src(self, e, st, v):
        n = name(v)
        if n == ANY and v[0] == "p" and v[1] in st.mem and st.mem[v[1]].struct in (D, Q) and isinstance(v[2], int):
            d = [f for f, (off, z) in e.M.fields[st.mem[v[1]].struct].items() if off == v[2]]
            n = d[0] if d else ANY
        return n

    def cp(self, e, st, d, what):
        st.ghost["cp"] = tuple(sorted([x for x in st.ghost.get("cp", ()) if x[0] != ("val", d)] + [(("val", d), what)], key=repr))

    def on_ext(self, eng, st, I, nm, args, ret, tag):
        if nm in ("malloc", "calloc") and tag == "ok":
            st.ghost["al"] = tuple(sorted(st.ghost.get("al", ()) + (str(name(args[-1])),)))
        if nm == "strcpy":
            self.cp(eng, st, args[0], "copy of %s" % self.src(eng, st, args[1]))
        elif nm == "strdup" and tag == "ok":
            self.cp(eng, st, ret, "copy of %s" % self.src(eng, st, args[0]))
        elif nm == "memcpy" and args[0][0] in ("p", "s"):
            n, ln = self.src(eng, st, args[1]), name(args[2])
            if str(ln).startswith("strlen.%s" % n) or str(ln) == "1+strlen.%s" % n:
                self.cp(eng, st, args[0], "copy of %s" % n)
            elif n != ANY:
                f = self.factors(args[2])
                self.cp(eng, st, args[0], "array %s, %s" % (n, f))

    def factors(self, v):
        """number of 32-bit elements in so many bytes"""
        k, terms = 1, []

        def go(t):
            nonlocal k
            if t[0] == "c":
                k *= t[1]
            elif t[0] == "o" and t[1] in ("zext", "sext", "trunc"):
                go(t[3])
            elif t[0] == "o" and t[1] == "mul":
                go(t[3])
                go(t[4])
            else:
                terms.append(name(t))
        go(v)
        if k % 4 or len(terms) != 1:
            return ANY
        return "%s%s" % ("%d*" % (k // 4) if k != 4 else "", terms[0])

    def on_return(self, eng, st, I, v):
        if "cp" in st.ghost:
            c = tuple(x for x in st.ghost["cp"] if x[0][1][0] != "p" or (
                x[0][1][1] in st.mem and st.mem[x[0][1][1]].status != "freed" and
                not (x[0][1][1][0] == "A")))
            st.ghost["cp"] = c


def answer(p, st, oid, off, size, M):
    """origin of a member of the structure the query functions look at"""
    o = st.mem[oid]
    for (_, d), what in st.ghost.get("cp", ()):
        if d == ("p", oid, off):
            return what
    x = o.fields.get(off)
    v = x[0] if x else c_(0, 8 * size) if o.default == "zero" else None
    if v is None:
        return ANY
    for (_, d), what in st.ghost.get("cp", ()):
        if d == v:
            return what
    n = name(v)
    return "nothing" if n == 0 and size == 8 else n


class Get(Trace):
    arrays = ("offadj_elems", "int_copies", "ext_copies", "*")

    def __init__(self):
        super().__init__()
        self.stores = set()

    def ghost_key(self, st):
        return tuple(sorted((n for _, n in st.ghost.get("cp", ())), key=repr))

    src, cp, factors, ghost_merge = Conv.src, Conv.cp, Conv.factors, Conv.ghost_merge
    on_ext, on_return = Conv.on_ext, Conv.on_return

    def on_load(self, eng, st, I, t):
        oid, off = t
        if oid[0] == "D" and oid[1][0] == "@":
            st.ghost["ld"] = (oid[1][1], place(eng, st, off), I.size)

    def on_store(self, eng, st, I, t, v):
        if t[0] in st.mem and st.mem[t[0]].kind == "heap" and "ld" in st.ghost:
            a, pl, z = st.ghost.pop("ld")
            ps = place(eng, st, t[1])
            x = v[3] if v[0] == "o" and v[1] == "zext" else v
            if x[0] == "o":
                a = ANY      # not the element itself but something computed from it
            self.cp(eng, st, ("p", t[0], 0), ("elements", a, pl, z, ps, I.size))


def convert(ctx, cfg, t):
    M = ctx.prog.mods[cfg]
    p = Conv()

    def dst(eng, st, F, pid):
        s = st.env[pid]
        eng.refine(st, s, ((4096, (1 << 64) - 1),))
        st.mem[("D", s[1])] = Obj("ext", "sym", struct=Q)
    exits = p.run(ctx, cfg, "deltarpm_to_drpm", fix(a0=structat(0, D, dict(type=t)), a1=dst))
    fields = {}
    good = 0
    for st, v, I in exits:
        if not p.ok(st, v):
            continue
        good += 1
        oid = ("D", ("e", 1))
        for f, (off, z) in M.fields[Q].items():
            a = answer(p, st, oid, off, z if z <= 8 else 1, M)
            fields.setdefault(f, set()).add(a)
    if not good:
        raise Broken("deltarpm_to_drpm() never succeeds")
    ctx.coverage["conversion_paths"] = good
    return fields


def getters(ctx, cfg, t):
    M = ctx.prog.mods[cfg]
    fields = convert(ctx, cfg, t)

    def described(eng, st, F, pid):
        s = st.env[pid]
        eng.refine(st, s, ((4096, (1 << 64) - 1),))
        st.mem[("D", s[1])] = o = obj(M, Q)
        for f, (off, z) in leaf(M, Q).items():
            if z == 8 and "nothing" not in fields[f]:
                eng.refine(st, o.fields[off][0], ((4096, (1 << 64) - 1),))
    kind = ("standard", "rpm-only")[t]
    for tag, (tn, fns, want) in TAGS.items():
        if tag == 6:
            want = "nevr of head" if not t else "copy of head"
        if tag == 2:
            want = t
        for fn in fns:
            root = "drpm_get_" + fn
            p = Get()
            kw = dict(a0=described, a1=tag, a2="ptr")
            if fn == "ulong_array":
                kw["a3"] = "ptr"
            ok = 0
            for st, v, I in p.run(ctx, cfg, root, fix(**kw)):
                if not p.ok(st, v):
                    r = p.eng.rng(st, v)
                    if r != ((1, 1),):
                        ctx.violation("%s:%s:code" % (root, tn), "%s() refuses %s with %s (configuration %s)" % (root, tn, r, cfg))
                    continue
                ok += 1
                got = value(p, st, fn, fields, tag, M)
                for g in got:
                    if g == want or tag in ABSENT and g == "nothing":
                        continue
                    ctx.violation("%s:%s" % (root, tn), "%s() answers %s for a %s delta with '%s' instead of '%s' (configuration %s)"
                                  % (root, tn, kind, g, want, cfg))
                ctx.coverage["answers_traced"] = ctx.coverage.get("answers_traced", 0) + len(got)
                if tag in ABSENT and want not in got and "nothing" not in got:
                    pass
            if not ok:
                ctx.violation("%s:%s:never" % (root, tn), "%s() never answers %s (configuration %s)" % (root, tn, cfg))
    # an absent optional part is reported as nothing only if it is absent
    for tag, cnt in ABSENT.items():
        if not any(TAGS[tag][2] in s for s in fields.values()):
            ctx.violation("absent:%d" % tag, "no member of the delta description ever holds '%s' (%s delta, configuration %s)" % (TAGS[tag][2], kind, cfg))


def value(p, st, fn, fields, tag, M):
    o = st.mem.get(("D", ("e", 2)))
    x = o.fields.get(0) if o else None
    if x is None:
        return {ANY}
    v = x[0]
    if fn in ("uint", "ulong", "ullong"):
        if x[1] != (4 if fn == "uint" else 8):
            return {"a value of the wrong width"}
        n = name(v)
        return fields.get(n, {n})
    if fn == "string":
        if v[0] == "c":
            # nothing: only for a member that is null
            return {"nothing"}
        for (_, d), what in st.ghost.get("cp", ()):
            if d == v:
                if isinstance(what, str) and what.startswith("copy of "):
                    # an empty string for a member that was never set is no answer
                    return {y for y in fields.get(what[8:], {ANY}) if y != "nothing"}
                return {what}
        return {ANY}
    s = st.mem.get(("D", ("e", 3)))
    n = name(s.fields[0][0]) if s and 0 in s.fields else ANY
    size = fields.get(n, {n})
    if v[0] == "c":
        return {"nothing"}
    for (_, d), what in st.ghost.get("cp", ()):
        if d == v and what[0] == "elements":
            _, a, pl, z, ps, zz = what
            if z != 4 or zz != 8 or ps is not None and ps[:2] != (0, 8) or pl is not None and pl[:2] != (0, 4):
                return {"array of something else than consecutive elements"}
            for q in (ps, pl):
                if q is not None and q[2] is not None and q[2] != n:
                    return {"array of another length than said"}
            return {y for y in fields.get(a, {ANY}) if y != "nothing" and any(str(y).endswith(", %s" % z) for z in size)} or \
                {"%s of size %s" % (sorted(map(str, fields.get(a, {ANY}))), sorted(map(str, size)))}
    if st.ghost.get("cp") is not None and not any(w[0] == "elements" for _, w in st.ghost["cp"]):
        return set()
    return {ANY}


def queries(ctx):
    parallel(ctx, getters, [(c, t) for c in ctx.configs for t in (0, 1)])
    ctx.coverage["explanation"] = (
        "abstract interpretation of deltarpm_to_drpm with every member of the delta a distinct symbol, then of each query function for each tag "
        "with every member of the description a distinct symbol; the composition gives the origin of each answer.  Rule: each tag answers "
        "with its documented origin: the value itself, a copy of the string, the hexadecimal digits of all its bytes, or all its elements in order")
    done(ctx)
