"""Success means verified: which comparisons came out equal on every path that ends in success."""
from .. import models
from ..engine import Plugin, c_, r_compl
from ..run import engine_runs, engine_coverage

DIGESTS = {"MD5_Final": 16, "SHA256_Final": 32}


def fork_cmp(derefs):
    def m(e, st, I, a):
        for p in a[:2]:
            if derefs == "mem":
                models.rdbuf(e, st, I, p, I.callee[1])
            else:
                models.deref(e, st, p, I, "%s() argument read" % I.callee[1])
            if st.dead:
                return []
        for p in a[:2]:
            g = e.M.globals.get(p[1][1]) if p[0] == "p" and p[1][0] == "G" else None
            if g and g["const"] and (g.get("bytes") is None or any(g["bytes"])):
                return [(st, models.sym(e, st, I), "ok")]
        if derefs == "mem" and a[2][0] == "c" and a[2][1] not in (16, 32):
            return [(st, models.sym(e, st, I), "ok")]
        ne = st.copy()
        return [(st, c_(0, I.w), "eq"), (ne, models.sym(e, ne, I, r_compl(((0, 0),), I.w)), "ne")]
    return m


class Facts(Plugin):
    """ghost 'eq': comparisons that came out equal, 'rg': what regions are known to hold.  Regions are named by
    pointers while they can be, and by their role as soon as the structure they belong to is in view."""
    models = {"memcmp": fork_cmp("mem"), "bcmp": fork_cmp("mem"), "CRYPTO_memcmp": fork_cmp("mem"),
              "strcmp": fork_cmp("str")}

    ghost_weakens = True

    def __init__(self):
        self.seen = {}

    # ---- naming
    def struct_role(self, eng, st, v):
        if v[0] == "c":
            return ("null",)
        for oid, o in st.mem.items():
            if o.struct != "deltarpm":
                continue
            F = eng.M.fields["deltarpm"]
            if v[0] == "p" and v[1] == oid:
                for f, (off, z) in F.items():
                    if off == v[2] and z > 8:
                        return ("delta", f)
                continue
            for f, (off, z) in F.items():
                if z == 8 and "." not in f:
                    x = o.fields.get(off)
                    if x is not None and x[0] == v:
                        return ("delta", f)
        return None

    def region(self, eng, st, v):
        for p, role in st.ghost.get("rg", ()):
            if p == ("val", v):
                return role
        r = self.struct_role(eng, st, v)
        if r:
            return r
        if v[0] == "p" and v[1] in st.mem:
            o = st.mem[v[1]]
            if o.kind == "alloca" and (o.default == "zero" or o.fields.get(0) == (c_(0, 64), 8)) and \
                    not any(x for k, x in o.fields.items() if x[0][0] != "c" or x[0][1] != 0):
                return ("zero",)
            if o.kind == "global":
                g = eng.M.globals.get(v[1][1])
                if g and g["const"] and g.get("bytes") is not None and not any(g["bytes"]):
                    return ("zero",)
            if o.kind == "heap" and len(eng.stack) == 1:
                return ("heap",)
        return ("val", v)

    def put(self, st, v, role):
        old = tuple(x for x in st.ghost.get("rg", ()) if x[0] != ("val", v))
        st.ghost["rg"] = tuple(sorted(old + ((("val", v), role),), key=repr))[-12:]

    def fact(self, st, kind, a, b, n):
        f = (kind,) + tuple(sorted((a, b), key=repr)) + (n,)
        st.ghost["eq"] = tuple(sorted(set(st.ghost.get("eq", ()) + (f,)), key=repr))

    # ---- events
    def on_ext(self, eng, st, I, name, args, ret, tag):
        if name in DIGESTS and tag == "ok":
            self.put(st, args[0], ("digest", DIGESTS[name]))
            self.seen.setdefault("digest", set()).add((I.fn.name, I.loc()))
        elif name in self.models and tag in ("eq", "ne"):
            n = None
            if name != "strcmp":
                n = args[2][1] if args[2][0] == "c" else "?"
            self.seen.setdefault("cmp", set()).add((I.fn.name, I.loc()))
            if tag == "eq":
                self.fact(st, tag, self.region(eng, st, args[0]), self.region(eng, st, args[1]), n)

    def after_call(self, eng, st, I, F, args, ret):
        if F.name == "rpm_signature_get_md5" and self.isok(eng, st, ret):
            self.put(st, args[1], ("sigmd5",))
            has = self.deref(eng, st, args[2], 1)
            if has is not None and eng.rng(st, has) == ((0, 0),):
                self.fact(st, "eq", ("sigmd5",), ("absent",), None)
        elif F.name == "rpm_get_nevr" and self.isok(eng, st, ret):
            p = self.deref(eng, st, args[1], 8)
            if p is not None:
                self.put(st, p, ("nevr",))
        elif F.name == "read_deltarpm" and self.isok(eng, st, ret):
            t = self.deref(eng, st, args[0], 2, eng.M.fields["deltarpm"]["type"][0])
            r = eng.rng(st, t) if t is not None else None
            st.ghost["ty"] = r[0][0] if r and len(r) == 1 and r[0][0] == r[0][1] else "?"
        fs = st.ghost.get("eq", ())
        if any(x[1][0] == "val" or x[2][0] == "val" for x in fs):
            out = set()
            for k, a, b, n in fs:
                a, b = [self.region(eng, st, x[1]) if x[0] == "val" else x for x in (a, b)]
                out.add((k,) + tuple(sorted((a, b), key=repr)) + (n,))
            st.ghost["eq"] = tuple(sorted(out, key=repr))

    def on_return(self, eng, st, I, v):
        # names of this frame's variables and of what was freed die here
        def live(x):
            if x[0] != "val":
                return True
            x = x[1]
            if x[0] == "p":
                o = st.mem.get(x[1])
                return o is not None and o.status != "freed" and not (o.kind == "alloca" and x[1][0] == "A" and x[1][1] == I.fn.name)
            return True
        if "rg" in st.ghost:
            st.ghost["rg"] = tuple(x for x in st.ghost["rg"] if live(x[0]))
        if "eq" in st.ghost:
            st.ghost["eq"] = tuple(x for x in st.ghost["eq"] if live(x[1]) and live(x[2]))
        for k in ("rg", "eq"):
            if not st.ghost.get(k, True):
                del st.ghost[k]

    def deref(self, eng, st, p, size, off=0):
        if p[0] == "p" and p[1] in st.mem and isinstance(p[2], int):
            return eng.load(st, p[1], p[2] + off, size)
        return None

    def isok(self, eng, st, ret):
        r = eng.rng(st, ret) if ret is not None else None
        return bool(r) and r[0][0] == 0

    def ghost_merge(self, a, b):
        # only what holds on both
        out = {}
        for k in a:
            if k not in b:
                continue
            if k in ("eq", "rg"):
                v = tuple(x for x in a[k] if x in b[k])
                if v:
                    out[k] = v
            else:
                out[k] = a[k] if a[k] == b[k] else "?"
        return out

    def judge(self, eng, st, has):
        raise NotImplementedError

    def on_root_exit(self, eng, st, v, I, F):
        r = eng.rng(st, v)
        if not r or r[0][0] != 0:
            return
        eq = [x for x in st.ghost.get("eq", ()) if x[0] == "eq"]
        self.seen["exits"] = self.seen.get("exits", 0) + 1

        def has(a, b, n=None):
            return any((x[1][:len(a)] == a and x[2][:len(b)] == b or x[1][:len(b)] == b and x[2][:len(a)] == a) and
                       (n is None or x[3] == n) for x in eq)
        for what in self.judge(eng, st, has, F.name):
            eng.report("unverified", I, what, key=what, extra=dict(id=what))

    def facts(self):
        return {k: sorted(v) if isinstance(v, set) else v for k, v in self.seen.items()}


class Output(Facts):
    models = {k: v for k, v in Facts.models.items() if k != "strcmp"}

    def judge(self, eng, st, has, root):
        if has(("delta", "tgt_md5"), ("digest",), 16):
            return
        if not has(("delta", "tgt_md5"), ("zero",), 16):
            yield "succeeds without the digest of the output having been found equal to all of the delta's target MD5"
        elif not (has(("sigmd5",), ("digest",), 16) or has(("sigmd5",), ("absent",))):
            yield "succeeds for a delta without target MD5 although the output's digest was not found equal to " \
                  "the MD5 in the new signature"


class Source(Facts):
    def judge(self, eng, st, has, root):
        eq = st.ghost.get("eq", ())
        if not any(x[0] == "eq" and x[3] is None and (x[1] == ("nevr",)) != (x[2] == ("nevr",)) for x in eq):
            yield "succeeds without the old package's name-epoch-version-release having been found equal to the delta's"
        if root == "drpm_check_sequence":
            ok = any(x[0] == "eq" and x[3] == 16 and
                     (x[1][0] == "digest" or x[2][0] == "digest" or ("sigmd5",) in x[1:3]) for x in eq)
        else:
            ok = has(("delta", "sequence"), ("digest",), 16)
            ty = st.ghost.get("ty")
            if ty == 1:
                ok = root == "drpm_check" or has(("delta", "sequence"), ("sigmd5",), 16)
        if not ok:
            yield "succeeds without the delta's sequence having been found to match the old package"


def _check(ctx, factory, roots, expl, ncmp):
    # every setting takes long on these, so what confirms is coarser and finer rather than much finer
    res = engine_runs(ctx, factory, dict(coarse=1), roots=roots, want=lambda r: r["kind"] == "unverified",
                      stages=[dict(caps=(4, 4, 4)), dict(caps=(3, 3, 3)), dict(caps=(6, 6, 6))])
    for r in res:
        for rep in r["reports"]:
            ctx.violation("%s:%s" % (rep["root"], rep["msg"].replace(" ", "_")), "%s() %s; the path returns at %s (configuration %s)"
                          % (rep["root"], rep["msg"], rep["loc"], rep["cfg"]))
    cov = engine_coverage(ctx, res, expl)
    cov["comparison_sites"] = sorted({"%s %s" % tuple(x) for r in res for x in r["facts"].get("cmp", ())})
    cov["digest_sites"] = sorted({"%s %s" % tuple(x) for r in res for x in r["facts"].get("digest", ())})
    cov["success_exits_judged"] = sum(r["facts"].get("exits", 0) for r in res)
    ctx.require(len(cov["comparison_sites"]) >= ncmp and cov["success_exits_judged"] >= len(res), "comparisons not found")


def output(ctx):
    _check(ctx, Output, ["drpm_apply"],
           "abstract interpretation of drpm_apply with every comparison forked into equal/different; rule: each exit "
           "with success carries the fact 'digest of the output == target MD5 (16 bytes)', or both 'target MD5 is all "
           "zero' and 'digest == MD5 in the new signature' (or that signature has none)", 3)


def source(ctx):
    _check(ctx, Source, ["drpm_apply", "drpm_check", "drpm_check_sequence"],
           "abstract interpretation with every comparison forked; rule: each exit with success carries the facts 'NEVR "
           "of the old package == NEVR the delta names' and 'sequence == digest recomputed from the old package' (or, "
           "rpm-only, == the MD5 in its signature)", 4)
