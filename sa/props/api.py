"""Contracts of the exported functions that do not touch packages: arguments, options, queries."""
from .. import models
from ..engine import Engine, Plugin, Obj, c_, width, r_inter, NIL
from ..run import Broken

OK, MEMORY, ARGS = 0, 1, 2
PURE = {"strlen", "malloc", "calloc", "realloc", "free", "strcpy", "strncpy", "memcpy", "memset", "strdup", "strrchr",
        "strchr", "memchr", "strnlen"}
I32 = 1 << 32


class Rec(Plugin):
    """what a path did: external calls other than memory and string handling, strings copied"""

    def on_ext(self, eng, st, I, name, args, ret, tag):
        if name not in PURE:
            st.ghost["x"] = st.ghost.get("x", ()) + ((name, I.fn.name, I.loc()),)
        if name in ("strcpy", "memcpy"):
            self.cp(st, args[0], args[1])
        elif name == "strdup" and tag == "ok":
            self.cp(st, ret, args[0])

    def cp(self, st, d, s):
        if d[0] in ("p", "s") and s[0] in ("p", "s"):
            st.ghost["cp"] = tuple(x for x in st.ghost.get("cp", ()) if x[0] != ("val", d)) + ((("val", d), ("val", s)),)

    def on_return(self, eng, st, I, v):
        if "cp" in st.ghost:
            c = tuple(x for x in st.ghost["cp"] if all(
                y[1][0] != "p" or (y[1][1] in st.mem and st.mem[y[1][1]].status != "freed" and
                                   not (y[1][1][0] == "A" and len(eng.stack) > 1)) for y in x))
            if c:
                st.ghost["cp"] = c
            else:
                del st.ghost["cp"]


class Run:
    """one entry point under one assumption about its arguments"""

    def __init__(self, ctx, cfg, root, setup, caps=16):
        self.plugin = Rec()
        self.eng = Engine(ctx.prog.mods[cfg], models.MODELS, self.plugin, dict(caps=(caps,) * 3))
        if root not in ctx.prog.mods[cfg].fns:
            raise Broken("%s() is not defined in configuration %s" % (root, cfg))
        self.exits = self.eng.run_root(root, setup)
        ctx.coverage["runs"] = ctx.coverage.get("runs", 0) + 1
        ctx.coverage["exits_judged"] = ctx.coverage.get("exits_judged", 0) + len(self.exits)
        ctx.coverage.setdefault("functions", set()).update(self.eng.fns_seen)
        if not self.exits:
            raise Broken("%s() has no exit under the assumed arguments" % root)

    def codes(self, st, v):
        r = self.eng.rng(st, v)
        return r or ()

    def only(self, st, v, codes):
        return all(lo >= 0 and all(c in codes for c in range(lo, hi + 1)) if hi - lo < 64 else False
                   for lo, hi in self.codes(st, v))

    def may(self, st, v, code):
        return any(lo <= code <= hi for lo, hi in self.codes(st, v))


def fix(**kw):
    """setup: parameter k (by position, a0=..) is a constant, NULL, 'ptr' (some object), or a range"""
    def setup(eng, st, F):
        for k, (pid, kind, w, name) in enumerate(F.params):
            v = kw.get("a%d" % k)
            if v is None:
                continue
            if v == "null":
                st.env[pid] = NIL
            elif v == "ptr":
                eng.refine(st, st.env[pid], ((4096, (1 << 64) - 1),))
            elif isinstance(v, int):
                st.env[pid] = c_(v % (1 << w), w)
            elif isinstance(v, tuple):
                if not eng.refine(st, st.env[pid], v):
                    raise Broken("bad range")
            elif callable(v):
                v(eng, st, F, pid)
    return setup


def structparam(k, struct, init=None):
    """parameter k points to a struct whose members hold named symbols (or the given constants)"""
    def f(eng, st, F, pid):
        s = st.env[pid]
        eng.refine(st, s, ((4096, (1 << 64) - 1),))
        o = Obj("ext", "sym", struct=struct)
        for name, (off, z) in leaf(eng.M, struct).items():
            v = (init or {}).get(name, ("s", ("f", k, name), z * 8))
            if isinstance(v, int):
                v = c_(v, z * 8)
            o.fields[off] = (v, z)
        st.mem[("D", s[1])] = o
    return f


def leaf(M, struct):
    if struct not in M.fields:
        raise Broken("struct %s not found" % struct)
    return {n: (o, z) for n, (o, z) in M.fields[struct].items() if "." not in n and z in (1, 2, 4, 8)}


# ------------------------------------------------------------------ arguments
VALID_COMP = {"zstd": {0, 1, 2, 3, 4, 6}, "lzip": {0, 1, 2, 3, 4, 5}}


def arg_cases(cfg):
    opts = structparam(0, "drpm_make_options")
    delta = structparam(0, "drpm")
    badcomp = tuple((c, c) for c in range(7) if c not in VALID_COMP[cfg]) + ((7, 65535),)
    for root, n, ptrs in (("drpm_apply", 3, (1, 2)), ("drpm_check", 2, (0,)), ("drpm_check_sequence", 3, (1,)),
                          ("drpm_make", 4, (2,)), ("drpm_read", 2, (0, 1)), ("drpm_destroy", 1, (0,)),
                          ("drpm_get_uint", 3, (0, 2)), ("drpm_get_ulong", 3, (0, 2)), ("drpm_get_ullong", 3, (0, 2)),
                          ("drpm_get_string", 3, (0, 2)), ("drpm_get_ulong_array", 4, (0, 2, 3)),
                          ("drpm_make_options_init", 1, (0,)), ("drpm_make_options_destroy", 1, (0,)),
                          ("drpm_make_options_defaults", 1, (0,)), ("drpm_make_options_copy", 2, (0, 1)),
                          ("drpm_make_options_set_type", 2, (0,)), ("drpm_make_options_set_version", 2, (0,)),
                          ("drpm_make_options_set_delta_comp", 3, (0,)),
                          ("drpm_make_options_get_delta_comp_from_rpm", 1, (0,)),
                          ("drpm_make_options_forbid_addblk", 1, (0,)), ("drpm_make_options_set_addblk_comp", 3, (0,)),
                          ("drpm_make_options_set_seqfile", 2, (0,)), ("drpm_make_options_add_patches", 3, (0, 1, 2)),
                          ("drpm_make_options_set_memlimit", 2, (0,))):
        for k in ptrs:
            yield root, "argument %d is NULL" % (k + 1), {"a%d" % k: "null"}
    yield "drpm_make", "neither an old nor a new package is named", dict(a0="null", a1="null")
    modes = lambda *m: tuple(x for x in ((0, min(m) - 1), (max(m) + 1, I32 - 1)) if x[0] <= x[1])
    yield "drpm_check", "the check mode is not one of the two checks", dict(a0="ptr", a1=((0, 0), (3, I32 - 1)))
    yield "drpm_check_sequence", "the check mode is unknown", dict(a0="null", a1="ptr", a2=((3, I32 - 1),))
    yield "drpm_check_sequence", "an old package is named together with a file check", dict(a0="ptr", a1="ptr", a2=((1, 2),))
    for f, n in (("uint", {2, 1, 3, 7, 9}), ("ulong", {1, 2, 3, 7, 9, 11, 14}),
                 ("ullong", {1, 2, 3, 7, 9, 11, 14, 17, 18}), ("string", {0, 4, 5, 6, 8, 10, 13}),
                 ("ulong_array", {12, 15, 16})):
        bad = tuple((c, c) for c in range(0, 19) if c not in n) + ((19, I32 - 1),)
        a = dict(a0=delta, a1=bad, a2="ptr", a3="ptr")
        yield "drpm_get_" + f, "the tag is not of this type", a
    o = "drpm_make_options_"
    yield o + "set_type", "the type is unknown", dict(a0=opts, a1=((2, 65535),))
    yield o + "set_version", "the version does not exist", dict(a0=opts, a1=((0, 0), (4, 65535)))
    for f in ("set_delta_comp", "set_addblk_comp"):
        yield o + f, "the compression type is unknown or not built in", dict(a0=opts, a1=badcomp)
        yield o + f, "the compression level is above 9", dict(a0=opts, a2=((10, 65535),))
    for r, s in (("drpm_destroy", "the handle is NULL"), (o + "destroy", "the handle is NULL")):
        def z(eng, st, F, pid):
            p = st.env[pid]
            eng.refine(st, p, ((4096, (1 << 64) - 1),))
            st.mem[("D", p[1])] = ob = Obj("ext", "sym")
            ob.fields[0] = (NIL, 8)
        yield r, s, dict(a0=z)
    rpmonly = structparam(3, "drpm_make_options", dict(rpm_only=1, version=2))
    yield "drpm_make", "an rpm-only delta is asked for in a format version that has none", \
        dict(a0="ptr", a1="ptr", a2="ptr", a3=rpmonly)


def arguments(ctx):
    names = []
    for cfg in ctx.configs:
        for root, what, kw in arg_cases(cfg):
            run = Run(ctx, cfg, root, fix(**kw))
            names.append("%s: %s" % (root, what))
            for st, v, I in run.exits:
                late = "version" in what and root == "drpm_make"
                if not run.only(st, v, {ARGS, MEMORY} if late else {ARGS}):
                    ctx.violation("%s:%s" % (root, what), "%s() does not answer with the bad-arguments code when %s: it "
                                  "returns %s at %s (configuration %s)" % (root, what, run.codes(st, v), I.loc(), cfg))
                for x in st.ghost.get("x", ()):
                    ctx.violation("%s:%s:touch" % (root, what), "%s() calls %s() in %s() at %s although %s (configuration %s)"
                                  % ((root,) + x + (what, cfg)))
                for oid, o in st.mem.items():
                    if oid[0] == "D" and oid[1][0] == "e" and not late and root != "drpm_make":
                        for off, (val, z) in o.fields.items():
                            if not unchanged(val, oid, off) and val != NIL:
                                ctx.violation("%s:%s:store" % (root, what), "%s() writes through argument %d although %s "
                                              "(configuration %s)" % (root, oid[1][1] + 1, what, cfg))
    ctx.coverage["cases"] = sorted(set(names))
    ctx.coverage["explanation"] = ("abstract interpretation of each exported function once per class of bad argument; rule: "
                                   "every exit returns the bad-arguments code, no external function other than memory and "
                                   "string handling is called, nothing is stored through the arguments")
    done(ctx)


def unchanged(val, oid, off):
    v = val
    return v[0] == "s" and (v[1][0] == "f" or v[1] == ("L", oid, off, 0)) or v[0] == "c" and v[1] == 0 and v == NIL


def done(ctx):
    ctx.coverage["functions"] = sorted(ctx.coverage.get("functions", ()))


# ------------------------------------------------------------------ options
S = "drpm_make_options"
STRINGS = ("seqfile", "oldrpmprint", "oldpatchrpm")
DEFAULTS = dict(rpm_only=0, version=3, comp_from_rpm=1, addblk=1, addblk_comp=2, addblk_comp_level=0, comp_level=0,
                seqfile=0, oldrpmprint=0, oldpatchrpm=0, mbytes=0)


def final(run, st, oid, name, M):
    off, z = leaf(M, S)[name]
    o = st.mem.get(oid)
    if o is None or off not in o.fields:
        return None
    v = o.fields[off][0]
    while v[0] == "o" and v[1] in ("zext", "trunc"):
        v = v[3]
    return v


def same(a, b):
    """equal up to a change of width"""
    if a is None or b is None:
        return False
    if a[0] == "c" and b[0] == "c":
        return a[1] == b[1]
    return a == b or a[0] == "s" == b[0] and a[1] == b[1]


def options(ctx):
    n = 0
    for cfg in ctx.configs:
        M = ctx.prog.mods[cfg]
        flds = list(leaf(M, S))
        for need in DEFAULTS:
            ctx.require(need in flds, "option %s is no longer a member of the options structure" % need)
        ctx.require(set(flds) == set(DEFAULTS) | {"comp"}, "the options structure has other members than the ones specified")
        comps = VALID_COMP[cfg]
        P = lambda k: ("s", ("e", k), 16)
        cases = []
        for t in (0, 1):
            cases.append(("set_type", dict(a1=t), dict(rpm_only=c_(t, 8))))
        for ver in (1, 2, 3):
            cases.append(("set_version", dict(a1=ver), dict(version=c_(ver, 16))))
        for comp in sorted(comps):
            lv = ((0, 9),)
            cases.append(("set_delta_comp", dict(a1=comp, a2=lv), dict(comp=c_(comp, 16), comp_level=P(2), comp_from_rpm=c_(0, 8))
                          if False else dict(comp=c_(comp, 16), comp_level=P(2), comp_from_rpm=c_(0, 8))))
            cases.append(("set_addblk_comp", dict(a1=comp, a2=lv),
                          dict(addblk_comp=c_(comp, 16), addblk_comp_level=P(2), addblk=c_(1, 8))))
        cases.append(("get_delta_comp_from_rpm", {}, dict(comp_from_rpm=c_(1, 8))))
        cases.append(("forbid_addblk", {}, dict(addblk=c_(0, 8))))
        cases.append(("set_memlimit", {}, dict(mbytes=("s", ("e", 1), 32))))
        cases.append(("set_seqfile", dict(a1="null"), dict(seqfile=c_(0, 64))))
        cases.append(("set_seqfile", dict(a1="ptr"), dict(seqfile=("copy", 1))))
        cases.append(("add_patches", dict(a1="ptr", a2="ptr"), dict(oldrpmprint=("copy", 1), oldpatchrpm=("copy", 2))))
        cases.append(("defaults", {}, {k: c_(v, 64) for k, v in DEFAULTS.items()}))
        for fn, kw, want in cases:
            root = S + "_" + fn
            run = Run(ctx, cfg, root, fix(a0=structparam(0, S), **kw))
            for st, v, I in run.exits:
                n += 1
                judge_opts(ctx, cfg, run, root, st, v, I, ("D", ("e", 0)), want, flds, M,
                           {MEMORY} if "copy" in repr(want) else set(), fn == "defaults")
        # init hands out an object that says what defaults() says
        run = Run(ctx, cfg, S + "_init", fix(a0="ptr"))
        for st, v, I in run.exits:
            n += 1
            if run.may(st, v, OK):
                out = st.mem.get(("D", ("e", 0)))
                p = out.fields.get(0, (None,))[0] if out else None
                if not p or p[0] != "p" or not run.only(st, v, {OK}):
                    ctx.violation("init:handle", "%s_init() succeeds without storing a handle (configuration %s)" % (S, cfg))
                    continue
                for k, c in DEFAULTS.items():
                    x = final(run, st, p[1], k, M)
                    if x is None and st.mem[p[1]].default == "zero":
                        x = c_(0, 64)
                    if not same(x, c_(c, 64)):
                        ctx.violation("init:" + k, "%s_init() does not give option %s its documented default (configuration %s)" % (S, k, cfg))
            elif not run.only(st, v, {MEMORY}):
                ctx.violation("init:code", "%s_init() fails with %s (configuration %s)" % (S, run.codes(st, v), cfg))
        # copy: every member, strings as copies of their own
        for bits in range(8):
            src = {s: (c_(0, 64) if not bits >> k & 1 else ("s", ("f", 1, s), 64)) for k, s in enumerate(STRINGS)}

            def both(eng, st, F, pid, src=src):
                structparam(0, S)(eng, st, F, pid)
            def srcset(eng, st, F, pid, src=src):
                structparam(1, S, src)(eng, st, F, pid)
                for s in src.values():
                    if s[0] == "s":
                        eng.refine(st, s, ((4096, (1 << 64) - 1),))
            run = Run(ctx, cfg, S + "_copy", fix(a0=both, a1=srcset))
            for st, v, I in run.exits:
                n += 1
                if run.only(st, v, {MEMORY}):
                    continue
                if not run.only(st, v, {OK}):
                    ctx.violation("copy:code", "%s_copy() fails with %s (configuration %s)" % (S, run.codes(st, v), cfg))
                    continue
                if all(final(run, st, ("D", ("e", 0)), k, M) == ("s", ("f", 0, k), leaf(M, S)[k][1] * 8) for k in flds):
                    # a copy onto itself
                    if not any(t[0] == "o" for t in st.cons) and not alias(st):
                        ctx.violation("copy:none", "%s_copy() succeeds without copying (configuration %s)" % (S, cfg))
                    continue
                for k in flds:
                    x = final(run, st, ("D", ("e", 0)), k, M)
                    if k in STRINGS:
                        if src[k][0] == "c":
                            good = x is not None and x[0] == "c" and x[1] == 0
                        else:
                            good = x is not None and x[0] == "p" and (("val", x), ("val", src[k])) in st.ghost.get("cp", ())
                    else:
                        good = x == ("s", ("f", 1, k), leaf(M, S)[k][1] * 8)
                    if not good:
                        ctx.violation("copy:" + k, "%s_copy() succeeds without option %s being copied (configuration %s)" % (S, k, cfg))
                    y = final(run, st, ("D", ("e", 1)), k, M)
                    if not (y == src[k] if k in STRINGS else y == ("s", ("f", 1, k), leaf(M, S)[k][1] * 8)):
                        ctx.violation("copysrc:" + k, "%s_copy() changes option %s of its source (configuration %s)" % (S, k, cfg))
    ctx.coverage["states_judged"] = n
    ctx.coverage["explanation"] = ("abstract interpretation of every option function with each member of the options structure "
                                   "and each argument a distinct symbol; rule: on success exactly the members named in the "
                                   "documentation changed and to the value given, on failure none did; copies are deep")
    done(ctx)


def alias(st):
    return any(True for t, r in st.cons.items() if "e" in repr(t))


def judge_opts(ctx, cfg, run, root, st, v, I, oid, want, flds, M, fails, defaults):
    if fails and run.only(st, v, fails):
        for k in flds:
            x = final(run, st, oid, k, M)
            if k in STRINGS:
                continue
            if x != ("s", ("f", 0, k), leaf(M, S)[k][1] * 8):
                ctx.violation("%s:%s:fail" % (root, k), "%s() changes option %s although it fails (configuration %s)" % (root, k, cfg))
        return
    if not run.only(st, v, {OK}):
        ctx.violation("%s:code" % root, "%s() refuses a valid request with %s at %s (configuration %s)"
                      % (root, run.codes(st, v), I.loc(), cfg))
        return
    for k in flds:
        x = final(run, st, oid, k, M)
        if k in want:
            w = want[k]
            if w[0] == "copy":
                good = x is not None and x[0] in ("p", "s") and (("val", x), ("val", ("s", ("e", w[1]), 64))) in st.ghost.get("cp", ())
            else:
                good = same(x, w)
            if not good:
                ctx.violation("%s:%s" % (root, k), "%s() succeeds without option %s having the requested value (configuration %s)"
                              % (root, k, cfg))
        elif not (defaults and k == "comp") and x != ("s", ("f", 0, k), leaf(M, S)[k][1] * 8):
            ctx.violation("%s:%s" % (root, k), "%s() changes option %s, which it was not asked to (configuration %s)" % (root, k, cfg))


# ------------------------------------------------------------------ error texts
def strerror(ctx):
    texts = {}
    for cfg in ctx.configs:
        M = ctx.prog.mods[cfg]

        def text(v):
            if v is None or v[0] != "p" or v[1][0] != "G" or v[2] != 0:
                return None
            g = M.globals.get(v[1][1])
            return g["bytes"].rstrip(b"\0").decode() if g and g["const"] and g.get("bytes") else None
        per = {}
        for code in range(11):
            run = Run(ctx, cfg, "drpm_strerror", fix(a0=code))
            for st, v, I in run.exits:
                t = text(v)
                if not t:
                    ctx.violation("%d:none" % code, "drpm_strerror(%d) does not return a constant text (configuration %s)" % (code, cfg))
                else:
                    per.setdefault(code, set()).add(t)
        run = Run(ctx, cfg, "drpm_strerror", fix(a0=((11, I32 - 1),)))
        for st, v, I in run.exits:
            t = text(v)
            if not t:
                ctx.violation("other:none", "drpm_strerror() does not return a constant text for an undefined code (configuration %s)" % cfg)
            else:
                per.setdefault("other", set()).add(t)
        for a in per:
            for b in per:
                if a != b and per[a] & per[b]:
                    ctx.violation("dup:%s:%s" % (a, b), "drpm_strerror() gives the codes %s and %s the same text (configuration %s)" % (a, b, cfg))
            if len(per[a]) > 1:
                ctx.violation("multi:%s" % a, "drpm_strerror() gives code %s different texts (configuration %s)" % (a, cfg))
        words = {0: "no error", 1: "memory", 2: "argument", 3: "I/O", 4: "format", 5: "config", 6: "unknown", 7: "large", 8: "internal",
                 9: "changed", 10: "not installed"}
        for code, w in words.items():
            if code in per and not any(w.lower() in t.lower() for t in per[code]):
                ctx.violation("text:%d" % code, "drpm_strerror(%d) does not describe its code: %s (configuration %s)" % (code, sorted(per[code]), cfg))
        texts[cfg] = {str(k): sorted(v) for k, v in per.items()}
    ctx.coverage["texts"] = texts
    ctx.coverage["explanation"] = "abstract interpretation of drpm_strerror for each code and for all others; rule: constant, distinct texts"
    done(ctx)
