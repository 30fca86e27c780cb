"""Numbers and codes in files: what is written is what is read, bit by bit."""
from .. import models
from ..engine import Obj, c_, NIL
from ..run import parallel
from .api import fix, done
from .format import Trace, sym, okret, ANY


def bits(v):
    """origin of each bit of a value, lowest first: 0, 1, (name, bit) or None for unknown"""
    if v[0] == "c":
        return [v[1] >> k & 1 for k in range(v[2])]
    w = v[2]
    if v[0] == "s":
        return [(v[1][1:], k) for k in range(w)] if v[1][0] == "@" else [None] * w
    if v[0] != "o":
        return [None] * w
    op = v[1]
    a = bits(v[3])
    if op == "zext":
        return a + [0] * (w - len(a))
    if op == "sext":
        return a + [a[-1]] * (w - len(a))
    if op == "trunc":
        return a[:w]
    if len(v) < 5 or not isinstance(v[4], tuple):
        return [None] * w
    b = bits(v[4])
    if op == "shl" and v[4][0] == "c":
        return ([0] * v[4][1] + a)[:w]
    if op == "lshr" and v[4][0] == "c":
        return (a[v[4][1]:] + [0] * w)[:w]
    if op == "ashr" and v[4][0] == "c":
        return (a[v[4][1]:] + [a[-1]] * w)[:w]
    if op == "mul":
        for x, y in ((v[3], b), (v[4], a)):
            if x[0] == "c" and x[1] and x[1] & (x[1] - 1) == 0:
                return ([0] * (x[1].bit_length() - 1) + y)[:w]
    if op == "udiv" and v[4][0] == "c" and v[4][1] and v[4][1] & (v[4][1] - 1) == 0:
        return (a[v[4][1].bit_length() - 1:] + [0] * w)[:w]
    if op == "urem" and v[4][0] == "c" and v[4][1] and v[4][1] & (v[4][1] - 1) == 0:
        k = v[4][1].bit_length() - 1
        return a[:k] + [0] * (w - k)
    if op == "and":
        return [0 if 0 in (x, y) else x if y == 1 else y if x == 1 else x if x == y else None for x, y in zip(a, b)]
    if op in ("or", "xor"):
        return [x if y == 0 else y if x == 0 else (1 if op == "or" and 1 in (x, y) else None) for x, y in zip(a, b)]
    if op == "add" and all(0 in (x, y) for x, y in zip(a, b)):
        return [x if y == 0 else y for x, y in zip(a, b)]
    return [None] * w


def number(nbytes):
    """the bits of a number whose bytes b0, b1, … stand in this order in a file"""
    r = []
    for k in reversed(range(nbytes)):
        r += [(("b%d" % k,), j) for j in range(8)]
    return r


def bytes_of(n):
    """the bytes of the number n in file order, each as its bits"""
    return [[(("x",), 8 * k + j) for j in range(8)] for k in reversed(range(n))]


def bytesobj(n):
    o = Obj("ext", "sym")
    for k in range(n):
        o.fields[k] = (sym(8, "b%d" % k), 1)
    return o


def buf(n):
    def f(eng, st, F, pid):
        s = st.env[pid]
        eng.refine(st, s, ((4096, (1 << 64) - 1),))
        st.mem[("D", s[1])] = bytesobj(n)
    return f


def named(w, n="x"):
    def f(eng, st, F, pid):
        st.env[pid] = sym(w, n)
    return f


def plain(eng, st, F, pid):
    s = st.env[pid]
    if s[2] == 64:
        eng.refine(st, s, ((4096, (1 << 64) - 1),))


class Ints(Trace):
    """records the bytes handed on, and hands in b0, b1, …"""
    opts = {"terms": 200}

    def __init__(self):
        super().__init__()
        self.models.update({"write": self.m_write, "read": self.m_read, "MD5_Update": self.m_md5})

    def given(self, e, st, ptr, n):
        if ptr[0] != "p" or n[0] != "c" or not isinstance(ptr[2], int):
            self.ev(st, "out", ANY)
        else:
            self.ev(st, "out", tuple(tuple(bits(e.load(st, ptr[1], ptr[2] + k, 1))) for k in range(n[1])))

    def taken(self, e, st, ptr, n):
        if ptr[0] == "p" and n[0] == "c" and isinstance(ptr[2], int) and n[1] <= 8:
            for k in range(n[1]):
                e.store(st, ptr[1], ptr[2] + k, 1, sym(8, "b%d" % k))
            self.ev(st, "in", n[1])
        else:
            self.ev(st, "in", ANY)

    def m_write(self, e, st, I, a):
        self.given(e, st, a[1], a[2])
        return [(st, a[2], "ok")]

    def m_read(self, e, st, I, a):
        self.taken(e, st, a[1], a[2])
        return [(st, a[2], "ok")]

    def m_md5(self, e, st, I, a):
        self.given(e, st, a[1], a[2])
        return [(st, c_(1, 32), "ok")]

    cut = {"compstrm_write": lambda p, e, st, I, a: (p.given(e, st, a[2], a[1]), okret(st, I))[1],
           "decompstrm_read": lambda p, e, st, I, a: (p.taken(e, st, a[2], a[1]), okret(st, I))[1]}


OUT = (("compstrm_write_be32", 4, 1), ("compstrm_write_be64", 8, 1), ("write_be32", 4, 1), ("write_be64", 8, 1), ("md5_update_be32", 4, 1))
IN = (("decompstrm_read_be32", 4), ("decompstrm_read_be64", 8), ("read_be32", 4), ("read_be64", 8))
PARSE = (("parse_be16", 2), ("parse_be32", 4), ("parse_be64", 8))
CREATE = (("create_be32", 4), ("create_be64", 8))


def describe(b):
    return "".join("?" if x is None else str(x) if x in (0, 1) else "." for x in reversed(b))


def ints_case(ctx, cfg, kind, fn, n):
    M = ctx.prog.mods[cfg]
    if fn not in M.fns:
        return
    p = Ints()

    def bad(text):
        ctx.violation("%s:%s" % (fn, text[:40]), "%s() %s (configuration %s)" % (fn, text, cfg))
    if kind == "parse":
        exits = p.run(ctx, cfg, fn, fix(a0=buf(n)))
        for st, v, I in exits:
            if bits(v)[:8 * n] != number(n):
                bad("does not return the number whose %d bytes stand in the buffer, most significant first: %s" % (n, describe(bits(v))))
        good = len(exits)
    elif kind == "create":
        exits = p.run(ctx, cfg, fn, fix(a0=named(8 * n), a1="ptr"))
        for st, v, I in exits:
            o = st.mem.get(("D", ("e", 1)))
            got = [bits(p.eng.load(st, ("D", ("e", 1)), k, 1)) for k in range(n)] if o else None
            if got != bytes_of(n):
                bad("does not store the %d bytes of the number, most significant first" % n)
        good = len(exits)
    elif kind == "out":
        exits = [x for x in p.run(ctx, cfg, fn, fix(a0=plain, a1=named(8 * n)))
                 if p.ok(x[0], x[1]) or fn.startswith("md5") and p.eng.rng(x[0], x[1]) == ((1, 1),)]
        for st, v, I in exits:
            tr = st.ghost.get("tr", ())
            outs = [e for e in tr if e[0] == "out"]
            if len(outs) != 1 or outs[0][1] == ANY or list(map(list, outs[0][1])) != bytes_of(n):
                bad("does not hand on exactly the %d bytes of the number, most significant first" % n)
        good = len(exits)
    else:
        exits = [x for x in p.run(ctx, cfg, fn, fix(a0=plain, a1="ptr")) if p.ok(x[0], x[1])]
        for st, v, I in exits:
            ins = [e for e in st.ghost.get("tr", ()) if e[0] == "in"]
            o = st.mem.get(("D", ("e", 1)))
            got = bits(p.eng.load(st, ("D", ("e", 1)), 0, n)) if o else None
            if ins != [("in", n)] or got != number(n):
                bad("does not store the number whose %d bytes it reads, most significant first: %s after %s" % (n, describe(got or []), ins))
        good = len(exits)
    if not good:
        bad("never succeeds")
    ctx.coverage["codec_functions"] = 1
    ctx.coverage["bits_traced"] = 8 * n * good


def _case(ctx, f, *a):
    f(ctx, *a)


def integers(ctx):
    items = [(ints_case, c, k, f[0], f[1]) for c in ctx.configs for k, L in (("out", OUT), ("in", IN), ("parse", PARSE), ("create", CREATE)) for f in L]
    parallel(ctx, _case, items)
    ctx.coverage["explanation"] = (
        "bit provenance: each function is analysed with a symbolic number or symbolic bytes, loops of constant length unrolled by the compiler's "
        "optimiser; the origin of every bit of every byte handed on, or of the number returned, is traced through shifts, masks and sums.  "
        "Rule: each bit comes from its own place in big-endian order, and no other byte is read or written")
    done(ctx)


# ------------------------------------------------------------------ compression codes
CODES = {"zstd": {0: (0,), 1: (1, 3), 2: (2, 4), 3: (5,), 4: (6,), 6: (7,)},
         "lzip": {0: (0,), 1: (1, 3), 2: (2, 4), 3: (5,), 4: (6,)}}
NAMES = {0: "uncompressed", 1: "gzip", 2: "bzip2", 3: "lzma", 4: "xz", 5: "lzip", 6: "zstd"}


def encode_case(ctx, cfg, comp):
    p = Trace()
    codes = CODES[cfg].get(comp)
    what = NAMES.get(comp, comp)

    def level(eng, st, F, pid):
        st.env[pid] = s = sym(16, "level")
        eng.refine(st, s, ((0, 255),))
    for st, v, I in p.run(ctx, cfg, "deltarpm_encode_comp", fix(a0="ptr", a1=comp, a2=level)):
        r = p.eng.rng(st, v)
        if codes is None:
            if r != ((0, 0),):
                ctx.violation("enc:%s" % comp, "deltarpm_encode_comp() has a code for compression type %s (configuration %s)" % (what, cfg))
            continue
        b = bits(p.eng.load(st, ("D", ("e", 0)), 0, 4))
        want = [codes[0] >> k & 1 for k in range(8)] + [(("level",), k) for k in range(8)]
        rest = b[16:]
        if r != ((1, 1),):
            ctx.violation("enc:%s" % comp, "deltarpm_encode_comp() fails for compression type %s (configuration %s)" % (what, cfg))
        elif b[:16] != want or any(x != 0 and x != (("level",), 8 + k) for k, x in enumerate(rest)):
            ctx.violation("enc:%s" % comp, "deltarpm_encode_comp() does not make %s with level n into code %d + 256*n (configuration %s)" % (what, codes[0], cfg))
    ctx.coverage["codes_traced"] = 1


def decode_case(ctx, cfg, code, withlevel):
    p = Trace()
    comp = [c for c, k in CODES[cfg].items() if code in k]

    def number(eng, st, F, pid):
        n = sym(24, "high")
        st.env[pid] = ("o", "or", 32, ("o", "shl", 32, ("o", "zext", 32, n), c_(8, 32)), c_(code, 32))
    # the high bytes are symbolic, the low one is the code
    for lev in ((0, 1, 6, 9, 19, 128, 255) if comp else (0, 9)):
        for st, v, I in p.run(ctx, cfg, "deltarpm_decode_comp", fix(a0=code + 256 * lev, a1="ptr", a2="ptr" if withlevel else "null")):
            r = p.eng.rng(st, v)
            if not comp:
                if r != ((0, 0),):
                    ctx.violation("dec:%d" % code, "deltarpm_decode_comp() accepts the unknown code %d (configuration %s)" % (code, cfg))
                continue
            c = p.eng.load(st, ("D", ("e", 1)), 0, 2)
            if r != ((1, 1),) or c != c_(comp[0], 16):
                ctx.violation("dec:%d" % code, "deltarpm_decode_comp() does not make code %d into %s but into %s (configuration %s)" % (
                    code, NAMES[comp[0]], NAMES.get(c[1], c) if c[0] == "c" else "something else", cfg))
            elif withlevel:
                l = p.eng.load(st, ("D", ("e", 2)), 0, 2)
                if l != c_(lev, 16):
                    ctx.violation("lev:%d" % code, "deltarpm_decode_comp() does not return level %d of code %d but %s (configuration %s)" % (
                        lev, code + 256 * lev, l[1] if l[0] == "c" else "something else", cfg))
    ctx.coverage["codes_traced"] = 1


def codes(ctx):
    items = [(encode_case, c, k) for c in ctx.configs for k in list(range(9)) + [255, 256, 257, 258, 259, 260, 65535]]
    items += [(decode_case, c, k, l) for c in ctx.configs for k in range(256) for l in ((1, 0) if k < 8 else (1,))]
    parallel(ctx, _case, items)
    ctx.coverage["explanation"] = (
        "bit provenance of deltarpm_encode_comp for each compression type with a symbolic level, and constant propagation through deltarpm_decode_comp for "
        "each of the 256 codes.  Rule: type and level come back as they were, with the code of the format, and nothing else has a code")
    done(ctx)
