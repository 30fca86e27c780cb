"""Every byte through the compression streams: what codecs are given and what is done with what they return."""
from .. import models
from ..engine import Obj, c_, NIL, lin as plin
from ..run import parallel, Broken
from .api import fix, done
from .format import Trace, sym, at
from .codec import _case
from .streams import COMPS, NAMES, MAGICS, MAXU64, Codecs, slot, strm_of, member, target

STRM = ("D", ("e", 0))
ENDS = {"deflate": 1, "inflate": 1, "BZ2_bzCompress": 4, "BZ2_bzDecompress": 4, "lzma_code": 1}
FINISH = {"deflate": 4, "BZ2_bzCompress": 2, "lzma_code": 3}
RUN = {"deflate": (0, 1, 2, 3), "BZ2_bzCompress": (0,), "lzma_code": (0,)}


# ---------------------------------------------------------------- linear expressions
def bounds(e, st, L):
    lo = hi = L[0]
    for t, k in L[1]:
        r = e.rng(st, t)
        if not r:
            return None
        a, b = r[0][0] * k, r[-1][1] * k
        lo, hi = lo + min(a, b), hi + max(a, b)
    return lo, hi


def add(a, b, k=1):
    d = dict(a[1])
    for t, c in b[1]:
        d[t] = d.get(t, 0) + c * k
    return a[0] + b[0] * k, tuple(sorted(((t, c) for t, c in d.items() if c), key=repr))


def lin(e, st, v):
    """constant and coefficients of a value, looking through conversions that lose nothing"""
    if v[0] == "c":
        return (v[1] - (1 << v[2]) if v[1] >> (v[2] - 1) and v[2] > 8 else v[1]), ()
    if v[0] == "o":
        op = v[1]
        if op in ("zext", "sext", "trunc"):
            L = lin(e, st, v[3])
            b = bounds(e, st, L)
            w = {"zext": v[3][2] if v[3][0] != "p" else 64, "sext": v[3][2] - 1, "trunc": v[2]}[op]
            if b and b[0] >= 0 and b[1] < 1 << w:
                return L
            return 0, ((v, 1),)
        if op in ("add", "sub"):
            return add(lin(e, st, v[3]), lin(e, st, v[4]), 1 if op == "add" else -1)
        if op in ("mul", "shl") and v[4][0] == "c":
            k = lin(e, st, v[4])[0] if op == "mul" else 1 << v[4][1]
            L = lin(e, st, v[3])
            return L[0] * k, tuple((t, c * k) for t, c in L[1])
    return 0, ((v, 1),)


def known(e, st, L):
    """the constant a linear expression is known to be, using what conditions on the path said"""
    if not L[1]:
        return L[0]
    for t, r in st.cons.items():
        if len(r) == 1 and r[0][0] == r[0][1] and t[0] == "o":
            d = add(L, lin(e, st, t), -1)
            if not d[1]:
                return r[0][0] + d[0]
    b = bounds(e, st, L)
    return b[0] if b and b[0] == b[1] else None


def zero(e, st, L):
    k = known(e, st, L)
    return k is not None and k & MAXU64 == 0


def same(e, st, a, b):
    return zero(e, st, add(lin(e, st, a), lin(e, st, b), -1))


def ptr(e, st, v):
    """(object, offset) of a pointer"""
    if v[0] == "p":
        off = v[2]
        L = (off, ()) if isinstance(off, int) else (off[1], ())
        if not isinstance(off, int):
            for t, k in off[2]:
                x = lin(e, st, t)
                L = add(L, x, k)
        return v[1], L
    if v[0] == "s":
        return ("D", v[1]), (0, ())
    return None, (0, ())


def sameptr(e, st, a, b, off=(0, ())):
    """a == b + off"""
    (x, m), (y, n) = ptr(e, st, a), ptr(e, st, b)
    return x is not None and x == y and zero(e, st, add(m, add(n, off), -1))


def shift(v, c, terms=()):
    return ("p", v[1], plin(v[2], c, terms)) if v[0] == "p" else ("p", ("D", v[1]), plin(0, c, terms))


def pack(L):
    return L[0], tuple((("val", t), k) for t, k in L[1])


def unpack(L):
    return L[0], tuple((t[1], k) for t, k in L[1])


# ---------------------------------------------------------------- one chunk
class Flow(Trace):
    """follows the bytes of one chunk.  ghost 'stage': output of the codec not yet appended; 'optr', 'ocnt': where and how much;
    'src': the input chunk; 'in': input left over as the codec reported it"""
    opts = {"terms": 40}

    def __init__(self, cfg, M, mode, what, fd):
        super().__init__()
        self.M, self.mode, self.what, self.fd, self.cfg = M, mode, what, fd, cfg
        self.struct = "decompstrm" if mode == "read" else "compstrm"
        self.errors = {}
        self.calls = 0
        for n, w in (("deflate", 4), ("inflate", 4), ("BZ2_bzCompress", 4), ("BZ2_bzDecompress", 4), ("lzma_code", 8)):
            self.models[n] = self.coder(n, w)
        self.models["ZSTD_compressStream2"] = self.zstd("ZSTD_compressStream2", 1, 2)
        self.models["ZSTD_decompressStream"] = self.zstd("ZSTD_decompressStream", 1, 2)
        for n in ("LZ_compress_write", "LZ_decompress_write"):
            self.models[n] = self.lzwrite(n)
        for n in ("LZ_compress_read", "LZ_decompress_read"):
            self.models[n] = self.lzread(n)
        for n in ("LZ_compress_finish", "LZ_decompress_finish"):
            self.models[n] = self.lzfinish(n)
        for n in ("LZ_compress_finished", "LZ_decompress_finished"):
            self.models[n] = self.lzfinished(n)
        for n in ("ZSTD_CStreamOutSize", "ZSTD_DStreamOutSize"):
            self.models[n] = lambda e, st, I, a: [(st, c_(131072, 64), "ok")]
        self.models["read"] = self.m_read
        self.models["MD5_Update"] = self.m_md5

    def bad(self, I, text):
        self.errors.setdefault(text, I.loc() if I is not None else "")

    def ghost_key(self, st):
        return tuple(sorted(st.ghost.items()))

    def off(self, n):
        return self.M.fields[self.struct][n]

    def get(self, e, st, n):
        o, z = self.off(n)
        return e.load(st, STRM, o, z)

    # ------------------------------------------------ output
    def count(self, st):
        return unpack(st.ghost["ocnt"])

    def pending(self, e, st):
        """whether bytes the codec produced may still be waiting"""
        return "stage" in st.ghost and not (st.ghost["stage"] == "new" and zero(e, st, self.count(st)))

    def clear(self, st):
        for k in ("stage", "optr", "ocnt", "base"):
            st.ghost.pop(k, None)

    def produce(self, e, st, p, L):
        self.clear(st)
        st.ghost["stage"] = "new"
        st.ghost["optr"] = ("val", p)
        st.ghost["ocnt"] = pack(L)

    def before(self, e, st, I, n):
        self.calls += 1
        if self.pending(e, st):
            self.bad(I, "loses output of %s()" % n)
        self.clear(st)

    def room(self, e, st, p, n):
        """whether n bytes fit at p; None when not known"""
        o, off = ptr(e, st, p)
        size = st.mem[o].size if o in st.mem else None
        if o in st.mem and size is None and o[0] == "A":
            size = st.mem[o].size
        if size is None:
            return None
        d = add(lin(e, st, size), add(off, n), -1)
        b = bounds(e, st, d)
        return b is not None and b[0] >= 0

    def append(self, e, st, I, dst, base, L):
        data = self.get(e, st, "data")
        if not sameptr(e, st, dst, data, base):
            self.bad(I, "does not put its output behind what the stream has already")
        elif self.room(e, st, dst, L) is False:
            self.bad(I, "does not make room for its output")

    def on_ext(self, e, st, I, n, args, ret, tag):
        if n == "memcpy":
            self.copied(e, st, I, *args[:3])

    def copied(self, e, st, I, dst, src, n):
        L = lin(e, st, n)
        g = st.ghost
        stage = g.get("stage")
        if stage in ("new", "counted") and sameptr(e, st, src, g["optr"][1]):
            if not zero(e, st, add(L, self.count(st), -1)):
                self.bad(I, "appends another number of bytes than there are")
            base = lin(e, st, self.get(e, st, "data_len") if stage == "new" else g["base"][1])
            self.append(e, st, I, dst, base, self.count(st))
            if stage == "new":
                g["stage"] = "copied"
            else:
                self.clear(st)
            return
        if self.mode == "read" and not self.fd and "src" not in g and sameptr(e, st, src, self.get(e, st, "buffer")):
            x = e.rng(st, n)
            y = e.rng(st, self.get(e, st, "buffer_len"))
            if not zero(e, st, add(L, lin(e, st, self.get(e, st, "buffer_len")), -1)) and x[-1][1] > y[0][0]:
                self.bad(I, "takes more than there is")
            if self.room(e, st, dst, L) is False:
                self.bad(I, "takes more than its buffer holds")
            self.taken(e, st, dst, n)
            return
        d = self.get(e, st, "data")
        o = ptr(e, st, dst)[0]
        if o is not None and o == ptr(e, st, d)[0] and not zero(e, st, L):
            self.bad(I, "puts other bytes into the stream than its codec produced")

    def taken(self, e, st, p, n):
        st.ghost["src"] = (("val", p), ("val", n))
        if self.what == 0:
            self.produce(e, st, p, lin(e, st, n))

    def on_store(self, e, st, I, t, v):
        if t == (STRM, self.off("data_len")[0]):
            cur = lin(e, st, self.get(e, st, "data_len"))
            new = lin(e, st, v)
            stage = st.ghost.get("stage")
            if zero(e, st, add(new, cur, -1)):
                return
            if stage not in ("new", "copied"):
                self.bad(I, "counts bytes that were not produced")
                return
            if not zero(e, st, add(new, add(cur, self.count(st)), -1)):
                self.bad(I, "counts another number of bytes than were produced")
            if stage == "new":
                st.ghost["stage"] = "counted"
                st.ghost["base"] = ("val", self.get(e, st, "data_len"))
            else:
                self.clear(st)
        elif t == (STRM, self.off("data_pos")[0]):
            self.bad(I, "moves the read position")

    # ------------------------------------------------ codecs
    def source(self, e, st):
        if self.mode == "write":
            return ("s", ("e", 2), 64), ("s", ("e", 1), 64)
        s = st.ghost.get("src")
        return (s[0][1], s[1][1]) if s else None

    def given(self, e, st, I, n, p, k):
        """input handed to a codec: the chunk at first, then what the codec left over"""
        if self.mode == "finish":
            if not zero(e, st, lin(e, st, k)):
                self.bad(I, "gives %s() input to finish with" % n)
            return
        g = st.ghost
        if "in" in g:
            q, l = g["in"][0][1], g["in"][1][1]
            if not sameptr(e, st, p, q) or not same(e, st, k, l):
                self.bad(I, "does not give %s() the rest of the input" % n)
            return
        s = self.source(e, st)
        if s is None:
            self.bad(I, "gives %s() something without having read anything" % n)
        elif not sameptr(e, st, p, s[0]) or not same(e, st, k, s[1]):
            self.bad(I, "does not give %s() exactly the input" % n)

    def coder(self, n, w):
        base = models.MODELS[n]
        ao_off = 24 + 8

        def m(e, st, I, a):
            self.before(e, st, I, n)
            t = e.target(st, a[0], I, n)
            if st.dead or t is None or not isinstance(t[1], int):
                self.bad(I, "uses %s() on an unknown stream" % n)
                return base(e, st, I, a)
            o, off = t
            L = lambda k, z: e.load(st, o, off + k, z)
            ni, ai, no, ao = L(0, 8), L(8, w), L(24, 8), L(32, w)
            self.given(e, st, I, n, ni, ai)
            space = known(e, st, lin(e, st, ao))
            if space is None or space <= 0 or no[0] != "p" or self.room(e, st, no, (space, ())) is not True:
                self.bad(I, "does not give %s() a buffer of its size for output" % n)
                return base(e, st, I, a)
            if len(a) > 1 and n in FINISH and self.mode != "read":
                act = a[1][1] if a[1][0] == "c" else None
                if act not in ((FINISH[n],) if self.mode == "finish" else RUN[n]):
                    self.bad(I, "does not ask %s() to %s" % (n, "finish" if self.mode == "finish" else "go on"))
            elif n == "lzma_code" and a[1] != c_(0, 32):
                self.bad(I, "does not ask %s() to go on" % n)
            r = e.rng(st, ai)
            out = base(e, st, I, a)
            for s, v, tag in out:
                if s.dead:
                    continue
                x = e.fresh(s, ("i", I.id, "ao"), w * 8, ((0, space),))
                y = e.fresh(s, ("i", I.id, "ai"), w * 8, ((0, r[-1][1] if r else (1 << w * 8) - 1),))
                z = e.fresh(s, ("i", I.id, "ni"), 64, ((4096, MAXU64),)) if self.mode != "finish" else ni
                if self.mode == "finish":
                    y = ai
                x64 = x if w == 8 else ("o", "zext", 64, x)
                for k, val, size in ((0, z, 8), (8, y, w), (24, shift(no, space, ((x64, -1),)), 8), (32, x, w)):
                    e.store(s, o, off + k, size, val)
                self.produce(e, s, no, (space, ((x, -1),)))
                s.ghost["in"] = (("val", z), ("val", y))
                s.ghost["last"] = (("val", v), ("val", x))
                s.ghost["act"] = n
            return out
        return m

    def zstd(self, n, ko, ki):
        base = models.MODELS[n]

        def m(e, st, I, a):
            self.before(e, st, I, n)
            to, ti = e.target(st, a[ko], I, n), e.target(st, a[ki], I, n)
            if st.dead or to is None or ti is None or not isinstance(to[1], int) or not isinstance(ti[1], int):
                self.bad(I, "uses %s() on unknown buffers" % n)
                return base(e, st, I, a)
            L = lambda t, k: e.load(st, t[0], t[1] + k, 8)
            dst, dsz, dpos = L(to, 0), L(to, 8), L(to, 16)
            src, ssz, spos = L(ti, 0), L(ti, 8), L(ti, 16)
            if self.mode == "finish":
                if not same(e, st, ssz, spos):
                    self.bad(I, "gives %s() input to finish with" % n)
            elif "in" in st.ghost:
                if not sameptr(e, st, src, self.source(e, st)[0]) or not same(e, st, ssz, self.source(e, st)[1]) or \
                        not same(e, st, spos, st.ghost["in"][1][1]):
                    self.bad(I, "does not give %s() the rest of the input" % n)
            else:
                s = self.source(e, st)
                if s is None or not sameptr(e, st, src, s[0]) or not same(e, st, ssz, s[1]) or not zero(e, st, lin(e, st, spos)):
                    self.bad(I, "does not give %s() exactly the input" % n)
            space, p0 = known(e, st, lin(e, st, dsz)), known(e, st, lin(e, st, dpos))
            if space is None or p0 is None or p0 >= space or self.room(e, st, dst, (space, ())) is not True:
                self.bad(I, "does not give %s() a buffer of its size for output" % n)
                return base(e, st, I, a)
            if n == "ZSTD_compressStream2" and a[3] not in ((c_(2, 32),) if self.mode == "finish" else (c_(0, 32), c_(1, 32))):
                self.bad(I, "does not ask %s() to %s" % (n, "finish" if self.mode == "finish" else "go on"))
            out = base(e, st, I, a)
            for s, v, tag in out:
                if s.dead:
                    continue
                x = e.fresh(s, ("i", I.id, "op"), 64, ((p0, space),))
                y = e.fresh(s, ("i", I.id, "ip"), 64, ((0, 1 << 62),)) if self.mode != "finish" else spos
                for t, k, val in ((to, 0, dst), (to, 8, dsz), (to, 16, x), (ti, 0, src), (ti, 8, ssz), (ti, 16, y)):
                    e.store(s, t[0], t[1] + k, 8, val)
                self.produce(e, s, shift(dst, p0), (-p0, ((x, 1),)))
                s.ghost["in"] = (("val", src), ("val", y))
                s.ghost["last"] = (("val", v), ("val", y))
                s.ghost["act"] = n
            return out
        return m

    def lzwrite(self, n):
        base = models.MODELS[n]

        def m(e, st, I, a):
            s = self.source(e, st)
            self.calls += 1
            if self.mode == "finish" or s is None:
                self.bad(I, "gives %s() something without having read anything" % n)
            else:
                (o, off), (o2, off2) = ptr(e, st, a[1]), ptr(e, st, s[0])
                k, r = a[2], e.rng(st, s[1])
                while k[0] == "o" and k[1] == "trunc" and r and r[-1][1] < 1 << (k[2] - 1):
                    k = k[3]        # a rest of something that fits
                end = add(add(off, lin(e, st, k)), add(off2, lin(e, st, s[1])), -1)
                first = "in" not in st.ghost
                if o != o2 or not zero(e, st, end) or first and not zero(e, st, add(off, off2, -1)):
                    self.bad(I, "does not give %s() %s the input" % (n, "exactly" if first else "the rest of"))
            out = base(e, st, I, a)
            for x, v, tag in out:
                x.ghost["in"] = 1
                x.ghost["act"] = n
            return out
        return m

    def lzread(self, n):
        base = models.MODELS[n]

        def m(e, st, I, a):
            self.before(e, st, I, n)
            if self.room(e, st, a[1], lin(e, st, a[2])) is not True or not known(e, st, lin(e, st, a[2])):
                self.bad(I, "does not give %s() a buffer of its size for output" % n)
            hi = e.rng(st, a[2])[-1][1]
            out = base(e, st, I, a)
            for s, v, tag in out:
                if tag == "ok" and not s.dead:
                    e.refine(s, v, ((0, hi),))
                    self.produce(e, s, a[1], lin(e, s, v))
                    s.ghost["act"] = n
            return out
        return m

    def lzfinish(self, n):
        base = models.MODELS[n]

        def m(e, st, I, a):
            out = base(e, st, I, a)
            for s, v, tag in out:
                s.ghost["eof"] = 1
            return out
        return m

    def lzfinished(self, n):
        base = models.MODELS[n]

        def m(e, st, I, a):
            out = base(e, st, I, a)
            for s, v, tag in out:
                s.ghost["last"] = (("val", v), ("val", v))
            return out
        return m

    def m_read(self, e, st, I, a):
        if self.room(e, st, a[1], lin(e, st, a[2])) is False:
            self.bad(I, "takes more than its buffer holds")
        if "src" in st.ghost:
            self.bad(I, "reads twice")
        f = self.get(e, st, "filedesc")
        if not same(e, st, a[0], f):
            self.bad(I, "reads another file")
        out = models.m_read(e, st, I, a)
        for s, v, tag in out:
            if tag in ("ok", "short"):
                self.taken(e, s, a[1], v)
        return out

    def m_md5(self, e, st, I, a):
        s = st.ghost.get("src")
        if s is None or not sameptr(e, st, a[1], s[0][1]) or not same(e, st, a[2], s[1][1]) or \
                not sameptr(e, st, a[0], self.get(e, st, "md5")):
            self.bad(I, "does not add exactly the input to the checksum")
        out = models.MODELS["MD5_Update"](e, st, I, a)
        for x, v, tag in out:
            x.ghost["md"] = x.ghost.get("md", 0) + 1 if x.ghost.get("md", 0) < 3 else 3
        return out

    # ------------------------------------------------ exits
    def finished(self, e, st):
        g = st.ghost
        if "last" not in g:
            return False
        ret, x = g["last"][0][1], g["last"][1][1]
        n = g.get("act")
        if n in ENDS:
            r = e.rng(st, ret)
            if r == ((ENDS[n], ENDS[n]),):
                return True
            r = e.rng(st, x)
            # room left over means nothing more to come (documented for zlib only where finishing)
            return bool(r) and r[0][0] > 0 and (self.mode != "finish" or n == "deflate")
        if n == "ZSTD_compressStream2" and self.mode == "finish":
            return zero(e, st, lin(e, st, ret))
        if n in ("ZSTD_compressStream2", "ZSTD_decompressStream"):
            return None     # decided by the position reached
        return None


def leafobj(M, struct, vals):
    o = Obj("ext", "sym", struct=struct)
    for n, (off, z) in M.fields[struct].items():
        if n in vals:
            o.fields[off] = (vals[n], z)
    return o


def installed(ctx, cfg, comp):
    """functions that compstrm_init and decompstrm_init install for a compression"""
    M = ctx.prog.mods[cfg]
    C = M.__dict__.setdefault("_installed", {})
    if comp in C:
        return C[comp]
    w = f = None
    p = Codecs()
    for st, v, I in p.run(ctx, cfg, "compstrm_init", fix(a0=slot, a1=-1, a2=comp, a3=0)):
        if p.ok(st, v):
            o = strm_of(p, st)
            w, f = target(member(p, st, o, M, "compstrm", "write_chunk")), target(member(p, st, o, M, "compstrm", "finish"))
    r = None
    m = (MAGICS[comp][0] if comp else (7, 7, 7)) + (0x5a,) * 8
    p = Codecs(magic=m[:8])

    def data(eng, st, F, pid):
        s = st.env[pid]
        eng.refine(st, s, ((4096, MAXU64),))
        o = Obj("ext", "sym")
        for k, b in enumerate(m[:8]):
            o.fields[k] = (c_(b, 8), 1)
        st.mem[("D", s[1])] = o
    for st, v, I in p.run(ctx, cfg, "decompstrm_init", fix(a0=slot, a1=-1, a2="null", a3="null", a4=data, a5=64)):
        if p.ok(st, v):
            r = target(member(p, st, strm_of(p, st), M, "decompstrm", "read_chunk"))
    C[comp] = (w, f, r)
    return C[comp]


def strm(M, mode, vals, codec=None):
    def f(eng, st, F, pid):
        s = st.env[pid]
        eng.refine(st, s, ((4096, MAXU64),))
        st.mem[STRM] = leafobj(M, "decompstrm" if mode == "read" else "compstrm", vals)
        for n in ("data_len", "data_pos", "comp_size", "buffer_len"):
            if n in vals and vals[n][0] == "s":
                eng.refine(st, vals[n], ((0, 1 << 60),))
        for n in ("data", "buffer", "md5"):
            if n in vals and vals[n][0] == "s":
                eng.refine(st, vals[n], ((4096, MAXU64),))
    return f


def chunk_case(ctx, cfg, comp, mode, fd, md5):
    M = ctx.prog.mods[cfg]
    fn = installed(ctx, cfg, comp)[("write", "finish", "read").index(mode)]
    if fn is None:
        if comp or mode != "finish":
            ctx.violation("none:%s:%s" % (comp, mode), "no function is installed to %s %s (configuration %s)" % (mode, NAMES[comp], cfg))
        return
    p = Flow(cfg, M, mode, comp, fd)
    S = lambda n, w=64: sym(w, n)
    vals = {"data": S("data"), "data_len": S("data_len"), "data_pos": S("data_pos"), "filedesc": S("fd", 32) if fd else c_(0xffffffff, 32)}
    if mode == "read":
        vals.update(input_eof=c_(0, 8), lzip_eof=c_(0, 8), comp_size=S("data_len") if comp == 0 else S("comp_size"),
                    md5=S("md5") if md5 else NIL, buffer=S("buffer"), buffer_len=S("buffer_len"))
    args = dict(a0=strm(M, mode, vals))
    if mode == "write":
        args.update(a1=((1, (1 << 31) - 1),), a2="ptr")
    base = p.on_root

    def on_root(eng, st, F):
        if mode == "read" and fd:
            eng.refine(st, vals["filedesc"], ((0, 1023),))
        if mode == "write" and comp == 0:
            p.produce(eng, st, ("s", ("e", 2), 64), (0, ((("s", ("e", 1), 64), 1),)))
    p.on_root = on_root
    what = {"write": "compressing", "finish": "finishing", "read": "decompressing"}[mode]
    good = 0
    for st, v, I in p.run(ctx, cfg, fn, fix(**args)):
        e = p.eng
        src = st.ghost.get("src")
        if mode == "read" and comp != 5:
            eof = p.get(e, st, "input_eof")
            n = lin(e, st, src[1][1]) if src else None
            if p.ok(st, v):
                if not zero(e, st, lin(e, st, eof)):
                    p.bad(I, "succeeds and reports the end of the input")
                if n is not None and known(e, st, n) == 0:
                    p.bad(I, "succeeds at the end of the input")
            elif n is None or known(e, st, n) != 0:
                if known(e, st, lin(e, st, eof)) != 0:
                    p.bad(I, "reports the end of the input where it is not")
            elif known(e, st, lin(e, st, eof)) != 1 or e.rng(st, v) != ((4, 4),):
                p.bad(I, "does not report the end of the input")
        if not p.ok(st, v):
            continue
        good += 1
        if p.pending(e, st):
            p.bad(I, "succeeds without having appended all of its output")
        if comp and mode != "read" or src is not None and comp:
            f = p.finished(e, st)
            if f is False and (comp != 5):
                p.bad(I, "succeeds before its codec is done")
            if comp == 6 and mode != "finish" and "in" in st.ghost:
                size = p.source(e, st)[1]
                pos = st.ghost["in"][1][1]
                if not reached(e, st, pos, size):
                    p.bad(I, "succeeds before its codec has taken all of the input")
            if comp == 5 and mode == "finish" and ("eof" not in st.ghost or "last" not in st.ghost or e.rng(st, st.ghost["last"][0][1])[0][0] == 0):
                p.bad(I, "succeeds before its codec is done")
            if "act" not in st.ghost:
                p.bad(I, "succeeds without using its codec")
        if mode == "read":
            cs = lin(e, st, p.get(e, st, "comp_size"))
            n = lin(e, st, src[1][1]) if src else (0, ())
            if not zero(e, st, add(cs, add(lin(e, st, vals["comp_size"]), n), -1)):
                p.bad(I, "does not count the input")
            if not fd:
                if not sameptr(e, st, p.get(e, st, "buffer"), vals["buffer"], n) or \
                        not zero(e, st, add(add(lin(e, st, p.get(e, st, "buffer_len")), n), lin(e, st, vals["buffer_len"]), -1)):
                    p.bad(I, "does not move on in the input")
            m = st.ghost.get("md", 0)
            if md5 and src and m != 1 and not zero(e, st, n):
                p.bad(I, "adds the input to the checksum %d times" % m)
    for text, loc in p.errors.items():
        ctx.violation("%s:%s" % (fn, text), "%s(): %s %s %s (%s, configuration %s)" % (fn, what, NAMES[comp], text, loc, cfg))
    if not good:
        ctx.violation("%s:never" % fn, "%s() never succeeds (configuration %s)" % (fn, cfg))
    if comp and not p.calls:
        ctx.violation("%s:unused" % fn, "%s() never calls its codec (configuration %s)" % (fn, cfg))
    ctx.coverage["chunk_cases"] = 1
    ctx.coverage["codec_calls"] = p.calls


def reached(e, st, pos, size):
    """whether the path established pos >= size"""
    d = add(lin(e, st, pos), lin(e, st, size), -1)
    if zero(e, st, d):
        return True
    for t, r in st.cons.items():
        if t[0] == "o" and t[1] == "icmp" and len(r) == 1 and r[0][0] == r[0][1]:
            x = add(lin(e, st, t[4]), lin(e, st, t[5]), -1)
            pred = t[3] if r[0][0] else {"ult": "uge", "ule": "ugt", "ugt": "ule", "uge": "ult", "eq": "ne", "ne": "eq"}.get(t[3])
            if x == d and pred in ("uge", "ugt", "eq") or add((0, ()), x, -1) == d and pred in ("ule", "ult", "eq"):
                return True
    return False


# ---------------------------------------------------------------- whole streams
L0, P0 = sym(64, "data_len"), sym(64, "data_pos")
HOOK = {"compstrm": "writechunk", "decompstrm": "readchunk"}


class Whole(Flow):
    """follows the calls of the installed functions and what happens with the data of the stream around them"""

    def __init__(self, cfg, M, root, struct, hooks, fd):
        super().__init__(cfg, M, "whole", None, fd)
        self.struct = struct
        self.root = root
        self.hooks = hooks
        self.models["write"] = self.m_write
        self.n = 0

    def ghost_key(self, st):
        g = st.ghost
        return tuple(sorted((k, v) for k, v in g.items()))

    def on_store(self, e, st, I, t, v):
        # moving on over what has not been written
        if t == (STRM, self.off("data_pos")[0]) and self.root == "compstrm_write" and "left" not in st.ghost:
            left = add(lin(e, st, self.get(e, st, "data_len")), lin(e, st, self.get(e, st, "data_pos")), -1)
            st.ghost["left"] = st.ghost.get("wrote") != "ok" and not zero(e, st, left)

    def on_call(self, e, st, I, F, args):
        what = self.hooks.get(F.name)
        if what is None:
            return None
        self.n += 1
        if not sameptr(e, st, args[0], ("p", STRM, 0)):
            self.bad(I, "does not hand on the stream")
        if what == "write":
            self.piece(e, st, I, args)
        fail = st.copy()
        ok, end = st, st.copy() if what == "read" else None
        for s in (ok, end):
            if s is None:
                continue
            old = self.get(e, s, "data_len")
            x = e.fresh(s, ("i", I.id, "len"), 64, ((0, 1 << 61),))
            d = e.fresh(s, ("i", I.id, "data"), 64, ((4096, MAXU64),))
            if s is ok:
                e.assume(s, "uge", x, old)
                e.store(s, STRM, self.off("data_len")[0], 8, x)
                e.store(s, STRM, self.off("data")[0], 8, d)
        ok.ghost["hook"] = "ok"
        fail.ghost["hook"] = "fail"
        r = [(ok, c_(0, 32)), (fail, e.fresh(fail, ("i", I.id, "err"), 32, ((1, 20),)))]
        if end is not None:
            end.ghost["hook"] = "end"
            e.store(end, STRM, self.off("input_eof")[0], 1, c_(1, 8))
            r.append((end, c_(4, 32)))
        return r

    def piece(self, e, st, I, args):
        (o, off), (o2, off2) = ptr(e, st, args[2]), ptr(e, st, ("s", ("e", 2), 64))
        n = lin(e, st, args[1])
        if self.large:
            # several pieces: their sizes are followed only as far as their bounds
            if o != o2:
                self.bad(I, "does not hand on its data")
            elif "hook" in st.ghost and zero(e, st, add(off, off2, -1)):
                self.bad(I, "hands on the beginning of its data twice")
            if e.rng(st, args[1])[-1][1] > (1 << 32) - 1:
                self.bad(I, "hands on more at once than codecs can count")
            return
        done = add(off, off2, -1)
        rest = add(add(lin(e, st, ("s", ("e", 1), 64)), done, -1), n, -1)
        if o != o2 or "hook" not in st.ghost and not zero(e, st, done):
            self.bad(I, "does not hand on its data from the start")
        elif not zero(e, st, rest) and known(e, st, n) is None:
            self.bad(I, "does not hand on all of its data")
        elif known(e, st, n) is not None and not below(e, st, n, add(n, rest)):
            self.bad(I, "hands on more than its data")
        if "hook" not in st.ghost:
            st.ghost["fed"] = "all" if zero(e, st, rest) else "part"
        elif zero(e, st, rest):
            st.ghost["fed"] = "all"

    def m_write(self, e, st, I, a):
        data, n, p = self.get(e, st, "data"), self.get(e, st, "data_len"), P0
        (o, off), (o2, off2) = ptr(e, st, a[1]), ptr(e, st, data)
        pos = add(off, off2, -1)
        if not same(e, st, a[0], self.get(e, st, "filedesc")):
            self.bad(I, "writes to another file")
        if o != o2 or not zero(e, st, add(add(pos, lin(e, st, a[2])), lin(e, st, n), -1)):
            self.bad(I, "does not write up to the end of its data")
        elif "wrote" not in st.ghost and not zero(e, st, add(pos, lin(e, st, p), -1)):
            self.bad(I, "does not write from where it left off")
        if st.ghost.get("wrote") == "ok":
            self.bad(I, "writes its data twice")
        out = models.MODELS["write"](e, st, I, a)
        for s, v, tag in out:
            s.ghost["wrote"] = "ok" if tag == "ok" else "part"
        return out

    def copied(self, e, st, I, dst, src, n):
        data = self.get(e, st, "data")
        if self.struct == "compstrm":
            if not sameptr(e, st, src, data) or not same(e, st, n, self.get(e, st, "data_len")):
                self.bad(I, "does not copy exactly the data of the stream")
            elif self.room(e, st, dst, lin(e, st, n)) is not True:
                self.bad(I, "does not make room for the copy")
            st.ghost["out"] = ("val", dst)
            return
        P = lin(e, st, P0)
        if not sameptr(e, st, src, data, P):
            self.bad(I, "does not copy from where it left off")
            return
        if self.root == "decompstrm_read":
            if not sameptr(e, st, dst, ("s", ("e", 2), 64)) or not same(e, st, n, ("s", ("e", 1), 64)):
                self.bad(I, "does not copy as many bytes as asked for to where they are asked for")
            elif not below(e, st, add(P, lin(e, st, n)), lin(e, st, self.get(e, st, "data_len"))):
                self.bad(I, "copies more than there is")
        else:
            if not zero(e, st, add(add(lin(e, st, n), P), lin(e, st, self.get(e, st, "data_len")), -1)):
                self.bad(I, "does not copy all of the rest")
            elif self.room(e, st, dst, lin(e, st, n)) is not True:
                self.bad(I, "does not make room for the copy")
        st.ghost["out"] = ("val", dst)


def below(e, st, a, b):
    """whether a <= b is known"""
    d = add(b, a, -1)
    k = bounds(e, st, d)
    if k and k[0] >= 0:
        return True
    for t, r in st.cons.items():
        if t[0] == "o" and t[1] == "icmp" and len(r) == 1 and r[0][0] == r[0][1]:
            x = add(lin(e, st, t[4]), lin(e, st, t[5]), -1)
            pred = t[3] if r[0][0] else {"ult": "uge", "ule": "ugt", "ugt": "ule", "uge": "ult", "eq": "ne", "ne": "eq", "slt": "sge",
                                        "sle": "sgt", "sgt": "sle", "sge": "slt"}.get(t[3])
            for y, more in ((x, ("uge", "ugt", "sge", "sgt", "eq")), (add((0, ()), x, -1), ("ule", "ult", "sle", "slt", "eq"))):
                if pred in more:
                    # y >= 0 (or y > 0): d == y + something not negative
                    k = bounds(e, st, add(d, y, -1))
                    if k and k[0] >= (-1 if pred in ("ugt", "ult", "sgt", "slt") else 0):
                        return True
    return False


def whole_case(ctx, cfg, root, fd, hook, full, large=0):
    M = ctx.prog.mods[cfg]
    struct = "decompstrm" if root.startswith("d") else "compstrm"
    w, f, r = installed(ctx, cfg, 0)
    g = installed(ctx, cfg, 1)[1]
    vals = {"data": sym(64, "data"), "data_len": L0, "data_pos": P0, "filedesc": sym(32, "fd") if fd else c_(0xffffffff, 32)}
    if struct == "compstrm":
        vals.update(finished=c_(0, 8), write_chunk=("fn", w), finish=("fn", g) if hook else NIL, release=NIL)
        hooks = {w: "write", g: "finish"}
    else:
        vals.update(input_eof=c_(0, 8), lzip_eof=c_(0, 8), read_chunk=("fn", r), comp_size=sym(64, "comp_size"))
        hooks = {r: "read"}
    p = Whole(cfg, M, root, struct, hooks, fd)
    p.large = large

    def on_root(eng, st, F):
        if fd:
            eng.refine(st, vals["filedesc"], ((0, 1023),))
        eng.assume(st, "ule", P0, L0)
    p.on_root = on_root
    args = dict(a0=strm(M, "read" if struct == "decompstrm" else "write", vals))
    if root == "compstrm_write":
        args.update(a1=((1 << 31, 1 << 60),) if large else ((1, 1023),), a2="ptr")
    elif root == "decompstrm_read":
        args.update(a1=((1, 1 << 60),), a2="ptr" if full else "null")
    else:
        args.update(a1=slot if full else "null", a2=slot if full else "null")
    good = 0
    for st, v, I in p.run(ctx, cfg, root, fix(**args)):
        e = p.eng
        g = st.ghost
        if not p.ok(st, v):
            continue
        good += 1
        if large:
            continue
        if g.get("hook") == "fail":
            p.bad(I, "succeeds although a chunk failed")
            continue
        dl = lin(e, st, p.get(e, st, "data_len"))
        if struct == "compstrm":
            left = g["left"] if "left" in g else not zero(e, st, add(dl, lin(e, st, P0), -1))
            if fd and (hook or root == "compstrm_write") and g.get("wrote") != "ok" and left:
                p.bad(I, "succeeds without having written all of its data")
            if not fd and "wrote" in g:
                p.bad(I, "writes without a file")
            if root == "compstrm_write":
                if not zero(e, st, add(lin(e, st, p.get(e, st, "data_pos")), dl, -1)):
                    p.bad(I, "does not note what it has written")
                if "hook" not in g:
                    p.bad(I, "succeeds without compressing anything")
            else:
                if hook and "hook" not in g:
                    p.bad(I, "succeeds without finishing the codec")
                if known(e, st, lin(e, st, p.get(e, st, "finished"))) != 1:
                    p.bad(I, "does not note that it is finished")
                if full:
                    d, n = e.load(st, ("D", ("e", 1)), 0, 8), e.load(st, ("D", ("e", 2)), 0, 8)
                    if "out" in g and not sameptr(e, st, d, g["out"][1]) or not zero(e, st, add(lin(e, st, n), dl, -1)) or \
                            "out" not in g and not zero(e, st, dl):
                        p.bad(I, "does not return all of its data")
        elif root == "decompstrm_read":
            pos = add(lin(e, st, P0), lin(e, st, ("s", ("e", 1), 64)))
            if not zero(e, st, add(lin(e, st, p.get(e, st, "data_pos")), pos, -1)):
                p.bad(I, "does not move on by what it read")
            if full and "out" not in g:
                p.bad(I, "succeeds without returning anything")
            if not below(e, st, pos, dl):
                p.bad(I, "succeeds with less data than asked for")
        else:
            if g.get("hook") != "end":
                p.bad(I, "succeeds before the end of the input")
            if full:
                n, d = e.load(st, ("D", ("e", 1)), 0, 8), e.load(st, ("D", ("e", 2)), 0, 8)
                rest = add(dl, lin(e, st, P0), -1)
                if not zero(e, st, add(lin(e, st, n), rest, -1)) or "out" in g and not sameptr(e, st, d, g["out"][1]) or \
                        "out" not in g and not zero(e, st, rest):
                    p.bad(I, "does not return all of the rest")
                if not zero(e, st, add(lin(e, st, p.get(e, st, "data_pos")), dl, -1)):
                    p.bad(I, "does not move on by what it read")
    for text, loc in p.errors.items():
        ctx.violation("%s:%s" % (root, text), "%s() %s (%s, configuration %s)" % (root, text, loc, cfg))
    if not good:
        ctx.violation("%s:never" % root, "%s() never succeeds (configuration %s)" % (root, cfg))
    ctx.coverage["stream_cases"] = 1


def chunks(ctx):
    items = []
    for c in ctx.configs:
        for k in COMPS[c]:
            items += [(chunk_case, c, k, "write", 0, 0), (chunk_case, c, k, "finish", 0, 0)]
            items += [(chunk_case, c, k, "read", fd, md5) for fd in (0, 1) for md5 in (0, 1)]
        items += [(whole_case, c, "compstrm_write", fd, 1, 1, large) for fd in (0, 1) for large in (0, 1)]
        items += [(whole_case, c, "compstrm_finish", fd, hook, full) for fd in (0, 1) for hook in (0, 1) for full in (0, 1)]
        items += [(whole_case, c, f, 0, 1, full) for f in ("decompstrm_read", "decompstrm_read_until_eof") for full in (0, 1)]
    parallel(ctx, _case, items)
    ctx.coverage["explanation"] = (
        "abstract interpretation of the functions installed for each compression and of the stream functions around them, over a symbolic stream; "
        "codec calls modelled as taking any part of the input and producing any amount of output that fits.  Rule: codecs get exactly the input, then "
        "exactly what they left over, and a buffer of the size named; their output is appended completely, behind what is there, into room made for it, "
        "before the next call and before success; success only when the codec is done; input is counted, checksummed and advanced by once")
    done(ctx)
