"""Compression streams: the right codec with the right settings, and every byte passed through it."""
from .. import models
from ..engine import Obj, c_, NIL
from ..run import parallel, Broken
from .api import fix, done, leaf
from .format import Trace, sym, name, obj, at
from .codec import bits, _case, plain

NAMES = {0: "no compression", 1: "gzip", 2: "bzip2", 3: "lzma", 4: "xz", 5: "lzip", 6: "zstd"}
COMPS = {"zstd": (0, 1, 2, 3, 4, 6), "lzip": (0, 1, 2, 3, 4, 5)}
FAMILY = {"deflate": "gzip", "deflateEnd": "gzip", "inflate": "gunzip", "inflateEnd": "gunzip",
          "BZ2_bzCompress": "bzip2", "BZ2_bzCompressEnd": "bzip2", "BZ2_bzDecompress": "bunzip2", "BZ2_bzDecompressEnd": "bunzip2",
          "lzma_code": "lzma", "lzma_end": "lzma", "LZ_compress_write": "lzip", "LZ_compress_read": "lzip",
          "LZ_compress_finish": "lzip", "LZ_compress_close": "lzip", "LZ_decompress_write": "lunzip", "LZ_decompress_read": "lunzip",
          "LZ_decompress_close": "lunzip", "ZSTD_compressStream2": "zstd", "ZSTD_freeCCtx": "zstd",
          "ZSTD_decompressStream": "unzstd", "ZSTD_freeDCtx": "unzstd"}
# what the functions of an initialised stream have to call: (write, finish, release), (read, finish)
WRITER = {1: (("deflate",), ("deflate", "deflateEnd"), ("deflateEnd",)),
          2: (("BZ2_bzCompress",), ("BZ2_bzCompress", "BZ2_bzCompressEnd"), ("BZ2_bzCompressEnd",)),
          3: (("lzma_code",), ("lzma_code", "lzma_end"), ("lzma_end",)), 4: (("lzma_code",), ("lzma_code", "lzma_end"), ("lzma_end",)),
          5: (("LZ_compress_write", "LZ_compress_read"), ("LZ_compress_finish", "LZ_compress_read", "LZ_compress_close"), ("LZ_compress_close",)),
          6: (("ZSTD_compressStream2",), ("ZSTD_compressStream2", "ZSTD_freeCCtx"), ("ZSTD_freeCCtx",))}
READER = {1: (("inflate",), ("inflateEnd",)), 2: (("BZ2_bzDecompress",), ("BZ2_bzDecompressEnd",)),
          3: (("lzma_code",), ("lzma_end",)), 4: (("lzma_code",), ("lzma_end",)),
          5: (("LZ_decompress_write", "LZ_decompress_read"), ("LZ_decompress_close",)), 6: (("ZSTD_decompressStream",), ("ZSTD_freeDCtx",))}
DEFAULTS = {1: 9, 2: 9, 3: 2, 4: 3, 6: 19}
MAXU64 = (1 << 64) - 1


def closure(M, fn):
    """the library functions a function reaches through direct calls"""
    C = M.__dict__.setdefault("_closure", {})
    if fn in C:
        return C[fn]
    C[fn] = r = set()
    F = M.fns.get(fn)
    if F is None:
        r.add(fn)
        return r
    for B in F.blocks:
        for I in B.insts:
            if I.op == "call" and I.callee[0] == "f":
                r |= closure(M, I.callee[1])
    return r


class Codecs(Trace):
    """records how codecs are set up"""

    def __init__(self, level=None, magic=None):
        super().__init__()
        self.level = level
        self.magic = magic
        for n, pick in (("deflateInit2_", (1, 2, 3, 4, 5)), ("BZ2_bzCompressInit", (1,)), ("lzma_lzma_preset", (1,)),
                        ("lzma_alone_encoder", ()), ("lzma_easy_encoder", (1, 2)), ("LZ_compress_open", (0, 1, 2)),
                        ("ZSTD_createCCtx", ()), ("ZSTD_CCtx_setParameter", (1, 2)), ("inflateInit2_", (1,)),
                        ("BZ2_bzDecompressInit", ()), ("lzma_auto_decoder", (1, 2)), ("LZ_decompress_open", ()), ("ZSTD_createDCtx", ()),
                        ("lzma_stream_decoder", (1, 2)), ("lzma_alone_decoder", (1,)), ("deflateInit_", (1,)), ("inflateInit_", ())):
            self.models[n] = self.recorder(n, pick)
        self.models["lseek"] = self.m_lseek
        self.models["read"] = self.m_read

    def recorder(self, n, pick):
        base = models.MODELS.get(n)

        def m(e, st, I, a):
            self.ev(st, n, *[self.arg(e, st, a[k]) for k in pick])
            return base(e, st, I, a) if base else None
        return m

    @staticmethod
    def arg(e, st, v):
        while v[0] == "o" and v[1] in ("sext", "zext", "trunc"):
            v = v[3]
        return name(v)

    def m_lseek(self, e, st, I, a):
        v = a[1]
        k = v[1] - (1 << 64) if v[0] == "c" and v[1] >> 63 else v[1] if v[0] == "c" else None
        w = a[2][1] if a[2][0] == "c" else None
        self.ev(st, "seek", k if w == 1 else "?")
        return models.m_lseek(e, st, I, a)

    def m_read(self, e, st, I, a):
        self.ev(st, "seek", a[2][1] if a[2][0] == "c" else "?")
        r = models.m_read(e, st, I, a)
        for s, v, tag in r:
            if tag == "ok" and a[1][0] == "p" and isinstance(a[1][2], int) and a[2][0] == "c":
                for k, b in enumerate(self.magic[:a[2][1]]):
                    e.store(s, a[1][1], a[1][2] + k, 1, c_(b, 8))
        return r


def target(v):
    return v[1] if v[0] == "fn" else None


def wants(comp, level):
    """the set-up calls of each codec, in order"""
    l = level if level is not None else DEFAULTS.get(comp)
    return {0: [()], 1: [(("deflateInit2_", l, 8, 31, 8, 0),)], 2: [(("BZ2_bzCompressInit", l),)],
            3: [(("lzma_lzma_preset", l), ("lzma_alone_encoder",))], 4: [(("lzma_easy_encoder", l, 10),)],
            5: [(("LZ_compress_open", 65535, 16, MAXU64),)],
            6: [(("ZSTD_createCCtx",), ("ZSTD_CCtx_setParameter", 100, l))]}[comp]


def slot(eng, st, F, pid):
    s = st.env[pid]
    eng.refine(st, s, ((4096, MAXU64),))
    st.mem[("D", s[1])] = Obj("ext", "sym")


def strm_of(p, st):
    v = p.eng.load(st, ("D", ("e", 0)), 0, 8)
    return v[1] if v[0] == "p" and v[2] == 0 and v[1] in st.mem else None


def calls(M, v, needed, what, report):
    fn = target(v)
    if fn is None:
        report("leaves the %s function of the stream unset" % what)
        return
    reach = closure(M, fn)
    missing = [n for n in needed if n not in reach]
    fam = {FAMILY[n] for n in needed}
    alien = sorted(n for n in reach if n in FAMILY and FAMILY[n] not in fam)
    if missing:
        report("uses %s() to %s, which never calls %s()" % (fn, what, missing[0]))
    elif alien:
        report("uses %s() to %s, which calls %s()" % (fn, what, alien[0]))


def same(p, st, v, want):
    if isinstance(want, int):
        return v[1] == want if v[0] == "c" else p.eng.rng(st, v) == ((want, want),)
    return v == want


def member(p, st, o, M, struct, n):
    off, z = M.fields[struct][n]
    return p.eng.load(st, o, off, z)


def init_case(ctx, cfg, comp, level, fd):
    """compstrm_init() for one compression"""
    M = ctx.prog.mods[cfg]
    p = Codecs()

    def lev(eng, st, F, pid):
        if level is None:
            st.env[pid] = c_(0, 32)
        else:
            st.env[pid] = s = sym(32, "level")
            eng.refine(st, s, ((1, 99),))

    def bad(text):
        ctx.violation("cinit:%s:%s" % (comp, text[:50]), "compstrm_init() for %s%s %s (configuration %s)" % (
            NAMES.get(comp, "compression %d" % comp), " at the default level" if level is None else "", text, cfg))
    good = 0
    for st, v, I in p.run(ctx, cfg, "compstrm_init", fix(a0=slot, a1=fd, a2=comp, a3=lev)):
        if not p.ok(st, v):
            continue
        good += 1
        if comp not in COMPS[cfg]:
            bad("succeeds")
            continue
        o = strm_of(p, st)
        if o is None:
            bad("succeeds without a stream")
            continue
        tr = tuple(e for e in st.ghost.get("tr", ()) if e[0] != "seek")
        if tr not in wants(comp, "level" if level else None):
            bad("sets the codec up as %s instead of %s" % (show(tr), show(wants(comp, "level" if level else None)[0])))
        g = lambda n: member(p, st, o, M, "compstrm", n)
        if comp:
            for n, what, need in zip(("write_chunk", "finish", "release"), ("compress", "finish", "release"), WRITER[comp]):
                calls(M, g(n), need, what, bad)
        else:
            if target(g("write_chunk")) is None or any(n in FAMILY for n in closure(M, target(g("write_chunk")))):
                bad("does not store plain data")
            if g("finish") != NIL or g("release") != NIL:
                bad("has something to finish or release")
        for n in ("data_len", "data_pos", "finished"):
            if not same(p, st, g(n), 0):
                bad("leaves %s of the new stream unset" % n)
        if g("data") != NIL:
            bad("leaves the buffer of the new stream unset")
        f = g("filedesc")
        if (f != c_(MAXU64 >> 32, 32)) if fd == -1 else f[0] != "s" or f[1] != ("e", 1):
            bad("does not note the file given")
    if not good and comp in COMPS[cfg]:
        bad("never succeeds")
    ctx.coverage["setups"] = 1


def show(tr):
    return ", ".join("%s(%s)" % (e[0], ", ".join(str(x) for x in e[1:])) for e in tr) or "nothing"


# first bytes of compressed data
MAGICS = {1: ((0x1f, 0x8b),), 2: ((0x42, 0x5a, 0x68),), 3: ((0x5d, 0, 0),), 4: ((0xfd, 0x37, 0x7a, 0x58, 0x5a, 0),),
          5: ((0x4c, 0x5a, 0x49, 0x50),), 6: ((0x28, 0xb5, 0x2f, 0xfd),)}


def detect(cfg, b):
    for comp, L in MAGICS.items():
        if comp in COMPS[cfg] and any(tuple(b[:len(m)]) == m for m in L):
            return comp
    return 0


def samples():
    """all first eight bytes worth telling apart: each magic with different remainders and with each bit wrong"""
    S = [(0,) * 8, (255,) * 8, (0x07, 0x07, 0x01) + (0,) * 5, (0x30, 0x37, 0x30, 0x37, 0x30, 0x31, 0x30, 0x30)]
    for L in MAGICS.values():
        for m in L:
            for rest in (0, 255, 0x5a):
                S.append(m + (rest,) * (8 - len(m)))
            for k in range(len(m) * 8):
                b = list(m + (0x5a,) * (8 - len(m)))
                b[k // 8] ^= 128 >> k % 8
                S.append(tuple(b))
    return S


RINIT = {0: [()], 1: [(("inflateInit2_", 31),), (("inflateInit2_", 47),)], 2: [(("BZ2_bzDecompressInit",),)],
         3: [(("lzma_auto_decoder", MAXU64, 0),), (("lzma_alone_decoder", MAXU64),)],
         4: [(("lzma_auto_decoder", MAXU64, 0),), (("lzma_stream_decoder", MAXU64, 0),)],
         5: [(("LZ_decompress_open",),)], 6: [(("ZSTD_createDCtx",),)]}


def dinit_case(ctx, cfg, magic, fd, full):
    """decompstrm_init() for one beginning of the data"""
    M = ctx.prog.mods[cfg]
    p = Codecs(magic=magic)
    comp = detect(cfg, magic)

    def data(eng, st, F, pid):
        s = st.env[pid]
        eng.refine(st, s, ((4096, MAXU64),))
        o = Obj("ext", "sym")
        for k, b in enumerate(magic):
            o.fields[k] = (c_(b, 8), 1)
        st.mem[("D", s[1])] = o

    def bad(text):
        ctx.violation("dinit:%s:%s" % (comp, text[:50]), "decompstrm_init() for data beginning with %s (%s) %s (configuration %s)" % (
            bytes(magic).hex(), NAMES[comp], text, cfg))
    setup = fix(a0=slot, a1=fd, a2=slot, a3="ptr" if full else "null", a4=data if fd == -1 else "null",
                a5=((8, 1 << 40),) if fd == -1 else 0)
    good = 0
    for st, v, I in p.run(ctx, cfg, "decompstrm_init", setup):
        if not p.ok(st, v):
            continue
        good += 1
        o = strm_of(p, st)
        if o is None:
            bad("succeeds without a stream")
            continue
        c = p.eng.load(st, ("D", ("e", 2)), 0, 2)
        if c != c_(comp, 16):
            bad("reports %s" % (NAMES.get(c[1], c[1]) if c[0] == "c" else "an unknown compression"))
        tr = st.ghost.get("tr", ())
        seeks = [e[1] for e in tr if e[0] == "seek"]
        if "?" in seeks or sum(seeks):
            bad("leaves the file at another place than it was")
        tr = tuple(e for e in tr if e[0] != "seek")
        if tr not in RINIT[comp]:
            bad("sets the codec up as %s instead of %s" % (show(tr), show(RINIT[comp][0])))
        g = lambda n: member(p, st, o, M, "decompstrm", n)
        if comp:
            for n, what, need in zip(("read_chunk", "finish"), ("decompress", "finish"), READER[comp]):
                calls(M, g(n), need, what, bad)
        else:
            if target(g("read_chunk")) is None or any(n in FAMILY for n in closure(M, target(g("read_chunk")))):
                bad("does not read plain data")
            if g("finish") != NIL:
                bad("has something to finish")
        for n in ("data_len", "data_pos", "comp_size", "input_eof"):
            if not same(p, st, g(n), 0):
                bad("leaves %s of the new stream unset" % n)
        if comp == 5 and not same(p, st, g("lzip_eof"), 0):
            bad("leaves lzip_eof of the new stream unset")
        if g("data") != NIL:
            bad("leaves the buffer of the new stream unset")
        f = g("filedesc")
        if (f != c_(MAXU64 >> 32, 32)) if fd == -1 else f[0] != "s" or f[1] != ("e", 1):
            bad("does not note the file given")
        f = g("md5")
        if (f != ("p", ("D", ("e", 3)), 0) and f[1] != ("e", 3)) if full else f != NIL:
            bad("does not note the checksum given")
        if fd == -1:
            f, n = g("buffer"), g("buffer_len")
            if f not in (("p", ("D", ("e", 4)), 0), ("s", ("e", 4), 64)) or n != ("s", ("e", 5), 64):
                bad("does not note the data given")
    if not good:
        bad("never succeeds")
    ctx.coverage["beginnings"] = 1


def setup(ctx):
    items = [(init_case, c, k, l, fd) for c in ctx.configs for k in list(range(9)) + [255, 256, 257, 65535] for l in (None, 1)
             for fd in (-1, ((0, 1023),))]
    S = samples()
    items += [(dinit_case, c, m, fd, full) for c in ctx.configs for m in S for fd, full in ((-1, 1), (((0, 1023),), 0))]
    parallel(ctx, _case, items)
    ctx.coverage["explanation"] = (
        "constant propagation through compstrm_init per compression with a symbolic level and through decompstrm_init per beginning of the data "
        "(each magic, with each of its bits wrong, from file and memory); call-graph closure of the functions installed.  Rule: the codec set up, its "
        "parameters, the functions installed and the compression reported belong to the compression; the file stays where it was")
    done(ctx)
