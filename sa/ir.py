"""Front end: compile /repo/src with clang (both build configurations), link, mem2reg, and
load the resulting whole-library LLVM IR through the LLVM C API (ctypes, no build step).

Nothing here runs library code: clang is used as a parser/type-checker/lowerer only."""
import ctypes as C
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("DRPM_REPO", "/repo")
CONFIGS = {
    "zstd": ["#define WITH_ZSTD", "/* #undef HAVE_LZLIB_DEVEL */"],
    "lzip": ["/* #undef WITH_ZSTD */", "#define HAVE_LZLIB_DEVEL"],
}


class AnalysisError(Exception):
    """the analysis could not be carried out (never a verdict)"""


def _tool(*names):
    for n in names:
        for d in ("/usr/bin", "/usr/lib/llvm-18/bin"):
            p = os.path.join(d, n)
            if os.path.exists(p):
                return p
        p = shutil.which(n)
        if p:
            return p
    raise AnalysisError("tool not found: %s" % (names,))


def library_sources(repo=None):
    """the C files the build compiles (DRPM_SOURCES in src/CMakeLists.txt / top-level glob)"""
    repo = repo or REPO
    src = os.path.join(repo, "src")
    return sorted(os.path.join(src, f) for f in os.listdir(src) if f.endswith(".c"))


def primitives():
    """the functions the value-flow checks know by name; any other (a helper someone extracts) is inlined into its callers"""
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "functions.txt")) as f:
        return set(f.read().split())


# constant folding and complete unrolling of counted loops, for the check of the integer codecs
SIMPLIFY = ("function(sroa,early-cse,instcombine),loop-simplify,lcssa,loop-rotate,function(instcombine,loop-simplify,lcssa,"
            "loop(indvars,loop-unroll-full),sroa,instcombine,simplifycfg)")


def compile_config(cfg, workdir, repo=None, extra=(), inline=False, simplify=False):
    repo = repo or REPO
    clang = _tool("clang-18", "clang")
    d = os.path.join(workdir, cfg)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "config.h"), "w") as f:
        f.write("#ifndef _CONFIG_H_\n#define _CONFIG_H_\n")
        f.write("\n".join(CONFIGS[cfg]) + "\n")
        f.write("#define _XOPEN_SOURCE 700\n#endif\n")
    srcs = library_sources(repo)
    if not srcs:
        raise AnalysisError("no C sources under %s/src" % repo)

    def one(s):
        out = os.path.join(d, os.path.basename(s)[:-2] + ".bc")
        r = subprocess.run([clang, "-std=c99", "-w", "-DHAVE_CONFIG_H", "-I" + d, "-O0", "-g",
                            "-fno-discard-value-names", "-Xclang", "-disable-O0-optnone",
                            "-c", "-emit-llvm", s, "-o", out] + list(extra),
                           capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError("clang failed on %s: %s" % (s, r.stderr[-2000:]))
        return out

    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(one, srcs))
    linked = os.path.join(d, "linked.bc")
    subprocess.run([_tool("llvm-link-18", "llvm-link"), "-o", linked] + outs, check=True,
                   capture_output=True)
    final = os.path.join(d, "final.ll")
    opts = ["-passes=mem2reg"]
    if inline:
        r = subprocess.run([_tool("llvm-dis-18", "llvm-dis"), linked, "-o", "-"], check=True, capture_output=True, text=True)
        names = set(re.findall(r'^define [^@]*@"?([\w.$]+)"?\(', r.stdout, re.M)) - primitives()
        if names:
            opts = ["-passes=forceattrs,always-inline,mem2reg"] + \
                ["-force-remove-attribute=%s:noinline" % n for n in names] + ["-force-attribute=%s:alwaysinline" % n for n in names]
    if simplify:
        opts[0] += "," + SIMPLIFY
    subprocess.run([_tool("opt-18", "opt")] + opts + ["-S", linked, "-o", final],
                   check=True, capture_output=True)
    return final, srcs


# ---------------------------------------------------------------- LLVM C API
_L = None
P = C.c_void_p


def _lib():
    global _L
    if _L is not None:
        return _L
    path = None
    for p in ("/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so.18.1",
              "/usr/lib/llvm-18/lib/libLLVM-18.1.3.so", "/usr/lib/llvm-18/lib/libLLVM.so"):
        if os.path.exists(p):
            path = p
            break
    if path is None:
        raise AnalysisError("libLLVM-18 not found")
    L = C.CDLL(path)

    def f(name, res, *args):
        fn = getattr(L, name)
        fn.restype = res
        fn.argtypes = list(args)
        return fn
    u = C.c_uint
    f("LLVMContextCreate", P)
    f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
    f("LLVMParseIRInContext", C.c_int, P, P, C.POINTER(P), C.POINTER(C.c_char_p))
    for n in ("LLVMGetFirstFunction", "LLVMGetNextFunction", "LLVMGetFirstBasicBlock", "LLVMGetNextBasicBlock",
              "LLVMGetFirstInstruction", "LLVMGetNextInstruction", "LLVMTypeOf", "LLVMGetElementType",
              "LLVMGetAllocatedType", "LLVMGetCalledValue", "LLVMGetCalledFunctionType",
              "LLVMIsAConstantInt", "LLVMIsAConstantPointerNull", "LLVMIsAUndefValue", "LLVMIsAGlobalVariable",
              "LLVMIsAFunction", "LLVMIsAConstantExpr", "LLVMGetGEPSourceElementType", "LLVMGetInitializer",
              "LLVMGetFirstGlobal", "LLVMGetNextGlobal", "LLVMGlobalGetValueType", "LLVMIsAConstantFP",
              "LLVMIsAConstantDataSequential", "LLVMIsAConstantArray", "LLVMIsAConstantStruct",
              "LLVMIsAConstantAggregateZero", "LLVMGetModuleDataLayout", "LLVMValueAsBasicBlock",
              "LLVMIsAInstruction", "LLVMIsAArgument", "LLVMIsABasicBlock", "LLVMIsAPoisonValue",
              "LLVMGetReturnType"):
        f(n, P, P)
    f("LLVMGetValueName2", C.c_char_p, P, C.POINTER(C.c_size_t))
    f("LLVMGetInstructionOpcode", C.c_int, P)
    f("LLVMGetNumOperands", C.c_int, P)
    f("LLVMGetOperand", P, P, u)
    f("LLVMGetTypeKind", C.c_int, P)
    f("LLVMGetIntTypeWidth", u, P)
    f("LLVMGetICmpPredicate", C.c_int, P)
    f("LLVMGetConstOpcode", C.c_int, P)
    f("LLVMConstIntGetZExtValue", C.c_ulonglong, P)
    f("LLVMOffsetOfElement", C.c_ulonglong, P, P, u)
    f("LLVMABISizeOfType", C.c_ulonglong, P, P)
    f("LLVMStructGetTypeAtIndex", P, P, u)
    f("LLVMCountStructElementTypes", u, P)
    f("LLVMGetStructName", C.c_char_p, P)
    f("LLVMGetDebugLocLine", u, P)
    f("LLVMGetDebugLocColumn", u, P)
    f("LLVMGetDebugLocFilename", C.c_void_p, P, C.POINTER(u))
    f("LLVMGetNumArgOperands", u, P)
    f("LLVMCountIncoming", u, P)
    f("LLVMGetIncomingValue", P, P, u)
    f("LLVMGetIncomingBlock", P, P, u)
    f("LLVMIsDeclaration", C.c_int, P)
    f("LLVMCountParams", u, P)
    f("LLVMGetParam", P, P, u)
    f("LLVMGetElementAsConstant", P, P, u)
    f("LLVMGetArrayLength2", C.c_ulonglong, P)
    f("LLVMGetLinkage", C.c_int, P)
    f("LLVMGetVisibility", C.c_int, P)
    f("LLVMIsGlobalConstant", C.c_int, P)
    f("LLVMGetNumSuccessors", u, P)
    f("LLVMGetSuccessor", P, P, u)
    f("LLVMPrintTypeToString", C.c_char_p, P)
    f("LLVMPrintValueToString", C.c_char_p, P)
    f("LLVMGetIndices", C.POINTER(u), P)
    f("LLVMGetNumIndices", u, P)
    _L = L
    return L


OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 7: "unreachable", 8: "add", 9: "fadd", 10: "sub",
       11: "fsub", 12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv", 16: "fdiv", 17: "urem", 18: "srem",
       20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor", 26: "alloca", 27: "load",
       28: "store", 29: "gep", 30: "trunc", 31: "zext", 32: "sext", 33: "fptoui", 34: "fptosi",
       35: "uitofp", 36: "sitofp", 37: "fptrunc", 38: "fpext", 39: "ptrtoint", 40: "inttoptr",
       41: "bitcast", 42: "icmp", 43: "fcmp", 44: "phi", 45: "call", 46: "select", 53: "extractvalue",
       54: "insertvalue", 66: "fneg", 68: "freeze", 60: "addrspacecast"}
PRED = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
INT, PTR, VOID, FLT, AGG = "i", "p", "v", "f", "a"


class Inst:
    __slots__ = ("op", "id", "ops", "w", "kind", "line", "file", "pred", "callee", "gep", "size",
                 "incoming", "succ", "cases", "fn", "blk", "name", "ctype", "structname", "col")

    def __init__(self):
        self.pred = self.callee = self.gep = self.size = self.incoming = self.succ = self.cases = None
        self.ctype = self.structname = None

    def loc(self):
        return "%s:%d" % (self.file or "?", self.line)

    def __repr__(self):
        return "<%s %s#%s %s>" % (self.op, self.fn.name, self.id, self.loc())


class Block:
    __slots__ = ("idx", "insts", "succs", "preds", "name", "rpo", "live_in", "loophead")


class Fn:
    def __init__(self):
        self.blocks = []
        self.params = []      # (id, kind, width, name)


class Module:
    def __init__(self):
        self.fns = {}
        self.decls = {}
        self.globals = {}     # name -> dict(const, size, init, linkage)
        self.fields = {}      # struct -> {off: (name, size)}
        self.structsize = {}


def _vname(L, v):
    n = C.c_size_t()
    s = L.LLVMGetValueName2(v, C.byref(n))
    return s.decode() if s else ""


def load(path, cfg, srcs):
    L = _lib()
    ctx = L.LLVMContextCreate()
    buf = P()
    msg = C.c_char_p()
    if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(msg)):
        raise AnalysisError("cannot read %s" % path)
    mod = P()
    if L.LLVMParseIRInContext(ctx, buf, C.byref(mod), C.byref(msg)):
        raise AnalysisError("cannot parse %s: %s" % (path, msg.value))
    DL = L.LLVMGetModuleDataLayout(mod)
    M = Module()
    M.cfg = cfg
    M.sources = srcs
    M.DL = DL

    def tkind(t):
        k = L.LLVMGetTypeKind(t)
        if k == 8:
            return INT, L.LLVMGetIntTypeWidth(t)
        if k == 12:
            return PTR, 64
        if k == 0:
            return VOID, 0
        if k in (10, 11, 13):
            return AGG, int(L.LLVMABISizeOfType(DL, t)) * 8
        if k in (2, 3, 4):
            return FLT, int(L.LLVMABISizeOfType(DL, t)) * 8
        return "?", 64

    _st = {}

    def strip(n):
        n = n[7:] if n.startswith("struct.") else n
        n = n[6:] if n.startswith("union.") else n
        return re.sub(r"\.\d+$", "", n)

    def sname(t):
        k = L.LLVMGetTypeKind(t)
        if k != 10:
            return None
        s = L.LLVMGetStructName(t)
        return strip(s.decode()) if s else None

    def gepinfo(srcty, idx_ops, opconv):
        """-> const offset, [(operand, scale)], path, region(lo, hi)"""
        off = 0
        var = []
        pathl = []
        region = None
        t = srcty
        for i, o in enumerate(idx_ops):
            ov = opconv(o)
            if i == 0:
                sz = int(L.LLVMABISizeOfType(DL, t))
                if ov[0] == "c":
                    v = ov[1]
                    if v >= 1 << (ov[2] - 1):
                        v -= 1 << ov[2]
                    off += v * sz
                else:
                    var.append((ov, sz))
                    region = (None, None)
                continue
            k = L.LLVMGetTypeKind(t)
            if k == 10:
                fi = ov[1]
                fo = int(L.LLVMOffsetOfElement(DL, t, fi))
                pathl.append((sname(t), fi, fo))
                off += fo
                t = L.LLVMStructGetTypeAtIndex(t, fi)
            else:
                n = int(L.LLVMGetArrayLength2(t))
                t = L.LLVMGetElementType(t)
                sz = int(L.LLVMABISizeOfType(DL, t))
                if ov[0] == "c":
                    v = ov[1]
                    if v >= 1 << (ov[2] - 1):
                        v -= 1 << ov[2]
                    off += v * sz
                else:
                    if region is None:
                        region = (off, off + n * sz)
                    var.append((ov, sz))
        return off, var, pathl, region

    insid = {}

    def conv(v):
        """operand -> tuple"""
        if L.LLVMIsAConstantInt(v):
            w = L.LLVMGetIntTypeWidth(L.LLVMTypeOf(v))
            return ("c", int(L.LLVMConstIntGetZExtValue(v)) & ((1 << w) - 1), w)
        if L.LLVMIsAConstantPointerNull(v):
            return ("c", 0, 64, "null")
        if L.LLVMIsAUndefValue(v):
            return ("undef",)
        if L.LLVMIsAFunction(v):
            return ("f", _vname(L, v))
        if L.LLVMIsAGlobalVariable(v):
            return ("g", _vname(L, v), 0)
        if L.LLVMIsAConstantExpr(v):
            op = OPC.get(L.LLVMGetConstOpcode(v))
            if op == "gep":
                base = conv(L.LLVMGetOperand(v, 0))
                n = L.LLVMGetNumOperands(v)
                off, var, _, _ = gepinfo(L.LLVMGetGEPSourceElementType(v),
                                         [L.LLVMGetOperand(v, i) for i in range(1, n)], conv)
                if base[0] == "g" and not var:
                    return ("g", base[1], base[2] + off)
            if op in ("inttoptr", "ptrtoint", "bitcast"):
                return conv(L.LLVMGetOperand(v, 0))
            return ("unk",)
        key = v
        if key in insid:
            return ("v", insid[key])
        if L.LLVMIsAConstantFP(v):
            return ("unk",)
        k, w = tkind(L.LLVMTypeOf(v))
        return ("unk",)

    def const_bytes(v, t):
        """constant initializer -> list of (off, size, operand)"""
        out = []

        def rec(v, t, base):
            k = L.LLVMGetTypeKind(t)
            if L.LLVMIsAConstantAggregateZero(v):
                out.append((base, int(L.LLVMABISizeOfType(DL, t)), ("zero",)))
                return
            if k == 10:
                for i in range(L.LLVMCountStructElementTypes(t)):
                    rec(L.LLVMGetOperand(v, i), L.LLVMStructGetTypeAtIndex(t, i),
                        base + int(L.LLVMOffsetOfElement(DL, t, i)))
            elif k == 11:
                n = int(L.LLVMGetArrayLength2(t))
                et = L.LLVMGetElementType(t)
                es = int(L.LLVMABISizeOfType(DL, et))
                ds = L.LLVMIsAConstantDataSequential(v)
                for i in range(n):
                    e = L.LLVMGetElementAsConstant(v, i) if ds else L.LLVMGetOperand(v, i)
                    rec(e, et, base + i * es)
            else:
                out.append((base, int(L.LLVMABISizeOfType(DL, t)), conv(v)))
        rec(v, t, 0)
        return out

    g = L.LLVMGetFirstGlobal(mod)
    while g:
        nm = _vname(L, g)
        t = L.LLVMGlobalGetValueType(g)
        init = L.LLVMGetInitializer(g)
        M.globals[nm] = dict(const=bool(L.LLVMIsGlobalConstant(g)), size=int(L.LLVMABISizeOfType(DL, t)),
                             init=const_bytes(init, t) if init else None, linkage=L.LLVMGetLinkage(g),
                             struct=sname(t))
        g = L.LLVMGetNextGlobal(g)
    for nm, gd in M.globals.items():
        gd["str"] = None
        if gd["const"] and gd["init"] and all(s == 1 and o[0] == "c" for _, s, o in gd["init"]):
            b = bytes(o[1] for _, _, o in gd["init"])
            gd["str"] = b.split(b"\0")[0].decode("latin1")
            gd["bytes"] = b
        elif gd["const"] and gd["init"] and len(gd["init"]) == 1 and gd["init"][0][2] == ("zero",):
            gd["str"] = ""
            gd["bytes"] = b"\0" * gd["size"]

    f = L.LLVMGetFirstFunction(mod)
    repo_src = os.path.realpath(os.path.join(REPO, "src"))
    while f:
        nm = _vname(L, f)
        if L.LLVMIsDeclaration(f):
            M.decls[nm] = True
            f = L.LLVMGetNextFunction(f)
            continue
        F = Fn()
        F.name = nm
        F.linkage = L.LLVMGetLinkage(f)
        F.visibility = L.LLVMGetVisibility(f)
        F.rettype = tkind(L.LLVMGetReturnType(L.LLVMGlobalGetValueType(f)))
        insid.clear()
        nid = 0
        for i in range(L.LLVMCountParams(f)):
            p = L.LLVMGetParam(f, i)
            insid[p] = nid
            k, w = tkind(L.LLVMTypeOf(p))
            F.params.append((nid, k, w, _vname(L, p)))
            nid += 1
        bbs = {}
        b = L.LLVMGetFirstBasicBlock(f)
        raw = []
        while b:
            bbs[b] = len(bbs)
            ins = []
            i = L.LLVMGetFirstInstruction(b)
            while i:
                op = OPC.get(L.LLVMGetInstructionOpcode(i), "other")
                skip = False
                if op == "call":
                    cn = _vname(L, L.LLVMGetCalledValue(i))
                    skip = cn.startswith("llvm.dbg") or cn.startswith("llvm.lifetime")
                if not skip:
                    insid[i] = nid
                    nid += 1
                    ins.append((i, op))
                i = L.LLVMGetNextInstruction(i)
            raw.append((b, ins))
            b = L.LLVMGetNextBasicBlock(b)
        F.nvals = nid
        F.file = None
        F.byid = {}
        lastline = 0
        for b, ins in raw:
            B = Block()
            B.idx = bbs[b]
            B.insts = []
            B.succs = []
            B.preds = []
            for i, op in ins:
                I = Inst()
                I.op = op
                I.id = insid[i]
                I.fn = F
                I.blk = B
                I.name = _vname(L, i)
                ty = L.LLVMTypeOf(i)
                I.kind, I.w = tkind(ty)
                I.line = int(L.LLVMGetDebugLocLine(i)) if op != "other" else 0
                I.col = int(L.LLVMGetDebugLocColumn(i))
                n = C.c_uint()
                fp = L.LLVMGetDebugLocFilename(i, C.byref(n))
                I.file = os.path.basename(C.string_at(fp, n.value).decode()) if fp and n.value else None
                if I.file and not F.file:
                    F.file = I.file
                nops = L.LLVMGetNumOperands(i)
                if op == "phi":
                    I.incoming = [(conv(L.LLVMGetIncomingValue(i, k)), bbs[L.LLVMGetIncomingBlock(i, k)])
                                  for k in range(L.LLVMCountIncoming(i))]
                    I.ops = [o for o, _ in I.incoming]
                elif op == "br":
                    ns = L.LLVMGetNumSuccessors(i)
                    I.succ = [bbs[L.LLVMGetSuccessor(i, k)] for k in range(ns)]
                    I.ops = [conv(L.LLVMGetOperand(i, 0))] if ns == 2 else []
                    B.succs = I.succ
                elif op == "switch":
                    I.ops = [conv(L.LLVMGetOperand(i, 0))]
                    ns = L.LLVMGetNumSuccessors(i)
                    I.succ = [bbs[L.LLVMGetSuccessor(i, k)] for k in range(ns)]
                    I.cases = [conv(L.LLVMGetOperand(i, 2 + 2 * (k - 1)))[1] for k in range(1, ns)]
                    B.succs = list(dict.fromkeys(I.succ))
                elif op == "call":
                    cv = L.LLVMGetCalledValue(i)
                    I.callee = conv(cv)
                    I.ops = [conv(L.LLVMGetOperand(i, k)) for k in range(L.LLVMGetNumArgOperands(i))]
                elif op == "gep":
                    I.ops = [conv(L.LLVMGetOperand(i, 0))]
                    st = L.LLVMGetGEPSourceElementType(i)
                    off, var, pathl, region = gepinfo(st, [L.LLVMGetOperand(i, k) for k in range(1, nops)], conv)
                    I.gep = (off, var, pathl, region)
                    I.structname = sname(st)
                    I.ops += [v for v, _ in var]
                elif op == "alloca":
                    t = L.LLVMGetAllocatedType(i)
                    I.size = int(L.LLVMABISizeOfType(DL, t))
                    I.structname = sname(t)
                    I.ops = [conv(L.LLVMGetOperand(i, 0))]
                else:
                    I.ops = [conv(L.LLVMGetOperand(i, k)) for k in range(nops)]
                    if op == "icmp":
                        I.pred = PRED[L.LLVMGetICmpPredicate(i)]
                        k0, w0 = tkind(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))
                        I.size = w0
                    elif op == "store":
                        k0, w0 = tkind(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))
                        I.size = (w0 + 7) // 8
                        I.kind = k0
                        I.w = w0
                    elif op == "load":
                        I.size = (I.w + 7) // 8
                    elif op in ("zext", "sext", "trunc"):
                        I.size = tkind(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))[1]
                    elif op in ("extractvalue", "insertvalue"):
                        ix = L.LLVMGetIndices(i)
                        I.cases = [ix[k] for k in range(L.LLVMGetNumIndices(i))]
                B.insts.append(I)
                F.byid[I.id] = I
            F.blocks.append(B)
        for B in F.blocks:
            for s in B.succs:
                F.blocks[s].preds.append(B.idx)
        _order(F)
        _liveness(F)
        M.fns[nm] = F
        f = L.LLVMGetNextFunction(f)
    _difields(path, M)
    return M


def _order(F):
    seen = set()
    post = []
    back = set()
    onstack = set()
    stack = [(0, iter(F.blocks[0].succs))]
    seen.add(0)
    onstack.add(0)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s in onstack:
                back.add((b, s))
            if s not in seen:
                seen.add(s)
                onstack.add(s)
                stack.append((s, iter(F.blocks[s].succs)))
                break
        else:
            post.append(b)
            onstack.discard(b)
            stack.pop()
    n = len(post)
    for B in F.blocks:
        B.rpo = None
        B.loophead = False
    for i, b in enumerate(post):
        F.blocks[b].rpo = n - 1 - i
    for b, s in back:
        F.blocks[s].loophead = True
    F.backedges = back
    # natural-loop bodies (union over back edges per header)
    F.loops = {}
    for b, h in back:
        body = F.loops.setdefault(h, {h})
        st = [b]
        while st:
            x = st.pop()
            if x in body:
                continue
            body.add(x)
            st.extend(p for p in F.blocks[x].preds if F.blocks[p].rpo is not None)
    # order the blocks so that a loop is iterated to its fixed point before what follows it is visited
    F.loopexits = {(b, s) for body in F.loops.values() for b in body for s in F.blocks[b].succs if s not in body}

    def depth(b, s):
        return sum(1 for body in F.loops.values() if b in body and s in body)
    seen = {0}
    post = []
    stack = [(0, iter(sorted(F.blocks[0].succs, key=lambda s: depth(0, s))))]
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(sorted(F.blocks[s].succs, key=lambda x: depth(s, x)))))
                break
        else:
            post.append(b)
            stack.pop()
    for i, b in enumerate(post):
        F.blocks[b].rpo = n - 1 - i


def _liveness(F):
    use = []
    deff = []
    for B in F.blocks:
        u, d = set(), set()
        for I in B.insts:
            if I.op != "phi":
                for o in I.ops:
                    if o[0] == "v" and o[1] not in d:
                        u.add(o[1])
                if I.callee and I.callee[0] == "v" and I.callee[1] not in d:
                    u.add(I.callee[1])
            d.add(I.id)
        use.append(u)
        deff.append(d)
    live_in = [set() for _ in F.blocks]
    changed = True
    F.phi_uses = {}     # (pred, blk) -> set of ids
    for B in F.blocks:
        for I in B.insts:
            if I.op == "phi":
                for o, pb in I.incoming:
                    if o[0] == "v":
                        F.phi_uses.setdefault((pb, B.idx), set()).add(o[1])
    order = sorted([B for B in F.blocks if B.rpo is not None], key=lambda b: -b.rpo)
    while changed:
        changed = False
        for B in order:
            out = set()
            for s in B.succs:
                phis = {I.id for I in F.blocks[s].insts if I.op == "phi"}
                out |= (live_in[s] - phis)
                out |= F.phi_uses.get((B.idx, s), set())
            new = use[B.idx] | (out - deff[B.idx])
            if new != live_in[B.idx]:
                live_in[B.idx] = new
                changed = True
    for B in F.blocks:
        B.live_in = live_in[B.idx]
    # last uses inside a block are handled by the engine at block boundaries


def _difields(path, M):
    """struct member names/offsets from debug info (used for reports and for field anchors)"""
    md = {}
    rx = re.compile(r"^!(\d+) = (?:distinct )?!(.*)$")
    with open(path) as f:
        for line in f:
            if line[0] == "!":
                m = rx.match(line)
                if m:
                    md[int(m.group(1))] = m.group(2)

    def attr(s, k):
        m = re.search(r"\b%s: ([^,)]+)" % k, s)
        return m.group(1) if m else None

    def nm(s):
        m = re.search(r'\bname: "([^"]*)"', s)
        return m.group(1) if m else None

    def members(s):
        e = attr(s, "elements")
        if not e:
            return []
        lst = md.get(int(e[1:]), "")
        return [int(x) for x in re.findall(r"!(\d+)", lst.strip("{}"))]

    def base(i):
        seen = 0
        while seen < 10:
            s = md.get(i, "")
            if s.startswith("DIDerivedType") and re.search(r"tag: DW_TAG_(typedef|const_type|volatile_type)", s):
                b = attr(s, "baseType")
                if not b or b == "null":
                    return i
                i = int(b[1:])
                seen += 1
                continue
            return i
        return i

    def flat(s, pref, boff, out, depth=0):
        for m in members(s):
            ms = md.get(m, "")
            if "DW_TAG_member" not in ms:
                continue
            off = int(attr(ms, "offset") or 0) // 8 + boff
            size = int(attr(ms, "size") or 0) // 8
            n = nm(ms) or ""
            full = (pref + "." + n) if pref and n else (pref or n)
            b = attr(ms, "baseType")
            bs = md.get(base(int(b[1:])), "") if b and b[0] == "!" else ""
            tn = None
            if bs.startswith("DICompositeType") and re.search(r"DW_TAG_(structure|union)_type", bs) and depth < 4:
                flat(bs, full, off, out, depth + 1)
                tn = nm(bs)
            out.setdefault(full, (off, size))
    for i, s in md.items():
        if s.startswith("DICompositeType") and re.search(r"DW_TAG_(structure|union)_type", s):
            n = nm(s)
            if n and members(s):
                out = {}
                flat(s, "", 0, out)
                M.fields.setdefault(n, out)
                sz = attr(s, "size")
                M.structsize[n] = int(sz or 0) // 8
    # parameter / function declared types: function -> list of type strings
    M.subprog = {}


def field_name(M, struct, off):
    best = None
    for n, (o, sz) in M.fields.get(struct, {}).items():
        if o <= off < o + max(sz, 1):
            if best is None or sz <= best[1]:
                best = (n, sz)
    return best[0] if best else "+%d" % off


class Program:
    """both configurations, compiled fresh from the working tree"""

    def __init__(self, configs=("zstd", "lzip"), repo=None, inline=False, simplify=False):
        self.tmp = tempfile.mkdtemp(prefix="drpm-sa-")
        self.mods = {}
        try:
            with ThreadPoolExecutor(2) as ex:
                res = dict(zip(configs, ex.map(lambda c: compile_config(c, self.tmp, repo, inline=inline, simplify=simplify), configs)))
            for c in configs:
                self.mods[c] = load(res[c][0], c, res[c][1])
        finally:
            shutil.rmtree(self.tmp, ignore_errors=True)
