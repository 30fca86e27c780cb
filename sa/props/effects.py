"""S01 what the library does outside its memory; S02 no state of its own.

A backward slice over the LLVM IR, field-based and flow-insensitive: where can the file name of each call that opens, creates,
removes or runs something come from?"""

READ, WRITE, CREATE = "reads", "writes", "creates"
API = ("drpm_read", "drpm_make", "drpm_apply", "drpm_check", "drpm_check_sequence", "drpm_destroy", "drpm_strerror", "drpm_get_", "drpm_make_options_")

# what must not be called at all: it would change files, processes or settings that are nobody's argument
NEVER = set("""rename renameat remove rmdir link linkat symlink symlinkat mkdir mkdirat mknod mkfifo chmod fchmod fchmodat chown fchown lchown
truncate utime utimes utimensat futimens setxattr lsetxattr fsetxattr system popen posix_spawn posix_spawnp execv execve execvp execlp execle
execvpe kill raise signal sigaction setenv putenv unsetenv clearenv chdir fchdir chroot umask setlocale setuid setgid seteuid setegid setrlimit
mount umount daemon setsid alarm exit abort mkdtemp tmpfile tmpnam tempnam mktemp fork_ vfork pthread_create dlopen socket connect bind listen
shm_open mlockall sync nice""".split())
OPENERS = {"open": 0, "open64": 0, "creat": 0, "creat64": 0, "fopen": 0, "fopen64": 0, "Fopen": 0, "freopen": 0, "openat": 1, "openat64": 1}
ALLOC = {"malloc", "calloc", "realloc", "strdup", "strndup"}


class Slice:
    def __init__(self, M):
        self.M = M
        self.callers = {}
        self.stores = {}
        self.indirect = []
        self.taken = set()
        self.within = None
        self.ints = False
        for F in M.fns.values():
            for B in F.blocks:
                if B.rpo is None:
                    continue
                for I in B.insts:
                    for o in I.ops:
                        if o[0] == "f":
                            self.taken.add(o[1])
                    if I.op == "call":
                        if I.callee[0] == "f":
                            self.callers.setdefault(I.callee[1], []).append(I)
                        else:
                            self.indirect.append(I)
                    elif I.op == "store":
                        k = self.field(F, I.ops[1])
                        if k:
                            self.stores.setdefault(k, []).append((F, I.ops[0]))
        self.targets = {}
        for I in self.indirect:
            t = {x[1] for x in self.prov(I.fn, I.callee) if x[0] == "fn"}
            self.targets[I] = t & set(M.fns)
            for f in t:
                self.callers.setdefault(f, []).append(I)

    def reach(self, root):
        out, work = set(), [root]
        while work:
            f = work.pop()
            if f in out or f not in self.M.fns:
                continue
            out.add(f)
            for B in self.M.fns[f].blocks:
                for I in B.insts:
                    if B.rpo is not None and I.op == "call":
                        work += [I.callee[1]] if I.callee[0] == "f" else self.targets[I]
        return out

    def field(self, F, o):
        """(struct, offset) a pointer designates, when it is to a member"""
        I = F.byid.get(o[1]) if o[0] == "v" else None
        if I is not None and I.op == "gep" and I.gep[2]:
            s, _, fo = I.gep[2][-1]
            if s:
                return (s, fo)
        return None

    def prov(self, F, o, seen=None):
        """the set of things a pointer value can stem from"""
        seen = seen if seen is not None else set()
        key = (F.name, o)
        if key in seen:
            return set()
        seen.add(key)
        k = o[0]
        if k == "c":
            return {("int", o[1])} if self.ints else set()
        if k == "undef":
            return set()
        if k == "f":
            return {("fn", o[1])}
        if k == "g":
            g = self.M.globals.get(o[1], {})
            return {("str", g["str"])} if g.get("str") is not None else {("global", o[1])}
        if k != "v":
            return {("?", o[0])}
        for n, (pid, _, _, name) in enumerate(F.params):
            if pid == o[1]:
                return self.param(F, n, name, seen)
        I = F.byid[o[1]]
        if I.op in ("phi", "select"):
            out = set()
            for x in (I.ops if I.op == "phi" else I.ops[1:]):
                out |= self.prov(F, x, seen)
            return out
        if I.op == "or" and self.ints:
            a, b = self.prov(F, I.ops[0], seen), self.prov(F, I.ops[1], seen)
            return {("int", x[1] | y[1]) if x[0] == y[0] == "int" else ("?", "or") for x in a for y in b}
        if I.op in ("bitcast", "freeze", "zext", "sext", "trunc", "inttoptr", "ptrtoint"):
            return self.prov(F, I.ops[0], seen)
        if I.op == "gep":
            return self.prov(F, I.ops[0], seen)
        if I.op == "alloca":
            out = set()
            for B in F.blocks:
                for J in B.insts:
                    if J.op == "call" and J.callee[0] == "f" and J.callee[1].startswith(("llvm.memcpy", "memcpy", "strcpy")) and J.ops[0] == o:
                        out |= self.prov(F, J.ops[1], seen)
            return {("local", F.name, I.id, tuple(sorted(x[1] for x in out if x[0] == "str")))} | {x for x in out if x[0] != "str"}
        if I.op == "call":
            if I.callee[0] == "f" and I.callee[1] in self.M.fns:
                G = self.M.fns[I.callee[1]]
                out = set()
                for B in G.blocks:
                    J = B.insts[-1]
                    if J.op == "ret" and J.ops:
                        out |= self.prov(G, J.ops[0], seen)
                return out
            return {("heap",)} if I.callee[0] == "f" and I.callee[1] in ALLOC else {("call", I.callee[1] if I.callee[0] == "f" else "?")}
        if I.op == "load":
            f = self.field(F, I.ops[0])
            if f:
                return self.member(f, seen)
            p = I.ops[0]
            J = F.byid.get(p[1]) if p[0] == "v" else None
            if J is not None and J.op == "alloca":
                # a variable whose address is taken
                out = set()
                for B in F.blocks:
                    for K in B.insts:
                        if K.op == "store" and K.ops[1] == p:
                            out |= self.prov(F, K.ops[0], seen)
                        elif K.op == "call" and p in K.ops:
                            out.add(("out", K.callee[1] if K.callee[0] == "f" else "?"))
                return out
            return {("mem",)}
        return {("?", I.op)}

    def member(self, f, seen):
        key = ("F", f)
        if key in seen:
            return set()
        seen.add(key)
        name = next((n for n, (o, _) in sorted(self.M.fields.get(f[0], {}).items(), key=lambda x: len(x[0])) if o == f[1]), "+%d" % f[1])
        out = set()
        for G, v in self.stores.get(f, []):
            if self.within is not None and G.name not in self.within:
                continue
            for x in self.prov(G, v, seen):
                out.add(("member", f[0], name) if x[0] in ("heap", "call", "out", "mem", "?") else x)
        return out or {("member", f[0], name)}

    def param(self, F, n, name, seen):
        out = set()
        if F.name.startswith("drpm_") and F.visibility == 0:
            out.add(("arg", F.name, n))
        for I in self.callers.get(F.name, []):
            if (self.within is None or I.fn.name in self.within) and n < len(I.ops):
                out |= self.prov(I.fn, I.ops[n], seen)
        return out


def argname(x):
    if x[0] == "arg":
        return "argument %d of %s()" % (x[2] + 1, x[1])
    if x[0] == "member":
        return "%s of struct %s" % (x[2], x[1])
    if x[0] == "str":
        return '"%s"' % x[1]
    if x[0] == "local":
        return "a local buffer" + (' "%s"' % x[3] if x[3] else "")
    return " ".join(str(y) for y in x)


# who may do what to which files
SEQ, PRINT, PATCH = ("member", "drpm_make_options", "seqfile"), ("member", "drpm_make_options", "oldrpmprint"), ("member", "drpm_make_options", "oldpatchrpm")
INSTALLED = ("member", "file_info", "name")
MAKES = {"drpm_make": {("arg", "drpm_make", 2), SEQ}, "drpm_apply": {("arg", "drpm_apply", 2)}}
READS = {"drpm_make": {("arg", "drpm_make", 0), ("arg", "drpm_make", 1), PRINT, PATCH},
         "drpm_apply": {("arg", "drpm_apply", 0), ("arg", "drpm_apply", 1), INSTALLED},
         "drpm_read": {("arg", "drpm_read", 1)},
         "drpm_check": {("arg", "drpm_check", 0), INSTALLED},
         "drpm_check_sequence": {("arg", "drpm_check_sequence", 0), INSTALLED}}


def files(ctx):
    for cfg in ctx.configs:
        _files(ctx, cfg)
    ctx.coverage["explanation"] = (
        "every call in the library that opens, creates, removes, renames or runs something, sets up a process or changes a setting of the process; the name "
        "it is given is sliced back, through parameters, members and indirect calls, to the arguments of each public function it is reached from.  Rule: "
        "created and written are only the output file and the sequence file, named by the caller and emptied on creation; other named files and installed "
        "files are opened for reading only; temporary files come from mkstemp and are unlinked; nothing is run but prelink by its full name")


def _files(ctx, cfg):
    M = ctx.prog.mods[cfg]
    S = Slice(M)
    cov = dict(file_calls=0, names_traced=0)
    reached = set()
    for root in sorted(f for f, F in M.fns.items() if f.startswith("drpm_") and F.visibility == 0):
        S.within = S.reach(root)
        reached |= S.within
        made, temp = set(), set()
        sites = {"open": [], "temp": [], "exec": [], "unlink": []}
        for name in sorted(S.within):
            F = M.fns[name]
            for B in F.blocks:
                for I in B.insts:
                    if B.rpo is None or I.op != "call" or I.callee[0] != "f" or I.callee[1] in M.fns:
                        continue
                    c = I.callee[1]
                    if c in NEVER:
                        ctx.violation("never:%s:%s" % (name, c), "%s() calls %s() at %s (configuration %s)" % (name, c, I.loc(), cfg))
                    elif c in OPENERS:
                        sites["open"].append((F, I, c))
                    elif c in ("mkstemp", "mkostemp"):
                        sites["temp"].append((F, I, c))
                    elif c == "execl":
                        sites["exec"].append((F, I, c))
                    elif c in ("unlink", "unlinkat"):
                        sites["unlink"].append((F, I, c))
        cov["file_calls"] += sum(len(x) for x in sites.values())

        def bad(F, I, text):
            ctx.violation("%s:%s" % (F.name, text), "%s(), called by %s(), %s at %s (configuration %s)" % (F.name, root, text, I.loc(), cfg))
        for F, I, c in sites["temp"]:
            for x in S.prov(F, I.ops[0]):
                cov["names_traced"] += 1
                if x[0] != "local" or not x[3] or not all(s.endswith("XXXXXX") and s.startswith("/tmp/") for s in x[3]):
                    bad(F, I, "makes a temporary file not in /tmp but named by " + argname(x))
                temp.add(x)
        for F, I, c in sites["unlink"]:
            for x in S.prov(F, I.ops[0 if c == "unlink" else 1]):
                cov["names_traced"] += 1
                if x not in temp:
                    bad(F, I, "removes the file named by " + argname(x))
        for F, I, c in sites["exec"]:
            args = [S.prov(F, o) for o in I.ops]
            cov["names_traced"] += len(args)
            if args[0] != {("str", "/usr/sbin/prelink")}:
                bad(F, I, "runs " + ", ".join(argname(x) for x in args[0]))
            elif len(args) != 7 or args[1] != {("str", "prelink")} or args[2] != {("str", "-o")} or not args[3] <= temp or \
                    args[4] != {("str", "-u")} or not args[5] <= {INSTALLED} or args[6]:
                bad(F, I, "runs prelink otherwise than with -o <temporary file> -u <installed file>")
        makes, reads = MAKES.get(root, set()), READS.get(root, set()) | MAKES.get(root, set())
        for F, I, c in sites["open"]:
            what = kind(S, F, I, c)
            names = S.prov(F, I.ops[OPENERS[c]])
            cov["names_traced"] += len(names)
            for x in sorted(names):
                if x in temp:
                    continue
                if x not in (reads if what == READ else makes if what in (CREATE, WRITE) else ()):
                    bad(F, I, "%s the file named by %s" % (what, argname(x)))
                if what == CREATE:
                    made.add(x)
            if not names:
                bad(F, I, "opens no file")
        for x in sorted(makes):
            if x not in made:
                ctx.violation("made:%s" % (x,), "%s() does not create the file named by %s (configuration %s)" % (root, argname(x), cfg))
    for k, v in cov.items():
        ctx.coverage[k] = ctx.coverage.get(k, 0) + v
    ctx.coverage["functions"] = ctx.coverage.get("functions", 0) + len(reached)
    ctx.coverage["exits_judged"] = ctx.coverage.get("exits_judged", 0) + cov["file_calls"]
    ctx.require(cov["file_calls"] > 10, "no calls that open files found")


def kind(S, F, I, c):
    if c.startswith("creat"):
        return CREATE
    if c.startswith("open"):
        S.ints = True
        flags = S.prov(F, I.ops[OPENERS[c] + 1])
        S.ints = False
        out = set()
        for x in flags:
            if x[0] != "int":
                return "may write"
            acc, make, trunc = x[1] & 3, x[1] & 0o100, x[1] & 0o1000
            out.add(READ if acc == 0 and not make and not trunc else CREATE if make and trunc and acc else "may create" if make else WRITE)
        return out.pop() if len(out) == 1 else "may write"
    m = S.prov(F, I.ops[1])
    modes = {x[1] if x[0] == "str" else "?" for x in m}
    if modes and all(x.startswith("r") and "+" not in x.split(".")[0] for x in modes):
        return READ
    return CREATE if modes and all(x.startswith("w") for x in modes) else "adds to" if modes and all(x.startswith("a") for x in modes) else "may write"


# ---------------------------------------------------------------- state
# library functions that keep hidden state or return buffers of their own which another call overwrites
HIDDEN = set("""strtok localtime gmtime ctime asctime getpwnam getpwuid getgrnam getgrgid readdir rand srand random srandom drand48 lrand48 mrand48 erand48
gethostbyname getenv secure_getenv ttyname getlogin basename dirname strsignal inet_ntoa hcreate hsearch hdestroy nftw ftw crypt ecvt fcvt time clock
gettimeofday clock_gettime getrandom getpid""".split())


def state(ctx):
    for cfg in ctx.configs:
        M = ctx.prog.mods[cfg]
        uses = {}
        for F in M.fns.values():
            for B in F.blocks:
                for I in B.insts:
                    if B.rpo is None:
                        continue
                    for o in I.ops:
                        if o[0] == "g":
                            uses.setdefault(o[1], []).append((F, I))
                    if I.op == "call" and I.callee[0] == "f" and I.callee[1] not in M.fns and I.callee[1] in HIDDEN:
                        ctx.violation("hidden:%s:%s" % (F.name, I.callee[1]), "%s() calls %s(), whose result depends on more than its arguments, at %s (configuration %s)"
                                      % (F.name, I.callee[1], I.loc(), cfg))
        for g, d in M.globals.items():
            if not d["const"] and d["init"] is not None:
                stores = [(F, I) for F, I in uses.get(g, []) if written(F, I, g)]
                if stores:
                    F, I = stores[0]
                    ctx.violation("state:%s" % g, "%s() changes the static variable %s at %s (configuration %s)" % (F.name, g, I.loc(), cfg))
        ctx.coverage["variables"] = ctx.coverage.get("variables", 0) + len(M.globals)
        ctx.coverage["functions"] = ctx.coverage.get("functions", 0) + len(M.fns)
        ctx.coverage["exits_judged"] = ctx.coverage.get("exits_judged", 0) + len(M.globals)
    ctx.coverage["explanation"] = (
        "every variable with static storage and every call of the library.  Rule: nothing is stored to a static variable, none is handed to a function or "
        "member through which it could be changed, and no function with hidden state or with results from the environment is called")


def written(F, I, g):
    """can this use of a variable lead to it being changed?"""
    work, seen = [(I, None)], set()
    while work:
        J, via = work.pop()
        if J.id in seen:
            continue
        seen.add(J.id)
        mine = [o for o in J.ops if o[0] == "g" and o[1] == g or via is not None and o == ("v", via)]
        if J.op == "load" or J.op == "icmp" or J.op == "br" or J.op == "switch":
            continue
        if J.op in ("gep", "bitcast", "phi", "select", "ptrtoint", "add", "sub"):
            for B in F.blocks:
                for K in B.insts:
                    if ("v", J.id) in K.ops:
                        work.append((K, J.id))
            continue
        if J.op == "call" and J.callee[0] == "f" and J.callee[1] in READERS and all(k in READERS[J.callee[1]] for k, o in enumerate(J.ops) if o in mine):
            continue
        return True
    return False


READERS = {"memcmp": (0, 1), "strcmp": (0, 1), "strncmp": (0, 1), "strlen": (0,), "memcpy": (1,), "memmove": (1,), "strcpy": (1,), "strncpy": (1,),
           "llvm.memcpy.p0.p0.i64": (1,), "llvm.memmove.p0.p0.i64": (1,), "MD5_Update": (1,), "write": (1,)}
