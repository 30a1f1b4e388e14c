"""Witness functions decided by the compiler's constant propagation.

A check generates small functions around the real headers and sources of the
tree under analysis (every argument a literal or an unconstrained parameter),
lowers them to LLVM IR and lets the optimiser's sparse conditional constant
propagation reduce each body.  Nothing is executed: the only thing looked at is
the reduced IR, which must be a single `ret` of a constant, of a string
constant or of a parameter.  A body that does not reduce is undischarged.
"""
import hashlib
import os
import re
import shutil
import tempfile

from . import build
from .build import REPO, VERIF, AnalysisError

FLAGS = ["-O2", "-g0", "-w", "-S", "-emit-llvm", "-fno-vectorize", "-fno-slp-vectorize",
         "-mllvm", "-inline-threshold=1000000", "-mllvm", "-unroll-threshold=100000",
         "-mllvm", "-unroll-max-count=4096"]

FOLD = ("cgscc(inline),function(sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,loop-simplify,lcssa,loop-mssa(loop-rotate),"
        "loop(indvars,loop-unroll-full),sroa,gvn,sccp,instcombine<no-verify-fixpoint>,simplifycfg,dse,adce),globaldce")

LIMITS = ["-memdep-block-scan-limit=100000", "-memdep-block-number-limit=100000", "-memssa-check-limit=100000",
          "-available-load-scan-limit=100000", "-gvn-max-num-deps=10000", "-capture-tracking-max-uses-to-explore=10000",
          "-dse-memoryssa-scanlimit=100000", "-recursive-inline-max-stacksize=1000000", "-inline-max-stacksize=100000000"]


class Unit:
    def __init__(self, prelude, cxx=False, fast_float=False, ryu=False, defs=(), unroll=100000, timeout=None, internal=False, rounds=1, depth=6):
        self.unroll = unroll
        self.timeout = timeout
        self.internal = internal    # drop everything the witnesses do not call before optimising
        self.rounds = rounds
        self.depth = depth          # calls a recursive function is unfolded to
        self.prelude = prelude
        self.cxx = cxx
        self.cfg = (fast_float, ryu)
        self.body = []
        self.n = 0
        self.keys = {}
        self.defs = list(defs)

    def add(self, key, ret, body, params="void"):
        name = "w_%d" % self.n
        self.n += 1
        self.keys[name] = key
        ext = 'extern "C" ' if self.cxx else ""
        self.body.append("%s%s %s(%s) { %s }" % (ext, ret, name, params, body))
        return name

    def source(self):
        return self.prelude + "\n" + "\n".join(self.body) + "\n"

    def ir(self):
        src = self.source()
        flags = [f.replace("=100000", "=%d" % self.unroll) if "unroll-threshold" in f else f for f in FLAGS]
        if self.internal:
            flags = ["-O2", "-Xclang", "-disable-llvm-passes", "-g0", "-w", "-S", "-emit-llvm"]
        key = build.tree_hash("wit" + repr(flags) + repr((self.internal and repr((FOLD, LIMITS, 3, self.depth)), self.rounds, self.unroll)) + repr(self.cfg) + repr(self.defs) + str(self.cxx) + src)
        cache = os.path.join(VERIF, "build", "cache")
        os.makedirs(cache, exist_ok=True)
        path = os.path.join(cache, key + ".ll")
        if not os.path.exists(path):
            tmp = tempfile.mkdtemp(prefix="ga_wit_")
            try:
                build.make_config(tmp, *self.cfg)
                f = os.path.join(tmp, "w.cpp" if self.cxx else "w.c")
                open(f, "w").write(src)
                o = os.path.join(tmp, "w.ll")
                cmd = [build.CLANGXX, "-std=c++17"] if self.cxx else [build.CLANG, "-std=gnu99"]
                build.run(cmd + flags + self.defs + ["-I" + tmp, "-I" + REPO + "/src", "-I" + REPO + "/src/vendor",
                                                     f, "-o", o], timeout=self.timeout)
                if self.internal:
                    t = unfold_recursion(expand_copies(open(o).read()), self.depth)
                    open(o, "w").write(t)
                o2 = os.path.join(tmp, "w2.ll")
                how = ["-S", "-inline-threshold=1000000", "-unroll-threshold=%d" % self.unroll]
                pre = []
                if self.internal:
                    api = os.path.join(tmp, "api")
                    open(api, "w").write("\n".join(self.keys) + "\n")
                    how += ["-internalize-public-api-file=" + api, "-vectorize-loops=false", "-vectorize-slp=false", "-unroll-max-count=4096"]
                    how += LIMITS + ["-unroll-runtime=false", "-unroll-allow-partial=false"]
                    pre = ["internalize", "globaldce"] + [FOLD] * self.rounds
                build.run([build.OPT, "-passes=" + ",".join(pre + ["default<O3>"])] + how + [o, "-o", o2],
                          timeout=self.timeout)
                shutil.move(o2, path + ".tmp%d" % os.getpid())
                os.rename(path + ".tmp%d" % os.getpid(), path)
                build.prune_cache(cache)
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
        return open(path).read()

    def solve(self):
        """key -> ("int", n) | ("str", text) | ("null",) | ("arg", i) | ("void", lines) | ("open", ir text)"""
        text = self.ir()
        strs = {}
        for m in re.finditer(r'^(@[\w.$]+) = [^\n]*?constant \[\d+ x i8\] (c"((?:[^"\\]|\\.)*)"|zeroinitializer)', text, re.M):
            strs[m.group(1)] = unesc(m.group(3) or "")
        out = {}
        for m in re.finditer(r'^define [^\n]*@(w_\d+)\(([^\n]*?)\)[^\n]*\{\n(.*?)^\}', text, re.M | re.S):
            name, params, body = m.groups()
            args = re.findall(r'%[\w.]+', params)
            lines = [l.strip() for l in body.split("\n") if l.strip() and not l.strip().startswith(";")]
            lines = [l for l in lines if not re.match(r'^[\w.]+:', l)]
            out[self.keys[name]] = classify(lines, strs, args)
        for n, k in self.keys.items():
            if k not in out:
                raise AnalysisError("witness %s vanished" % (k,))
        return out


def expand_copies(text):
    """Struct assignments (memcpy with a field map) as one load and store per word, which is what value forwarding understands."""
    meta = dict(re.findall(r'^(![0-9]+) = !\{((?:i64 \d+, i64 \d+, ![0-9]+(?:, )?)+)\}$', text, re.M))
    n = [0]
    def one(m):
        ind, dst, src, size, tag = m.groups()
        fields = [(int(a), int(b)) for a, b in re.findall(r'i64 (\d+), i64 (\d+), !', meta.get(tag, ""))]
        if not fields or max(b for _, b in fields) > 512:
            return m.group(0)
        out = []
        for off, sz in fields:
            at = off
            while at < off + sz:
                w = next(k for k in (8, 4, 2, 1) if k <= off + sz - at and at % k == 0)
                k = n[0]
                n[0] += 1
                out += ["%%xc%d.s = getelementptr inbounds i8, ptr %s, i64 %d" % (k, src, at),
                        "%%xc%d.v = load i%d, ptr %%xc%d.s, align %d" % (k, 8 * w, k, w),
                        "%%xc%d.d = getelementptr inbounds i8, ptr %s, i64 %d" % (k, dst, at),
                        "store i%d %%xc%d.v, ptr %%xc%d.d, align %d" % (8 * w, k, k, w)]
                at += w
        return "\n".join(ind + o for o in out)
    return re.sub(r'^( *)call void @llvm\.memcpy\.p0\.p0\.i64\(ptr (?:align \d+ )?([%@][\w.]+), ptr (?:align \d+ )?([%@][\w.]+), i64 (\d+), '
                  r'i1 false\)(?:, !tbaa\.struct (![0-9]+))[^\n]*$', one, text, flags=re.M)


def unfold_recursion(text, depth=6):
    """Recursive functions copied `depth` times, each copy calling the next and the last itself: only calls which are not
    recursive are inlined."""
    fun = {}
    for m in re.finditer(r'^define [^\n]*?@([\w.$]+)\([^\n]*\{\n.*?^\}\n', text, re.M | re.S):
        fun[m.group(1)] = m
    calls = {f: set(re.findall(r'call [^\n]*?@([\w.$]+)\(', m.group(0))) & set(fun) for f, m in fun.items()}
    reach = {}
    for f in fun:
        seen, todo = set(), list(calls[f])
        while todo:
            g = todo.pop()
            if g not in seen:
                seen.add(g)
                todo += calls[g]
        reach[f] = seen
    scc = {f: frozenset(g for g in reach[f] if f in reach[g]) for f in fun if f in reach[f]}
    extra = []
    for f, group in scc.items():
        body = fun[f].group(0)
        name = re.compile(r'@(%s)\(' % "|".join(map(re.escape, sorted(group))))
        for k in range(1, depth + 1):
            head, rest = body.split("\n", 1)
            head = head.replace("@%s(" % f, "@%s.r%d(" % (f, k))
            rest = name.sub(lambda m: "@%s.r%d(" % (m.group(1), min(k + 1, depth)), rest)
            extra.append(head + "\n" + rest)
    def first(m):
        f = m.group(1)
        if f not in scc:
            return m.group(0)
        head, rest = m.group(0).split("\n", 1)
        return head + "\n" + re.sub(r'@(%s)\(' % "|".join(map(re.escape, sorted(scc[f]))), r'@\1.r1(', rest)
    text = re.sub(r'^define [^\n]*?@([\w.$]+)\([^\n]*\{\n.*?^\}\n', first, text, flags=re.M | re.S)
    return text + "\n" + "\n".join(extra)


def unesc(s):
    s = re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), s)
    return s.split("\0")[0] if "\0" in s else s


def classify(lines, strs, args):
    # stores nothing reads back do not change what is returned
    lines = [l for l in lines if not re.match(r'store |%\w+ = alloca |%[\w.]+ = getelementptr |(tail )?call void @llvm\.(memset|memcpy|lifetime)\.', l)]
    if len(lines) != 1 or not lines[0].startswith("ret "):
        return ("open", "; ".join(lines)[:400])
    r = lines[0][4:]
    if r == "void":
        return ("void",)
    m = re.match(r'^i\d+ (-?\d+|true|false)$', r)
    if m:
        v = m.group(1)
        return ("int", 1 if v == "true" else 0 if v == "false" else int(v))
    if r == "ptr null":
        return ("null",)
    m = re.match(r'^ptr (@[\w.$]+)$', r)
    if m and m.group(1) in strs:
        return ("str", strs[m.group(1)])
    m = re.match(r'^ptr getelementptr inbounds \(\[\d+ x i8\], ptr (@[\w.$]+), i64 0, i64 (\d+)\)$', r) or \
        re.match(r'^ptr getelementptr inbounds \(i8, ptr (@[\w.$]+), i64 (\d+)\)$', r)
    if m and m.group(1) in strs:
        return ("str", strs[m.group(1)][int(m.group(2)):])
    m = re.match(r'^(?:double|i\d+|ptr) (%[\w.]+)$', r)
    if m and m.group(1) in args:
        return ("arg", args.index(m.group(1)))
    m = re.match(r'^double (0x[0-9A-F]+|-?\d\.\d+e[+-]\d+)$', r)
    if m:
        return ("dbl", m.group(1))
    return ("open", lines[0])


def enumerators(enum, header="geoarrow/geoarrow_type.h"):
    """Names of an enum, from the preprocessed header (values are extracted by witnesses)."""
    tmp = tempfile.mkdtemp(prefix="ga_wit_")
    try:
        build.make_config(tmp, False, False)
        f = os.path.join(tmp, "e.c")
        open(f, "w").write('#include "%s"\n' % header)
        t = build.run([build.CLANG, "-E", "-P", "-I" + tmp, "-I" + REPO + "/src", "-I" + REPO + "/src/vendor", f])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    m = re.search(r'\benum\s+%s\s*\{(.*?)\}' % enum, t, re.S)
    if not m:
        raise AnalysisError("enum %s not found" % enum)
    return [x.split("=")[0].strip() for x in m.group(1).split(",") if x.strip()]
