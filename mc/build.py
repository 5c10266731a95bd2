"""Builds harness binaries from /repo's current working tree (content-addressed, no mtime trust)."""
import concurrent.futures, fcntl, hashlib, json, os, re, shlex, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KV_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
JOBS = int(os.environ.get("KV_JOBS", str(os.cpu_count() or 8)))

COMMON = ["-std=c++20", "-w", "-g1", "-msse4.1", "-mcx16", "-fno-strict-aliasing",
          "-DKAMINPAR_ENABLE_TIMERS", "-DKAMINPAR_COMPRESSION_HIGH_DEGREE_ENCODING",
          "-DKAMINPAR_COMPRESSION_INTERVAL_ENCODING", "-DKAMINPAR_SPARSEHASH_FOUND", "-DTBB_SUPPRESS_DEPRECATED_MESSAGES"]
INC = ["-I" + VERIF + "/mc/include", "-I" + VERIF + "/mc", "-I" + VERIF + "/compat", "-I" + VERIF + "/checks",
       "-I" + REPO, "-I" + REPO + "/apps"]
MPIINC = ["-I" + VERIF + "/mc/include_mpi", "-I" + REPO + "/external/growt"]
TSAN = ["-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0", "--param", "tsan-distinguish-volatile=0"]

VARIANTS = {
    # name: (compile flags, link flags)
    "seq": (["-O1"], []),
    "mt": (["-O1", "-include", VERIF + "/mc/include/kv_mt.h"] + TSAN, []),
    "asan": (["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=alignment,vptr"],
             ["-fsanitize=address,undefined"]),
    "dist": (["-O1", "-UKAMINPAR_ENABLE_TIMERS"] + MPIINC, ["-latomic"]),
    "exp": (["-O1", "-DKAMINPAR_EXPERIMENTAL"], []),
    "svb": (["-O1", "-DKAMINPAR_COMPRESSION_STREAMVBYTE_ENCODING"], []),
    "seq64": (["-O1", "-DKAMINPAR_64BIT_NODE_IDS", "-DKAMINPAR_64BIT_EDGE_IDS", "-DKAMINPAR_64BIT_WEIGHTS"], []),
}

HEAVY = ["fm_refiner", "lp_clusterer", "lp_refiner", "kaminpar_arguments", "unbuffered_cluster", "helper.cc",
         "initial_", "cluster_contraction", "jet_refiner", "greedy_balancer", "subgraph_extractor", "checks/"]

# TUs that are only linked when a harness asks for them (their headers are included everywhere).
OPTIONAL = {"kaminpar-shm/kaminpar.cc", "kaminpar-shm/factories.cc", "kaminpar-shm/presets.cc",
            "kaminpar-shm/context_io.cc", "kaminpar-dist/dkaminpar.cc", "kaminpar-dist/factories.cc",
            "kaminpar-dist/presets.cc", "kaminpar-dist/context_io.cc", "kaminpar-common/libc_memory_override.cc"}


def sh(data):
    return hashlib.sha256(data).hexdigest()


class FileHash:
    def __init__(self):
        self.c = {}

    def __call__(self, p):
        if p not in self.c:
            try:
                with open(p, "rb") as f:
                    self.c[p] = sh(f.read())
            except OSError:
                self.c[p] = None
        return self.c[p]


def all_tus(kind):
    out = []
    dirs = ["kaminpar-common", "kaminpar-shm"]
    if kind == "dist":
        dirs += ["kaminpar-mpi", "kaminpar-dist"]
    for d in dirs:
        for r, _, fs in os.walk(os.path.join(REPO, d)):
            for f in sorted(fs):
                p = os.path.relpath(os.path.join(r, f), REPO)
                if f.endswith(".cc") and "libc_memory_override" not in p:
                    out.append(p)
    return out


def gen_environment():
    d = os.path.join(BUILD, "gen")
    os.makedirs(d, exist_ok=True)
    src = os.path.join(REPO, "kaminpar-common/environment.cc.in")
    out = os.path.join(d, "environment.cc")
    text = open(src).read() if os.path.exists(src) else ""
    text = re.sub(r"@[A-Za-z_]+@", "kv", text)
    if not os.path.exists(out) or open(out).read() != text:
        with open(out, "w") as f:
            f.write(text)
    return out


class Builder:
    def __init__(self, variant):
        self.variant = variant
        self.cflags, self.lflags = VARIANTS[variant]
        self.dir = os.path.join(BUILD, variant)
        os.makedirs(self.dir, exist_ok=True)
        self.fh = FileHash()
        self.fail = []

    def flags_for(self, src):
        fl = COMMON + self.cflags + INC
        if src.endswith("mc/rt.cc"):
            fl = [f for f in fl if not f.startswith("-fsanitize=thread") and f not in TSAN]
            fl = ["-std=c++20", "-O2", "-g1", "-w", "-I" + VERIF + "/mc"]
            if self.variant == "asan":
                fl += ["-DKV_ASAN"]
        return fl

    def objname(self, src):
        return os.path.join(self.dir, re.sub(r"[^A-Za-z0-9_.]", "_", src.lstrip("/")) + ".o")

    def abspath(self, tu):
        return tu if os.path.isabs(tu) else os.path.join(REPO, tu)

    def compile(self, tu):
        """Returns (obj, deps) or raises."""
        src = self.abspath(tu)
        obj = self.objname(src)
        rec = obj + ".json"
        fl = self.flags_for(src)
        key = sh(json.dumps(fl + (["statics"] if self.variant == "dist" else [])).encode())
        try:
            r = json.load(open(rec))
            if r["key"] == key and os.path.exists(obj) and all(self.fh(p) == h for p, h in r["deps"]):
                return obj, [p for p, _ in r["deps"]]
        except (OSError, ValueError, KeyError):
            pass
        dep = obj + ".d"
        tmp = obj + ".tmp.%d.o" % os.getpid()
        cmd = ["g++"] + fl + ["-MMD", "-MF", dep, "-MT", "x", "-c", src, "-o", tmp]
        t0 = time.time()
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise RuntimeError("compile failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
        deps = [d for d in open(dep).read().replace("\\\n", " ").split()[1:]]
        deps = [os.path.normpath(os.path.join(VERIF, d)) for d in deps]
        deps = [d for d in deps if d.startswith((REPO + "/", VERIF + "/"))]
        if self.variant == "dist" and src.startswith((REPO + "/kaminpar-mpi/", REPO + "/kaminpar-dist/")):
            # Every rank has its own copy of the static variables: rt.cc swaps these sections with the fibers.
            subprocess.run(["objcopy", "--rename-section", ".data=kv_rank_data", "--rename-section",
                            ".bss=kv_rank_bss", tmp], check=True)
        os.replace(tmp, obj)
        os.unlink(dep)
        with open(rec, "w") as f:
            json.dump({"key": key, "deps": [[d, self.fh(d)] for d in deps], "t": time.time() - t0}, f)
        return obj, deps

    def closure(self, roots, optional):
        """Compile roots and, transitively, the .cc next to every /repo header they include."""
        done, objs, pending = set(), {}, {}
        errors = []
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            def submit(tu):
                if tu in done:
                    return
                done.add(tu)
                pending[ex.submit(self.compile, tu)] = tu
            for r in roots:
                submit(r)
            while pending:
                fin, _ = concurrent.futures.wait(list(pending), return_when=concurrent.futures.FIRST_COMPLETED)
                for f in fin:
                    tu = pending.pop(f)
                    try:
                        o, deps = f.result()
                    except Exception as e:  # noqa
                        errors.append((tu, str(e)))
                        continue
                    objs[tu] = o
                    for d in deps:
                        if d.startswith(REPO + "/") and d.endswith(".h"):
                            c = d[:-2] + ".cc"
                            rel = os.path.relpath(c, REPO)
                            if rel in OPTIONAL and rel not in optional:
                                continue
                            if rel.startswith("tests/"):
                                continue
                            if os.path.exists(c):
                                submit(rel)
        return objs, errors

    def build(self, name, sources, tus="auto", extra=(), optional=(), defines=(), unused=None):
        """Builds one binary; returns its path."""
        lock = open(os.path.join(self.dir, ".lock"), "w")
        fcntl.flock(lock, fcntl.LOCK_EX)
        roots = [os.path.join(VERIF, s) for s in sources] + [os.path.join(VERIF, "mc/rt.cc")]
        roots += [gen_environment()] if tus != "none" else []
        kind = "dist" if self.variant.startswith("dist") else "shm"
        opt = set(optional)
        if tus == "all":
            opt |= OPTIONAL - {"kaminpar-common/libc_memory_override.cc"}
            roots += all_tus(kind) + list(extra)
        else:
            roots += list(extra) + list(optional)
        # heavy files first
        roots.sort(key=lambda t: -sum(h in t for h in HEAVY))
        objs, errors = self.closure(roots, opt)
        if errors:
            for tu, e in errors[:3]:
                sys.stderr.write("%s: %s\n" % (tu, e))
            raise RuntimeError("build failed")
        exe = os.path.join(self.dir, name)
        p = self.link(exe, objs)
        if p.returncode != 0 and unused and "undefined reference" in p.stdout:
            # Functions that are referenced but not needed by this harness stay unresolved (calling one crashes).
            und = set(re.findall(r"undefined reference to `([^']*)'", p.stdout))
            und |= set(re.findall(r"undefined references to `([^']*)'", p.stdout))
            if und and all(re.search(unused, u) for u in und):
                p = self.link(exe, objs, ["-no-pie", "-Wl,--unresolved-symbols=ignore-all"])
        if p.returncode != 0 and tus == "auto" and "undefined reference" in p.stdout:
            sys.stderr.write("note: falling back to all translation units\n" + p.stdout[-1500:] + "\n")
            objs2, errors = self.closure(all_tus(kind), OPTIONAL)
            if errors:
                raise RuntimeError("build failed: " + errors[0][1])
            objs.update(objs2)
            p = self.link(exe, objs)
        if p.returncode != 0:
            raise RuntimeError("link failed\n" + p.stdout[-6000:])
        fcntl.flock(lock, fcntl.LOCK_UN)
        return exe

    def link(self, exe, objs, flags=()):
        lst = exe + ".rsp"
        with open(lst, "w") as f:
            f.write("\n".join(sorted(objs.values())))
        tmp = exe + ".tmp"
        cmd = ["g++", "-o", tmp] + self.lflags + ["@" + lst, "-lnuma", "-Wl,--gc-sections"] + list(flags)
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            os.replace(tmp, exe)
        return p
