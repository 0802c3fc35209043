"""Builds the simulator binaries from /repo's current working tree.

Objects are cached under /verif/build by the content of everything they were
compiled from, so a stale object can never be linked."""
import concurrent.futures, glob, hashlib, json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
BACKENDS = {
    "nlohmann": ["-DCPPDAP_JSON_NLOHMANN=1"],
    "rapid": ["-DCPPDAP_JSON_RAPID=1"],
    "jsoncpp": ["-DCPPDAP_JSON_JSONCPP=1", "-I/usr/include/jsoncpp"],
}
LINK = {"nlohmann": [], "rapid": [], "jsoncpp": ["-ljsoncpp"]}
CXX = "clang++"
INSTR = ["-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]
COMMON = ["-O1", "-g1", "-w", "-fno-omit-frame-pointer", "-fPIE"]
INC = ["-I%s/include" % REPO, "-I%s/src" % REPO]


def sha(path, memo={}):
    try:
        st = os.stat(path)
    except OSError:
        return "missing"
    k = (path, st.st_mtime_ns, st.st_size)
    if k not in memo:
        with open(path, "rb") as f:
            memo[k] = hashlib.sha256(f.read()).hexdigest()
    return memo[k]


def dep_list(depfile):
    txt = open(depfile).read().replace("\\\n", " ")
    return txt.split(":", 1)[1].split()


class BuildError(Exception):
    pass


def compile_one(src, obj, args):
    """Returns (obj, rebuilt, deps)."""
    cmd = [CXX] + args + ["-c", src, "-o", obj, "-MD", "-MF", obj + ".d"]
    stamp = obj + ".stamp"
    try:
        s = json.load(open(stamp))
        if s["cmd"] == cmd and os.path.exists(obj) and all(sha(p) == h for p, h in s["deps"].items()):
            return obj, False, list(s["deps"])
    except (OSError, ValueError, KeyError):
        pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError("compiling %s failed:\n%s" % (src, r.stderr[-4000:]))
    deps = dep_list(obj + ".d")
    # system headers are part of the sandbox and do not change
    deps = [d for d in deps if not d.startswith("/usr/")]
    json.dump({"cmd": cmd, "deps": {d: sha(d) for d in deps}}, open(stamp, "w"))
    return obj, True, deps


def uses_backend(src):
    """True if anything the source includes from /repo depends on the JSON back end."""
    seen, todo = set(), [src]
    while todo:
        p = todo.pop()
        if p in seen or not os.path.exists(p):
            continue
        seen.add(p)
        t = open(p, errors="replace").read()
        if "CPPDAP_JSON_" in t:
            return True
        for line in t.splitlines():
            line = line.strip()
            if line.startswith("#") and "include" in line:
                for q in ('"', "<"):
                    if q in line:
                        name = line.split(q, 1)[1].split(">" if q == "<" else '"', 1)[0]
                        for d in (os.path.dirname(p), REPO + "/include", REPO + "/src"):
                            todo.append(os.path.normpath(os.path.join(d, name)))
                        break
    return False


def sut_sources():
    out = []
    for p in sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True)):
        b = os.path.basename(p)
        if b.endswith("_test.cpp"):
            continue
        out.append(p)
    return out


def world_files():
    """world name -> source file under worlds/."""
    out = {}
    for p in sorted(glob.glob(VERIF + "/worlds/*.cpp")):
        for m in re.finditer(r'^WORLD\("[A-Z0-9]+",\s*(\w+)', open(p).read(), re.M):
            out[m.group(1)] = os.path.basename(p)
    return out


def build(backends=("nlohmann",), quiet=False, worlds=None):
    """Builds simrun for each back end with the source files of `worlds` (all by default)."""
    t0 = time.time()
    files = world_files()
    want = set(files.values()) if worlds is None else {files[w] for w in worlds}
    tag = "" if worlds is None else "-" + hashlib.sha256(" ".join(sorted(want)).encode()).hexdigest()[:10]
    jobs = []  # (src, obj, args, shared?)
    objs = {b: [] for b in backends}
    for src in sorted(glob.glob(VERIF + "/sim/*.cpp")):
        base = os.path.basename(src)[:-4]
        if base == "main":
            for b in backends:
                o = "%s/%s/sim_%s.o" % (OUT, b, base)
                jobs.append((src, o, ["-std=c++17", "-O2", "-g1", "-fPIE", '-DSIM_BACKEND="%s"' % b]))
                objs[b].append(o)
        else:
            o = "%s/common/sim_%s.o" % (OUT, base)
            jobs.append((src, o, ["-std=c++17", "-O2", "-g1", "-fPIE", "-fno-builtin"]))
            for b in backends:
                objs[b].append(o)
    for src in sorted(glob.glob(VERIF + "/worlds/*.cpp")):
        owner = os.path.basename(src).split("__")[0].replace(".cpp", "") + ".cpp"  # w_x__N.cpp is a part of w_x.cpp
        if owner in files.values() and owner not in want:
            continue
        base = os.path.basename(src)[:-4]
        o = "%s/common/world_%s.o" % (OUT, base)
        jobs.append((src, o, ["-std=c++17"] + COMMON + INSTR + INC))
        for b in backends:
            objs[b].append(o)
    other = {"nlohmann": "nlohmann_", "rapid": "rapid_", "jsoncpp": "jsoncpp_"}
    for src in sut_sources():
        base = os.path.relpath(src, REPO + "/src")[:-4].replace("/", "_")
        mine = [b for b in other if base.startswith(other[b])]
        args = ["-std=c++11"] + COMMON + INSTR + INC
        if mine:
            if mine[0] in backends:
                o = "%s/%s/sut_%s.o" % (OUT, mine[0], base)
                jobs.append((src, o, args + BACKENDS[mine[0]]))
                objs[mine[0]].append(o)
        elif uses_backend(src):
            for b in backends:
                o = "%s/%s/sut_%s.o" % (OUT, b, base)
                jobs.append((src, o, args + BACKENDS[b]))
                objs[b].append(o)
        else:
            o = "%s/common/sut_%s.o" % (OUT, base)
            jobs.append((src, o, args))
            for b in backends:
                objs[b].append(o)
    # longest first
    jobs.sort(key=lambda j: (0 if "protocol_" in j[0] else 1 if "json_serializer" in j[0] or "worlds" in j[0] else 2))
    rebuilt = set()
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count()) as ex:
        for o, r, _ in ex.map(lambda j: compile_one(*j), jobs):
            if r:
                rebuilt.add(o)

    def link(b):
        exe = "%s/%s/simrun%s" % (OUT, b, tag)
        state = {o: os.stat(o).st_mtime_ns for o in objs[b]}
        if os.path.exists(exe):
            try:
                if json.load(open(exe + ".objs")) == state:
                    return
            except (OSError, ValueError):
                pass
        tmp = exe + ".tmp"
        cmd = [CXX, "-no-pie", "-rdynamic", "-o", tmp] + objs[b] + ["-lpthread", "-ldl"] + LINK[b]
        if os.path.exists("/usr/bin/ld.lld"):
            cmd.insert(1, "-fuse-ld=lld")
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError("linking %s failed:\n%s" % (b, r.stderr[-4000:]))
        os.replace(tmp, exe)
        json.dump(state, open(exe + ".objs", "w"))

    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        list(ex.map(link, backends))
    if not quiet:
        print("build: %d of %d objects compiled, %.1fs" % (len(rebuilt), len(jobs), time.time() - t0), flush=True)
    return {b: "%s/%s/simrun%s" % (OUT, b, tag) for b in backends}


if __name__ == "__main__":
    try:
        build(tuple(sys.argv[1:]) or tuple(BACKENDS))
    except BuildError as e:
        print(e)
        sys.exit(2)
