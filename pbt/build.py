"""Builds the program under test from /repo's current working tree (never inside /repo)."""
import fcntl, hashlib, os, shutil, subprocess, sys, glob, concurrent.futures

REPO = os.environ.get("FMQ_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, "build")
HERE = os.path.dirname(os.path.abspath(__file__))

BASE = ["-std=c++20", "-msse4.2", "-DNDEBUG", "-DOPENSSL_API_COMPAT=0x10100000L",
        '-DFLASHMQ_VERSION="0.0.0"', "-fvisibility=hidden", "-w", "-I" + REPO]
LINK = ["-rdynamic", "-lpthread", "-ldl", "-lssl", "-lcrypto", "-lresolv", "-lanl"]
VARIANTS = {
    "rel": (["-O1", "-g0"], []),
    "asan": (["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-omit-frame-pointer"],
             ["-fsanitize=address,undefined"]),
    "tsan": (["-O1", "-g1", "-fsanitize=thread"], ["-fsanitize=thread"]),
}


class BuildError(Exception):
    pass


def sources():
    return sorted(f for f in glob.glob(REPO + "/*.cpp") if os.path.basename(f) != "flashmqtestclient.cpp")


def tree_hash():
    h = hashlib.sha256()
    for f in sorted(glob.glob(REPO + "/*.cpp") + glob.glob(REPO + "/*.h") + glob.glob(REPO + "/*.c")):
        h.update(os.path.basename(f).encode()); h.update(open(f, "rb").read())
    for f in sorted(glob.glob(HERE + "/*.c") + glob.glob(HERE + "/*.cpp") + [HERE + "/build.py"]):
        h.update(open(f, "rb").read())
    return h.hexdigest()[:16]


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def _compile(cmds):
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        res = list(ex.map(run, cmds))
    bad = [r for r in res if r.returncode]
    return bad


def objects(variant, d, exclude=()):
    """Compile all sources of the server to objects in d; unity chunks first, per file as fall-back."""
    cflags = BASE + VARIANTS[variant][0]
    srcs = [s for s in sources() if os.path.basename(s) not in exclude]
    n = 10
    chunks = [[0, []] for _ in range(n)]
    for s in sorted(srcs, key=os.path.getsize, reverse=True):
        c = min(chunks, key=lambda c: c[0])
        c[0] += os.path.getsize(s) + 15000
        c[1].append(s)
    objs, cmds = [], []
    for i, (_, ss) in enumerate(chunks):
        if not ss:
            continue
        u = f"{d}/u{i}.cpp"
        with open(u, "w") as f:
            for s in ss:
                f.write(f'#include "{s}"\n')
        o = f"{d}/u{i}.o"
        objs.append(o)
        cmds.append(["g++", *cflags, "-c", u, "-o", o])
    if not _compile(cmds):
        return objs
    objs, cmds = [], []
    for s in srcs:
        o = f"{d}/{os.path.basename(s)}.o"
        objs.append(o)
        cmds.append(["g++", *cflags, "-c", s, "-o", o])
    bad = _compile(cmds)
    if bad:
        raise BuildError(bad[0].stdout[-4000:])
    return objs


def build_server(variant="rel"):
    """Returns the path of a flashmq binary with the shim linked in."""
    os.makedirs(OUT, exist_ok=True)
    with open(f"{OUT}/.lock-{variant}", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = tree_hash()
        final = f"{OUT}/{variant}-{key}"
        exe = final + "/flashmq"
        if os.path.exists(exe):
            return exe
        for old in glob.glob(f"{OUT}/{variant}-*"):
            if not os.environ.get("FMQ_KEEP_BUILDS"):
                shutil.rmtree(old, ignore_errors=True)
        tmp = f"{OUT}/tmp-{variant}-{os.getpid()}"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        shim = f"{tmp}/shim.o"
        r = run(["gcc", "-O2", "-w", "-c", HERE + "/shim.c", "-o", shim, "-fvisibility=default"])
        if r.returncode:
            raise BuildError(r.stdout)
        objs = objects(variant, tmp)
        r = run(["g++", *objs, shim, "-o", tmp + "/flashmq", *VARIANTS[variant][1], *LINK])
        if r.returncode:
            raise BuildError(r.stdout[-4000:])
        for o in objs:
            os.unlink(o)
        os.rename(tmp, final)
        return exe


if __name__ == "__main__":
    for v in sys.argv[1:] or ["rel"]:
        print(build_server(v))
