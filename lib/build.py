"""Builds the real sources of /repo (current working tree) together with the harness.

Objects are cached under /verif/build by the hash of everything that went into them (compiler, flags,
the source, every header of the repository and of the harness), so a cached object is never stale."""
import hashlib, os, subprocess, sys, tempfile, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

FLAVORS = {
    "plain": ["-O1", "-g", "-D_GLIBCXX_ASSERTIONS"],
    "asan": ["-O1", "-g", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    "memcheck": ["-O1", "-g", "-D_GLIBCXX_ASSERTIONS"],   # the plain program, run under valgrind
    "tsan": ["-O1", "-g", "-fsanitize=thread", "-fno-omit-frame-pointer"],
}
# program -> harness sources
PROGRAMS = {
    "vsim": ["sim.cc", "sim_main.cc", "rd.cc"],
    "vmod": ["mod_main.cc", "mod_table.cc", "mod_quorum.cc", "mod_conf.cc", "mod_storage.cc", "mod_log.cc", "mod_misc.cc", "mod_settings.cc", "mod_roles.cc", "mod_peer.cc", "rd.cc"],
    "vfuzz": ["mod_main.cc", "fuzz_main.cc", "rd.cc"],
    "vtsan": ["mod_main.cc", "tsan_main.cc", "rd.cc"],
}


class BuildError(Exception):
    pass


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def repo_sources():
    srcs, hdrs = [], []
    for d, ds, fs in os.walk(os.path.join(REPO, "src")):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(d, f)
            r = os.path.relpath(p, REPO)
            if f.endswith(".pb.cc") or f.endswith(".pb.h"):
                continue
            if f.endswith((".h", ".hpp", ".inc", ".proto")):
                hdrs.append(r)
            elif f.endswith((".cc", ".cpp", ".c")) and not f.endswith(("_test.cc", "_test_util.cc")):
                srcs.append(r)
    return srcs, hdrs


def build(program, flavor):
    """Returns the path of the built program."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        return _build(program, flavor)
    finally:
        lock.close()


def _build(program, flavor):
    srcs, hdrs = repo_sources()
    proto = os.path.join(REPO, "src/raftpb/raft.proto")
    cxx = os.environ.get("VERIF_CXX", "g++")
    ver = subprocess.run([cxx, "--version"], stdout=subprocess.PIPE, text=True).stdout.splitlines()[0]
    protohash = sha(read(proto), subprocess.run(["protoc", "--version"], stdout=subprocess.PIPE, text=True).stdout)
    gen = os.path.join(BUILD, "gen-" + protohash)
    if not os.path.exists(os.path.join(gen, "ok")):
        tmp = tempfile.mkdtemp(dir=BUILD)
        # the generated file is reached as "src/raftpb/raft.pb.h"
        run(["protoc", "--cpp_out=" + tmp, "-I", REPO, proto])
        open(os.path.join(tmp, "ok"), "w").close()
        if os.path.exists(gen):
            shutil.rmtree(gen)
        os.rename(tmp, gen)
    flags = ["-std=gnu++17"] + FLAVORS[flavor] + ["-I" + gen, "-I" + REPO, "-I" + VERIF]
    hh = sha(*[r for r in hdrs], *[read(os.path.join(REPO, r)) for r in hdrs])
    vh = sha(*[read(os.path.join(VERIF, "src", f)) for f in sorted(os.listdir(os.path.join(VERIF, "src"))) if f.endswith(".h")])
    objdir = os.path.join(BUILD, "obj")
    os.makedirs(objdir, exist_ok=True)
    jobs, objs = [], []

    def need(path, key):
        o = os.path.join(objdir, key + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((path, o))

    common = sha(ver, " ".join(flags).replace(gen, "GEN"), hh, protohash)
    for r in srcs:
        need(os.path.join(REPO, r), sha("repo", r, common, read(os.path.join(REPO, r))))
    need(os.path.join(gen, "src/raftpb/raft.pb.cc"), sha("pb", common))
    for f in PROGRAMS[program]:
        need(os.path.join(VERIF, "src", f), sha("verif", f, common, vh, read(os.path.join(VERIF, "src", f))))

    def comp(j):
        tmp = j[1] + ".tmp%d" % os.getpid()
        run([cxx] + flags + ["-c", j[0], "-o", tmp])
        os.rename(tmp, j[1])

    # large files first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        for _ in ex.map(comp, jobs):
            pass
    exe = os.path.join(BUILD, "%s-%s-%s" % (program, flavor, sha(*objs)))
    if not os.path.exists(exe):
        tmp = exe + ".tmp"
        run([cxx] + flags + objs + ["-o", tmp, "-lprotobuf", "-lpthread"])
        os.rename(tmp, exe)
    os.utime(exe)
    for o in objs:
        os.utime(o)
    prune()
    return exe


def prune(limit=900 << 20):
    """Keeps the cache small: the least recently used files go first."""
    fs = []
    for d in (BUILD, os.path.join(BUILD, "obj")):
        for f in os.listdir(d):
            p = os.path.join(d, f)
            if os.path.isfile(p) and not f.startswith("."):
                st = os.stat(p)
                fs.append((st.st_mtime, st.st_size, p))
    fs.sort(reverse=True)
    tot = 0
    for t, s, p in fs:
        tot += s
        if tot > limit:
            os.unlink(p)


if __name__ == "__main__":
    for a in sys.argv[1:]:
        prog, fl = a.split(":")
        print(build(prog, fl))
