#!/usr/bin/env python3
"""Builds the real sources of /repo/src (every .cc, including the three that the
repository's own build leaves out here) plus one harness, under a sanitizer.

Nothing is written to /repo.  Objects live in /verif/build (git-ignored), named
by the hash of everything that goes into them, so a changed tree is always
recompiled and an unchanged one never is."""
import concurrent.futures as cf, fcntl, glob, hashlib, os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CXX = "/usr/bin/g++"
COMMON = ["-std=c++17", "-g1", "-fno-omit-frame-pointer", "-include", "cstdint",
          "-DINCLUDE_FILESYSTEM=1", "-D_GLIBCXX_ASSERTIONS",
          "-I" + os.path.join(VERIF, "shim"), "-I" + REPO + "/src",
          "-I" + REPO + "/extern/hgdb/include", "-w", "-Wno-psabi"]
KINDS = {
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize=vptr",
             "-fno-sanitize-recover=all"],
    "tsan": ["-O1", "-fsanitize=thread"],
    "plain": ["-O1"],
}
# guard of the off-by-default hooks (none needed so far)
HOOKS = []


class BuildError(Exception):
    pass


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _hdr_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for p in sorted(glob.glob(d + "/**/*.h*", recursive=True)):
            h.update(p.encode() + b"\0" + _read(p))
    return h.hexdigest()


def compile_one(src, flags, salt):
    key = hashlib.sha256(("\0".join(flags) + salt).encode() + b"\0" + os.path.basename(src).encode() + _read(src)).hexdigest()[:24]
    obj = os.path.join(BUILD, os.path.basename(src) + "." + key + ".o")
    if os.path.exists(obj):
        os.utime(obj)
        return obj
    tmp = obj + ".%d.tmp" % os.getpid()
    r = subprocess.run([CXX, *flags, "-c", src, "-o", tmp], capture_output=True, text=True)
    if r.returncode:
        raise BuildError("compile of %s failed:\n%s" % (src, r.stderr[-6000:]))
    os.rename(tmp, obj)
    return obj


def build(kind, harness, extra_flags=()):
    """-> path of the executable"""
    os.makedirs(BUILD, exist_ok=True)
    flags = COMMON + KINDS[kind] + list(HOOKS) + list(extra_flags)
    srcs = sorted(glob.glob(REPO + "/src/*.cc"))
    if not srcs:
        raise BuildError("no sources in " + REPO)
    hs = [os.path.join(VERIF, "harness", h) for h in harness]
    salt = _hdr_hash([REPO + "/src", REPO + "/extern/hgdb/include", VERIF + "/shim"])
    hsalt = salt + _hdr_hash([VERIF + "/harness"])
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with cf.ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as ex:
            # biggest first
            order = sorted(srcs, key=lambda p: -os.path.getsize(p))
            f1 = [ex.submit(compile_one, s, flags, salt) for s in order]
            f2 = [ex.submit(compile_one, s, flags + ["-I" + VERIF + "/harness"], hsalt) for s in hs]
            objs = sorted(f.result() for f in f1)
            hobj = [f.result() for f in f2]
        h = hashlib.sha256("\0".join(flags + objs + hobj).encode()).hexdigest()[:24]
        exe = os.path.join(BUILD, "%s.%s.%s" % (os.path.splitext(harness[0])[0], kind, h))
        if not os.path.exists(exe):
            tmp = exe + ".tmp"
            r = subprocess.run([CXX, *KINDS[kind], "-o", tmp, *hobj, *objs, "-lfmt", "-lstdc++fs", "-lpthread"],
                               capture_output=True, text=True)
            if r.returncode:
                raise BuildError("link failed:\n" + r.stderr[-6000:])
            os.rename(tmp, exe)
        return exe


if __name__ == "__main__":
    try:
        print(build(sys.argv[1], sys.argv[2:]))
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(3)
