"""Builds toywasm library variants and harness binaries from /repo's current
working tree.  Everything is keyed by content, so a change in what is compiled
is always seen and nothing depends on file times."""
import concurrent.futures
import fcntl
import hashlib
import re
import os
import shutil
import subprocess
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")
JOBS = os.environ.get("VERIF_BUILD_JOBS", str(os.cpu_count() or 8))

FEATURES = {
    "TOYWASM_ENABLE_WASM_EXCEPTION_HANDLING": "ON",
    "TOYWASM_ENABLE_WASM_EXTENDED_CONST": "ON",
    "TOYWASM_ENABLE_WASM_MULTI_MEMORY": "ON",
    "TOYWASM_ENABLE_WASM_TAILCALL": "ON",
    "TOYWASM_ENABLE_WASM_THREADS": "ON",
    "TOYWASM_ENABLE_WASI_THREADS": "ON",
    "TOYWASM_ENABLE_WASM_CUSTOM_PAGE_SIZES": "ON",
    "TOYWASM_ENABLE_DYLD": "ON",
    "TOYWASM_ENABLE_DYLD_DLFCN": "ON",
}
SMALL = {
    "TOYWASM_ENABLE_WASI_THREADS": "OFF",
    "TOYWASM_ENABLE_DYLD": "OFF",
    "TOYWASM_ENABLE_DYLD_DLFCN": "OFF",
    "TOYWASM_ENABLE_WASI": "OFF",
}
ALT = {
    "TOYWASM_USE_SEPARATE_EXECUTE": "OFF",
    "TOYWASM_USE_TAILCALL": "OFF",
    "TOYWASM_USE_JUMP_BINARY_SEARCH": "OFF",
    "TOYWASM_USE_JUMP_CACHE": "ON",
    "TOYWASM_JUMP_CACHE2_SIZE": "0",
    "TOYWASM_USE_LOCALS_CACHE": "OFF",
    "TOYWASM_USE_SEPARATE_LOCALS": "OFF",
    "TOYWASM_USE_LOCALS_FAST_PATH": "OFF",
    "TOYWASM_SORT_EXPORTS": "OFF",
}
NOCELL = {
    "TOYWASM_USE_SMALL_CELLS": "OFF",
    "TOYWASM_ENABLE_WASM_EXCEPTION_HANDLING": "OFF",
    "TOYWASM_USE_RESULTTYPE_CELLIDX": "OFF",
    "TOYWASM_USE_LOCALTYPE_CELLIDX": "OFF",
    "TOYWASM_USE_LOCALS_FAST_PATH": "OFF",
}
ASAN = dict(asan=True, opt="-O1 -gline-tables-only", ndebug=False)
REL = dict(asan=False, opt="-O2", ndebug=True)

# name: (build kind, cmake options)
VARIANTS = {
    # everything, sanitised, assertions on (which also injects restarts)
    "asan": (ASAN, {}),
    # everything, optimised, no assertions: as shipped
    "rel": (REL, {}),
    # everything, sanitised, no assertions (no injected restarts)
    "asanrel": (dict(asan=True, opt="-O1 -gline-tables-only", ndebug=True), {}),
    "core-rel": (REL, SMALL),
    # the other choice for every speed/memory trade-off
    "alt": (REL, dict(SMALL, **ALT)),
    "alt-asan": (ASAN, dict(SMALL, **ALT)),
    "nocell": (REL, dict(SMALL, **NOCELL)),
    "nosimd": (REL, dict(SMALL, TOYWASM_ENABLE_WASM_SIMD="OFF")),
    # with the command line front end
    "cli": (dict(REL, cli=True), {}),
    "cli-asan": (dict(ASAN, cli=True), {}),
    # thread sanitizer instrumentation, linked against our own runtime
    "sched": (dict(asan=False, opt="-O1 -gline-tables-only", ndebug=False, tsan=True), {}),
    "sched-prealloc": (dict(asan=False, opt="-O1 -gline-tables-only", ndebug=False, tsan=True),
                       {"TOYWASM_PREALLOC_SHARED_MEMORY": "ON"}),
}
LIBS = ["libdyld/libtoywasm-dyld.a", "libwasi_threads/libtoywasm-wasi-threads.a",
        "libwasi/libtoywasm-wasi.a", "lib/libtoywasm-core.a"]


def log(*a):
    print("[build]", *a, file=sys.stderr, flush=True)


def _hash_tree(h, root, exts=None):
    for d, dirs, files in os.walk(root):
        dirs.sort()
        dirs[:] = [x for x in dirs if not x.startswith(".") and not x.startswith("build")]
        for f in sorted(files):
            if exts and not f.endswith(exts):
                continue
            p = os.path.join(d, f)
            h.update(os.path.relpath(p, root).encode() + b"\0")
            with open(p, "rb") as fp:
                h.update(hashlib.sha256(fp.read()).digest())


def repo_hash():
    h = hashlib.sha256()
    for sub in ("lib", "libwasi", "libwasi_threads", "libdyld", "cmake", "cli"):
        p = os.path.join(REPO, sub)
        if os.path.isdir(p):
            h.update(sub.encode())
            _hash_tree(h, p)
    for f in ("CMakeLists.txt",):
        with open(os.path.join(REPO, f), "rb") as fp:
            h.update(fp.read())
    return h.hexdigest()


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.p = os.path.join(BUILD, name + ".lock")

    def __enter__(self):
        self.f = open(self.p, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return self

    def __exit__(self, *a):
        self.f.close()


class BuildError(Exception):
    pass


def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout


def _kind_flags(kind):
    fl = kind["opt"].split()
    if kind.get("ndebug"):
        fl.append("-DNDEBUG")
    if kind.get("asan"):
        fl += ["-fsanitize=address", "-fno-omit-frame-pointer"]
    if kind.get("tsan"):
        fl += ["-fsanitize=thread"]
    return fl


def _gc(prefix, keep):
    for e in os.listdir(BUILD):
        if re.fullmatch(re.escape(prefix) + "[0-9a-f]{16}", e) and e != keep:
            p = os.path.join(BUILD, e)
            if os.path.isdir(p):
                shutil.rmtree(p, ignore_errors=True)


def build_lib(variant):
    kind, opts = VARIANTS[variant]
    allopts = dict(FEATURES)
    allopts.update(opts)
    key = hashlib.sha256((repo_hash() + repr(sorted(allopts.items())) + repr(sorted(kind.items()))).encode()).hexdigest()[:16]
    name = "lib-%s-%s" % (variant, key)
    d = os.path.join(BUILD, name)
    stamp = os.path.join(d, ".done")
    with Lock("lib-" + variant):
        if os.path.exists(stamp):
            return d
        if os.path.isdir(d):
            shutil.rmtree(d)
        _gc("lib-%s-" % variant, name) if not os.environ.get("VERIF_KEEP_BUILDS") else None
        log("library variant", variant)
        fl = " ".join(_kind_flags(kind))
        cmd = ["cmake", "-S", REPO, "-B", d, "-G", "Ninja",
               "-DCMAKE_C_COMPILER=clang-18", "-DCMAKE_BUILD_TYPE=None",
               "-DCMAKE_C_FLAGS_NONE=" + fl, "-DCMAKE_C_FLAGS=" + fl,
               "-DUSE_ASAN=OFF", "-DUSE_IPO=OFF", "-DBUILD_TESTING=OFF",
               "-DTOYWASM_BUILD_UNITTEST=OFF", "-DTOYWASM_BUILD_CLI=" + ("ON" if kind.get("cli") else "OFF"),
               "-DTOYWASM_EXTRA_CFLAGS=-Wno-error"]
        cmd += ["-D%s=%s" % kv for kv in sorted(allopts.items())]
        _run(cmd)
        _run(["ninja", "-C", d, "-j", JOBS])
        with open(stamp, "w") as f:
            f.write(key)
    return d


def compile_obj(src, san, defs, extra, lib):
    """One object file, keyed by the harness sources, flags and (when it uses
    library headers) the library build."""
    p = os.path.join(HARNESS, src)
    h = hashlib.sha256()
    _hash_tree(h, os.path.join(HARNESS, "common"))
    with open(p, "rb") as f:
        h.update(f.read())
    h.update(repr((src, san, defs, extra, os.path.basename(lib) if lib else "")).encode())
    stem = "obj-%s" % src.replace("/", "_")
    name = "%s-%s.o" % (stem, h.hexdigest()[:16])
    o = os.path.join(BUILD, name)
    with Lock(name):
        if os.path.exists(o):
            return o
        cmd = ["clang-18", "-std=gnu11", "-O1"] if src.endswith(".c") else ["clang++-18", "-std=c++20", "-O2"]
        cmd += ["-g1", "-fshort-enums", "-pthread", "-D_GNU_SOURCE", "-I" + HARNESS + "/common"]
        if lib:
            cmd += ["-I" + REPO + "/lib", "-I" + lib, "-I" + lib + "/lib", "-I" + REPO + "/libwasi",
                    "-I" + REPO + "/libwasi_threads", "-I" + REPO + "/libdyld"]
        cmd += list(san) + list(defs) + list(extra) + ["-c", p, "-o", o + ".tmp"]
        _run(cmd)
        os.rename(o + ".tmp", o)
    os.unlink(os.path.join(BUILD, name + ".lock"))
    return o


def build_harness(name, variant, srcs, defs=(), cxxflags=(), ldflags=(), csrcs=("common/tw.c",), libinc=False):
    """srcs: C++ sources relative to harness/; they see library headers only
    with libinc."""
    kind, opts = VARIANTS[variant]
    san = tuple(x for x in _kind_flags(kind) if x.startswith("-fsanitize=address"))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        pre = [] if libinc else [ex.submit(compile_obj, x, san, tuple(defs), tuple(cxxflags), None) for x in srcs]
        lib = build_lib(variant)
        if libinc:
            pre = [ex.submit(compile_obj, x, san, tuple(defs), tuple(cxxflags), lib) for x in srcs]
        pre += [ex.submit(compile_obj, x, san, tuple(defs), (), lib) for x in csrcs]
        objs = [f.result() for f in pre]
    h = hashlib.sha256()
    h.update(repr((os.path.basename(lib), name, objs, ldflags)).encode())
    dn = "bin-%s-%s-%s" % (name, variant, h.hexdigest()[:16])
    d = os.path.join(BUILD, dn)
    out = os.path.join(d, name)
    with Lock("bin-%s-%s" % (name, variant)):
        if os.path.exists(os.path.join(d, ".done")):
            return out
        if os.path.isdir(d):
            shutil.rmtree(d)
        _gc("bin-%s-%s-" % (name, variant), dn) if not os.environ.get("VERIF_KEEP_BUILDS") else None
        os.makedirs(d)
        libs = [os.path.join(lib, x) for x in LIBS if os.path.exists(os.path.join(lib, x))]
        _run(["clang++-18"] + list(san) + ["-pthread", "-o", out] + objs + list(ldflags) + ["-Wl,--start-group"] + libs + ["-Wl,--end-group", "-lm"])
        with open(os.path.join(d, ".done"), "w") as f:
            f.write("ok")
    return out
