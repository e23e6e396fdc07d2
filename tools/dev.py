#!/usr/bin/env python3
"""dev.py <harness> <variant> [args...]: build one harness and run it."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild, registry
name, variant = sys.argv[1:3]
kw = {}
if name.startswith("wasi"):
    kw["csrcs"] = registry.WASIC
if name.startswith("thr"):
    kw["csrcs"] = registry.THRC
    kw["ldflags"] = registry.WRAPMS
if name == "thrfd":
    kw["csrcs"] = registry.THRC + ("common/wasic.c",)
    kw["ldflags"] = registry.WRAPMS + registry.WRAPCLOSE
if name == "oom":
    kw.update(csrcs=registry.OOMC, ldflags=registry.WRAPOOM, defs=("-DVERIF_OOM",))
if name == "dyld":
    kw.update(csrcs=registry.DYLDC, ldflags=registry.WRAPDYLD)
if name == "wasimisc":
    kw["ldflags"] = ["-Wl,--wrap=clock_gettime", "-Wl,--wrap=clock_getres", "-Wl,--wrap=poll", "-Wl,--wrap=ppoll", "-Wl,--wrap=getrandom"]
for c in registry.CHECKS.values():
    for r in c["runs"]:
        if r["harness"] == name:
            kw = {k: r[k] for k in ("defs", "cxxflags", "ldflags", "csrcs", "libinc") if k in r}
exe = vbuild.build_harness(name, variant, [name + ".cpp"], **kw)
os.environ.setdefault("ASAN_OPTIONS", "detect_leaks=0:allocator_may_return_null=1")
import json, subprocess
if variant.startswith("cli"):
    sys.argv += ["--cli", os.path.join(vbuild.build_lib(variant), "toywasm")]
r = subprocess.run([exe] + sys.argv[3:], stdout=subprocess.PIPE)
try:
    d = json.loads(r.stdout)
except ValueError:
    sys.stdout.buffer.write(r.stdout)
    print("exit", r.returncode)
    sys.exit(1)
print("%s/%s cases %d/%d exhaustive=%s distinct=%d %.1fs %s" % (name, variant, d["cases"], d["cases_total"], d["exhaustive"], d["distinct"], d["wall_s"], d["counters"]))
for v in d["violations"][:int(os.environ.get("NV", "4"))]:
    print("VIOLATION case %d kind %d: %s" % (v["case"], v["kind"], v["text"][:int(os.environ.get("VL", "1500"))]))
