#!/usr/bin/env python3
"""Builds the simulator executable of one property (or all) from /repo's working tree, out of tree."""
import os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
B = os.environ.get("SIM_BUILD", os.path.join(V, "build"))

# Scenario sources besides scn/<id>.cpp; a property is built when scn/<id>.cpp exists.
EXTRA = {}

def props():
    return sorted(f[:-4] for f in os.listdir(os.path.join(V, "scn")) if f.endswith(".cpp") and f[0] == "C" and f[1:3].isdigit())

def extras(p):
    """Common scenario sources are named in a line '// uses: a.cpp b.cpp' of the scenario."""
    for line in open(os.path.join(V, "scn", p + ".cpp")):
        if line.startswith("// uses:"):
            return line.split(":", 1)[1].split()
    return []

def esc(p): return p.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")

def generate():
    os.makedirs(B, exist_ok=True)
    san = "-fsanitize=address -fsanitize-coverage=trace-pc --param asan-instrumentation-with-call-threshold=0"
    inc = f"-I{REPO}/external -I{REPO}/external/json -I{REPO}/src -I{REPO}/src/core -I{REPO}/external/gidpost"
    common = f"-Og -g0 -w -fno-omit-frame-pointer -no-pie -fno-pie {san} {inc} -DOPENSEMBA_VERSION='\"0.14\"'"
    n = [f"builddir = {B}",
         f"rule repocxx\n command = g++ -std=gnu++11 {common} -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc",
         f"rule repocc\n command = gcc {common} -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc",
         f"rule scn\n command = g++ -std=gnu++14 {common} -I{V} -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc",
         f"rule core\n command = g++ -std=gnu++17 -O1 -g0 -w -fno-pie -I{V} -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc",
         "rule ar\n command = rm -f $out && ar crs $out $in",
         "rule link\n command = g++ -no-pie -rdynamic -fsanitize=address -o $out $in $libs -ldl"]
    objs = []
    for root in (f"{REPO}/src", f"{REPO}/external/gidpost"):
        for d, dirs, files in os.walk(root):
            dirs.sort()
            for f in sorted(files):
                s = os.path.join(d, f)
                o = f"{B}/repo/" + os.path.relpath(s, REPO) + ".o"
                if f.endswith((".cpp", ".cc", ".cxx")): n.append(f"build {esc(o)}: repocxx {esc(s)}")
                elif f.endswith(".c"): n.append(f"build {esc(o)}: repocc {esc(s)}")
                else: continue
                objs.append(o)
    # The JSON reader is by far the slowest to compile and is needed by some properties only.
    slow = [o for o in objs if "/parser/json/" in o]
    rest = [o for o in objs if o not in slow]
    n.append(f"build {B}/librepo.a: ar " + " ".join(map(esc, rest)))
    n.append(f"build {B}/libjson.a: ar " + " ".join(map(esc, slow)))
    core = []
    for c in ("core", "fs", "io"):
        n.append(f"build {B}/{c}.o: core {V}/sim/{c}.cpp"); core.append(f"{B}/{c}.o")
    done = set()
    for p in props():
        so = []
        for s in [p + ".cpp"] + extras(p):
            o = f"{B}/scn/{s}.o"
            if s not in done: n.append(f"build {o}: scn {V}/scn/{s}"); done.add(s)
            so.append(o)
        json = any(x.startswith("json") for x in extras(p)) or "usesjson" in open(f"{V}/scn/{p}.cpp").read(3000)
        libs = (f"{B}/libjson.a " if json else "") + f"{B}/librepo.a"
        n.append(f"build {B}/{p}: link {' '.join(so)} | {libs} {' '.join(core)}\n libs = -Wl,--start-group {libs} -Wl,--end-group {' '.join(core)}")
    text = "\n".join(n) + "\n"
    path = f"{B}/build.ninja"
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)

def build(targets):
    generate()
    r = subprocess.run(["ninja", "-C", B] + [f"{B}/{t}" for t in targets], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(r.stdout[-6000:])
    return r.returncode

if __name__ == "__main__":
    sys.exit(build(sys.argv[1:] or props()))
