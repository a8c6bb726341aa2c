#!/usr/bin/env python3
"""check.py ID: decide one property from /repo's current sources.

Compiles every built source file of /repo to LLVM bitcode with the flags of the
real build, links it, runs the analysis of the property over it and reports.
Exit 0: holds.  Exit 1 and a VIOLATION line: broken.  Exit 2: no answer.
"""
import concurrent.futures, json, os, shlex, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TOOL = os.path.join(VERIF, "build", "atcheck")
LLVM = "/usr/lib/llvm-18/bin"
sys.path.insert(0, VERIF)
from rules import RULES  # what each check looks at, in words


class Broken(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if p.returncode:
        raise Broken("%s failed (%d):\n%s" % (" ".join(map(str, cmd[:6])), p.returncode, p.stdout[-3000:]))
    return p.stdout


def llvm(tool):
    for c in (os.path.join(LLVM, tool), tool + "-18", tool):
        if shutil.which(c):
            return shutil.which(c)
    raise Broken(tool + " not found")


def compile_commands(tmp):
    env = dict(os.environ, CC="gcc", CXX="g++")
    for v in ("CFLAGS", "CXXFLAGS", "LDFLAGS"):
        env.pop(v, None)
    b = os.path.join(tmp, "cmake")
    run(["cmake", "-S", "/opt/vp/wrapper", "-B", b, "-DCMAKE_BUILD_TYPE=RelWithDebInfo",
         "-DCMAKE_C_FLAGS_RELWITHDEBINFO=-O2 -g", "-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=-O2 -g",
         "-DCMAKE_C_COMPILER=gcc", "-DCMAKE_CXX_COMPILER=g++", "-DCMAKE_DISABLE_FIND_PACKAGE_ImageMagick=ON",
         "-DINSTALL_GTEST=OFF", "-DBUILD_GMOCK=OFF", "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON"], env=env)
    return json.load(open(os.path.join(b, "compile_commands.json")))


def bitcode(entry, out):
    args = shlex.split(entry["command"])
    src = entry["file"]
    cxx = src.endswith((".cpp", ".cc", ".cxx"))
    cmd = [llvm("clang++" if cxx else "clang")]
    it = iter(args[1:])
    for a in it:
        if a == "-o":
            next(it)
        elif a == "-c" or a == src or a.startswith(("-O", "-g")):
            continue
        else:
            cmd.append(a)
    cmd += ["-O1", "-Xclang", "-disable-llvm-passes", "-fno-builtin", "-g", "-fno-discard-value-names",
            "-emit-llvm", "-w", "-c", src, "-o", out]
    run(cmd, cwd=entry["directory"])
    return out


def module(kind, tmp):
    """'main': library and command line program; 'wrap': library and C++ wrapper"""
    src = os.path.join(REPO, "src")
    todo = []
    for e in compile_commands(tmp):
        f = os.path.realpath(e["file"])
        rel = os.path.relpath(f, os.path.realpath(src))
        if rel.startswith("..") or rel.startswith("test_wrapper"):
            continue
        wrapper = rel.startswith("wrapper" + os.sep)
        cli = "autotrace.dir" in e["command"] and "libautotrace" not in e["command"]
        if os.path.basename(f) == "autotraceMain.cpp" or (kind == "main" and wrapper) or (kind == "wrap" and cli):
            continue
        todo.append(e)
    if kind == "wrap":
        for e in todo:
            if os.path.basename(e["file"]) == "FittingOptions.cpp":
                probe = os.path.join(VERIF, "probe", "probe.cpp")
                todo.append(dict(e, file=probe, command=e["command"].replace(e["file"], probe)))
                break
        else:
            raise Broken("the source file of the fitting options was not found in the build")
    if len(todo) < 10:
        raise Broken("only %d source files found in the build" % len(todo))
    outs = []
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        fs = [ex.submit(bitcode, e, os.path.join(tmp, "%d.bc" % i)) for i, e in enumerate(todo)]
        outs = [f.result() for f in fs]
    linked = os.path.join(tmp, "all.bc")
    run([llvm("llvm-link"), "-o", linked] + outs)
    return linked, len(outs)


def known_findings(pid):
    r = {}
    try:
        for line in open(os.path.join(VERIF, "known-findings.txt")):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                key, _, what = line.split(" ", 2)[2].partition(" :: ")
                r[key.strip()] = what.strip()
    except FileNotFoundError:
        pass
    return r


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    t0 = time.time()
    rule = RULES[pid]
    run(["make", "-s", "-j8", "-C", os.path.join(VERIF, "tools")])
    os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="run-", dir=os.path.join(VERIF, "build"))
    try:
        linked, ntu = module(rule.get("module", "main"), tmp)
        p = subprocess.run([TOOL, linked, pid, tier], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                           timeout=840 if tier == "quick" else 7000)
        if p.returncode:
            raise Broken("analysis ended with %d:\n%s" % (p.returncode, p.stderr[-2000:]))
        res = json.loads(p.stdout)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    known = known_findings(pid)
    new, old = [], []
    for f in res["findings"]:
        (old if f["id"] in known else new).append(f)
    counts = dict(res["counts"])
    cov = {"explanation": rule["explanation"], "rule": rule["rule"], "translation units": ntu, "measured": counts,
           "findings": len(res["findings"]), "known findings": len(old)}
    if res.get("samples"):
        cov["samples"] = res["samples"]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": rule.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
        fh.write("\n")
    print("%s: %s" % (pid, ", ".join("%s %s" % (v, k) for k, v in sorted(counts.items()))))
    for f in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, known[f["id"]]))
    replay = os.path.join(VERIF, "evidence", pid + ".violations.txt")
    if os.path.exists(replay):
        os.remove(replay)
    if new:
        with open(replay, "w") as fh:
            for f in new:
                fh.write("%s: in %s: [%s] %s\n    id: %s\n" % (f["where"], f["function"], f["rule"], f["message"], f["id"]))
        for f in new[:20]:
            print("%s: in %s: [%s] %s" % (f["where"], f["function"], f["rule"], f["message"]))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    if res["broken"]:
        for b in res["broken"]:
            print("analysis broken: " + b)
        return 2
    if not any(counts.values()):
        print("analysis broken: nothing was analysed")
        return 2
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        print("error: %s" % e)
        sys.exit(2)
    except subprocess.TimeoutExpired:
        print("error: the analysis took too long")
        sys.exit(2)
    except Exception as e:
        print("error: %s: %s" % (type(e).__name__, e))
        sys.exit(2)
