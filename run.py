#!/usr/bin/env python3
"""Builds the harness of a property from /repo's working tree and runs it.

  run.py check C01 [--tier quick|thorough] [extra harness arguments]
  run.py replay FILE
  run.py build [C01 ...]
"""
import concurrent.futures
import glob
import hashlib
import os
import re
import shlex
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))

CXX = "clang++"
COMMON = ("-std=c++17 -g1 -fno-omit-frame-pointer -pthread -Wno-invalid-constexpr -w "
          "-fno-sanitize-recover=all")
LIBINC = f"-I{REPO}/include -I{REPO}/mdflib/src"
# Variant of the library: flags
VARIANTS = {
    "asan": "-O1 -fsanitize=address",
    "ubsan": "-O1 -fsanitize=address,bounds,null,return,unreachable,integer-divide-by-zero,alignment "
             "-fno-sanitize=alignment",
}
# harness -> (variant, extra sources, extra flags, extra libs)
DEFAULT = ("asan", [], "", "")
SPECIAL = {
    "C18": ("asan", [], "-I@REPO@/mdflib/src", ""),
    "C20": ("asan", ["@REPO@/mdflibrary/src/MdfExport.cpp"], "", ""),
    "C21": ("asan", sorted(glob.glob(REPO + "/mdf2csv/src/*.cpp")),
            "-I@REPO@/mdf2csv/src -Dmain=mdf2csv_main -std=c++20", "-lboost_program_options"),
}
special_file = os.path.join(VERIF, "src", "special.py")
if os.path.exists(special_file):
    exec(open(special_file).read())


def harnesses():
    return sorted(os.path.basename(f)[:-4] for f in glob.glob(VERIF + "/src/C[0-9][0-9]*.cpp"))


def digest(path, cache={}):
    if path not in cache:
        with open(path, "rb") as f:
            cache[path] = hashlib.sha256(f.read()).hexdigest()
    return cache[path]


def headers(dirs):
    """Content of all headers that a source may include."""
    h = hashlib.sha256()
    for d in dirs:
        for root, sub, files in os.walk(d):
            sub.sort()
            for f in sorted(files):
                if not f.endswith((".cpp", ".py")):
                    p = os.path.join(root, f)
                    h.update(p.encode() + digest(p).encode())
    return h.hexdigest()


def run(cmd):
    r = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise RuntimeError(cmd + "\n" + r.stdout[-6000:])


def compile_one(source, flags, key):
    """Objects are named by the content of everything they are made of, so
    that an object is never taken for another version of its source."""
    name = hashlib.sha256((flags + key + digest(source)).encode()).hexdigest()[:32]
    obj = f"{BUILD}/obj/{os.path.basename(source)}.{name}.o"
    if not os.path.exists(obj):
        tmp = f"{obj}.{os.getpid()}.tmp"
        run(f"{CXX} {flags} -c {source} -o {tmp}")
        os.replace(tmp, obj)
    return obj


def build(targets):
    os.makedirs(BUILD + "/obj", exist_ok=True)
    os.makedirs(BUILD + "/bin", exist_ok=True)
    lib = sorted(glob.glob(REPO + "/mdflib/src/*.cpp"))
    common = sorted(glob.glob(VERIF + "/src/common/*.cpp")) + [VERIF + "/src/vp.cpp"]
    key = {"lib": headers([REPO + "/include", REPO + "/mdflib/src"]), "own": headers([REPO + "/include", VERIF + "/src"])}
    jobs, plan = [], {}
    for h in targets:
        v, extra, xflags, xlibs = SPECIAL.get(h, DEFAULT)
        own = f"{COMMON} {VARIANTS[v]} -I{REPO}/include -I{VERIF}/src"
        todo = [(f"{VERIF}/src/{h}.cpp", f"{own} {xflags.replace('@REPO@', REPO)}", key["own"] + key["lib"])]
        todo += [(e.replace("@REPO@", REPO), f"{own} {xflags.replace('@REPO@', REPO)}", key["own"] + key["lib"] + headers({os.path.dirname(e.replace("@REPO@", REPO)) for e in extra})) for e in extra]
        todo += [(s, own, key["own"]) for s in common]
        todo += [(s, f"{COMMON} {VARIANTS[v]} {LIBINC}", key["lib"]) for s in lib]
        plan[h] = todo
        jobs += [t for t in todo if t not in jobs]
    try:
        with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count()) as pool:
            done = dict(zip(jobs, pool.map(lambda t: compile_one(*t), jobs)))

            def link(h):
                v, extra, xflags, xlibs = SPECIAL.get(h, DEFAULT)
                objs = [done[t] for t in plan[h]]
                tag = hashlib.sha256((" ".join(objs) + xlibs).encode()).hexdigest()
                out = f"{BUILD}/bin/{h}"
                if os.path.exists(out) and os.path.exists(out + ".tag") and open(out + ".tag").read() == tag:
                    return
                run(f"{CXX} {VARIANTS[v]} -pthread -rdynamic {' '.join(objs)} -o {out}.tmp {xlibs} -lz -lexpat -ldl")
                os.replace(out + ".tmp", out)
                with open(out + ".tag", "w") as f:
                    f.write(tag)

            list(pool.map(link, targets))
    except RuntimeError as e:
        print(e)
        print("the harness does not build against this tree")
        return False
    return True


def environment():
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:"
                           "detect_stack_use_after_return=0:handle_abort=0:symbolize=1:"
                           "max_allocation_size_mb=4096")
    env["UBSAN_OPTIONS"] = "print_stacktrace=1"
    sym = shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18")
    if sym:
        env["ASAN_SYMBOLIZER_PATH"] = sym
    env["TZ"] = "UTC"
    return env


def known_findings(prop):
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("KNOWN-FINDING: property=%s " % prop):
                yield line.strip()


def check(prop, args):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        i = args.index("--tier")
        tier = args[i + 1]
        del args[i:i + 2]
    seed = os.environ.get("VERIF_SEED", "1") or "1"
    if not build([prop]):
        return 2
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    cmd = [f"{BUILD}/bin/{prop}", "--tier", tier, "--seed", seed, "--evidence",
           f"{VERIF}/evidence/{prop}.json", "--replay-dir", f"{VERIF}/replays"] + args
    for line in known_findings(prop):
        print(line)
    sys.stdout.flush()
    return subprocess.run(cmd, env=environment()).returncode


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    what = sys.argv[1]
    if what == "build":
        return 0 if build(sys.argv[2:] or harnesses()) else 2
    if what == "check":
        return check(sys.argv[2], sys.argv[3:])
    if what == "replay":
        text = open(sys.argv[2]).read()
        prop = re.search(r"^property (\S+)", text, re.M).group(1)
        if not build([prop]):
            return 2
        return subprocess.run([f"{BUILD}/bin/{prop}", "--replay", sys.argv[2]], env=environment()).returncode
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
