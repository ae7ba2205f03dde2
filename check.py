#!/usr/bin/env python3
"""Build the library from /repo's working tree and run one generated-input check against it.

usage: check.py ID [--tier quick|thorough] [--replay FILE] [-- extra harness options]
"""
import fcntl, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DISIR_REPO", "/repo")
BUILD = os.environ.get("DISIR_BUILD", os.path.join(HERE, "build"))
HARNESS = os.path.join(HERE, "harness")
KNOWN = os.path.join(HERE, "known_findings.txt")
SAN = "-fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer"
# locals without a value hold the same odd one in every run
CFLAGS = "-w -g1 -O1 -ftrivial-auto-var-init=pattern " + SAN
HFLAGS = ("-std=c++14 -w -g1 -O1 -pthread " + SAN).split()
WRAPS = ["-Wl,--wrap=fopen"]

CHANGES = ["-Wl,--wrap=" + f for f in ("write", "rename", "fclose", "unlink", "remove", "mkdir")]
MORE_WRAPS = {"C21": CHANGES, "C22": CHANGES,
              "C24": ["-Wl,--wrap=rename", "-Wl,--wrap=remove", "-Wl,--wrap=fclose"],
              "C30": ["-Wl,--export-dynamic-symbol=c30_called"]}

# checks that need more than the static library
NEEDS = {"C29": ["cli", "dplugin_json"],
         "C30": ["dplugin_json", "dplugin_toml", "dplugin_test"]}
STUBS = {"C30": {"plug_C30.so": ["plug_C30.c"], "plug_C30_none.so": ["plug_C30.c", "-DNO_SYMBOL"]}}


def die(msg, code=3):
    print("check.py: " + msg, file=sys.stderr)
    sys.exit(code)


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        die("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout


def build_library(targets):
    out = os.path.join(BUILD, "lib")
    os.makedirs(out, exist_ok=True)
    inc = os.path.join(HERE, "harness", "inc.cmake")
    if not os.path.exists(os.path.join(out, "build.ninja")):
        run(["cmake", "-S", REPO, "-B", out, "-G", "Ninja", "-Wno-dev",
             "-DCMAKE_C_COMPILER=gcc", "-DCMAKE_CXX_COMPILER=g++", "-DCMAKE_BUILD_TYPE=None",
             "-DCMAKE_C_FLAGS=" + CFLAGS, "-DCMAKE_CXX_FLAGS=" + CFLAGS + " -include string",
             "-DCMAKE_PROJECT_disir_INCLUDE=" + inc])
    run(["ninja", "-C", out] + targets)
    return os.path.join(out, "lib", "libdisir_static.a") if os.path.exists(
        os.path.join(out, "lib", "libdisir_static.a")) else find(out, "libdisir_static.a")


def find(root, name):
    for d, _, fs in os.walk(root):
        if name in fs:
            return os.path.join(d, name)
    die("no %s under %s" % (name, root))


def newer(src, obj, deps):
    if not os.path.exists(obj):
        return True
    t = os.path.getmtime(obj)
    return any(os.path.exists(f) and os.path.getmtime(f) > t for f in [src] + deps)


def headers():
    hs = [os.path.join(HARNESS, f) for f in os.listdir(HARNESS) if f.endswith(".h")]
    for d, _, fs in os.walk(os.path.join(REPO, "include")):
        hs += [os.path.join(d, f) for f in fs]
    return hs


def compile_one(src, hs):
    obj = os.path.join(BUILD, "obj", os.path.basename(src) + ".o")
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    if newer(src, obj, hs):
        inc = ["-I" + os.path.join(REPO, "include"), "-I" + HARNESS]
        run(["g++"] + HFLAGS + inc + ["-c", src, "-o", obj])
    return obj


def build(pid):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        srcs = [os.path.join(HARNESS, f) for f in ("core.cc", "model.cc", "text.cc", "jsonast.cc", "api.cc", "p_%s.cc" % pid)]
        targets = ["disir_static"] + NEEDS.get(pid, [])
        hs = headers()
        with ThreadPoolExecutor(4) as ex:
            lib = ex.submit(build_library, targets)
            objs = [ex.submit(compile_one, s, hs) for s in srcs]
            objs = [o.result() for o in objs]
            lib = lib.result()
        exe = os.path.join(BUILD, "check_" + pid)
        if newer(lib, exe, objs):
            run(["g++"] + HFLAGS + ["-o", exe] + objs + [lib, "-larchive", "-ldl"] + WRAPS + MORE_WRAPS.get(pid, []))
        for so, (src, *opts) in STUBS.get(pid, {}).items():
            run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-I" + os.path.join(REPO, "include")] + opts
                + [os.path.join(HARNESS, src), "-o", os.path.join(BUILD, so)])
        return exe


def known_findings(pid):
    """(tag, text) of the listed, unrepaired findings of this property."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) tag=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    a = sys.argv[1:]
    if not a:
        die(__doc__)
    if a[0] == "--build":
        for i in a[1:]:
            build(i)
        return
    pid = a.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    extra = []
    replay = None
    while a:
        x = a.pop(0)
        if x == "--tier":
            tier = a.pop(0)
        elif x == "--replay":
            replay = a.pop(0)
        elif x == "--":
            extra, a = a, []
        else:
            die("unknown option " + x)
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    exe = build(pid)
    tb = time.time() - t0
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=1:max_allocation_size_mb=4096"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=78"
    env["DISIR_LIBBUILD"] = os.path.join(BUILD, "lib")
    env["LC_ALL"] = "C"
    known = known_findings(pid)
    kn = [y for t, _ in known for y in ("--known", t)]
    if replay:
        sys.exit(subprocess.run([exe, "--replay", replay] + kn + extra, env=env).returncode)
    rdir = os.path.join(HERE, "replays")
    os.makedirs(rdir, exist_ok=True)
    stats = os.path.join(BUILD, "stats_%s.json" % pid)
    if os.path.exists(stats):
        os.unlink(stats)
    limit = 240 if tier == "quick" else 600
    cmd = [exe, "--seed", str(seed), "--tier", tier, "--jobs", str(min(8, os.cpu_count() or 8)),
           "--out", stats, "--replay-dir", rdir, "--maxtime", str(limit)] + kn + extra
    r = subprocess.run(cmd, env=env)
    if r.returncode not in (0, 1, 4) or not os.path.exists(stats):
        die("harness gave no verdict (exit %d)" % r.returncode)
    st = json.load(open(stats))
    labels = st["labels"]
    for tag, text in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, text))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": st["evaluations"],
            "distinct_nontrivial": st["distinct_nontrivial"],
            "rule": st["rule"],
            "samples": st["samples"],
            "discarded": st["discarded"],
            "fixed_regressions": st["fixed_regressions"],
            "labels": labels,
            "known_finding_hits": {t: labels.get("known:" + t, 0) for t, _ in known},
            "build_s": round(tb, 1), "search_s": round(st["wall_s"], 1),
        },
        "assumptions": [
            "the library is built from /repo's working tree by its own CMake files, with gcc -O1 and AddressSanitizer/UndefinedBehaviorSanitizer; a sanitizer report, a crash or a hang (20 s CPU per case) counts as a violation",
            "the log destination /var/log/disir.log is redirected to /dev/null at fopen; log formatting still runs",
            "only the choices the generators can make are explored; see the rule and DESIGN.md for the bounds",
        ],
        "wall_s": round(time.time() - t0, 1),
        "violations": st["violations"],
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if r.returncode == 1:
        sys.exit(1)
    print("%s: held on %d cases (%d distinct non-trivial), %.1f s build, %.1f s search"
          % (pid, st["evaluations"], st["distinct_nontrivial"], tb, st["wall_s"]))
    sys.exit(0)


main()
