#!/usr/bin/env python3
"""Build and run the checks.

  run.py P01 [--tier quick|thorough] [--seed N] [--replay FILE] [--law NAME] [--scale X]

Every run compiles the check against /repo's current working tree (objects are reused only when every
input - all of /repo/src, the harness, the flags - is byte-identical).
Exit 0: the property held on everything explored.  Exit 1: VIOLATION line printed.  Exit 2: no answer.
"""
import argparse, concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SPACEHUB_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
CXX = "g++"
BASE = ["-std=c++17", "-w", "-pthread"]


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def tree_hash():
    h = hashlib.sha256()
    root = os.path.join(REPO, "src")
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x != "taskflow")
        for f in sorted(fs):
            p = os.path.join(d, f)
            h.update(os.path.relpath(p, root).encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()


def read(p):
    with open(p, "rb") as f:
        return f.read()


def directives(path):
    out = {}
    for l in open(path):
        m = re.match(r"//:\s*(\w+)\s*(.*)", l)
        if m:
            out.setdefault(m.group(1), []).append(m.group(2).strip())
    return out


def build(prop):
    src = os.path.join(HERE, "checks", prop + ".cpp")
    d = directives(src)
    flags = " ".join(d.get("flags", ["-O1"])).split()
    lib = os.path.join(HERE, "lib")
    units = [(src, flags), (os.path.join(lib, "pbt_main.cpp"), ["-O1"])]
    if "harnessflags" in d:
        units[1] = (units[1][0], " ".join(d["harnessflags"]).split())
    for extra in d.get("also", []):
        for e in extra.split():
            units.append((os.path.join(HERE, "checks", e), flags))
    for m in d.get("methods", []):
        units.append((os.path.join(lib, "sim_core.cpp"), flags))
        for fam in m.split():
            names = sorted(x for x in os.listdir(lib) if x.startswith("m_") and x.endswith(".cpp")) if fam == "all" else [f"m_{fam}.cpp"]
            units += [(os.path.join(lib, n), flags) for n in names]
    heads = b"".join(read(os.path.join(lib, f)) for f in sorted(os.listdir(lib)) if f.endswith(".hpp"))
    heads += b"".join(read(os.path.join(HERE, "checks", f)) for f in sorted(os.listdir(os.path.join(HERE, "checks"))) if f.endswith(".hpp"))
    tree = tree_hash()
    os.makedirs(BUILD, exist_ok=True)
    # drop objects of trees we no longer look at
    entries = sorted((os.path.join(BUILD, x) for x in os.listdir(BUILD)), key=os.path.getmtime)
    for old in entries[:-12]:
        shutil.rmtree(old, ignore_errors=True)
    out = os.path.join(BUILD, tree[:16])
    os.makedirs(out, exist_ok=True)
    os.utime(out)

    def compile_one(u):
        path, fl = u
        key = sha(read(path), heads, tree, " ".join(fl), REPO)
        obj = os.path.join(out, os.path.basename(path) + "." + key + ".o")
        if os.path.exists(obj):
            return obj, ""
        tmp = obj + f".{os.getpid()}.tmp.o"
        inc = [] if os.path.basename(path) == "pbt_main.cpp" else ["-I" + os.path.join(REPO, "src")]
        r = subprocess.run([CXX, *BASE, *fl, *inc, "-I" + lib, "-I" + os.path.join(HERE, "checks"), "-c", path, "-o", tmp],
                           capture_output=True, text=True)
        if r.returncode:
            return None, r.stderr
        os.replace(tmp, obj)
        return obj, ""

    units = list(dict.fromkeys((p, tuple(f)) for p, f in units))
    with concurrent.futures.ThreadPoolExecutor(max(2, os.cpu_count() or 2)) as ex:
        res = list(ex.map(compile_one, units))
    for (p, _), (o, err) in zip(units, res):
        if o is None:
            lines = [l for l in err.splitlines() if "error" in l][:12]
            sys.stderr.write(f"{os.path.basename(p)} does not compile against {REPO}/src:\n" + "\n".join(x[:400] for x in lines) + "\n")
            sys.exit(2)
    exe = os.path.join(out, prop + "." + sha(*[o for o, _ in res], " ".join(flags)))
    if not os.path.exists(exe):
        link = [f for f in flags if f.startswith("-fsan") or f.startswith("-fno-san")] + " ".join(d.get("link", [])).split()
        tmp = exe + f".{os.getpid()}.tmp"
        r = subprocess.run([CXX, *BASE, *link, *[o for o, _ in res], "-Wl,--allow-multiple-definition", "-o", tmp],
                           capture_output=True, text=True)
        if r.returncode:
            sys.stderr.write("link failed:\n" + r.stderr[:2000] + "\n")
            sys.exit(2)
        os.replace(tmp, exe)
    return exe, d


def known_keys(prop):
    keys = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                keys[m.group(2)] = m.group(3)
    return keys


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--replay")
    ap.add_argument("--law")
    ap.add_argument("--scale", default="1")
    ap.add_argument("--soft", default=None)
    ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    exe, d = build(a.prop)
    tb = time.time() - t0
    if a.build_only:
        return 0
    known = known_keys(a.prop)
    ev = os.path.join(HERE, "evidence", a.prop + ".json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    env = dict(os.environ)
    env.setdefault("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1")
    env.setdefault("UBSAN_OPTIONS", "halt_on_error=1:abort_on_error=1:print_stacktrace=1")
    env.setdefault("TSAN_OPTIONS", "halt_on_error=1:abort_on_error=1")
    try:
        seed = int(str(a.seed), 0)
    except ValueError:
        seed = int(sha(a.seed)[:12], 16)
    cmd = [exe, "--property", a.prop, "--tier", a.tier, "--seed", str(seed), "--known", ",".join(known), "--scale", a.scale]
    if a.law:
        cmd += ["--law", a.law]
    if a.replay:
        cmd += ["--replay", a.replay]
    else:
        soft = a.soft or ("500" if a.tier == "quick" else "3000")
        cmd += ["--out", ev, "--replay-dir", os.path.join(HERE, "replays"), "--soft", soft]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, text=True, env=env)
    for l in r.stdout.splitlines():
        m = re.match(r"KNOWN (\S+) (\d+)", l)
        if m and m.group(1) in known:
            print(f"KNOWN-FINDING: property={a.prop} {known[m.group(1)]} (seen in {m.group(2)} cases)")
        else:
            print(l)
    if not a.replay and os.path.exists(ev):
        e = json.load(open(ev))
        e["build_s"] = round(tb, 1)
        json.dump(e, open(ev, "w"), indent=1)
    sys.stderr.write(f"{a.prop}: build {tb:.1f}s total {time.time()-t0:.1f}s rc={r.returncode}\n")
    return r.returncode if r.returncode in (0, 1) else 2


if __name__ == "__main__":
    sys.exit(main())
