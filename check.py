#!/usr/bin/env python3
"""Driver of the property checks.

  check.py <ID> [--tier quick|thorough] [--seed N] [--scale X] [--only SUB]
  check.py replay <replay.json>
  check.py setup

Builds the harnesses of one property against the working tree of /repo, runs
the generated-input search, writes evidence/<ID>.json and exits 0 (held on
everything explored) or 1 (VIOLATION line).  See DESIGN.md.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(ROOT, "tools"))
from checks import CHECKS  # noqa: E402

ASAN_ENV = ("detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:"
            "hard_rss_limit_mb=3500:max_allocation_size_mb=3000:detect_stack_use_after_return=0:handle_segv=1")
SAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]
COMMON = ["-g1", "-w", "-D_GLIBCXX_ASSERTIONS", "-I" + os.path.join(ROOT, "harness"), "-I" + os.path.join(REPO, "src")]
STD = {"default": "-std=c++20"}


class BuildFailure(Exception):
    """A harness does not build; `genuine` if the compiler says the code is wrong (not that it ran out of something)."""
    genuine = True


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


EXHAUSTED = re.compile(r"Killed|[Cc]annot allocate memory|out of memory|virtual memory exhausted|No space left|internal compiler error|"
                       r"Resource temporarily unavailable|unable to execute command|Segmentation fault")


def compile_one(src, obj, cxx, flags):
    r = sh([cxx, "-c", src, "-o", obj] + flags + COMMON)
    return r.returncode, r.stdout


def genuine_error(out):
    return re.search(r"(^|[^l]) error:", out) is not None and not EXHAUSTED.search(out)


def build(unit, bdir):
    """unit: dict(name, src=[...], cxx, flags, link, helpers)."""
    cxx = unit.get("cxx", "g++")
    flags = list(unit.get("flags", ["-O1"])) + [unit.get("std", "-std=c++20")]
    san = SAN if unit.get("asan", True) else []
    exe = os.path.join(bdir, unit["name"])
    jobs = []
    for s in unit["src"]:
        path = os.path.join(ROOT, "harness", s)
        obj = os.path.join(bdir, unit["name"] + "." + s.replace("/", "_") + ".o")
        f = flags + san
        jobs.append((path, obj, cxx, f))
    if unit.get("engine", True):
        m = [x for x in flags if x in ("-m32",)]
        jobs.append((os.path.join(ROOT, "harness", "pbt.cpp"), os.path.join(bdir, unit["name"] + ".pbt.o"), cxx,
                     ["-O1", "-std=c++20"] + m + unit.get("engine_flags", []) + san))
    return exe, cxx, jobs, (san + [x for x in flags if x == "-m32" or x.startswith(("-fsanitize=", "-fno-sanitize"))] + unit.get("link", []))


def build_all(units, bdir):
    todo = []
    links = []
    for u in units:
        exe, cxx, jobs, lf = build(u, bdir)
        todo += [(u, j) for j in jobs]
        links.append((u, exe, cxx, [j[1] for j in jobs], lf))
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda t: (t, compile_one(*t[1])), todo))
    for (u, j), (rc, out) in res:
        for wait in (0, 5, 30):  # the compiler itself may have been ended: memory is shared
            if rc == 0 or genuine_error(out):
                break
            time.sleep(wait)
            rc, out = compile_one(*j)
        if rc != 0:
            e = BuildFailure("compiling %s for %s failed\n%s" % (j[0], u["name"], out[-8000:]))
            e.genuine = genuine_error(out)
            raise e
    exes = {}

    def link(l):
        u, exe, cxx, objs, lf = l
        for wait in (0, 5, 30):
            time.sleep(wait)
            r = sh([cxx, "-o", exe] + objs + lf + ["-pthread"])
            if r.returncode == 0 or re.search(r"undefined reference|multiple definition", r.stdout):
                break
        return u, exe, r
    with ThreadPoolExecutor(8) as ex:
        for u, exe, r in ex.map(link, links):
            if r.returncode != 0:
                e = BuildFailure("linking %s failed\n%s" % (u["name"], r.stdout[-8000:]))
                e.genuine = re.search(r"undefined reference|multiple definition", r.stdout) is not None
                raise e
            exes[u["name"]] = exe
    return exes


def headers_alone_compile(units, bdir):
    """Do the repository headers a failed harness includes compile by themselves?"""
    heads = sorted({h for u in units for h in u.get("headers", [])})
    for h in heads:
        p = os.path.join(bdir, "alone.cpp")
        with open(p, "w") as f:
            f.write("#include <bits/stdc++.h>\n#include \"%s\"\nint main(){}\n" % h)
        rc, _ = compile_one(p, os.path.join(bdir, "alone.o"), "g++", ["-O0", "-std=c++20"])
        if rc != 0:
            return False
    return True


def known_findings(pid):
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [e for e in data.get("findings", []) if e["property"] == pid]


def dictionary(bdir):
    """Integer literals of the sources (and divisors of the large ones): a dictionary which guides the generators."""
    path = os.path.join(bdir, "dict.txt")
    if os.path.exists(path):
        return path
    found = set()
    src = os.path.join(REPO, "src")
    for name in sorted(os.listdir(src)):
        if not name.endswith(".h"):
            continue
        with open(os.path.join(src, name), errors="replace") as f:
            text = re.sub(r"//[^\n]*|/\*.*?\*/", "", f.read(), flags=re.S)
        for m in re.finditer(r"(?<![\w.'])(0[xX][0-9a-fA-F']+|0[bB][01']+|\d[\d']*)(?:[uU]?[lL]{0,2}[uU]?|_int)(?![\w.'])", text):
            x = m.group(1).replace("'", "")
            v = int(x, 8) if re.fullmatch("0[0-7]+", x) else int(x, 0) if not re.fullmatch(r"0\d+", x) else int(x)
            if v < 2 ** 64:
                found.add(v)
    for v in sorted(found):
        if v > 255:
            n, d = v, 2
            while d * d <= n and d < 70000:
                while n % d == 0:
                    n //= d
                    found.add(d)
                d += 1
            found.add(n)
    small = [v for v in sorted(found) if 10 < v <= 256]
    large = [v for v in sorted(found) if v > 256]
    with open(path, "w") as f:  # the large ones are the rarer ones, and hence repeated
        f.write("\n".join(map(str, small + large * max(1, 3 * len(small) // max(1, len(large))))) + "\n")
    return path


def run_env(bdir, extra=None):
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = ASAN_ENV
    env["PBT_DICT"] = dictionary(bdir)
    env["PBT_SCRATCH"] = os.path.join(bdir, "scratch")
    os.makedirs(env["PBT_SCRATCH"], exist_ok=True)
    for k in ("LC_ALL", "LANG"):
        env[k] = "C"
    if extra:
        env.update(extra)
    return env


def run_unit(unit, exe, exes, bdir, tier, seed, scale, only, budget, rdir):
    out = os.path.join(bdir, unit["name"] + ".json")
    env = run_env(bdir, {"PBT_EXE_" + k: v for k, v in exes.items()})
    rdir = os.path.join(rdir, unit["name"])
    os.makedirs(rdir, exist_ok=True)
    cmd = [exe, "--seed", str(seed), "--tier", tier, "--out", out, "--replaydir", rdir,
           "--scale", str(scale * unit.get("scale", 1.0)), "--budget", str(budget), "--cpu", str(unit.get("cpu", 25))]
    if only:
        cmd += ["--only", only]
    r = subprocess.run(cmd, env=env, cwd=env["PBT_SCRATCH"])
    if r.returncode not in (0, 1) or not os.path.exists(out):
        raise RuntimeError("harness %s ended with status %d" % (unit["name"], r.returncode))
    with open(out) as f:
        return json.load(f)


def fuzz_unit(pid, unit, bdir, seed, seconds, rdir):
    """thorough tier: libFuzzer drives the same properties (bytes -> choices)."""
    fu = dict(unit)
    fu["name"] = unit["name"] + "_fuzz"
    fu["cxx"] = "clang++"
    fu["asan"] = False
    fu["flags"] = ["-O1", "-DPBT_FUZZ", "-fsanitize=fuzzer,address"] + [x for x in unit.get("flags", []) if x.startswith("-D") or x == "-include" or x.endswith(".h")]
    fu["engine_flags"] = ["-DPBT_FUZZ", "-fsanitize=address"]
    fu["link"] = list(unit.get("link", [])) + ["-fsanitize=fuzzer,address"]
    try:
        exe = build_all([fu], bdir)[fu["name"]]
    except BuildFailure as e:
        return {"built": False, "why": str(e)[-600:]}, []
    corpus = os.path.join(bdir, fu["name"] + ".corpus")
    os.makedirs(corpus)
    jobs = []
    for k in range(8):
        rec = os.path.join(bdir, fu["name"] + ".rec%d" % k)
        env = run_env(bdir, {"PBT_FUZZ_REPLAY": rec})
        art = os.path.join(bdir, "%s.crash%d-" % (fu["name"], k))
        c = os.path.join(corpus, str(k))
        os.makedirs(c)
        jobs.append((rec, subprocess.Popen(
            [exe, "-seed=%d" % (seed * 8 + k + 1), "-max_total_time=%d" % seconds, "-max_len=4096", "-timeout=60",
             "-rss_limit_mb=3000", "-artifact_prefix=" + art, c], env=env, cwd=env["PBT_SCRATCH"],
            stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace")))
    execs = cov = 0
    crashes = []
    for rec, p in jobs:
        err = p.communicate()[1]
        m = re.findall(r"#(\d+)\s", err)
        if m:
            execs += int(m[-1])
        m = re.findall(r"cov: (\d+)", err)
        if m:
            cov = max(cov, int(m[-1]))
        if p.returncode != 0:
            crashes.append((rec, err[-1500:]))
    return {"built": True, "seconds": seconds, "executions": execs, "max_edges_covered": cov, "stopped_early": len(crashes)}, crashes


def decode_record(rec, names):
    import struct
    with open(rec, "rb") as f:
        data = f.read()
    case, _inc, _st, n = struct.unpack_from("<QIIQ", data, 0)
    ch = list(struct.unpack_from("<%dQ" % n, data, 24))
    return names[case // 1000], int(case % 1000), ch


def replay_choices(exe, bdir, exes, sub, size, choices, debug=False):
    f = os.path.join(bdir, "replay.txt")
    with open(f, "w") as o:
        o.write("%s %d %d %s\n" % (sub, size, len(choices), " ".join(map(str, choices))))
    env = run_env(bdir, {"PBT_EXE_" + k: v for k, v in exes.items()})
    if debug:
        env["PBT_DEBUG"] = "1"
    return sh([exe, "--replay", f], env=env, cwd=env["PBT_SCRATCH"])


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "setup":
        for t in ("g++", "clang++"):
            print(sh([t, "--version"]).stdout.splitlines()[0])
        return 0
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    scale, only, keep = 1.0, None, False
    replay = None
    pid = None
    i = 0
    while i < len(args):
        a = args[i]
        if a == "--tier":
            i += 1
            tier = args[i]
        elif a == "--seed":
            i += 1
            seed = int(args[i])
        elif a == "--scale":
            i += 1
            scale = float(args[i])
        elif a == "--only":
            i += 1
            only = args[i]
        elif a == "--keep":
            keep = True
        elif a == "replay":
            i += 1
            with open(args[i]) as f:
                replay = json.load(f)
            pid = replay["property"]
        else:
            pid = a
        i += 1
    spec = CHECKS[pid]
    units = spec["units"]
    t0 = time.time()
    os.makedirs(os.path.join(ROOT, ".build"), exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    bdir = tempfile.mkdtemp(prefix=pid + ".", dir=os.path.join(ROOT, ".build"))
    rdir = os.path.join(ROOT, "evidence", "replays", pid)
    if not replay:
        shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir, exist_ok=True)
    dictionary(bdir)
    try:
        return work(pid, spec, units, tier, seed, scale, only, replay, bdir, rdir, t0)
    finally:
        if keep:
            print("kept", bdir)
        else:
            shutil.rmtree(bdir, ignore_errors=True)


def work(pid, spec, units, tier, seed, scale, only, replay, bdir, rdir, t0):
    try:
        exes = build_all(units, bdir)
    except BuildFailure as e:
        if e.genuine and headers_alone_compile(units, bdir):
            # the headers are fine on their own: a documented use of the API no longer compiles
            path = os.path.join(rdir, "build.txt")
            with open(path, "w") as f:
                f.write(str(e))
            write_evidence(pid, spec, tier, seed, t0, [], 1, {"build_failure": str(e)[-2000:]})
            print(str(e)[-3000:])
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        print(e)
        return 2
    if replay:
        if "choices" not in replay:
            print("no choices in replay")
            return 2
        r = replay_choices(exes[replay["unit"]], bdir, exes, replay["subproperty"], replay["size"], replay["choices"], True)
        print(r.stdout)
        return 1 if r.returncode == 1 else 0
    results = []
    failures = []
    hunt_budget = 500 if tier == "quick" else 6 * 3600
    main_units = [u for u in units if u.get("engine", True)]
    for index, u in enumerate(main_units):
        if only and not re.search(r"PBT_PROP\(%s," % re.escape(only), open(os.path.join(ROOT, "harness", u["src"][0])).read()):
            continue
        budget = max(20.0, hunt_budget - (time.time() - t0))
        res = run_unit(u, exes[u["name"]], exes, bdir, tier, seed + 7919 * index, scale, only, budget, rdir)
        res["unit"] = u["name"]
        results.append(res)
        for f in res["failures"]:
            f["unit"] = u["name"]
            failures.append(f)
    extra = {}
    if tier == "thorough" and spec.get("fuzz_seconds") and not only:
        for u in main_units:
            if not u.get("fuzz", True):
                continue
            info, crashes = fuzz_unit(pid, u, bdir, seed, spec["fuzz_seconds"], rdir)
            names = [l.split()[0] for l in sh([exes[u["name"]], "--list"]).stdout.splitlines()]
            for rec, err in crashes:
                try:
                    sub, size, ch = decode_record(rec, names)
                except Exception:
                    continue
                ok = [replay_choices(exes[u["name"]], bdir, exes, sub, size, ch).returncode for _ in range(3)]
                if ok == [1, 1, 1]:
                    r = replay_choices(exes[u["name"]], bdir, exes, sub, size, ch)
                    path = os.path.join(rdir, sub + ".fuzz.json")
                    with open(path, "w") as f:
                        json.dump({"subproperty": sub, "size": size, "choices": ch, "seed": seed, "message": r.stdout[-2000:]}, f)
                    failures.append({"subproperty": sub, "message": r.stdout[-2000:], "case": "", "replay": path, "unit": u["name"]})
                else:
                    info.setdefault("unconfirmed", []).append(err[-400:])
            extra.setdefault("libfuzzer", {})[u["name"]] = info
    findings = known_findings(pid)
    new = []
    seen_known = set()
    for f in failures:
        k = next((x for x in findings if x["subproperty"] == f["subproperty"] and re.search(x["match"], f["message"])), None)
        if k:
            seen_known.add(k["id"])
        else:
            new.append(f)
    for k in findings:
        if k["id"] in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for f in new:
        # complete the replay file
        try:
            with open(f["replay"]) as fh:
                d = json.load(fh)
            d["property"] = pid
            d["unit"] = f["unit"]
            d["how"] = "python3 check.py replay <this file>"
            r = replay_choices(exes[f["unit"]], bdir, exes, d["subproperty"], d["size"], d["choices"], True)
            d["output"] = r.stdout[-6000:]
            with open(f["replay"], "w") as fh:
                json.dump(d, fh, indent=1)
        except Exception as e:  # the replay is still there, only less complete
            print("note:", e)
    for r in results:
        for w in r.get("warnings", []):
            print("note:", w)
    write_evidence(pid, spec, tier, seed, t0, results, len(new), extra)
    for f in new:
        print("--- %s / %s" % (f["unit"], f["subproperty"]))
        print(f["message"][:1500])
        print(f["case"][:1500])
        print("VIOLATION property=%s replay=%s" % (pid, f["replay"]))
    if not new:
        n = sum(r["evaluations"] for r in results)
        d = sum(r["distinct_nontrivial"] for r in results)
        print("%s held on %d generated cases (%d distinct non-trivial), %.1f s" % (pid, n, d, time.time() - t0))
    return 1 if new else 0


def write_evidence(pid, spec, tier, seed, t0, results, violations, extra):
    subs = []
    samples = []
    for r in results:
        for s in r["subproperties"]:
            s = dict(s)
            s["unit"] = r["unit"]
            for x in s.pop("samples", [])[:1]:
                samples.append({"subproperty": s["name"], "case": x})
            subs.append(s)
    cov = {
        "evaluations": sum(r["evaluations"] for r in results),
        "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in results),
        "discarded": sum(r["discarded"] for r in results),
        "truncated_by_time_budget": any(r["truncated"] for r in results),
        "rule": spec["rule"],
        "samples": samples[:40] or ["none: the run ended before any case"],
        "subproperties": subs,
        "exhaustive": False,
    }
    cov.update(extra)
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "exploration",
          "coverage": cov, "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": violations}
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
