#!/usr/bin/env python3
"""Driver of one property check.

  check.py C08                 quick tier (VERIF_TIER=thorough for the deep one)
  check.py C08 --thorough
  check.py C08 --replay FILE   re-run a recorded violation, without the explorer

Builds every source file below /repo/src together with the harness of the property
(clang++-18, libc++, ASan + UBSan, assertions on), runs the explorer, writes
evidence/<id>.json. Exit 0 held, 1 violated, 2 no verdict.
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CXX = "/usr/bin/clang++-18"
BASE = ["-w", "-stdlib=libc++", "-std=c++23", "-I" + REPO + "/include", "-I/usr/include/eigen3", "-I" + HERE + "/harness",
        "-DLIBNURBS_VERIF=1"]
SAN = ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
       "-D_LIBCPP_HARDENING_MODE=_LIBCPP_HARDENING_MODE_FAST"]
FAST = ["-O2", "-g1", "-ffp-contract=off", "-D_LIBCPP_HARDENING_MODE=_LIBCPP_HARDENING_MODE_FAST"]

# per-property extras: technique text, level, assumptions, harness build flavour
from props import PROPS  # noqa: E402


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def repo_sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        out += [os.path.join(d, f) for f in fs if f.endswith((".cpp", ".cc", ".cxx"))]
    return sorted(out)


def build(pid, bdir):
    spec = PROPS[pid]
    units = []
    if spec.get("flavour") == "sched":
        lib_flags = BASE + ["-O1", "-g1", "-fsanitize=thread"]
        har_flags = BASE + ["-O1", "-g1"]
        units += [(s, lib_flags) for s in repo_sources()]
        units += [(os.path.join(HERE, "harness", s), lib_flags) for s in spec.get("instrumented", [])]
        units += [(os.path.join(HERE, "harness", s), har_flags) for s in spec["sources"]]
        link = [CXX, "-stdlib=libc++", "-lpthread", "-ldl"] + ["-Wl,--wrap=" + f for f in (
            "malloc", "free", "calloc", "realloc", "aligned_alloc", "posix_memalign", "memcpy", "memmove", "memset", "memcmp")]
    else:
        fast = spec.get("flavour") == "fast"
        fl = BASE + (FAST if fast else SAN)
        units += [(s, fl) for s in repo_sources()]
        units += [(os.path.join(HERE, "harness", s), fl) for s in spec["sources"]]
        link = [CXX, "-stdlib=libc++", "-lpthread"] + ([] if fast else ["-fsanitize=address,undefined"]) + ["-Wl,--wrap=" + f for f in spec.get("wrap", [])]

    cache = os.environ.get("VERIF_CACHE")
    hdr = hashlib.sha256()
    if cache:
        os.makedirs(cache, exist_ok=True)
        for root in (REPO + "/include", HERE + "/harness"):
            for d, _, fs in sorted(os.walk(root)):
                for f in sorted(fs):
                    if f.endswith(".hpp"):
                        hdr.update(open(os.path.join(d, f), "rb").read())

    def one(iu):
        i, (src, fl) = iu
        obj = os.path.join(bdir, "%d_%s.o" % (i, os.path.basename(src).replace(".", "_")))
        key = None
        if cache:
            h = hdr.copy()
            h.update(open(src, "rb").read())
            h.update((src + " ".join(fl)).encode())
            key = os.path.join(cache, h.hexdigest() + ".o")
            if os.path.exists(key):
                shutil.copy(key, obj)
                return obj, None
        r = run([CXX] + fl + ["-c", src, "-o", obj])
        if r.returncode:
            return obj, "compile error in %s:\n%s" % (src, r.stdout[-3000:])
        if key:
            shutil.copy(obj, key + ".tmp%d" % os.getpid())
            os.rename(key + ".tmp%d" % os.getpid(), key)
        return obj, None

    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        res = list(ex.map(one, enumerate(units)))
    for _, e in res:
        if e:
            print(e)
            return None
    exe = os.path.join(bdir, "check")
    r = run([link[0]] + [o for o, _ in res] + link[1:] + ["-o", exe])
    if r.returncode:
        print("link error:\n" + r.stdout[-3000:])
        return None
    return exe


def main():
    args = sys.argv[1:]
    pid = args.pop(0)
    spec = PROPS[pid]
    tier = "thorough" if ("--thorough" in args or os.environ.get("VERIF_TIER") == "thorough") else "quick"
    replay = args[args.index("--replay") + 1] if "--replay" in args else None
    body = ["--body", args[args.index("--body") + 1]] if "--body" in args else []
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    bdir = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        exe = build(pid, bdir)
        tb = time.time() - t0
        if exe is None:
            print("ERROR: %s could not be built" % pid)
            return 2
        out = os.path.join(bdir, "out")
        if replay:
            rec = json.load(open(replay))
            cmd = [exe, "--out", out] + (["--thorough"] if rec.get("tier") == "thorough" else []) + \
                  ["--replay", str(rec["body_index"])] + [str(x) for x in rec["choices"]]
            os.makedirs(bdir + "/scratch")
            r = run(cmd, env=dict(os.environ, VERIF_SCRATCH=bdir + "/scratch", **({"ASAN_OPTIONS": spec["asan"]} if spec.get("asan") else {})))
            print(r.stdout)
            return r.returncode
        workers = int(os.environ.get("VERIF_WORKERS", 0)) or os.cpu_count() or 4
        deadline = 3600 if tier == "thorough" else 600
        cmd = [exe, "--out", out, "--workers", str(workers), "--deadline", str(deadline)] + body
        if tier == "thorough":
            cmd.append("--thorough")
        env = dict(os.environ)
        if spec.get("asan"):
            env["ASAN_OPTIONS"] = spec["asan"]
        env["VERIF_SCRATCH"] = os.path.join(bdir, "scratch")
        os.makedirs(env["VERIF_SCRATCH"], exist_ok=True)
        r = run(cmd, env=env)
        sys.stdout.write(r.stdout)
        ev = {"property": pid, "tier": tier, "seed": seed, "level": spec["level"],
              "assumptions": spec.get("assumptions", []), "violations": 0}
        code = 2
        if r.returncode in (0, 3):
            cov = json.load(open(os.path.join(out, "coverage.json")))
            c = {"samples": cov["samples"], "rule": spec["rule"],
                 "exhaustive": bool(cov["exhaustive"]) and not any("cut off" in str(k) for k in cov["outcomes"]),
                 "bounds": spec["bounds_thorough" if tier == "thorough" and "bounds_thorough" in spec else "bounds"],
                 "pruned_as_already_expanded": cov["pruned"], "bodies": cov["per_body"], "outcomes": cov["outcomes"],
                 "replayed_twice_with_identical_trace": cov["replayed_twice"]}
            if spec["level"] == "model_checking":
                c.update(states=cov["states"], transitions=cov["transitions"], traces_validated_against_impl=cov["executions"])
            else:
                c.update(evaluations=cov["executions"], distinct_nontrivial=cov["states"], calls_of_the_code=cov["transitions"])
            ev["coverage"] = c
            if r.returncode == 3:
                print("NOTE: the time limit ended the exploration early; nothing explored violated the property")
            code = 0
        elif r.returncode == 1 and os.path.exists(os.path.join(out, "violation.json")):
            rec = json.load(open(os.path.join(out, "violation.json")))
            rd = os.path.join(HERE, "replays")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s-%s.json" % (pid, hashlib.sha1(json.dumps([rec["body"], rec["choices"]]).encode()).hexdigest()[:10]))
            json.dump(rec, open(path, "w"), indent=1)
            print(rec["message"])
            print(rec["trace"][-2500:])
            print("VIOLATION property=%s replay=%s" % (pid, path))
            ev["violations"] = 1
            ev["coverage"] = {"rule": spec["rule"], "exhaustive": False,
                              "samples": [{"violation": rec["message"], "trace": rec["trace"][:1500]}]}
            code = 1
        else:
            print("ERROR: explorer ended with status %d" % r.returncode)
        ev["wall_s"] = round(time.time() - t0, 2)
        ev["build_s"] = round(tb, 2)
        if code != 2 and not body:
            os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
            json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
        print("%s %s: exit %d, build %.1fs, total %.1fs" % (pid, tier, code, tb, ev["wall_s"]))
        return code
    finally:
        shutil.rmtree(bdir, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
