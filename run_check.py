#!/usr/bin/env python3
"""Decides one property:  run_check.py P01 quick|thorough [--replay FILE]

Builds props/<id>.cpp against the current sources in /repo in the configurations
listed in checks.py, runs the generated cases, and writes evidence/<id>.json.
Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken.
Exit 2: the check itself could not run (e.g. it does not compile).
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from checks import CHECKS, CONFIGS, LEVELS

SAN_OPTS = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=1",
    "UBSAN_OPTIONS": "halt_on_error=1:print_stacktrace=1:exitcode=98",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=97:second_deadlock_stack=1:report_signal_unsafe=0",
}


def make_dict(path):
    """Integers and short strings from the sources: candidates for generated values."""
    ints, strs = {0}, set()
    files = sorted(glob.glob(REPO + "/include/asioext/**/*.?pp", recursive=True) +
                   glob.glob(REPO + "/src/*.cpp"))
    for f in files:
        if "win" in os.path.basename(f):
            continue
        s = open(f, errors="replace").read()
        s = re.sub(r"//[^\n]*|/\*.*?\*/", " ", s, flags=re.S)
        for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', s):
            t = m[1]
            if 0 < len(t) <= 24 and "/" not in t.strip("/") and "\\" not in t:
                strs.add(t)
        s = re.sub(r'"(?:[^"\\\n]|\\.)*"', " ", s)
        for m in re.finditer(r"'(\\?[^'])'", s):
            c = m[1]
            if len(c) == 1:
                ints.add(ord(c))
        for m in re.finditer(r"(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)(?:[uUlL]*)(?![\w.])", s):
            t = m[1]
            try:
                v = int(t, 16) if t[:2].lower() == "0x" else int(t, 8 if len(t) > 1 and t[0] == "0" else 10)
            except ValueError:
                continue
            if v < 2 ** 64:
                ints.add(v)
    with open(path, "w") as o:
        o.write("namespace pbt {\nstatic const std::uint64_t dict_ints[] = {%s};\n" %
                ", ".join("%dull" % i for i in sorted(ints)))
        o.write("static const char* const dict_strings[] = {%s};\n}\n" %
                ", ".join('"%s"' % s.replace('"', '\\"') for s in sorted(strs) or [""]))


def known_findings(pid):
    """Recorded, unrepaired findings: id -> what fails."""
    r = {}
    for l in open(VERIF + "/KNOWN_FINDINGS.txt"):
        m = re.match(r"known: property=(\S+) id=(\S+) (.*)", l)
        if m and m[1] == pid:
            r[m[2]] = m[3].strip()
    return r


def build(pid, chk, cname, tmp, tier):
    cfg = dict(CONFIGS[cname])
    exe = os.path.join(tmp, cname)
    inc = ["-I" + tmp, "-I" + VERIF + "/props", "-I" + REPO + "/include"]
    base = [cfg["cxx"], "-std=gnu++20", "-w", chk.get("opt", cfg["opt"])[tier == "thorough"]] + cfg["flags"] + inc
    cov = cfg.get("cov") and chk.get("cov", True)
    if cov:
        base += ["-fsanitize-coverage=inline-8bit-counters,trace-cmp", "-DPBT_COVERAGE"]
    base += ["-DPBT_CONFIG_" + cname.upper()] + chk.get("flags", [])
    jobs = [(base + ["-c", f"{VERIF}/props/{pid}.cpp", "-o", exe + ".o"], exe + ".o")]
    for x in chk.get("extra", []):
        jobs.append((base + ["-c", f"{VERIF}/props/{x}.cpp", "-o", f"{exe}_{x}.o"], f"{exe}_{x}.o"))
    if "-DASIOEXT_SEPARATE_COMPILATION" in cfg["flags"]:
        jobs.append((base + ["-c", f"{REPO}/src/asioext.cpp", "-o", exe + "_lib.o"], exe + "_lib.o"))
    with cf.ThreadPoolExecutor(4) as ex:
        outs = list(ex.map(lambda j: subprocess.run(j[0], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), jobs))
    for j, r in zip(jobs, outs):
        if r.returncode:
            return None, " ".join(j[0]) + "\n" + r.stdout[-6000:]
    wraps = ["-Wl,--wrap=" + w for w in chk.get("wrap", [])]
    cmd = [cfg["cxx"]] + cfg["flags"] + [j[1] for j in jobs] + ["-o", exe] + wraps + cfg["libs"] + chk.get("libs", {}).get(cname, []) + ["-pthread"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return None, " ".join(cmd) + "\n" + r.stdout[-6000:]
    return exe, ""


def kill_tree(p):
    """Ends a harness, its workers (each of which is a process group) and what they started."""
    kids = {}
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                kids.setdefault(int(open(f"/proc/{d}/stat").read().rsplit(")", 1)[1].split()[1]), []).append(int(d))
            except OSError:
                pass
    todo = [p.pid]
    for x in todo:
        todo += kids.get(x, [])
    for x in todo:
        try:
            os.kill(x, 9)
        except OSError:
            pass
    p.wait()


def options(chk, cname, tier):
    cfg = CONFIGS[cname]
    o = []
    if cfg.get("cov") and chk.get("cov", True):
        o.append("--cov")
    for k in ("hang", "replays", "need"):
        if k in chk:
            o += ["--" + k, str(chk[k])]
    return o


def main():
    pid, tier = sys.argv[1], sys.argv[2]
    chk = CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix=f"verif-{pid}-", dir="/tmp")
    env = dict(os.environ, **SAN_OPTS)
    env["LC_ALL"] = "C"
    known = known_findings(pid)
    env["PBT_KNOWN"] = " ".join(known)
    code = 2
    try:
        make_dict(tmp + "/pbt_dict.hpp")
        configs = list(chk["configs"])
        if tier == "thorough":
            configs += [c for c in chk.get("thorough_configs", []) if c not in configs]
        replay = None
        if "--replay" in sys.argv:
            replay = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
            configs = [replay["config"]]
        with cf.ThreadPoolExecutor(len(configs)) as ex:
            built = dict(zip(configs, ex.map(lambda c: build(pid, chk, c, tmp, tier), configs)))
        for c, (exe, err) in built.items():
            if not exe:
                print(f"CHECK ERROR: {pid} does not build in configuration {c}\n{err}")
                return 2
        t_build = time.time() - t0

        if replay:
            open(tmp + "/choices", "w").write(" ".join(map(str, replay["choices"])))
            r = subprocess.run([built[configs[0]][0], "--replay", tmp + "/choices", "--scratch", tmp + "/r"] +
                               options(chk, configs[0], tier), env=env)
            if r.returncode:
                print(f"VIOLATION property={pid} replay={sys.argv[sys.argv.index('--replay') + 1]}")
            return 1 if r.returncode else 0

        total_workers = chk.get("workers", 8)
        per = max(1, total_workers // len(configs))

        def run(c):
            n = chk["cases"][tier]
            n = n[c] if isinstance(n, dict) else n
            s = int.from_bytes(hashlib.sha256(f"{seed}/{pid}/{c}".encode()).digest()[:8], "big") >> 1
            res = f"{tmp}/{c}.json"
            log = open(f"{tmp}/{c}.out", "w")
            cmd = [built[c][0], "--seed", str(s), "--workers", str(per), "--cases", str(max(1, n // per)),
                   "--scratch", f"{tmp}/s_{c}", "--result", res,
                   "--max", str(450 if tier == "quick" else 12000)] + options(chk, c, tier)
            r = subprocess.Popen(cmd, env=env, stdout=log, stderr=subprocess.STDOUT,
                                 preexec_fn=os.setsid)
            while r.poll() is None:
                time.sleep(0.05)
                # Another configuration's violation is enough.
                if broken and time.time() - broken[0] > 45:
                    kill_tree(r)
                    return c, None, "stopped", ""
            try:
                d = json.load(open(res))
            except Exception:
                return c, None, r.returncode, open(f"{tmp}/{c}.out").read()[-3000:]
            if (d.get("failure") or {}).get("confirmed"):
                broken.append(time.time())
            return c, d, r.returncode, ""

        broken = []

        with cf.ThreadPoolExecutor(len(configs)) as ex:
            results = list(ex.map(run, configs))

        ev = dict(property=pid, tier=tier, seed=seed, level=chk.get("level", "exploration"),
                  assumptions=chk.get("assumptions", []), violations=0)
        cov = dict(evaluations=0, distinct_nontrivial=0, rule=chk["rule"], samples=[])
        cov["labels"] = {}
        cov["per_configuration"] = {}
        violation = None
        for c, d, rc, err in results:
            if d is None and rc == "stopped":
                continue
            if d is None:
                print(f"CHECK ERROR: {pid} configuration {c} ended with {rc} and no result\n{err}")
                return 2
            cov["evaluations"] += d["evaluations"]
            cov["distinct_nontrivial"] += d["distinct_nontrivial"]
            cov["samples"] += [f"[{c}] {s}" for s in d["samples"][:3]]
            for k, v in d["labels"].items():
                cov["labels"][k] = cov["labels"].get(k, 0) + v
            cov["per_configuration"][c] = {k: d[k] for k in ("evaluations", "nontrivial", "distinct_nontrivial", "enumerated", "coverage_edges", "corpus", "wall_s")}
            f = d.get("failure")
            if f and f["confirmed"] and not violation:
                violation = (c, f)
            elif f and not f["confirmed"]:
                cov.setdefault("unconfirmed", []).append(dict(config=c, tag=f["tag"], message=f["message"][:600], log=f["log"][:1500]))
                print(f"note: {pid}/{c}: a failure could not be reproduced and is not reported: {f['tag']}: {f['message'][:300]}\n{f['log'][:1500]}")
        ev["coverage"] = cov
        for k in known:
            if cov["labels"].get("known:" + k):
                print(f"KNOWN-FINDING: property={pid} {known[k]}")
        code = 0
        if violation:
            c, f = violation
            ev["violations"] = 1
            os.makedirs(VERIF + "/replays", exist_ok=True)
            h = hashlib.sha256(json.dumps(f["choices"]).encode()).hexdigest()[:12]
            path = f"{VERIF}/replays/{pid}-{c}-{h}.json"
            json.dump(dict(property=pid, config=c, seed=seed, tag=f["tag"], message=f["message"],
                           trace=f["trace"].split("\n"), log=f["log"].split("\n"), choices=f["choices"],
                           how=f"python3 run_check.py {pid} quick --replay {path}"),
                      open(path, "w"), indent=1)
            print(f"{pid} [{c}] {f['tag']}: {f['message']}\n--- shrunk case\n{f['trace']}--- log\n{f['log'][:3000]}")
            print(f"VIOLATION property={pid} replay={path}")
            code = 1
        ev["wall_s"] = round(time.time() - t0, 2)
        ev["build_s"] = round(t_build, 2)
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        json.dump(ev, open(f"{VERIF}/evidence/{pid}.json", "w"), indent=1)
        print(f"{pid} {tier} seed={seed}: {cov['evaluations']} cases, {cov['distinct_nontrivial']} distinct non-trivial, "
              f"{ev['wall_s']} s (build {ev['build_s']} s)")
        return code
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", tmp)
        else:
            shutil.rmtree(tmp, ignore_errors=True)


sys.exit(main())
