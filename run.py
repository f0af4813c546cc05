#!/usr/bin/env python3
"""Runs the monitors of one property against /repo's current working tree.

  python3 run.py P01 [--tier quick|thorough] [--seed N]
  python3 run.py --replay replays/<file>.json      re-run one recorded failure
  python3 run.py --selftest                        toolchain sanity (setup_cmd)

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.
Any other exit: the check itself could not give an answer.
"""
import argparse, concurrent.futures as cf, hashlib, json, os, random, re, resource, shutil
import signal, struct, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("BEZMAN_REPO", "/repo")
HARNESS = os.path.join(ROOT, "harness")
EVID = os.path.join(ROOT, "evidence")
REPLAYS = os.path.join(ROOT, "replays")
KNOWN = os.path.join(ROOT, "known_findings.txt")
NCPU = max(1, min(8, os.cpu_count() or 1))

COMMON = ["-std=c++17", "-pipe", "-g1", "-w"]
VARIANTS = {
    # checked debug build: ASan + UBSan, library assertions on, poisoned stack
    "san": dict(cxx="g++", flags=["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                                  "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS",
                                  "-ftrivial-auto-var-init=pattern"], san=True),
    # optimised build, assertions off, the larger binomial table used by the tests
    "rel": dict(cxx="g++", flags=["-O2", "-DNDEBUG", "-DMAX_BINOMIAL_DEGREE=62u"]),
    # the project's own test configuration
    "dbg": dict(cxx="g++", flags=["-O0", "-D_GLIBCXX_DEBUG", "-DMAX_BINOMIAL_DEGREE=62u"]),
    "clangsan": dict(cxx="clang++", flags=["-O1", "-fsanitize=address,undefined,float-cast-overflow",
                                           "-fno-sanitize-recover=all", "-fno-omit-frame-pointer",
                                           "-D_GLIBCXX_DEBUG"], san=True),
    "rel3": dict(cxx="clang++", flags=["-O3", "-DNDEBUG"]),
    "log": dict(cxx="g++", flags=["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                                  "-D_GLIBCXX_ASSERTIONS", "-DENABLE_LOGGING"], san=True),
    "log2": dict(cxx="clang++", flags=["-O2", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                                       "-DENABLE_LOGGING"], san=True),
    "nolog": dict(cxx="g++", flags=["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                                    "-D_GLIBCXX_ASSERTIONS"], san=True),
    "tsan": dict(cxx="g++", flags=["-O1", "-fsanitize=thread", "-fno-omit-frame-pointer"], tsan=True,
                 libs=["-pthread"]),
    "clangtsan": dict(cxx="clang++", flags=["-O1", "-fsanitize=thread", "-fno-omit-frame-pointer", "-DNDEBUG"],
                      tsan=True, libs=["-pthread"]),
    "tsanlog": dict(cxx="g++", flags=["-O1", "-fsanitize=thread", "-fno-omit-frame-pointer", "-DENABLE_LOGGING"],
                    tsan=True, libs=["-pthread"]),
    "thr": dict(cxx="g++", flags=["-O2", "-DNDEBUG"], libs=["-pthread"]),
    "max31": dict(cxx="g++", flags=["-O1", "-DMAX_BINOMIAL_DEGREE=31u", "-D_GLIBCXX_ASSERTIONS"]),
    "max68": dict(cxx="g++", flags=["-O2", "-DMAX_BINOMIAL_DEGREE=68u"]),
    "max1": dict(cxx="clang++", flags=["-O1", "-DMAX_BINOMIAL_DEGREE=1u", "-D_GLIBCXX_DEBUG"]),
    "max5": dict(cxx="g++", flags=["-O1", "-DMAX_BINOMIAL_DEGREE=5u", "-D_GLIBCXX_ASSERTIONS"]),
    "vg": dict(cxx="g++", flags=["-O1", "-D_GLIBCXX_ASSERTIONS"], valgrind=True),
}

# property -> source, groups, cases per (variant, group)
Q, T = "quick", "thorough"
def std(groups, nq, nt, rule, tvariants=("san", "rel", "clangsan", "rel3", "dbg"), **kw):
    return dict(groups=groups, rule=rule,
                quick={"san": nq, "rel": nq},
                thorough={v: nt for v in tvariants}, **kw)
CHECKS = {}
exec(open(os.path.join(ROOT, "checks.py")).read())


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)


def make_scratch():
    return tempfile.mkdtemp(prefix="bezman-verif-")


def compile_one(scratch, src, variant, group, extra=()):
    v = VARIANTS[variant]
    exe = os.path.join(scratch, "%s-%s-%s" % (os.path.basename(src)[:-4], variant, group))
    cmd = [v["cxx"]] + COMMON + v["flags"] + ["-DGROUP=%s" % group, "-I", os.path.join(scratch, "inc"), "-I", HARNESS,
           *extra, os.path.join(HARNESS, src), "-o", exe] + v.get("libs", [])
    for attempt in range(2):
        r = sh(cmd, env=dict(os.environ, LC_ALL="C", TMPDIR=scratch))
        if r.returncode == 0:
            return exe, None
        transient = ("Killed" in r.stderr or "internal compiler error" in r.stderr or
                     "No space left" in r.stderr or r.returncode < 0)
        if not transient and attempt == 0 and "error:" in r.stderr:
            return None, r.stderr
    if "error:" in r.stderr and "internal compiler error" not in r.stderr:
        return None, r.stderr
    raise CheckError("compiler failed for %s/%s: %s" % (src, variant, r.stderr[-800:]))


HEADERS = ["point.hpp", "bezier_spline.hpp", "rational_bezier_spline.hpp", "utils/base64.hpp",
           "utils/binomialcoefficientlookuptablecreator.hpp", "utils/fastbinomialcoefficient.hpp", "utils/logger.hpp",
           "utils/algorithms/bernstein_polynomial.hpp", "utils/algorithms/int_power.hpp",
           "utils/algorithms/recursive_combine.hpp", "utils/algorithms/sort.hpp",
           "utils/computational_differentiation/algo_diff_type.hpp", "utils/type_traits/is_bezier_spline.hpp",
           "utils/type_traits/is_rational_bezier_spline.hpp", "utils/type_traits/is_point.hpp"]


def write_orders(scratch, seed):
    """include orders of the units that include every header"""
    d = os.path.join(scratch, "orders")
    os.makedirs(d, exist_ok=True)
    rnd = random.Random(seed)
    for k in range(5):
        l = HEADERS[:]
        rnd.shuffle(l)
        if k == 1: l.sort(key=lambda h: "traits" not in h)  # forward declarations first
        with open(os.path.join(d, "order%d.hpp" % k), "w") as f:
            f.write("".join('#include "bezman/src/%s"\n' % h for h in l))
    return d


def compile_units(scratch, src, variant):
    """one program of many translation units and a shared object"""
    v = VARIANTS[variant]
    d = os.path.join(scratch, "units-" + variant)
    os.makedirs(d)
    base = [v["cxx"]] + COMMON + v["flags"] + ["-fPIC", "-I", os.path.join(scratch, "inc"), "-I", HARNESS,
            "-I", os.path.join(scratch, "orders")]
    cmds, objs = [], []
    for u in range(5 + len(HEADERS)):
        o = os.path.join(d, "u%d.o" % u)
        extra = ["-DUNIT=%d" % u]
        if u >= 5: extra += ["-DALONE=%d" % (u - 4), '-DALONE_HEADER="bezman/src/%s"' % HEADERS[u - 5]]
        cmds.append(base + extra + ["-c", os.path.join(HARNESS, src), "-o", o])
        if u != 4: objs.append(o)
    env = dict(os.environ, LC_ALL="C", TMPDIR=scratch)
    so, exe = os.path.join(d, "libunit4.so"), os.path.join(d, "p28")
    with cf.ThreadPoolExecutor(NCPU) as ex:
        rs = list(ex.map(lambda c: sh(c, env=env), cmds))
    for c, r in zip(cmds, rs):
        if r.returncode:
            if "error:" in r.stderr: return None, r.stderr
            raise CheckError("compiler failed: " + r.stderr[-800:])
    for c in ([v["cxx"]] + v["flags"] + ["-shared", "-o", so, os.path.join(d, "u4.o")] + v.get("libs", []),
              [v["cxx"]] + v["flags"] + ["-o", exe] + objs + ["-L", d, "-lunit4", "-Wl,-rpath," + d] + v.get("libs", [])):
        r = sh(c, env=env)
        if r.returncode:
            if re.search(r"multiple definition|undefined reference|duplicate|error:", r.stderr): return None, r.stderr
            raise CheckError("linker failed: " + r.stderr[-800:])
    return exe, None


def plain_headers_parse(scratch):
    tu = os.path.join(scratch, "plain.cpp")
    with open(tu, "w") as f:
        f.write('#include "bezman/src/bezier_spline.hpp"\n#include "bezman/src/rational_bezier_spline.hpp"\n'
                '#include "bezman/src/utils/base64.hpp"\n#include "bezman/src/utils/algorithms/int_power.hpp"\n'
                '#include "bezman/src/utils/algorithms/sort.hpp"\n'
                '#include "bezman/src/utils/computational_differentiation/algo_diff_type.hpp"\nint main(){}\n')
    r = sh(["g++", "-std=c++17", "-w", "-fsyntax-only", "-I", os.path.join(scratch, "inc"), tu])
    return r.returncode == 0


def classify_crash(err, rc):
    m = re.search(r"ERROR: AddressSanitizer: ([A-Za-z0-9_-]+)", err)
    if m: return "asan:" + m.group(1)
    if "ERROR: LeakSanitizer" in err: return "leak"
    if "hard rss limit" in err: return "memory-exhaustion"
    m = re.search(r"WARNING: ThreadSanitizer: ([a-z -]+)", err)
    if m: return "tsan:" + m.group(1).strip().replace(" ", "-")
    m = re.search(r"([\w.]+):\d+:\d+: runtime error: (.*)", err)
    if m: return "ubsan:%s:%s" % (m.group(1), re.sub(r"0x[0-9a-f]+|\d+", "N", m.group(2))[:80])
    m = re.search(r"([\w./]+):\d+: .*Assertion `?'?(.*?)'? failed", err)
    if m: return "assert:%s:%s" % (os.path.basename(m.group(1)), m.group(2)[:80])
    m = re.search(r"Error: (attempt to .*)", err)
    if m: return "debug-mode:" + m.group(1)[:80]
    if "Invalid read" in err or "uninitialised" in err or "Invalid write" in err:
        m = re.search(r"(Invalid (read|write)|[A-Z][a-z ]+uninitialised[a-z ]+)", err)
        return "memcheck:" + (m.group(1) if m else "error")
    if rc < 0: return "signal:%d" % -rc
    return "exit:%d" % rc


def read_state(path):
    try:
        b = open(path, "rb").read(16 + 256 + 128)
        case, done = struct.unpack("QQ", b[:16])
        op = b[16:272].split(b"\0")[0].decode("utf8", "replace")
        fam = b[272:400].split(b"\0")[0].decode("utf8", "replace")
        return case, done, op, fam
    except Exception:
        return 0, 0, "?", "?"


def run_env(variant):
    env = dict(os.environ, LC_ALL="C")
    env["ASAN_OPTIONS"] = ("abort_on_error=0:exitcode=99:detect_leaks=1:hard_rss_limit_mb=3000:"
                           "allocator_may_return_null=1:max_malloc_fill_size=1000000:malloc_fill_byte=231:"
                           "detect_stack_use_after_return=1:handle_abort=0:detect_odr_violation=0:strict_init_order=1")
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=98"
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:second_deadlock_stack=1"
    env["LSAN_OPTIONS"] = "exitcode=99"
    return env


def run_process(exe, variant, args, cwd, state, out, hashes, wall, cpu=None):
    v = VARIANTS[variant]
    cmd = [exe] + args + ["--state", state, "--out", out, "--variant", variant]
    if hashes: cmd += ["--hashes", hashes]
    if cpu: cmd += ["--cpu", str(cpu)]
    if v.get("valgrind"):
        cmd = ["valgrind", "-q", "--error-exitcode=99", "--leak-check=full", "--errors-for-leak-kinds=definite"] + cmd
    def pre():
        os.setpgrp()
        if not (v.get("san") or v.get("tsan") or v.get("valgrind")):
            resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    errp = out + ".err"
    with open(errp, "wb") as ef, open(os.devnull, "wb") as dn:
        p = subprocess.Popen(cmd, cwd=cwd, stdout=dn, stderr=ef, stdin=subprocess.DEVNULL, env=run_env(variant),
                             preexec_fn=pre)
        try:
            rc = p.wait(timeout=wall)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = None
    err = open(errp, errors="replace").read()
    if len(err) > 20000: err = err[:12000] + "\n...\n" + err[-6000:]
    return rc, err


HUNG = []


def run_shard(job):
    """job: dict(exe, variant, group, a, b, dir, tier, seed, wall). Returns results dict."""
    res = dict(viol=[], samples=[], counters={}, cases=0, monitors=0, nontrivial=0, hashes=set(), inconclusive=[],
               variant=job["variant"], group=job["group"], digests=[])
    a, b, d = job["a"], job["b"], job["dir"]
    os.makedirs(d, exist_ok=True)
    restarts = 0
    if HUNG:
        res["inconclusive"].append("skipped after a confirmed hang")
        return res
    while a < b:
        state, out, hs = (os.path.join(d, x) for x in ("state", "out.jsonl", "hashes"))
        for f in (state, out, hs):
            if os.path.exists(f): os.unlink(f)
        args = ["--seed", str(job["seed"]), "--from", str(a), "--to", str(b)]
        if job["tier"] == T: args.append("--thorough")
        rc, err = run_process(job["exe"], job["variant"], args, d, state, out, hs, job["wall"])
        lines = []
        if os.path.exists(out):
            for l in open(out, errors="replace"):
                try: lines.append(json.loads(l))
                except ValueError: pass
        for l in lines:
            l["variant"], l["group"], l["range"] = job["variant"], job["group"], [a, b]
            if l["t"] == "viol":
                res["viol"].append(l)
                if l["key"] == "deadlock": HUNG.append(l["case"])
            elif l["t"] == "digest": res["digests"].append((job["group"], l["case"], l["d"]))
            elif l["t"] == "sample": res["samples"].append(l["text"])
            elif l["t"] == "done":
                res["cases"] += l["cases"]; res["monitors"] += l["monitors"]; res["nontrivial"] += l["nontrivial"]
                for k, n in l["counters"].items(): res["counters"][k] = res["counters"].get(k, 0) + n
        if os.path.exists(hs):
            hb = open(hs, "rb").read()
            res["hashes"].update(struct.unpack("<%dQ" % (len(hb) // 8), hb))
        if rc == 0:
            break
        case, done, op, fam = read_state(state)
        base = dict(t="viol", case=case, family=fam, variant=job["variant"], group=job["group"], range=[a, b], desc="")
        if rc is None:
            res["inconclusive"].append("wall clock limit in case %d (%s, %s)" % (case, fam, op))
            break
        if rc == 3 or fam == "?":
            raise CheckError("harness could not start")
        if rc == 96:  # no thread of the process used any CPU time for a minute
            HUNG.append(case)
            res["viol"].append(dict(base, key="deadlock:" + op, msg="all threads wait for ever " + err[-1500:]))
        elif rc == 97 or "hard rss limit" in err or rc == -9:
            if HUNG:  # already confirmed elsewhere in this run: no need to burn the time again
                res["inconclusive"].append("stopped at case %d (%s) after a confirmed hang" % (case, op))
                break
            # confirm alone, with a larger CPU budget, before calling it a violation
            cd = os.path.join(d, "confirm"); os.makedirs(cd, exist_ok=True)
            rc2, err2 = run_process(job["exe"], job["variant"],
                                    ["--seed", str(job["seed"]), "--case", str(case)] +
                                    (["--thorough"] if job["tier"] == T else []),
                                    cd, os.path.join(cd, "state"), os.path.join(cd, "out"), None, 300, cpu=30)
            c2, d2, op2, fam2 = read_state(os.path.join(cd, "state"))
            if rc2 == 97:
                HUNG.append(case)
                res["viol"].append(dict(base, key="no-termination:" + op2,
                                        msg="operation does not finish (30 s of CPU time)"))
            elif rc2 not in (0, None):
                res["viol"].append(dict(base, key="crash:%s:%s" % (classify_crash(err2, rc2), op2), msg=err2[-3000:]))
            else:
                res["inconclusive"].append("case %d slow once (%s)" % (case, op))
        elif done:
            res["viol"].append(dict(base, key="crash:%s" % classify_crash(err, rc),
                                    msg="after the last case of the range: " + err[-3000:]))
            break
        else:
            res["viol"].append(dict(base, key="crash:%s:%s" % (classify_crash(err, rc), op), msg=err[:4000]))
        a = case + 1
        restarts += 1
        if restarts >= 4 or HUNG:
            break
    return res


def load_known(prop):
    known = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop: known.append((m.group(2), m.group(3)))
    return known


def write_replay(prop, tier, seed, v):
    os.makedirs(REPLAYS, exist_ok=True)
    h = hashlib.sha1(("%s%s%s%s" % (prop, v["key"], v["variant"], v["case"])).encode()).hexdigest()[:10]
    path = os.path.join(REPLAYS, "%s-%s.json" % (prop, h))
    with open(path, "w") as f:
        json.dump(dict(property=prop, tier=tier, seed=seed, variant=v["variant"], group=v["group"], case=v["case"],
                       range=v["range"], family=v["family"], key=v["key"], message=v["msg"], input=v.get("desc", "")),
                  f, indent=1)
    return path


def run_check(prop, tier, seed):
    t0 = time.time()
    cfg = CHECKS[prop]
    src = prop.lower() + ".cpp"
    plan = cfg[tier]
    scratch = make_scratch()
    viol, inconc, skipped = [], [], []
    digests, ndig = {}, {}
    cov = dict(cases=0, monitors=0, nontrivial=0, counters={}, hashes=set(), samples=[], builds=[])
    try:
        os.mkdir(os.path.join(scratch, "inc"))
        os.symlink(REPO, os.path.join(scratch, "inc", "bezman"))
        groups = cfg["groups"]
        exes = {}
        jobs = [(v, g) for v in plan for g in (cfg.get("vgroups", {}).get(v, groups))]
        with cf.ThreadPoolExecutor(NCPU) as ex:
            if cfg.get("units"):
                write_orders(scratch, seed)
                futs = {ex.submit(compile_units, scratch, src, v): (v, g) for v, g in jobs}
            else:
                futs = {ex.submit(compile_one, scratch, src, v, g): (v, g) for v, g in jobs}
            for f in cf.as_completed(futs):
                v, g = futs[f]
                exe, err = f.result()
                if exe is None:
                    if not plain_headers_parse(scratch):
                        raise CheckError("the headers of /repo do not parse: " + err[:1500])
                    if g in cfg.get("optional", ()):
                        skipped.append("%s/group%s: operations are not available for this scalar type" % (v, g))
                        continue
                    m = re.search(r"^.*(?:error:|multiple definition|undefined reference).*$", err, re.M)
                    viol.append(dict(case=0, family="build", variant=v, group=g, range=[0, 0], key="does-not-compile",
                                     msg="operations of this property can no longer be instantiated: " +
                                         (m.group(0) if m else "") + "\n" + err[:3000], desc=""))
                else:
                    exes[(v, g)] = exe
        if cfg.get("example"):
            r = sh(["g++", "-std=c++17", "-w", "-fsyntax-only", "-I", os.path.join(scratch, "inc"), os.path.join(REPO, cfg["example"])],
                   env=dict(os.environ, LC_ALL="C"))
            m = re.search(r"^.*error:.*$", r.stderr, re.M)
            if r.returncode and m:
                miss = re.search(r"error: (\S+): No such file", m.group(0))
                viol.append(dict(case=0, family="build", variant="example", group=0, range=[0, 0],
                                 key="example-" + ("without:" + miss.group(1) if miss else "does-not-compile"),
                                 msg="the example program does not compile: " + m.group(0), desc=""))
            cov["counters"]["example program compiled"] = int(not r.returncode)
        t_build = time.time() - t0
        shards = []
        order = list(plan)
        for (v, g), exe in sorted(exes.items()):
            n = plan[v]
            if isinstance(n, dict): n = n[g]
            k = max(1, min(NCPU, n // cfg.get("shard_min", 150)))
            if VARIANTS[v].get("tsan"): k = min(k, cfg.get("tsan_shards", 4))
            step = (n + k - 1) // k
            # every build sees its own range of cases, unless results are compared across builds
            base = 0 if cfg.get("same_cases") else order.index(v) * 10000000
            for i in range(k):
                if i * step < n:
                    shards.append(dict(exe=exe, variant=v, group=g, a=base + i * step, b=base + min(n, (i + 1) * step), tier=tier,
                                       seed=seed, dir=os.path.join(scratch, "run-%s-%s-%d" % (v, g, i)),
                                       wall=cfg.get("wall", 400 if tier == Q else 7200)))
            cov["builds"].append("%s/group%s: %d cases" % (v, g, n))
        workers = cfg.get("workers", NCPU)
        with cf.ThreadPoolExecutor(workers) as ex:
            for r in ex.map(run_shard, shards):
                viol += r["viol"]; inconc += r["inconclusive"]
                cov["cases"] += r["cases"]; cov["monitors"] += r["monitors"]; cov["nontrivial"] += r["nontrivial"]
                cov["hashes"] |= r["hashes"]
                for g, case, dg in r["digests"]:
                    first = digests.setdefault((g, case), (dg, r["variant"]))
                    ndig[r["variant"]] = ndig.get(r["variant"], 0) + 1
                    if first[0] != dg and not any(v["key"] == "results-depend-on-build" for v in viol):
                        viol.append(dict(case=case, family="digest", variant=r["variant"], group=g, range=[case, case + 1],
                                         key="results-depend-on-build", desc="", msg="digest %s in build %s, %s in build %s" %
                                         (dg, r["variant"], first[0], first[1])))
                for k, n in r["counters"].items(): cov["counters"][k] = cov["counters"].get(k, 0) + n
                if len(cov["samples"]) < 6: cov["samples"] += r["samples"][:2]
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    known = load_known(prop)
    new, seen_known = {}, {}
    for v in viol:
        hit = next((k for k in known if k[0] == v["key"]), None)
        if hit: seen_known[hit[0]] = hit[1]
        else: new.setdefault(v["key"], v)
    for k, what in known:
        if k in seen_known: print("KNOWN-FINDING: property=%s %s (%s)" % (prop, what, k))
    os.makedirs(EVID, exist_ok=True)
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=cov["cases"], distinct_nontrivial=len(cov["hashes"]), rule=cfg["rule"],
                            samples=cov["samples"][:6], monitor_checks=cov["monitors"],
                            operations={k[3:]: n for k, n in sorted(cov["counters"].items()) if k.startswith("op:")},
                            families={k[7:]: n for k, n in sorted(cov["counters"].items()) if k.startswith("family:")},
                            observed={k: n for k, n in sorted(cov["counters"].items())
                                      if not k.startswith(("op:", "family:"))},
                            builds=cov["builds"], result_digests=ndig, not_available=skipped, inconclusive=inconc[:20]),
              assumptions=cfg.get("assumptions", []) + [
                  "inputs are finite, of moderate magnitude and within the documented binomial degree limit",
                  "the reference model (long double Bernstein arithmetic) and the tolerances of harness/lib.hpp"],
              wall_s=round(time.time() - t0, 2), violations=len(new))
    with open(os.path.join(EVID, prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    if new:
        for key, v in list(new.items())[:5]:
            path = write_replay(prop, tier, seed, v)
            print("  %s [%s/%s case %s %s]: %s" % (key, v["variant"], v["group"], v["case"], v["family"],
                                                   v["msg"].strip().replace("\n", " ")[:300]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if cov["cases"] == 0 or len(cov["hashes"]) < cfg.get("min_distinct", 20):
        raise CheckError("observed too little: %d cases, %d distinct; %s" % (cov["cases"], len(cov["hashes"]), inconc[:3]))
    if inconc:
        print("inconclusive parts: %s" % inconc[:3], file=sys.stderr)
        if len(inconc) > max(3, len(shards) // 4):
            raise CheckError("too many inconclusive parts")
    print("OK property=%s tier=%s seed=%d cases=%d distinct=%d monitors=%d build=%.1fs wall=%.1fs" %
          (prop, tier, seed, cov["cases"], len(cov["hashes"]), cov["monitors"], t_build, time.time() - t0))
    return 0


def replay(path):
    r = json.load(open(path))
    scratch = make_scratch()
    try:
        os.mkdir(os.path.join(scratch, "inc"))
        os.symlink(REPO, os.path.join(scratch, "inc", "bezman"))
        if r["variant"] == "example":
            x = sh(["g++", "-std=c++17", "-w", "-fsyntax-only", "-I", os.path.join(scratch, "inc"), os.path.join(REPO, CHECKS[r["property"]]["example"])])
            print(x.stderr[:3000])
            return int(x.returncode != 0)
        src = r["property"].lower() + ".cpp"
        if CHECKS[r["property"]].get("units"):
            write_orders(scratch, r["seed"])
            exe, err = compile_units(scratch, src, r["variant"])
        else:
            exe, err = compile_one(scratch, src, r["variant"], r["group"])
        if exe is None:
            print(err[:3000]); return 1
        out = os.path.join(scratch, "out")
        if r["key"] == "crash:leak": rng = ["--from", str(r["range"][0]), "--to", str(r["range"][1])]
        else: rng = ["--case", str(r["case"]), "-v"]
        rc, err = run_process(exe, r["variant"], ["--seed", str(r["seed"])] + rng +
                              (["--thorough"] if r["tier"] == T else []), scratch, os.path.join(scratch, "state"), out,
                              None, 600, cpu=45)
        txt = open(out).read() if os.path.exists(out) else ""
        print(txt); print(err[:6000])
        return 1 if rc != 0 or '"viol"' in txt else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def selftest():
    for tool in ("g++", "clang++"):
        if not shutil.which(tool): raise CheckError(tool + " missing")
    os.makedirs(EVID, exist_ok=True)
    s = make_scratch()
    try:
        f = os.path.join(s, "t.cpp")
        open(f, "w").write("int main(int c,char**){int a[2]={1,2};return a[c-1]-1;}\n")
        for fl in (["-fsanitize=address,undefined"], ["-fsanitize=thread"]):
            r = sh(["g++", "-O1"] + fl + [f, "-o", os.path.join(s, "t")])
            if r.returncode or sh([os.path.join(s, "t")]).returncode: raise CheckError("sanitizer runtime unusable")
    finally:
        shutil.rmtree(s, ignore_errors=True)
    print("toolchain ok")
    return 0


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", Q))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--selftest", action="store_true")
    a = ap.parse_args()
    try:
        if a.selftest: sys.exit(selftest())
        if a.replay: sys.exit(replay(a.replay))
        sys.exit(run_check(a.prop, a.tier if a.tier in (Q, T) else Q, a.seed))
    except CheckError as e:
        print("check error: %s" % e, file=sys.stderr)
        sys.exit(2)
