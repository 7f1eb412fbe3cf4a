#!/usr/bin/env python3
"""Runner: decides one property from contracts on /repo's current source.

  python3 lib/vfrun.py PID            run the check of one property
  python3 lib/vfrun.py --unit PID U   debug one proof unit (prints failures)
  python3 lib/vfrun.py --replay FILE  replay a recorded violation natively
"""
import concurrent.futures as cf
import hashlib, importlib.util, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
JOBS = int(os.environ.get("VF_JOBS", "8"))
T0 = time.time()

UTILS_SRC = """compat err unicode strutils fileinfo fileutils urlsplit execprocess globmatch plugin map
clp2 strtob tgen tmpfileplus infixcalc jsmnx jstore bson session rng uri_encode md5 sha1 sha3 uuid uuid4
compat-src/getopt compat-src/snprintf""".split()
CORE_SRC = """dlite-errors dlite-misc dlite-store dlite-type dlite-type-cast dlite-arrays dlite-datamodel
dlite-schemas dlite-entity dlite-collection dlite-storage dlite-storage-plugins dlite-mapping
dlite-mapping-plugins dlite-codegen dlite-json dlite-bson dlite-behavior pathshash triple triplestore
pyembed/dlite-pyembed pyembed/dlite-pyembed-utils pyembed/dlite-python-singletons
pyembed/dlite-python-storage pyembed/dlite-python-mapping pyembed/dlite-python-protocol
pyembed/dlite-python-path""".split()
UTILS = ["utils/%s.c" % s for s in UTILS_SRC]
CORE = ["%s.c" % s for s in CORE_SRC]
CORE_LIBS = ["-lrdf", "-lrasqal", "-lraptor2", "-lpython3.12", "-ldl", "-lm", "-lpthread"]


class Broken(Exception):
    """The machinery could not produce an answer (not a property failure)."""


def sh(cmd, timeout=None, cwd=None, env=None, mem_gb=None):
    pre = []
    if mem_gb:
        pre = ["prlimit", "--as=%d" % int(mem_gb * (1 << 30))]
    p = subprocess.Popen(pre + cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, env=env,
                         start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)      # solvers are grandchildren
        except ProcessLookupError:
            pass
        o, _ = p.communicate()
        return -99, "TIMEOUT after %ss\n" % timeout + (o or b"").decode("utf-8", "replace")[-4000:]


def gen_headers(work):
    """Configured headers: the recorded ones, or -- where a template in /repo differs from the
    recorded template -- the template change merged into the recorded header."""
    out = os.path.join(work, "genhdr")
    shutil.copytree(os.path.join(VERIF, "genhdr", "build"), out)
    base = os.path.join(VERIF, "genhdr", "tmpl")
    for root, _, files in os.walk(base):
        for f in files:
            t = os.path.join(root, f)
            rel = os.path.relpath(t, base)
            cur = os.path.join(REPO, rel)
            hdr = os.path.join(out, rel[:-3].replace("compat-src/", ""))
            if not os.path.exists(cur) or not os.path.exists(hdr):
                continue
            if open(t, "rb").read() != open(cur, "rb").read():
                rc, o = sh(["git", "merge-file", "-p", hdr, t, cur])
                if rc == 0:
                    open(hdr, "w").write(o)
                else:
                    raise Broken("cannot regenerate %s" % rel)
    gen_contracts(out)
    return out


def gen_contracts(out):
    """dlite-contracts.h: the unit's loop contracts (VF_CONTRACTS), nothing for every other hook."""
    names = set()
    for root, _, files in os.walk(os.path.join(REPO, "src")):
        for f in files:
            if f.endswith((".c", ".h")):
                names |= set(re.findall(r"\bDLITE_(LOOP|GHOST|CUT)\((\w+)\s*[),]", open(os.path.join(root, f), errors="replace").read()))
    with open(os.path.join(out, "dlite-contracts.h"), "w") as f:
        f.write("#ifdef VF_CONTRACTS\n# include VF_CONTRACTS\n#endif\n")
        for a, b in sorted(names):
            f.write("#ifndef DLITE_%s_%s\n# define DLITE_%s_%s%s\n#endif\n" % (a, b, a, b, "(...)" if a == "CUT" else ""))


def flags_utils(gen):
    return ["-DHAVE_CONFIG_H", "-DHAVE_CONFIG_SNPRINTF_H", "-DHAVE_THREADS", "-D_GNU_SOURCE",
            "-I" + gen + "/src/utils", "-I" + REPO + "/src/utils", "-std=gnu11"]


def flags_core(gen):
    return ["-DHAVE_CONFIG_H", "-D_GNU_SOURCE", "-I" + gen + "/src", "-I" + REPO + "/src",
            "-I/usr/include/rasqal", "-I/usr/include/raptor2", "-I/usr/include/python3.12",
            "-I" + gen + "/src/utils", "-I" + REPO + "/src/utils", "-std=gnu11"]


def flags_for(kind, gen):
    return flags_utils(gen) if kind == "utils" else flags_core(gen)


# ------------------------------------------------------------------ proofs

class Unit:
    """One deductive obligation set: a harness, the functions whose contracts are enforced in it,
    the callees replaced by their contracts."""

    def __init__(self, name, spec, enforce=None, src=(), replace=(), kind="utils", loops=False, unwind=None,
                 unwindset=(), backend="sat", defs=(), timeout=100, bound=None, rec=None, functions=None,
                 nobody=(), checks=(), harness="harness", mem_gb=8, tier="quick", dfcc=True, object_bits=9,
                 keep=(), nofail=False, replace_calls=()):
        self.__dict__.update(locals())
        self.enforce = [enforce] if isinstance(enforce, str) else list(enforce or [])
        self.functions = list(functions or self.enforce)
        self.bounded = bound is not None


def run_unit(u, work, gen):
    d = os.path.join(work, "u_" + re.sub(r"\W", "_", u.name))
    os.makedirs(d, exist_ok=True)
    res = {"unit": u.name, "functions": u.functions, "bounded": u.bound, "obligations": 0, "discharged": 0,
           "failed": [], "seconds": 0.0, "solver_seconds": 0.0, "status": "broken", "detail": "",
           "backend": u.backend, "cmd": ""}
    t0 = time.time()
    try:
        a, b = d + "/a.gb", d + "/b.gb"
        spec = os.path.join(VERIF, "specs", u.spec)
        cmd = (["goto-cc", "-o", a, "-DVF_CBMC", "-I" + VERIF + "/lib", "-I" + VERIF + "/specs", "-I" + REPO + "/src",
                "-include", VERIF + "/lib/vf_cbmc.h", "-DDLITE_VERIFY", "-I" + gen]
               + (["-DVF_CONTRACTS=\"%s\"" % u.loops] if isinstance(u.loops, str) else [])
               + ["-D" + x for x in u.defs] + flags_for(u.kind, gen) + ["--function", u.harness, spec]
               + [os.path.join(REPO, "src", s) for s in u.src])
        rc, o = sh(cmd, 120)
        if rc:
            res["detail"] = "goto-cc failed:\n" + o[-3000:]
            return res
        if u.nobody:
            rc, o = sh(["goto-instrument"] + sum([["--remove-function-body", f] for f in u.nobody], []) + [a, a], 120)
            if rc:
                res["detail"] = "goto-instrument --remove-function-body failed:\n" + o[-3000:]
                return res
        if u.replace_calls:      # f:g -- calls of f become calls of g (an executable contract in the spec)
            rc, o = sh(["goto-instrument"] + sum([["--replace-calls", x] for x in u.replace_calls], []) + [a, a], 120)
            if rc:
                res["detail"] = "goto-instrument --replace-calls failed:\n" + o[-3000:]
                return res
        if u.dfcc:
            cmd = ["goto-instrument", "--dfcc", u.harness]
            for f in u.enforce:
                cmd += ["--enforce-contract-rec" if u.rec else "--enforce-contract", f]
            for f in u.replace:
                cmd += ["--replace-call-with-contract", f]
            if u.loops:
                cmd += ["--apply-loop-contracts"]
            # statics (tables) that keep their initial value; the others start arbitrary
            for x in u.keep:
                cmd += ["--nondet-static-exclude", x.replace("/repo/", REPO + "/", 1)]
            if u.nofail:             # allocation succeeds (stated in the property's assumptions)
                cmd += ["--no-malloc-may-fail"]
            cmd += [a, b]
            rc, o = sh(cmd, 300)
            if rc:
                res["detail"] = "goto-instrument failed:\n" + o[-3000:]
                return res
        else:
            rc, o = sh(["goto-instrument", "--drop-unused-functions", a, b], 120)
            if rc:
                res["detail"] = "goto-instrument failed:\n" + o[-3000:]
                return res
        # plain output: asking for traces makes cbmc build one per probe, which can exhaust memory
        cmd = ["cbmc", b, "--verbosity", "8", "--object-bits", str(u.object_bits)]
        # every loop not covered by a loop contract gets an unwinding assertion at this depth
        cmd += ["--unwind", str(u.unwind or 8)]
        for s in u.unwindset:
            cmd += ["--unwindset", s]
        cmd += {"sat": [], "cvc5": ["--cvc5"], "z3": ["--z3"], "cadical": ["--sat-solver", "cadical"]}[u.backend]
        cmd += list(u.checks)
        res["cmd"] = " ".join(cmd).replace(b, "<unit>.gb")
        t1 = time.time()
        rc, o = sh(cmd, u.timeout, mem_gb=u.mem_gb)
        res["solver_seconds"] = round(time.time() - t1, 2)
        if rc not in (0, 10):
            msgs = [x for x in o.splitlines() if x.strip() and not x.startswith("Unwinding") and not x.startswith("Not unwinding")]
            res["detail"] = "cbmc gave no answer (rc=%d):\n" % rc + "\n".join(msgs[-8:])[-2500:]
            return res
        props, fname = [], "?"
        if "** Results:" in o:
            for line in o[o.index("** Results:"):].splitlines():
                h = re.match(r"^(\S+) function (\S+)$", line)
                if h:
                    fname = os.path.basename(h.group(1))
                h = re.match(r"^\[(\S+)\] (?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$", line)
                if h:
                    props.append({"property": h.group(1), "description": h.group(3), "status": h.group(4),
                                  "where": "%s:%s" % (fname, h.group(2) or "?")})
        if not props:
            res["detail"] = "cbmc reported no obligations:\n" + o[-2000:]
            return res
        reach = [p for p in props if "VF_REACH" in p.get("description", "")]
        real = [p for p in props if "VF_REACH" not in p.get("description", "")]
        res["obligations"] = len(real)
        bad = [p for p in real if p["status"] != "SUCCESS"]
        res["discharged"] = len(real) - len(bad)
        if not real:
            res["detail"] = "no obligations generated"
            return res
        hard = [p for p in bad if p["status"] == "FAILURE"]
        if bad:
            unw = [p for p in hard if ".unwind." in p["property"] or "unwinding assertion" in p["description"]]
            res["failed"] = ["%s: %s (%s) %s" % (p["property"], p["description"], p["where"], p["status"])
                             for p in (hard or bad)][:40]
            if hard and len(unw) == len(hard):
                res["status"] = "broken"
                res["detail"] = "only unwinding assertions failed (loop shape outside the recorded bound)"
            elif hard:
                res["status"] = "failed"
            else:
                res["detail"] = "undecided obligations"
            return res
        if not reach or any(p["status"] != "FAILURE" for p in reach):
            res["detail"] = "vacuity guard: the end of the harness is not reachable (%d probes)" % len(reach)
            return res
        res["status"] = "proved"
        return res
    finally:
        res["seconds"] = round(time.time() - t0, 2)
        if not os.environ.get("VF_KEEP"):
            shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ native

class Native:
    def __init__(self, harness, src=(), kind="utils", libs=(), quick=20, thorough=150, cflags=(), core=False,
                 sanitize="address", env=None, extra_defs=()):
        self.__dict__.update(locals())


def build_native(n, work, gen, san=None):
    d = os.path.join(work, "native_" + re.sub(r"\W", "_", n.harness))
    os.makedirs(d, exist_ok=True)
    base = ["gcc", "-g", "-O1", "-fno-omit-frame-pointer", "-w", "-fPIC"] + list(n.cflags)
    if n.sanitize:
        base += ["-fsanitize=" + n.sanitize]
    jobs = []
    srcs = list(n.src)
    if n.core:
        srcs += [s for s in UTILS + CORE if s not in srcs]
    excl = set(x[1:] for x in srcs if x.startswith("!"))
    srcs = [s for s in srcs if not s.startswith("!") and s not in excl]
    for s in srcs:
        k = "utils" if s.startswith("utils/") else "core"
        o = os.path.join(d, s.replace("/", "_") + ".o")
        jobs.append((["-c", os.path.join(REPO, "src", s), "-o", o] + flags_for(k, gen), o))
    if n.core:
        o = os.path.join(d, "getlicense.o")
        jobs.append((["-c", gen + "/src/dlite-getlicense.c", "-o", o] + flags_core(gen), o))
    o = os.path.join(d, "harness.o")
    jobs.append((["-c", os.path.join(VERIF, "native", n.harness), "-o", o, "-I" + VERIF + "/lib", "-I" + VERIF + "/native",
                  "-I" + VERIF + "/specs", "-I" + REPO + "/src"] + flags_for(n.kind, gen), o))
    o = os.path.join(d, "main.o")
    jobs.append((["-c", VERIF + "/lib/vfmain.c", "-o", o, "-I" + VERIF + "/lib"], o))

    def comp(j):
        return sh(base + j[0], 200)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for (args, o), (rc, out) in zip(jobs, ex.map(comp, jobs)):
            if rc:
                raise Broken("native build failed: %s\n%s" % (" ".join(args), out[-3000:]))
    exe = os.path.join(d, "vf")
    rc, out = sh(base + [j[1] for j in jobs] + ["-o", exe] + list(n.libs) + (CORE_LIBS if n.core else ["-lm"]), 200)
    if rc:
        raise Broken("native link failed:\n" + out[-3000:])
    return exe


def native_env(n):
    env = dict(os.environ)
    env.update(ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:exitcode=66",
               LC_ALL="C")
    for k in list(env):
        if k.startswith("DLITE_"):
            del env[k]
    env.update(n.env or {})
    return env


def search_native(n, exe, work, secs, seed, tag):
    """Returns (stats, None) or (stats, replay text)."""
    rf = os.path.join(work, "replay_%s.txt" % tag)
    t0 = time.time()
    scratch = os.path.join(work, "scratch_" + tag)
    os.makedirs(scratch, exist_ok=True)
    rc, o = sh([exe, "search", str(seed), str(secs), rf], secs * 3 + 240, cwd=scratch, env=native_env(n))
    st = {"harness": n.harness, "seconds": round(time.time() - t0, 2), "evaluations": 0, "distinct": 0, "bodies": {}}
    for line in o.splitlines():
        w = line.split()
        if line.startswith("ITERS"): st["evaluations"] = int(w[1])
        if line.startswith("DISTINCT"): st["distinct"] = int(w[1])
        if line.startswith("BODY"): st["bodies"][w[1]] = "%s cases, %s" % (w[2], w[3])
    if rc == 0:
        return st, None
    if rc == 1 and os.path.exists(rf):
        txt = open(rf).read()
        err = rf + ".stderr"
        if os.path.exists(err):
            txt += "--- output of the replayed run ---\n" + open(err, errors="replace").read()[-6000:]
        return st, txt
    raise Broken("native search gave no answer (rc=%d): %s" % (rc, o[-1500:]))


# ------------------------------------------------------------------ main

def load(pid):
    p = os.path.join(VERIF, "props", pid + ".py")
    spec = importlib.util.spec_from_file_location("prop_" + pid, p)
    m = importlib.util.module_from_spec(spec)
    m.Unit, m.Native, m.UTILS, m.CORE = Unit, Native, UTILS, CORE
    spec.loader.exec_module(m)
    return m


def known_findings(pid):
    f = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                out.append(line[len("known: "):])
    return out


def check(pid):
    m = load(pid)
    work = tempfile.mkdtemp(prefix="vf_%s_" % pid)
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    violations, notes = [], []
    units, native_stats = [], []
    try:
        gen = gen_headers(work)
        thorough = TIER == "thorough"
        todo = [u for u in m.UNITS if thorough or u.tier == "quick"]
        natives = getattr(m, "NATIVE", [])
        ex = cf.ThreadPoolExecutor(JOBS)
        futs = [ex.submit(run_unit, u, work, gen) for u in sorted(todo, key=lambda u: -u.timeout)]
        found = None
        exes = []
        for i, n in enumerate(natives):
            try:
                exe = build_native(n, work, gen)
                exes.append((n, exe))
                st, rep = search_native(n, exe, work, n.thorough if thorough else n.quick, SEED, str(i))
                native_stats.append(st)
                if rep and not found:
                    found = (n, rep)
            except Broken as e:
                notes.append("native: " + str(e))
        units = [f.result() for f in futs]
        ex.shutdown()
        failed = [u for u in units if u["status"] == "failed"]
        broken = [u for u in units if u["status"] == "broken"]
        if (failed or broken or notes) and not found:
            # the proof did not go through: look longer for a concrete failing input
            budget = max(30, min(180, 600 - (time.time() - T0))) / max(1, len(exes))
            for k, (n, exe) in enumerate(exes):
                try:
                    st, rep = search_native(n, exe, work, budget, SEED + 1000, "x%d" % k)
                    st["phase"] = "after a failed obligation"
                    native_stats.append(st)
                    if rep and not found:
                        found = (n, rep)
                except Broken as e:
                    notes.append("native: " + str(e))
        vtext = ""
        for u in failed + broken:
            vtext += "unit %s (%s): %s\n%s\n%s\n" % (u["unit"], ", ".join(u["functions"]), u["status"],
                                                   "\n".join(u["failed"]), u["detail"])
        if found:
            path = os.path.join(rdir, "%s.txt" % pid)
            with open(path, "w") as f:
                f.write("property %s\nharness %s\n" % (pid, found[0].harness))
                f.write(found[1])
                f.write("\n--- replay with: python3 %s/lib/vfrun.py --replay %s\n" % (VERIF, path))
                f.write("\n--- obligations that failed on this tree ---\n" + (vtext or "(none)\n"))
            violations.append("VIOLATION property=%s replay=%s" % (pid, path))
        elif failed:
            path = os.path.join(rdir, "%s.txt" % pid)
            with open(path, "w") as f:
                f.write("property %s\nno failing input found; failed obligations:\n%s" % (pid, vtext))
            violations.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
        elif broken or notes:
            print("UNDECIDED: some proof units gave no answer; the bounded stand-in found no violation")
            print((vtext + "\n".join(notes))[-6000:])
    finally:
        shutil.rmtree(work, ignore_errors=True)
    write_evidence(pid, m, units, native_stats, violations, notes)
    for k in known_findings(pid):
        print("KNOWN-FINDING: " + k)
    for u in units:
        print("%-34s %-7s %5d/%-5d %6.1fs %s" % (u["unit"], u["status"], u["discharged"], u["obligations"], u["seconds"],
                                                "bounded: " + u["bounded"] if u["bounded"] else ""))
    for s in native_stats:
        print("native %-27s %d cases (%d distinct) %.1fs" % (s["harness"], s["evaluations"], s["distinct"], s["seconds"]))
    for v in violations:
        print(v)
    if violations:
        return 1
    if not units and not native_stats:
        print("no answer")
        return 2
    if any(u["status"] == "broken" for u in units) and not native_stats:
        print("no answer: proof machinery broken and no stand-in ran")
        return 2
    return 0


def write_evidence(pid, m, units, native_stats, violations, notes):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    proofs = [u for u in units if not u["bounded"]]
    bounded = [u for u in units if u["bounded"]]
    level = getattr(m, "LEVEL", "proof")
    cov = {
        "obligations": sum(u["obligations"] for u in proofs),
        "discharged": sum(u["discharged"] for u in proofs if u["status"] == "proved")
        + sum(u["discharged"] for u in proofs if u["status"] != "proved"),
        "checker_cmd": "goto-cc <spec> <repo source>; goto-instrument --dfcc harness --enforce-contract F "
                       "[--replace-call-with-contract G] [--apply-loop-contracts]; cbmc (python3 lib/vfrun.py %s)" % pid,
        "trusted_base": ["CBMC 6.11.0 (goto-cc, goto-instrument --dfcc, symbolic execution)",
                         "back ends: " + ", ".join(sorted(set(u["backend"] for u in units)) or ["none"]),
                         "the contracts in /verif/specs (stated from the property)"] + list(getattr(m, "TRUSTED", [])),
        "functions_under_contract": sorted(set(f for u in proofs if u["status"] == "proved" for f in u["functions"])),
        "units": [{k: u[k] for k in ("unit", "functions", "status", "obligations", "discharged", "seconds",
                                     "solver_seconds", "backend", "bounded", "cmd")} for u in units],
        "solver_seconds": round(sum(u["solver_seconds"] for u in units), 2),
        "bounded_units": [{"unit": u["unit"], "bound": u["bounded"], "functions": u["functions"], "status": u["status"],
                           "obligations": u["obligations"], "discharged": u["discharged"]} for u in bounded],
        "native_contract_execution": {
            "label": "bounded: contracts executed on the real code (ASan), for functions outside the verifier's reach "
                     "and for replay; never counted as proved",
            "runs": native_stats},
        "undecided": [{"unit": u["unit"], "detail": u["detail"][:400]} for u in units if u["status"] == "broken"] + notes,
        "functions_not_verified": list(getattr(m, "NOT_VERIFIED", [])),
        "evaluations": sum(s["evaluations"] for s in native_stats),
        "distinct_nontrivial": sum(s["distinct"] for s in native_stats),
        "rule": "native part: choice sequences enumerated exhaustively in a small scope then drawn from a seeded "
                "generator; distinct = distinct choice sequences",
    }
    if level == "other":
        cov["explanation"] = ("contracts on the real functions discharged by CBMC for a bounded scope (bounded_units; every obligation "
                              "discharged within the bound, none counted as an unbounded proof) and executed natively")
    ev = {"property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": level,
          "coverage": cov, "assumptions": list(getattr(m, "ASSUMPTIONS", [])), "wall_s": round(time.time() - T0, 2),
          "violations": len(violations)}
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


def replay(path):
    txt = open(path).read()
    pid = re.search(r"^property (\S+)", txt, re.M).group(1)
    h = re.search(r"^harness (\S+)", txt, re.M)
    if not h:
        print(txt)
        return 1
    m = load(pid)
    n = [x for x in m.NATIVE if x.harness == h.group(1)][0]
    work = tempfile.mkdtemp(prefix="vf_replay_")
    try:
        exe = build_native(n, work, gen_headers(work))
        rf = os.path.join(work, "r.txt")
        shutil.copy(path, rf)
        rc, o = sh([exe, "replay", rf], 120, cwd=work, env=native_env(n))
        print(o)
        if os.path.exists(rf + ".stderr"):
            print(open(rf + ".stderr", errors="replace").read()[-4000:])
        return rc
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        return replay(a[1])
    if a and a[0] == "--native":
        m = load(a[1])
        work = tempfile.mkdtemp(prefix="vf_n_")
        try:
            gen = gen_headers(work)
            rc = 0
            for i, n in enumerate(m.NATIVE):
                exe = build_native(n, work, gen)
                st, rep = search_native(n, exe, work, float(a[2]) if len(a) > 2 else n.quick, SEED, str(i))
                print(json.dumps(st, indent=1))
                if rep:
                    print(rep)
                    rc = 1
            return rc
        finally:
            shutil.rmtree(work, ignore_errors=True)
    if a and a[0] == "--unit":
        m = load(a[1])
        work = tempfile.mkdtemp(prefix="vf_u_")
        try:
            gen = gen_headers(work)
            us = [u for u in m.UNITS if len(a) < 3 or re.search(a[2], u.name)]
            with cf.ThreadPoolExecutor(JOBS) as ex:
                for r in ex.map(lambda u: run_unit(u, work, gen), us):
                    print("%-34s %-7s %5d/%-5d %.1fs" % (r["unit"], r["status"], r["discharged"], r["obligations"], r["seconds"]))
                    for f in r["failed"][:12]:
                        print("     " + f)
                    if r["detail"]:
                        print("     " + r["detail"][-2500:])
            return 0
        finally:
            if not os.environ.get("VF_KEEP"):
                shutil.rmtree(work, ignore_errors=True)
            else:
                print(work)
    return check(a[0])


if __name__ == "__main__":
    sys.exit(main())
