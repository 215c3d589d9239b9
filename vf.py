#!/usr/bin/env python3
"""Contract verification driver.

usage: vf.py check PROPERTY        decide one property (exit 0 / 1 / 2)
       vf.py unit UNIT [...]       run single units, print every failed obligation
       vf.py selftest [UNIT ...]   compile units natively and run them on random inputs
       vf.py list

A unit is one real function of /repo (or a closed group of them) under
contract.  Per run: goto-cc compiles the unit, which #includes the real
source; goto-instrument --dfcc attaches and enforces the contract; cbmc
discharges every obligation.  Obligations labelled vf-reach are vacuity
guards and must be refuted.
"""
import concurrent.futures as cf
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
OUT = os.path.join(HERE, "out")
sys.path.insert(0, HERE)
from registry import UNITS, PROPERTIES  # noqa: E402

TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
JOBS = int(os.environ.get("VF_JOBS", "0") or 0) or min(8, os.cpu_count() or 4)
MEM_LIMIT = 8 << 30
BASE_CHECKS = ["--bounds-check", "--pointer-check", "--div-by-zero-check"]


class UnitError(Exception):
    pass


def run(cmd, timeout, cwd=None):
    def lim():
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
        os.setsid()
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         cwd=cwd, preexec_fn=lim)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.communicate()
        raise UnitError("timeout after %ds: %s" % (timeout, " ".join(cmd)[:200]))
    return p.returncode, out.decode("utf-8", "replace"), time.time() - t


def inc_flags(u):
    fl = ["-D_GNU_SOURCE", "-D__AMD64=1", "-D__LINUX=1", "-I", REPO, "-I", REPO + "/include", "-I", HERE + "/lib", "-I", HERE]
    for i in u.get("include", []):
        i = ["-I", i.replace("$REPO", REPO).replace("$VERIF", HERE)]
        fl = i + fl if u.get("include_first") else fl + i
    for d in u.get("defines", []):
        fl.append("-D" + d)
    if TIER == "thorough":
        for d in u.get("defines_thorough", []):
            fl.append("-D" + d)
    return fl


def unit_file(u):
    return os.path.join(HERE, "units", u["file"])


FUNC_DEF = r"^[A-Za-z_][^\n;{}]*\b%s\s*\([^;{}]*\)\s*\{"


def find_definition(name):
    """Locate the .c file of /repo that defines a function (helper moved there)."""
    pat = re.compile(FUNC_DEF % re.escape(name), re.M | re.S)
    for base in ("src", "utils", "runtime", "cmd"):
        for root, _, files in os.walk(os.path.join(REPO, base)):
            for f in files:
                if f.endswith(".c"):
                    p = os.path.join(root, f)
                    try:
                        txt = open(p, errors="replace").read()
                    except OSError:
                        continue
                    if name in txt and pat.search(txt):
                        return p
    return None


def json_result(out):
    start = out.find("[")
    try:
        data = json.loads(out[start:])
    except ValueError:
        raise UnitError("cbmc gave no parsable answer (out of memory?): " + re.sub(r"\s+", " ", out[-160:]))
    res, msgs, status = [], [], None
    for o in data:
        if "result" in o:
            res = o["result"]
        if "messageText" in o:
            msgs.append(o["messageText"])
        if "cProverStatus" in o:
            status = o["cProverStatus"]
    return res, msgs, status


def text_result(rc, out):
    """Verdicts of a plain-text run (no traces are built, whatever the array sizes)."""
    res, loc = [], {}
    for line in out.splitlines():
        m = re.match(r"(\S+) function (\S+)$", line)
        if m:
            loc = {"file": m.group(1), "function": m.group(2)}
            continue
        m = re.match(r"\[(\S+)\] (?:file (\S+) )?(?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$", line)
        if m:
            at = dict(loc)
            if m.group(3):
                at["line"] = m.group(3)
            res.append({"property": m.group(1), "description": m.group(4), "status": m.group(5), "sourceLocation": at})
    if rc not in (0, 10) or not re.search(r"^VERIFICATION (SUCCESSFUL|FAILED)", out, re.M):
        raise UnitError("cbmc gave no answer (exit %s): %s" % (rc, re.sub(r"\s+", " ", out[-300:])))
    m = re.search(r"^\*\* (\d+) of (\d+) failed", out, re.M)
    if not m or int(m.group(2)) != len(res) or int(m.group(1)) != sum(r["status"] == "FAILURE" for r in res):
        raise UnitError("cbmc's answer could not be read completely")
    return res


def build(u, d, extra_srcs):
    a = os.path.join(d, "a.gb")
    b = os.path.join(d, "b.gb")
    srcs = [s.replace("$REPO", REPO).replace("$VERIF", HERE) for s in u.get("srcs", [])]
    cmd = (["goto-cc", "-D__CPROVER__=1", "--function", "vf_harness"] + inc_flags(u) +
           u.get("cc", []) + [unit_file(u)] + srcs + extra_srcs + ["-o", a])
    if not u.get("enforce"):
        cmd.insert(1, "-DVF_TRIPLE=1")
    rc, out, t = run(cmd, 300)
    if rc != 0 or not os.path.exists(a):
        raise UnitError("goto-cc failed: " + out[-1500:])
    cmd = ["goto-instrument", "--dfcc", "vf_harness"]
    for f in u.get("enforce", []):
        cmd += ["--enforce-contract", f]
    for f in u.get("replace", []):
        cmd += ["--replace-call-with-contract", f]
    if u.get("loop_contracts"):
        cmd += ["--apply-loop-contracts"]
    cmd += u.get("instrument", [])
    cmd += [a, b]
    if not u.get("enforce") and not u.get("replace") and not u.get("loop_contracts"):
        # plain triple: pre/post stated around the call in the harness
        return drop_unused(u, d, a, b)
    rc, out, t = run(cmd, 600)
    if rc != 0:
        raise UnitError("goto-instrument failed: " + out[-1500:])
    return b


# bodies cbmc links itself
LIBC = set("malloc calloc realloc free memcpy memmove memset memcmp strlen strcmp strncmp strcpy strncpy "
           "strcat strchr strrchr strdup abort exit printf fprintf snprintf abs labs llabs isdigit isalpha "
           "isspace isxdigit isalnum toupper tolower fabs floor ceil fopen fclose getenv strtol atoi "
           "__assert_fail puts putchar".split())


def drop_unused(u, d, a, b):
    rc, out, t = run(["goto-instrument"] + u.get("instrument", []) + ["--drop-unused-functions", a, b], 600)
    if rc != 0:
        raise UnitError("goto-instrument failed: " + out[-1500:])
    return b


def cbmc_cmd(u, b, unwind, extra):
    cmd = ["cbmc", "--no-standard-checks", "--unwinding-assertions",
           "--no-malloc-may-fail"]
    cmd += u.get("checks", BASE_CHECKS)
    cmd += ["--unwind", str(unwind)]
    us = u.get("unwindset")
    if us:
        cmd += ["--unwindset", ",".join(us)]
    cmd += ["--object-bits", str(u.get("object_bits", 12))]
    cmd += u.get("cbmc", [])
    if u.get("solver", "cadical") in ("cadical", "minisat2", "minisat2-no-simplifier"):
        cmd += ["--sat-solver", u.get("solver", "cadical")]
    else:
        cmd += ["--" + u["solver"]]
    return cmd + extra + [b]


def classify(r):
    desc = r.get("description", "")
    prop = r.get("property", "")
    if desc.startswith("vf-reach"):
        return "reach"
    if ".no-body." in prop:
        # a body-less function could return anything: reaching one is an error
        name = prop.split(".no-body.")[1]
        if name in LIBC or name.startswith(("nondet_", "__CPROVER", "__builtin")):
            return "libc"
        return "nobody"
    if desc.startswith(("pointer relation", "same object violation")):
        # ordering of unrelated pointers: harmless on the supported targets, no memory is touched
        return "ignored"
    if "unwinding assertion" in desc or ".unwind." in prop or "recursion unwinding" in desc:
        return "unwind"
    return "obligation"


def extract_inputs(result):
    vals = []
    for st in result.get("trace", []):
        if st.get("stepType") == "assignment" and st.get("lhs") == "vf_input":
            v = st.get("value", {})
            b = v.get("binary")
            if b is not None:
                vals.append(int(b, 2))
            elif "data" in v:
                vals.append(int(re.sub(r"[^0-9-]", "", v["data"]) or 0) & (2 ** 64 - 1))
    # the static initialisation assigns vf_input = 0 once
    if result.get("trace"):
        pass
    return vals


def initial_assign(result):
    """Index of assignments to vf_input that belong to static initialisation."""
    n = 0
    for st in result.get("trace", []):
        if st.get("stepType") == "assignment" and st.get("lhs") == "vf_input":
            fn = st.get("sourceLocation", {}).get("function", "")
            if fn != "vf_u64":
                n += 1
            else:
                break
    return n


def native_build(u, d, sanitize=True):
    exe = os.path.join(d, "replay")
    srcs = [s.replace("$REPO", REPO).replace("$VERIF", HERE) for s in u.get("srcs", [])]
    srcs += [s.replace("$REPO", REPO).replace("$VERIF", HERE) for s in u.get("native_srcs", [])]
    san = ["-fsanitize=address", "-fno-omit-frame-pointer"] if sanitize else []
    cmd = (["gcc", "-std=gnu11", "-g", "-O0", "-w", "-DVF_REPLAY=1"] + san + inc_flags(u) +
           u.get("cc", []) + u.get("native_cc", []) +
           [unit_file(u)] + srcs + [os.path.join(HERE, "lib/replay_main.c"), "-o", exe,
                                    "-lm", "-lpthread", "-Wl,--unresolved-symbols=ignore-all", "-no-pie"])
    rc, out, _ = run_unlimited(cmd, 300)
    if rc != 0:
        raise UnitError("native build failed: " + out[-3000:])
    return exe


def run_unlimited(cmd, timeout, env=None, cwd=None):
    t = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, env=env, cwd=cwd)
    except subprocess.TimeoutExpired:
        return 124, "timeout", time.time() - t
    return p.returncode, p.stdout.decode("utf-8", "replace"), time.time() - t


def replay(u, d, inputs):
    """Run the real code natively on the counterexample; True if it misbehaves."""
    exe = native_build(u, d)
    f = os.path.join(d, "inputs.txt")
    with open(f, "w") as fh:
        fh.write("\n".join(str(v) for v in inputs) + "\n")
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99")
    rc, out, _ = run_unlimited([exe, f], 60, env=env, cwd=d)
    bad = (rc == 1 and "VIOLATED" in out) or rc == 99 or rc < 0
    return bad, rc, out[-4000:]


def run_unit(name):
    u = UNITS[name]
    t0 = time.time()
    res = {"unit": name, "functions": u.get("functions", u.get("enforce", [])),
           "obligations": 0, "discharged": 0, "failed": [], "reach": 0, "error": None,
           "bounded": u.get("bounded"), "solver_s": 0.0,
           "backend": u.get("solver", "cadical") + " via cbmc"}
    d = tempfile.mkdtemp(prefix="vf-%s-" % name)
    try:
        _run_unit(name, u, d, res)
    except UnitError as e:
        res["error"] = str(e)
    except Exception as e:  # machinery fault: an error of the check, never an alarm
        res["error"] = "internal: %r" % (e,)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    res["wall_s"] = round(time.time() - t0, 2)
    return res


def _run_unit(name, u, d, res):
    timeout = u.get("timeout", 400)
    if TIER == "thorough":
        timeout = u.get("timeout_thorough", timeout * 4)
    unwind = u.get("unwind", 10)
    if TIER == "thorough":
        unwind = u.get("unwind_thorough", unwind)
    extra = []
    b = build(u, d, extra)
    for attempt in range(4):
        cmd = cbmc_cmd(u, b, unwind, [])
        rc, out, t = run(cmd, timeout)
        res["solver_s"] = round(res["solver_s"] + t, 2)
        res["checker_cmd"] = " ".join(cmd[:-1]) + " b.gb"
        results = text_result(rc, out)
        if not results:
            raise UnitError("cbmc produced no results")
        groups = {"libc": [], "ignored": [], "reach": [], "nobody": [], "unwind": [], "obligation": []}
        for r in results:
            groups[classify(r)].append(r)
        bad_nobody = [r for r in groups["nobody"] if r["status"] == "FAILURE"]
        if bad_nobody:
            names = sorted({r["property"].split(".no-body.")[1] for r in bad_nobody})
            added = False
            for n in names:
                p = find_definition(n)
                if p and p not in extra:
                    extra.append(p)
                    added = True
            if added and attempt < 3:
                b = build(u, d, extra)
                continue
            raise UnitError("reachable function(s) outside the unit: " + ", ".join(names))
        bad_unwind = [r for r in groups["unwind"] if r["status"] == "FAILURE"]
        fails = [r for r in groups["obligation"] if r["status"] == "FAILURE"]
        if bad_unwind and not fails and not u.get("allow_unwind_fail"):
            if attempt < 3:
                unwind = unwind * 2 + 1
                continue
            res["bounded"] = "loops unrolled %d times" % unwind
        break
    unknown = [r for r in groups["obligation"] if r["status"] not in ("SUCCESS", "FAILURE")]
    res["obligations"] = len(groups["obligation"]) + len(groups["unwind"])
    res["discharged"] = sum(r["status"] == "SUCCESS" for r in groups["obligation"] + groups["unwind"])
    res["reach"] = sum(r["status"] == "FAILURE" for r in groups["reach"])
    res["unwind"] = unwind
    dead = [r["description"] for r in groups["reach"] if r["status"] == "SUCCESS"]
    if fails:
        for r in fails[:40]:
            res["failed"].append({"obligation": r["property"], "description": r["description"],
                                  "location": r.get("sourceLocation", {})})
        # counterexample for the most informative failed obligation
        order = sorted(fails, key=lambda r: (0 if "vf-post" in r["description"] else
                                             1 if "postcondition" in r["property"] else 2))
        tb = b
        if u.get("trace_defines"):
            # the same unit with small arrays, so that a counterexample can be written down
            os.makedirs(os.path.join(d, "small"), exist_ok=True)
            try:
                tb = build(dict(u, defines=u.get("defines", []) + u["trace_defines"]), os.path.join(d, "small"), extra)
            except UnitError:
                pass
        for r in order[:3]:
            cmd = [c for c in cbmc_cmd(u, tb, unwind, ["--json-ui", "--trace", "--property", r["property"]]) if c != "--slice-formula"]
            try:
                rc, out, t = run(cmd, timeout)
                rr, _, _ = json_result(out)
            except UnitError:
                continue
            tr = [x for x in rr if x.get("property") == r["property"] and x.get("trace")]
            if not tr:
                continue
            inputs = extract_inputs(tr[0])[initial_assign(tr[0]):]
            entry = next(f for f in res["failed"] if f["obligation"] == r["property"]) \
                if any(f["obligation"] == r["property"] for f in res["failed"]) else res["failed"][0]
            entry["inputs"] = inputs
            try:
                bad, rc2, log = replay(u, d, inputs)
            except UnitError as e:
                bad, rc2, log = False, -1, str(e)
            entry["replay"] = {"reproduced": bad, "exit": rc2, "output": log}
            if bad:
                res["reproduced"] = True
                break
        return
    if unknown:
        raise UnitError("solver left %d obligation(s) undecided" % len(unknown))
    if not groups["obligation"]:
        raise UnitError("zero obligations generated")
    if not groups["reach"]:
        raise UnitError("unit has no vacuity guard")
    if dead:
        raise UnitError("vacuous: not reachable: " + "; ".join(dead))


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"]]


def check(prop):
    t0 = time.time()
    P = PROPERTIES[prop]
    names = [n for n in P["units"] if TIER == "thorough" or not UNITS[n].get("thorough_only")]
    names.sort(key=lambda n: -UNITS[n].get("weight", 1))
    known = [k for k in load_known() if k["property"] == prop and k.get("status") == "open"]
    results = []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for r in ex.map(run_unit, names):
            results.append(r)
            tag = "ERROR" if r["error"] else ("FAILED" if r["failed"] else "ok")
            print("%-6s %-34s %5d obligations %5d discharged %2d covers %6.1fs%s" % (
                tag, r["unit"], r["obligations"], r["discharged"], r["reach"], r["wall_s"],
                "  [bounded: %s]" % r["bounded"] if r["bounded"] else ""), flush=True)
    violations = []
    known_lines = []
    known_obligations = 0
    for r in results:
        rest = []
        for f in r["failed"]:
            k = next((k for k in known if k["unit"] == r["unit"] and
                      (k["obligation"] in f["description"] or k["obligation"] in f["obligation"])), None)
            if k:
                line = "KNOWN-FINDING: property=%s %s" % (prop, k["what"])
                if line not in known_lines:
                    known_lines.append(line)
                known_obligations += 1
            else:
                rest.append(f)
        if rest:
            violations.append((r, rest))
    for line in known_lines:
        print(line)
    errors = [r for r in results if r["error"]]
    rdir = os.path.join(OUT, "replay")
    os.makedirs(rdir, exist_ok=True)
    for r, fs in violations:
        path = os.path.join(rdir, "%s-%s.json" % (prop, r["unit"]))
        with open(path, "w") as fh:
            json.dump({"property": prop, "unit": r["unit"], "functions": r["functions"],
                       "failed_obligations": fs, "backend": r["backend"],
                       "checker_cmd": r.get("checker_cmd"),
                       "how_to_replay": "python3 vf.py unit %s" % r["unit"]}, fh, indent=1)
        for f in fs[:6]:
            print("  failed obligation %s: %s (%s:%s)" % (
                f["obligation"], f["description"], f["location"].get("file", "?"),
                f["location"].get("line", "?")))
        suffix = "" if any(f.get("replay", {}).get("reproduced") for f in fs) \
            else " no-failing-input-found"
        print("VIOLATION property=%s replay=%s%s" % (prop, path, suffix))
    for r in errors:
        print("CHECK-ERROR unit=%s: %s" % (r["unit"], r["error"]))
    # bounded units are reported apart and never counted as proved
    ob = sum(r["obligations"] for r in results if not r["bounded"]) - known_obligations
    dis = sum(r["discharged"] for r in results if not r["bounded"])
    bob = sum(r["obligations"] for r in results if r["bounded"])
    bdis = sum(r["discharged"] for r in results if r["bounded"])
    backends = sorted({r["backend"] for r in results})
    assumptions = list(P.get("assumptions", []))
    for n in names:
        for a in UNITS[n].get("assumptions", []):
            if a not in assumptions:
                assumptions.append(a)
    ev = {
        "property": prop, "tier": TIER, "seed": SEED, "level": P.get("level", "proof"),
        "coverage": {
            "obligations": ob, "discharged": dis,
            "bounded_obligations": bob, "bounded_discharged": bdis,
            **({"explanation": P["note"]} if P.get("level") == "other" else {}),
            "checker_cmd": "goto-cc | goto-instrument --dfcc vf_harness --enforce-contract F | cbmc --unwinding-assertions (see units)",
            "trusted_base": ["CBMC 6.11.0 (goto-cc C front end, dfcc contract instrumentation, bit-precise symbolic execution)",
                             "back end: " + ", ".join(backends)] + P.get("trusted", []),
            "functions_under_contract": sorted({f for r in results for f in r["functions"]}),
            "solver_s": round(sum(r["solver_s"] for r in results), 2),
            "vacuity_guards_refuted": sum(r["reach"] for r in results),
            "bounded_units": {r["unit"]: r["bounded"] for r in results if r["bounded"]},
            "units": [{k: r.get(k) for k in ("unit", "functions", "obligations", "discharged",
                                             "reach", "unwind", "bounded", "backend", "solver_s",
                                             "wall_s", "error", "checker_cmd")} for r in results],
            "known_findings": known_lines,
            "obligations_failing_as_known_findings": known_obligations,
        },
        "assumptions": assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print("%s: %d units, %d/%d obligations discharged, %d/%d bounded, %.1fs" % (
        prop, len(results), dis, ob, bdis, bob, time.time() - t0))
    if violations:
        return 1
    if errors:
        return 2
    return 0


def main(argv):
    if not argv:
        print(__doc__)
        return 2
    if argv[0] == "list":
        for p, P in PROPERTIES.items():
            print(p, " ".join(P["units"]))
        return 0
    if argv[0] == "check":
        return check(argv[1])
    if argv[0] == "unit":
        bad = 0
        names = []
        for a in argv[1:]:
            names += [n for n in UNITS if n == a or re.fullmatch(a, n)]
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for r in ex.map(run_unit, names):
                fs = r.pop("failed")
                print(json.dumps({k: r[k] for k in ("unit", "obligations", "discharged", "reach",
                                                    "unwind", "solver_s", "error", "bounded")
                                  if k in r}))
                for f in fs:
                    bad = 1
                    print("   FAILED", f["obligation"], "|", f["description"], "|",
                          f["location"].get("function", ""), f["location"].get("line", ""))
                    if "inputs" in f:
                        print("     inputs", [hex(x) for x in f["inputs"]][:80])
                        print("     replay", f.get("replay"))
                if r["error"]:
                    bad = 2
        return bad
    if argv[0] == "selftest":
        names = argv[1:] or list(UNITS)
        for n in names:
            d = tempfile.mkdtemp(prefix="vf-self-")
            try:
                exe = native_build(UNITS[n], d)
                stat = {}
                for s in range(300):
                    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99")
                    rc, out, _ = run_unlimited([exe, "@%d" % s], 30, env=env, cwd=d)
                    stat[rc] = stat.get(rc, 0) + 1
                    if rc not in (0, 77) and stat[rc] < 3:
                        print(n, "seed", s, "rc", rc, out[-600:])
                print(n, stat)
            except UnitError as e:
                print(n, e)
            finally:
                shutil.rmtree(d, ignore_errors=True)
        return 0
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
