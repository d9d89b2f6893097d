#!/usr/bin/env python3
"""Decide one property: check.py <property> [quick|thorough]

Runs the deductive back ends on the current working tree of /repo and turns the obligations they fail
into a violation, with a failing input replayed against the real crate where one can be found.
"""
import concurrent.futures as cf
import glob
import json
import os
import re
import resource
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from plan import PLAN, CONFIGS, TRUSTED, ASSUMPTIONS  # noqa: E402

REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
START = time.time()
# Everything is decided well before the 900 s a check is given.
DEADLINE = START + 800


def left(reserve=0):
    return max(1.0, DEADLINE - reserve - time.time())


def say(*a):
    print("[%6.1fs]" % (time.time() - START), *a, flush=True)


def limit():
    # A runaway solver must not take the machine down.
    resource.setrlimit(resource.RLIMIT_AS, (9 << 30, 9 << 30))


def run(cmd, timeout, env=None, cwd=VERIF):
    """Run a command in its own process group; returns (status or None on timeout, output)."""
    e = dict(os.environ)
    e.update(HOME=e.get("HOME", "/root"), CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
    e.pop("RUSTUP_TOOLCHAIN", None)
    e.pop("CARGO_TARGET_DIR", None)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True, text=True, errors="replace", preexec_fn=limit)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return None, out or ""


class Result:
    def __init__(self):
        self.obligations = 0
        self.discharged = 0
        self.by_backend = {}
        self.solver_s = {}
        self.contracts = []
        self.functions = set()
        self.failed = []        # dicts: kind, config, name, messages, output
        self.undecided = []     # strings
        self.bounded = []       # dicts
        self.commands = []
        self.notes = set()      # what the extraction for Verus changes

    def add(self, backend, obligations, discharged, secs):
        self.obligations += obligations
        self.discharged += discharged
        b = self.by_backend.setdefault(backend, {"obligations": 0, "discharged": 0})
        b["obligations"] += obligations
        b["discharged"] += discharged
        self.solver_s[backend] = round(self.solver_s.get(backend, 0) + secs, 2)


def features(pid, cfg, widths, kani):
    f = [pid.lower()] + list(widths) + CONFIGS[cfg]["features"]
    if kani:
        f.append("noasm")
    return ",".join(f)


# ---------------------------------------------------------------------------------------------- Kani

INCONCLUSIVE = ("unwind", "unsupported_construct", "reachability_check", "sanity_check")


def kani_cmd(pid, r, extra, nostub=False):
    f = features(pid, r["cfg"], r["widths"], True) + (",nostub" if nostub else "")
    return ["cargo", "kani", "--lib", "--manifest-path", os.path.join(HARNESS, "Cargo.toml"),
            "--target-dir", os.path.join(BUILD, "kani-" + r["cfg"]), "--features", f,
            "-Z", "unstable-options", "-Z", "stubbing", "--no-assertion-reach-checks",
            "--default-unwind", str(r["unwind"])] + extra


def kani(res, pid, r, jobs, timeout, only=None, nostub=False):
    """Discharge the contracts of one configuration."""
    cfg, widths = r["cfg"], r["widths"]
    out_json = os.path.join(BUILD, "kani-%s-%s.json" % (pid, r["name"]))
    os.makedirs(BUILD, exist_ok=True)
    if os.path.exists(out_json):
        os.remove(out_json)
    harness_timeout = int(min(r["timeout"], timeout))
    extra = ["-j", str(jobs), "--output-format", "terse", "--export-json", out_json,
             "--harness-timeout", "%ds" % harness_timeout]
    for h in only or r.get("only") or []:
        extra += ["--harness", h]
    cmd = kani_cmd(pid, r, extra, nostub)
    res.commands.append(" ".join(cmd))
    rc, out = run(cmd, timeout, CONFIGS[cfg].get("env"), cwd=HARNESS)
    if not os.path.exists(out_json):
        say("kani %s: no result (status %s)" % (r["name"], rc))
        res.add("kani/cbmc", 1, 0, 0)
        return {"status": "timeout" if rc is None else "error", "output": "\n".join(out.splitlines()[-40:])}
    data = json.load(open(out_json))
    stats = {c["harness_id"]: c.get("cbmc_stats") or {} for c in data["cbmc"]}
    meta = {m["pretty_name"]: m for m in data["harness_metadata"]}
    for h in data["verification_results"]["results"]:
        name = h["harness_id"]
        checks = h.get("checks") or []
        panics = (meta.get(name, {}).get("attributes") or {}).get("should_panic", False)
        ok = h["status"] == "Success"
        real = [c for c in checks if c["category"] not in ("cover",)]
        covers = [c for c in checks if c["category"] == "cover"]
        bad = [c for c in real if c["status"] in ("Failure", "Undetermined")]
        if panics:
            # The obligation is that no input returns: the panics themselves are the expected outcome.
            real = [c for c in real if c["category"] != "assertion"] or real
            bad = [] if ok else [c for c in bad if c["category"] != "assertion"]
        for c in checks:
            f = c.get("function") or ""
            if re.search(r"(^|[ <&(])i256::", f):
                res.functions.add(re.sub(r"::<[0-9, a-z]+>", "", f))
        s = stats.get(name, {})
        secs = s.get("runtime_decision_procedure_s") or 0
        posts = sum(1 for c in real if str(c.get("description", "")).startswith("ensures"))
        res.contracts.append({"config": cfg, "contract": name, "status": h["status"],
                              "postconditions": posts, "obligations": len(real), "seconds": round((h.get("duration_ms") or 0) / 1000, 1)})
        if ok and covers and any(c["status"] != "Satisfied" for c in covers):
            res.add("kani/cbmc", len(real), 0, secs)
            res.undecided.append("%s %s: the end of the contract is unreachable (vacuous)" % (cfg, name))
            continue
        if ok:
            res.add("kani/cbmc", len(real), len(real), secs)
            continue
        hard = [c for c in bad if c["status"] == "Failure" and c["category"] not in INCONCLUSIVE]
        res.add("kani/cbmc", max(1, len(real)), max(0, len(real) - len(bad)) if checks else 0, secs)
        if hard or (panics and checks and not any(c["category"] in INCONCLUSIVE and c["status"] == "Failure" for c in checks)):
            msgs = ["%s (%s, %s:%s)" % (c["description"], c["function"], (c.get("location") or {}).get("file"),
                                      (c.get("location") or {}).get("line")) for c in hard] or ["does not panic"]
            res.failed.append({"backend": "kani", "config": cfg, "name": name, "messages": msgs, "run": r})
            say("kani %s: FAILED %s: %s" % (cfg, name, "; ".join(msgs[:3])))
        else:
            why = "; ".join("%s" % c["description"] for c in bad[:2]) or "time limit of %d s" % harness_timeout
            res.undecided.append("%s %s: %s" % (cfg, name, why))
            say("kani %s: undecided %s: %s" % (cfg, name, why))
    done = data["verification_results"]["summary"]
    say("kani %s: %d of %d contracts proved" % (r["name"], done["successful"], done["total_harnesses"]))
    return None


def playback(pid, f, timeout):
    """The concrete values of Kani's counterexample, in the order they are drawn."""
    cmd = kani_cmd(pid, f["run"], ["-Z", "concrete-playback", "--concrete-playback=print", "--harness", f["name"], "--exact"])
    rc, out = run(cmd, timeout, CONFIGS[f["config"]].get("env"), cwd=HARNESS)
    found = []
    for block in re.findall(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", out, re.S):
        vals = []
        for v in re.findall(r"vec!\[([0-9, ]*)\]", block):
            b = bytes(int(x) for x in v.replace(" ", "").split(",") if x)
            vals.append(int.from_bytes(b, "little"))
        if vals not in found:
            found.append(vals)
    return found, out


# -------------------------------------------------------------------------------------------- native

def native_build(pid, cfg, widths, asm, timeout=300):
    target = os.path.join(BUILD, "native-%s%s" % (cfg, "" if asm else "-noasm"))
    cmd = ["cargo", "build", "--offline", "-q", "--manifest-path", os.path.join(HARNESS, "Cargo.toml"), "--target-dir", target,
           "--features", features(pid, cfg, widths, not asm)]
    env = dict(CONFIGS[cfg].get("env") or {})
    rc, out = run(cmd, timeout, env, cwd=HARNESS)
    exe = os.path.join(target, "debug", "replay")
    if rc != 0:
        return None, out
    # Keep the binaries of different configurations apart.
    return exe, out


def native_name(harness):
    return "i256_contracts::" + harness.replace("::k::", "::").replace("::ks::", "::")


def search(exe, seed, secs, only=()):
    rc, out = run([exe, "search", str(seed), str(secs)] + list(only), secs + 120)
    fails, ran = [], 0
    for line in out.splitlines():
        if line.startswith("FAIL "):
            name, msg, vals = [x.strip() for x in line[5:].split("|", 2)]
            fails.append({"contract": name, "message": msg, "values": vals})
        elif line.startswith("RAN "):
            ran += int(line.split()[2])
    if rc not in (0, 1):
        # The process died: a crash is a failure of whatever ran, but it has no input to report.
        fails.append({"contract": "(process)", "message": "terminated with status %s" % rc, "values": "", "crash": True})
    return fails, ran


def replay_given(exe, contract, values):
    rc, out = run([exe, "given", contract, ",".join("%#x" % v for v in values)], 60)
    for line in out.splitlines():
        if line.startswith("FAIL "):
            name, msg, vals = [x.strip() for x in line[5:].split("|", 2)]
            return {"contract": name, "message": msg, "values": vals}
    return None


# -------------------------------------------------------------------------------------------- verdict

def write_replay(pid, n, data):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d.json" % (pid, n))
    with open(path, "w") as f:
        json.dump(data, f, indent=1)
    return path


def known_findings(pid):
    path = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) contract=(\S+) message=\"(.*?)\" (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    plan = PLAN[pid]
    res = Result()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    for old in glob.glob(os.path.join(VERIF, "evidence", "replay", pid + "-*.json")):
        os.remove(old)

    runs = plan["kani"][tier]
    stuck = []

    # The deductive verifiers.
    if plan.get("verus"):
        import verus
        widths = ["256"] + sorted({w[1:] for r in runs for w in r["widths"]}, key=int)
        verus.verify(res, plan["verus"], run, say, time.time() + min(300, left(300)), widths)
    workers = min(len(runs), 3)
    with cf.ThreadPoolExecutor(workers) as ex:
        def one(r):
            err = kani(res, pid, r, max(4, 8 // workers), left(250))
            if err and err["status"] == "error":
                # A callee is gone: use the bodies of all callees.
                say("kani %s: retrying without contracts of callees" % r["name"])
                retry = kani(res, pid, r, max(4, 8 // workers), left(250), nostub=True)
                if not retry:
                    return None
            return err
        for r, err in zip(runs, ex.map(one, runs)):
            if err:
                stuck.append(r["name"])
                res.undecided.append("%s: %s" % (r["name"], err["status"]))
                print(err["output"])

    # The same contracts executed on the real build, which also covers the inline assembly.
    bounded = []
    secs = plan.get("native", 4) if tier == "quick" else 4 * plan.get("native", 4)
    if res.undecided or stuck or res.failed:
        secs = max(secs, 10)
    exes = {}
    for cfg in sorted({r["cfg"] for r in runs}):
        widths = sorted({w for r in runs for w in r["widths"]})
        exe, out = native_build(pid, cfg, widths, True)
        if exe is None:
            print(out)
            if stuck:
                print("the contracts do not compile against /repo")
                sys.exit(2)
            continue
        exes[cfg] = exe
        fails, ran = search(exe, seed, secs)
        res.bounded.append({"config": cfg, "inputs": ran, "seconds": secs, "failures": len(fails)})
        for f in fails:
            f["config"] = cfg
            bounded.append(f)
        say("native %s: %d contract executions, %d failures" % (cfg, ran, len(fails)))

    # Report.
    violations = []
    known = known_findings(pid)
    reported = set()

    def report(contract, config, message, values, obligation, output, confirmed):
        key = (contract, message)
        if key in reported:
            return
        reported.add(key)
        for c, m, text in known:
            if contract.endswith(c) and m in message:
                print("KNOWN-FINDING: property=%s %s" % (pid, text))
                return
        path = write_replay(pid, len(violations) + 1, {
            "property": pid, "obligation": obligation, "contract": contract, "config": config, "message": message,
            "values": values,
            "replay": None if not confirmed else
            "cd %s && python3 tools/replay.py %s" % (VERIF, "evidence/replay/%s-%d.json" % (pid, len(violations) + 1)),
            "verifier_output": output})
        violations.append("VIOLATION property=%s replay=%s%s" % (pid, path, "" if confirmed else " no-failing-input-found"))

    found = {f["contract"]: f for f in bounded if not f.get("crash")}
    for f in bounded:
        ob = [x for x in res.failed if native_name(x["name"]) == f["contract"]]
        report(f["contract"], f["config"], f["message"], f["values"],
               "; ".join(ob[0]["messages"]) if ob else "run-time check of the contract (bounded, real build): " + f["message"],
               "", not f.get("crash"))
    pending = [x for x in res.failed if x["backend"] == "kani" and native_name(x["name"]) not in found]
    for x in pending[:6]:
        if violations and left(60) < 60:
            break
        confirmed = None
        exe = exes.get(x["config"])
        # The arguments are drawn first, so that they can be replayed even if the proof used contracts of callees.
        vals, out = playback(pid, x, min(250, left(60))) if left(60) > 30 else ([], "")
        for v in vals:
            confirmed = exe and replay_given(exe, native_name(x["name"]), v)
            if confirmed:
                break
        if not confirmed and exe and left(30) > 20:
            fails, _ = search(exe, seed + 1, min(20, left(20)), [native_name(x["name"])])
            confirmed = fails[0] if fails else None
        if not confirmed and "::ks::" in x["name"] and left(60) > 30:
            # The proof relied on contracts of callees: with their bodies it may go through.
            again = Result()
            err = kani(again, pid, x["run"], 2, min(200, left(60)), only=[x["name"]], nostub=True)
            mine = [c for c in again.contracts if c["contract"] == x["name"]]
            if not err and mine and mine[0]["status"] == "Success":
                say("%s: proved with the bodies of the callees" % x["name"])
                continue
        if confirmed:
            report(confirmed["contract"], x["config"], confirmed["message"], confirmed["values"], "; ".join(x["messages"]),
                   "", True)
        elif not violations:
            report(native_name(x["name"]), x["config"], "; ".join(x["messages"]), None, "; ".join(x["messages"]),
                   "\n".join(out.splitlines()[-60:]), False)
    for x in [x for x in res.failed if x["backend"] == "verus"]:
        if not violations:
            report(x["name"], "verus", "; ".join(x["messages"]), None, "; ".join(x["messages"]), x["output"], False)

    wall = time.time() - START
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": res.obligations, "discharged": res.discharged,
            "checker_cmd": " && ".join(res.commands), "trusted_base": TRUSTED + plan.get("trusted", []),
            "contracts": len(res.contracts),
            "postconditions": sum(c["postconditions"] for c in res.contracts),
            "functions_under_contract": len(res.functions), "functions": sorted(res.functions),
            "by_back_end": res.by_backend, "solver_seconds": res.solver_s,
            "undecided": res.undecided,
            "extraction_changes": sorted(res.notes),
            "bounded_run_time_checks": res.bounded,
            "contract_results": res.contracts,
        },
        "assumptions": ASSUMPTIONS + plan.get("assumptions", []),
        "wall_s": round(wall, 1), "violations": len(violations),
    }
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    say("%s: %d of %d obligations discharged, %d undecided, %d violations"
        % (pid, res.discharged, res.obligations, len(res.undecided), len(violations)))
    for v in violations:
        print(v)
    sys.exit(1 if violations else 0)


if __name__ == "__main__":
    main()
