"""Proofs of the loop kernels with Verus, on functions extracted from the current source of /repo.

Every run expands the macros of the crate with rustc, extracts the functions named in proofs/*.ann,
puts the annotations in and has Verus discharge every obligation, for both limb widths.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import time

import weave

VERIF = weave.VERIF
BUILD = os.path.join(VERIF, "build")
EXTRACT = os.path.join(BUILD, "extract", "release", "extract")

BIG = ["big.rs", "bigfns.rs:U", "bigfns.rs:I"]


def both(files):
    return {"l64": files, "l32": files}


# The annotation files of a unit, per configuration.
UNITS = {
    "mul": both(["mul.ann"]),
    "div": {"l64": ["div.ann"], "l32": ["div.ann", "div128.ann"]},
    "upow": both(BIG + ["pow.ann:U"]),
    "ipow": both(BIG + ["pow.ann:I"]),
    "ilog": both(BIG + ["bigops.rs:U", "ilog.ann:U"]),
    "uparse": both(BIG + ["digits.rs", "parse.ann:U"]),
    "iparse": both(BIG + ["digits.rs", "parse.ann:I"]),
    "uwrite": both(BIG + ["digits.rs", "write.ann:U"]),
    "iwrite": both(BIG + ["digits.rs", "write.ann:I"]),
}

# Units that are proved for one width of the integers; the others are independent of it.
PER_WIDTH = ("upow", "ipow", "ilog", "uparse", "iparse", "uwrite", "iwrite")

FEATURES = {"l64": "noasm,i384,i512,i1024", "l32": "noasm,limb32,i384,i512,i1024"}


def build_extractor(run):
    rc, out = run(["cargo", "build", "--offline", "--release", "-q", "--manifest-path", os.path.join(VERIF, "extract", "Cargo.toml"),
                   "--target-dir", os.path.join(BUILD, "extract")], 200, None, os.path.join(VERIF, "extract"))
    return rc == 0, out


def expand(run, cfg):
    """The source of /repo after macro expansion."""
    target = os.path.join(BUILD, "expand-" + cfg)
    shutil.rmtree(target, ignore_errors=True)
    os.makedirs(target)
    path = os.path.join(BUILD, "expanded-%s.rs" % cfg)
    cmd = ["cargo", "rustc", "--offline", "-q", "--lib", "--manifest-path", "/repo/Cargo.toml", "--target-dir", target,
           "--features", FEATURES[cfg], "--", "-Zunpretty=expanded", "-o", path]
    if os.path.exists(path):
        os.remove(path)
    rc, out = run(cmd, 200, {"RUSTC_BOOTSTRAP": "1"}, VERIF)
    shutil.rmtree(target, ignore_errors=True)
    if rc != 0 or not os.path.exists(path):
        return None, out
    return path, out


def prove(run, path, timeout, extra=()):
    cmd = ["verus", "--triggers-mode", "silent", "--output-json", "--time", "--num-threads", "2", path] + list(extra)
    p = subprocess.Popen(cmd, cwd=BUILD, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return " ".join(cmd), None, "time limit"
    try:
        return " ".join(cmd), json.loads(out), err
    except ValueError:
        return " ".join(cmd), None, err


def functions_of(data):
    out = []
    for m in data.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            out.append((f["function"].split("::", 1)[1], f["mode:"], f["success"], f["time-micros"] / 1e6))
    return out


def errors_of(err, path):
    """Messages with their line, and the lines of the text around them."""
    text = open(path).read().split("\n")
    found = []
    for m in re.finditer(r"^error(?:\[\w+\])?: (.*?)\n\s*--> \S+?:(\d+):\d+", err, re.M):
        if m.group(1).startswith("aborting"):
            continue
        n = int(m.group(2))
        # The function the line belongs to.
        f = next((re.match(r"(?:proof |spec )?fn (\w+)", l.strip()).group(1) for l in reversed(text[:n])
                  if re.match(r"(?:proof |spec )?fn (\w+)", l.strip())), "?")
        found.append((f, m.group(1), text[n - 1].strip()))
    return found


def one(run, cfg, unit, expanded, deadline, width="256"):
    """Result of one unit: dict with status proved, failed or undecided."""
    r = {"cfg": cfg, "unit": unit, "status": "undecided", "why": "", "functions": [], "notes": [], "failed": [], "verified": 0,
         "errors": 0, "secs": 0.0, "cmd": "", "err": ""}
    if unit in PER_WIDTH:
        r["unit"] = unit + width
    try:
        text, r["functions"], r["notes"] = weave.module(EXTRACT, expanded, UNITS[unit][cfg], dict(weave.LIMB[cfg], WIDTH=width))
    except weave.Lost as e:
        r["why"] = str(e)
        return r
    path = os.path.join(BUILD, "%s%s_%s.rs" % (unit, width, cfg))
    with open(path, "w") as f:
        f.write(text)
    for extra in ((), ("--rlimit", "60", "--smt-option", "smt.random_seed=7")):
        limit = deadline - time.time()
        if limit < 5:
            break
        r["cmd"], data, err = prove(run, path, limit, extra)
        r["err"] = err
        if data is None:
            r["why"] = (err.strip().splitlines() or ["no result"])[0]
            break
        res = data.get("verification-results", {})
        if res.get("encountered-vir-error") or "verified" not in res:
            found = errors_of(err, path)
            r["why"] = "not accepted as input: " + "; ".join("%s: %s" % (f, m) for f, m, _ in found[:2])
            break
        fs = functions_of(data)
        r["verified"], r["errors"] = res["verified"], res["errors"]
        r["secs"] += sum(x[3] for x in fs)
        r["proved"] = sorted(x[0] for x in fs if x[2] and x[1] == "exec")
        if res.get("success"):
            r["status"] = "proved"
            return r
        if res["errors"] == 0:
            found = errors_of(err, path)
            r["why"] = "not accepted as input: " + "; ".join("%s: %s" % (f, m) for f, m, _ in found[:2])
            break
        found = errors_of(err, path)
        names = {p.split("::")[-1] for p in r["functions"]}
        r["failed"] = [(f, m, l) for f, m, l in found if f in names and "rlimit" not in m.lower()]
        r["why"] = "; ".join("%s: %s" % (f, m) for f, m, _ in found[:3])
    if r["failed"] and r["errors"]:
        r["status"] = "failed"
    return r


def verify(res, units, run, say, deadline, widths=("256",)):
    """Run the units for both limb widths; adds obligations, failures and undecided items to res."""
    ok, out = build_extractor(run)
    if not ok:
        res.undecided.append("the extraction tool does not build")
        print(out)
        return []
    expanded = {}
    with cf.ThreadPoolExecutor(2) as ex:
        for cfg, (path, out) in zip(FEATURES, ex.map(lambda c: expand(run, c), FEATURES)):
            expanded[cfg] = path
            if path is None:
                print(out)
    jobs = [(cfg, u, w) for w in widths for u in units for cfg in FEATURES if u in PER_WIDTH or w == widths[0]]
    results = []
    with cf.ThreadPoolExecutor(4) as ex:
        def go(j):
            cfg, u, w = j
            if expanded[cfg] is None:
                return {"cfg": cfg, "unit": u, "status": "undecided", "why": "the source does not expand", "functions": [], "notes": [],
                        "failed": [], "verified": 0, "errors": 0, "secs": 0.0, "cmd": "", "err": ""}
            return one(run, cfg, u, expanded[cfg], deadline, w)
        results = list(ex.map(go, jobs))
    for r in results:
        label = "%s %s" % (r["unit"], r["cfg"])
        total = r["verified"] + r["errors"]
        if r["status"] == "proved":
            res.add("verus/z3", total, total, r["secs"])
            for f in r["functions"]:
                res.functions.add("i256::" + f)
            res.contracts.append({"config": r["cfg"], "contract": "verus " + r["unit"], "status": "Success",
                                  "postconditions": len(r["functions"]), "obligations": total})
        else:
            res.add("verus/z3", max(1, total), r["verified"], r["secs"])
            res.contracts.append({"config": r["cfg"], "contract": "verus " + r["unit"],
                                  "status": "Failure" if r["status"] == "failed" else "Undecided",
                                  "postconditions": len(r["functions"]), "obligations": max(1, total)})
        if r["status"] == "failed":
            names = sorted({f for f, _, _ in r["failed"]})
            for n in names:
                path = next(p for p in r["functions"] if p.split("::")[-1] == n)
                res.failed.append({"backend": "verus", "config": r["cfg"], "name": path, "unit": r["unit"],
                                   "messages": ["%s: %s: %s" % (path, m, l) for f, m, l in r["failed"] if f == n], "output": r["err"][-6000:]})
        elif r["status"] == "undecided":
            res.undecided.append("verus %s: %s" % (label, r["why"]))
        res.notes |= set(r["notes"])
        if r["cmd"]:
            res.commands.append(r["cmd"])
        say("verus %s: %s, %d of %d obligations%s" % (label, r["status"], r["verified"], total, "; " + r["why"] if r["why"] else ""))
    return results
