#!/usr/bin/env python3
"""Decides one property of /repo: check.py ID

1. Kani (CBMC): every contract of the property, on the crate compiled from
   /repo's working tree, for every value.
2. Verus: the functions listed for the property, extracted from /repo's working
   tree, against their contracts (see verus/ and bin/verus_unit.py).
3. A counterexample of 1 is replayed natively on the real code; where 1 or 2 fail
   or are undecided, the same contracts are run natively on many inputs.

Exit 0: held.  Exit 1: VIOLATION line.  Exit 2: the check could not decide.
"""
import concurrent.futures, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RTPS_REPO", "/repo")
BUILD = os.environ.get("RTPS_BUILD", os.path.join(VERIF, "build"))
sys.path.insert(0, os.path.join(VERIF, "bin"))
from properties import PROPERTIES  # noqa: E402
import constants  # noqa: E402
import names  # noqa: E402
from functions import under_contract  # noqa: E402

CONSTANTS = os.path.join(BUILD, "constants.txt")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
START = time.time()
BUDGET = 840 if TIER == "quick" else 6 * 3600


def left():
    return BUDGET - (time.time() - START)


def log(*args):
    print("[%6.1fs]" % (time.time() - START), *args, file=sys.stderr, flush=True)


def environment():
    env = dict(os.environ)
    env["RTPS_VERIF_DIR"] = os.path.join(BUILD, "contracts")
    env["RTPS_VERIF_CONSTANTS"] = CONSTANTS
    env["RUSTFLAGS"] = "--cfg rtps_verif -Awarnings"
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    env.pop("RUSTC_WRAPPER", None)
    env.pop("CARGO_TARGET_DIR", None)
    return env


def run(cmd, cwd, timeout, memory=None, extra=None):
    """-> (exit code or None on timeout, stdout, stderr)"""
    env = environment()
    env.update(extra or {})

    def limits():
        os.setsid()
        if memory:
            resource.setrlimit(resource.RLIMIT_AS, (memory, memory))

    process = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               text=True, errors="replace", preexec_fn=limits)
    try:
        out, err = process.communicate(timeout=max(1, timeout))
        return process.returncode, out, err
    except subprocess.TimeoutExpired:
        os.killpg(process.pid, signal.SIGKILL)
        out, err = process.communicate()
        return None, out, err


def fail(message):
    print("ERROR: " + message)
    sys.exit(2)


def select_contracts(files):
    """Only the contracts of this property are compiled: a change elsewhere in the
    crate cannot keep them from binding."""
    target = os.path.join(BUILD, "contracts")
    os.makedirs(target, exist_ok=True)
    other = names.renamed(REPO)
    for name in os.listdir(os.path.join(VERIF, "contracts")):
        if not name.endswith(".rs"):
            continue
        text = open(os.path.join(VERIF, "contracts", name)).read()
        if name != "root.rs" and name not in files:
            text = "use crate::verif::contracts;\ncontracts! {}\n"
        text = names.apply(text, other)
        path = os.path.join(target, name)
        if not os.path.exists(path) or open(path).read() != text:
            open(path, "w").write(text)


# ---------------------------------------------------------------- native

def build_runner():
    code, out, err = run(["cargo", "build", "--release", "--offline", "--target-dir",
                          os.path.join(BUILD, "native")], os.path.join(VERIF, "runner"), 600,
                         extra={"RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu"})
    if code != 0:
        return None, err
    return os.path.join(BUILD, "native", "release", "rtps-verif-runner"), err


def replay(runner, contract, values):
    """Run one input on the real code -> a failure record, or None"""
    path = os.path.join(BUILD, "input-%d" % os.getpid())
    with open(path, "w") as f:
        f.write(values)
    code, out, err = run([runner, "replay", contract, path], BUILD, 60, memory=8 << 30)
    os.remove(path)
    if code == 0:
        return None
    for line in out.splitlines():
        if line.startswith("{"):
            return json.loads(line)
    return {"contract": contract, "message": "the process ended with code %s: %s" % (code, err[-400:]),
            "at": "", "values": values}


def search(runner, contracts, seconds):
    """Random inputs on the real code -> (failures, statistics)"""
    total = {"evaluations": 0, "rejected": 0, "runs": {}, "witnesses": {}}
    failures = []
    if not contracts or seconds <= 0:
        return failures, total

    def one(i):
        return run([runner, "search", str(seconds), str(SEED * 64 + i)] + contracts, BUILD,
                   seconds * 4 + 120, memory=8 << 30)

    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        for i, (code, out, err) in enumerate(pool.map(one, range(8))):
            finished = False
            for line in out.splitlines():
                if not line.startswith("{"):
                    continue
                record = json.loads(line)
                if "contract" in record:
                    failures.append(record)
                else:
                    finished = True
                    for key in ("evaluations", "rejected"):
                        total[key] += record[key]
                    for key in ("runs", "witnesses"):
                        for k, v in record[key].items():
                            total[key][k] = total[key].get(k, 0) + v
            if not finished:
                where = re.search(r"ALLOCATION (\d+) CASE (\d+) SEED (\d+)", err)
                if where:
                    failures.append({"contract": contracts[int(where.group(2))],
                                     "message": "a request for %s bytes of memory" % where.group(1), "at": "",
                                     "seed": where.group(3), "values": ""})
                elif re.search(r"ENDLESS CASE (\d+) SEED (\d+)", err):
                    where = re.search(r"ENDLESS CASE (\d+) SEED (\d+)", err)
                    failures.append({"contract": contracts[int(where.group(1))],
                                     "message": "the code did not return within 30 s", "at": "",
                                     "seed": where.group(2), "values": ""})
                elif code is None:
                    failures.append({"contract": "?", "message": "the search did not end", "at": "", "values": "",
                                     "hang": True})
                else:
                    failures.append({"contract": "?", "message": "the process ended with code %s: %s"
                                     % (code, err[-400:]), "at": "", "values": ""})
    return failures, total


# ---------------------------------------------------------------- Kani

def kani(harnesses, timeout, jobs, playback=False, unwind=None):
    out_json = os.path.join(BUILD, "kani-%d.json" % os.getpid())
    if os.path.exists(out_json):
        os.remove(out_json)
    cmd = ["cargo", "kani", "--target-dir", os.path.join(BUILD, "kani"), "-Z", "unstable-options",
           "--export-json", out_json, "--exact", "--harness-timeout", "%ds" % max(10, int(timeout - 30))]
    if playback:
        cmd += ["-Z", "concrete-playback", "--concrete-playback=print", "--output-format", "regular"]
    else:
        cmd += ["-j", str(jobs), "--output-format", "terse"]
    if unwind:
        cmd += ["--unwind", str(unwind)]
    for h in harnesses:
        cmd += ["--harness", h]
    code, out, err = run(cmd, REPO, timeout + 60, memory=20 << 30)
    data = None
    if os.path.exists(out_json):
        try:
            data = json.load(open(out_json))
        except ValueError:
            pass
        os.remove(out_json)
    return code, out, err, data


def classify(data, harnesses, out):
    """-> per harness: status held/failed/undecided, obligations, failed checks"""
    results = {h: {"status": "undecided", "why": "no result", "obligations": 0, "discharged": 0, "failed": [],
                   "covers": [0, 0], "seconds": 0.0} for h in harnesses}
    if not data:
        return results
    stats = {c["harness_id"]: c.get("cbmc_stats") or {} for c in data.get("cbmc", [])}
    for entry in data.get("verification_results", {}).get("results", []):
        h = entry["harness_id"]
        if h not in results:
            continue
        r = results[h]
        r["seconds"] = entry.get("duration_ms", 0) / 1000.0
        r["solver_seconds"] = (stats.get(h) or {}).get("runtime_decision_procedure_s", 0)
        checks = entry.get("checks") or []
        unwinding = False
        for c in checks:
            status, category = c["status"].lower(), c.get("category", "")
            if category == "cover" or status in ("satisfied", "unsatisfiable"):
                r["covers"][1] += 1
                r["covers"][0] += status in ("satisfied", "success")
                continue
            r["obligations"] += 1
            if status in ("success", "unreachable"):
                r["discharged"] += 1
            elif status in ("failure", "failed"):
                if category == "unwind" or "unwinding assertion" in c["description"]:
                    unwinding = True
                elif category == "unsupported_construct" or "not currently supported by Kani" in c["description"]:
                    r.setdefault("unsupported", []).append(c["description"])
                else:
                    where = c.get("location") or {}
                    r["failed"].append({"obligation": c["description"], "function": c.get("function"),
                                        "at": "%s:%s" % (where.get("file"), where.get("line")),
                                        "category": category})
        if r["failed"]:
            r["status"], r["why"] = "failed", ""
        elif unwinding:
            r["status"], r["why"] = "undecided", "unwinding bound exceeded"
        elif r.get("unsupported"):
            r["status"], r["why"] = "undecided", "unsupported construct reached"
        elif not checks:
            r["status"], r["why"] = "undecided", "no verdict (time or memory)"
        elif r["discharged"] < r["obligations"]:
            r["status"], r["why"] = "undecided", "undetermined obligations"
        elif r["covers"][0] < r["covers"][1] or r["covers"][1] == 0:
            r["status"], r["why"] = "undecided", "preconditions not shown reachable"
        elif entry.get("status", "").lower() != "success":
            r["status"], r["why"] = "undecided", entry.get("status")
        else:
            r["status"], r["why"] = "held", ""
    return results


def counterexamples(out):
    """The inputs Kani printed, one for each failed check"""
    found = []
    for block in re.findall(r"Check for `(\w+)`: \"(.*?)\"\n.*?concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n    \];",
                            out, re.S):
        if block[0] == "cover":
            continue
        values = re.findall(r"vec!\[([\d, \n]*)\]", block[2])
        found.append((block[1], ",".join(
            "".join("%02x" % int(x) for x in v.replace("\n", " ").split(",") if x.strip()) for v in values)))
    return found


# ---------------------------------------------------------------- the check

def main():
    pid = sys.argv[1]
    prop = PROPERTIES[pid]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    replays = os.path.join(BUILD, "replays")
    os.makedirs(replays, exist_ok=True)
    full = {h.split("::")[-1]: h for h in prop.get("kani", [])}
    harnesses = list(full.values())
    if TIER == "thorough":
        harnesses += prop.get("kani_thorough", [])
        full.update({h.split("::")[-1]: h for h in prop.get("kani_thorough", [])})
    contracts = (prop.get("native") or [h.split("::")[-1] for h in prop.get("kani", [])]) + prop.get("native_also", [])
    units = prop.get("verus", [])
    known = known_findings(pid)
    select_contracts(prop["files"])
    try:
        constants.write(REPO, CONSTANTS)
    except (ValueError, OSError) as e:
        log("constants of the source not read: %s" % e)

    pool = concurrent.futures.ThreadPoolExecutor(3)
    runner_job = pool.submit(build_runner)
    verus_job = pool.submit(verus, units) if units else None
    results, kani_out = {}, ""
    if harnesses:
        code, kani_out, kani_err, data = kani(harnesses, min(prop.get("kani_timeout", 500), left() - 200),
                                              prop.get("jobs", 8))
        if re.search(r"^error(\[E\d+\])?:", kani_err + kani_out, re.M) and data is None and \
                "could not compile" in kani_err + kani_out:
            unfit(pid, prop, verus_job, kani_err)
        results = classify(data, harnesses, kani_out)
    log("kani done", {h.split("::")[-1]: (r["status"], r["why"]) for h, r in results.items() if r["status"] != "held"})
    runner, err = runner_job.result()
    if runner is None:
        unfit(pid, prop, verus_job, err)
    proof = verus_job.result() if verus_job else []
    for unit in proof:
        log("verus", unit["unit"], unit["status"], unit.get("why", ""))

    violations = []  # (obligation record, replay or None)

    # counterexamples of Kani, replayed on the real code
    failed = [h for h, r in results.items() if r["status"] == "failed"]
    unreplayed = []
    for h in failed:
        name = h.split("::")[-1]
        confirmed = None
        if left() > 120 and not violations:
            _, out, _, _ = kani([h], min(300, left() - 60), 1, playback=True)
            for obligation, values in counterexamples(out):
                record = replay(runner, name, values)
                if record:
                    confirmed = {"obligation": obligation, "contract": name, "found_by": "kani counterexample",
                                 "verifier": results[h]["failed"], "replayed": record}
                    break
        if confirmed:
            violations.append(confirmed)
        else:
            unreplayed.append(h)

    # random inputs on the real code: where the verifier has no answer or no input
    seconds = prop.get("seconds", 6) if TIER == "quick" else prop.get("seconds", 6) * 20
    need = unreplayed or any(r["status"] == "undecided" for r in results.values()) \
        or any(u["status"] != "held" for u in proof)
    if need and not violations:
        seconds = max(seconds, 60)
    failures, stats = ([], {"evaluations": 0, "witnesses": {}, "runs": {}})
    if not violations:
        failures, stats = search(runner, contracts, min(seconds, max(2, left() - 60)))
    hang = None
    for f in failures:
        if f.get("hang"):
            hang = f
            continue
        violations.append({"obligation": f["message"], "contract": f["contract"],
                           "found_by": "input search on the real code",
                           "verifier": [r["failed"] for r in results.values() if r["failed"]] +
                                       [u.get("errors") for u in proof if u["status"] == "failed"],
                           "replayed": f})
    if not violations:
        for h in unreplayed:
            violations.append({"obligation": results[h]["failed"][0]["obligation"], "contract": h.split("::")[-1],
                               "found_by": "kani", "verifier": results[h]["failed"], "replayed": None})
        for u in proof:
            if u["status"] == "failed":
                violations.append({"obligation": u["errors"][0]["obligation"], "contract": u["unit"],
                                   "found_by": "verus", "verifier": u["errors"], "replayed": None})
    if hang and not violations:
        fail("a contract did not end on some input")

    findings = []
    for k in known:
        record = replay(runner, k["contract"], k["values"])
        if record:
            findings.append(k)
    write_evidence(pid, prop, results, proof, stats, violations, findings)
    for k in findings:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if violations:
        report(pid, violations[0], runner)
    undecided = [h for h, r in results.items() if r["status"] == "undecided"] + \
                [u["unit"] for u in proof if u["status"] == "undecided"]
    for h in undecided:
        print("not decided by the verifier on this tree, searched natively instead: %s" % h)
    print("held: %s" % pid)


def unfit(pid, prop, verus_job, err):
    """The contracts on the compiled crate do not compile with it. If the crate does, its private
    interface is another one, and what is decided is what the units extracted from it decide."""
    print(err[-3000:])
    code, _, _ = run(["cargo", "build", "--lib", "--offline", "--target-dir", os.path.join(BUILD, "plain")], REPO, 300,
                     extra={"RUSTFLAGS": "-Awarnings"})
    proof = verus_job.result() if verus_job else []
    if code != 0 or not proof or any(u["status"] == "undecided" for u in proof):
        fail("the crate with its contracts does not compile")
    violations = [{"obligation": u["errors"][0]["obligation"], "contract": u["unit"], "found_by": "verus",
                   "verifier": u["errors"], "replayed": None} for u in proof if u["status"] == "failed"]
    write_evidence(pid, prop, {}, proof, {"evaluations": 0, "runs": {}, "witnesses": {}}, violations, [])
    if violations:
        report(pid, violations[0], "none")
    print("not decided on this tree, whose private interface is another one: the contracts on the compiled crate")
    print("held: %s" % pid)
    sys.exit(0)


def report(pid, v, runner):
    replays = os.path.join(BUILD, "replays")
    path = os.path.join(replays, "%s.json" % pid)
    contract = v["contract"]
    with open(path, "w") as f:
        json.dump({"property": pid, "contract": contract, "obligation": v["obligation"],
                   "found_by": v["found_by"], "input": v["replayed"], "verifier": v["verifier"],
                   "replay": "RTPS_VERIF_CONSTANTS=%s %s seed %s %s" % (CONSTANTS, runner, contract, v["replayed"]["seed"])
                   if v["replayed"] and v["replayed"].get("seed") else
                   "write input.values to FILE, then: %s replay %s FILE" % (runner, contract)},
                  f, indent=1)
    print("obligation not met: %s (contract %s, by %s)" % (v["obligation"], contract, v["found_by"]))
    print("VIOLATION property=%s replay=%s%s" % (pid, path, "" if v["replayed"] else " no-failing-input-found"))
    sys.exit(1)


def known_findings(pid):
    path = os.path.join(VERIF, "known-findings.jsonl")
    found = []
    if os.path.exists(path):
        for line in open(path):
            if line.strip():
                k = json.loads(line)
                if k.get("property") == pid and k.get("status") == "known":
                    found.append(k)
    return found


def verus(units):
    import verus_unit
    return [verus_unit.check(u, REPO, VERIF, BUILD) for u in units]


def write_evidence(pid, prop, results, proof, stats, violations, findings):
    bounds = prop.get("bounds", {})
    complete = [r for h, r in results.items() if h.split("::")[-1] not in bounds]
    bounded = [r for h, r in results.items() if h.split("::")[-1] in bounds]
    coverage = {
        "obligations": sum(r["obligations"] for r in complete) + sum(u.get("obligations", 0) for u in proof),
        "discharged": sum(r["discharged"] for r in complete) + sum(u.get("discharged", 0) for u in proof),
        "bounded_checks": {"obligations": sum(r["obligations"] for r in bounded),
                           "met_within_the_bounds": sum(r["discharged"] for r in bounded)},
        "checker_cmd": "cargo kani --exact " + " ".join("--harness " + h for h in results) +
                       ("".join("; verus " + u["unit"] for u in proof)),
        "trusted_base": prop.get("trusted", []) + COMMON_TRUST + sum((u.get("trusted", []) for u in proof), []),
        "functions_under_contract":
            sorted({f for h in results for f in under_contract(h.split("::")[-1])}) +
            ["%s (Verus, unit %s)" % (f, u["unit"]) for u in proof for f in u.get("functions", [])],
        "kani": {h.split("::")[-1]: {"status": r["status"], "why": r["why"], "obligations": r["obligations"],
                                     "discharged": r["discharged"],
                                     "reachable_witnesses": "%d of %d" % tuple(r["covers"]),
                                     "seconds": r["seconds"], "solver_seconds": r.get("solver_seconds", 0),
                                     "kind": bounds.get(h.split("::")[-1], "complete: every value")}
                 for h, r in results.items()},
        "verus": proof,
        "native_search": {"evaluations": stats["evaluations"], "runs": stats["runs"], "seed": SEED,
                          "role": "looks for failing inputs on the compiled crate; never counted as proof"},
    }
    coverage.update({"evaluations": stats["evaluations"]} if prop["level"] == "exploration" else {})
    evidence = {"property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
                "level": prop["level"], "coverage": coverage, "assumptions": ASSUMED + prop.get("assumptions", []),
                "wall_s": round(time.time() - START, 2), "violations": len(violations),
                "known_findings": [k["what"] for k in findings]}
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)


COMMON_TRUST = [
    "Kani 0.68 / CBMC 6.11: translation of MIR to goto, CaDiCaL",
    "rustc and the Rust standard library as compiled by Kani",
]

ASSUMED = [
    "the array reader and writer that codecs are run on behave as speedy's buffers (contracts wire_*, thorough tier: "
    "the readers for buffers of any length, the writers behind up to 4096 octets)",
    "what the verifiers assume of std, speedy and bytes is listed in coverage.trusted_base",
]

if __name__ == "__main__":
    main()
