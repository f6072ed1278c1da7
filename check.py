#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

Decides one property: govc generates the proof obligations from /repo's current source and the contracts in specs/, and
discharges them. Next to it, the replay tests run the real code on random inputs against an independent oracle: a bounded
check of what the contracts assume, and the search for a concrete failing input when an obligation is rejected.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
T0 = time.time()

PKG = {"C14": "cascadia", "C15": "cascadia", "C17": "cascadia"}  # the others: the package at the top
RACE = {"C10", "C19"}
# seconds: verifier, replay alongside, replay after a rejected obligation
BUDGET = {"quick": (600, 8, 60), "thorough": (2400, 300, 600)}


def env():
    e = dict(os.environ)
    e.update(HOME="/root", PATH="/usr/local/go/bin:/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", ""),
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOFLAGS="-mod=mod")
    return e


def run(cmd, cwd, timeout, extra=None):
    e = env()
    e.update(extra or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
        return -9, out


class Replay:
    """A run of the replay test of a property."""

    def __init__(self, prop, tmp, seed):
        self.prop, self.tmp, self.seed = prop, tmp, seed
        sub = PKG.get(prop, "merge")
        self.pkg = "./internal/cascadia" if sub == "cascadia" else "."
        d = REPO if sub == "merge" else REPO + "/internal/cascadia"
        repl = {}
        for f in os.listdir(d):
            if f.endswith("_test.go"):
                repl[d + "/" + f] = ""  # leave the repository's own tests out
        self.src = f"{VERIF}/replay/{sub}/{prop.lower()}_test.go"
        repl[d + "/zz_verif_common_test.go"] = f"{VERIF}/replay/{sub}/common_test.go"
        repl[d + "/zz_verif_prop_test.go"] = self.src
        self.ov = tmp + "/overlay.json"
        json.dump({"Replace": repl}, open(self.ov, "w"))
        self.bin = tmp + "/replay.test"
        self.cwd = d

    def build(self):
        cmd = ["go", "test", "-c", "-vet=off", "-overlay", self.ov, "-o", self.bin]
        if self.prop in RACE:
            cmd.insert(3, "-race")
        rc, out = run(cmd + [self.pkg], REPO, 300, {"GOFLAGS": "-mod=readonly"})
        return None if rc == 0 else out

    def go(self, secs, name, seed):
        """Returns (stats, failure)."""
        o = f"{self.tmp}/{name}"
        os.makedirs(o)
        rc, out = run(["prlimit", f"--as={-1 if self.prop in RACE else 12 << 30}", self.bin, "-test.run", "^TestVerif$", "-test.timeout", f"{int(secs) + 120}s"],
                      self.cwd, secs + 150, {"VERIF_SECS": str(secs), "VERIF_OUT": o, "VERIF_SEED": str(seed), "GORACE": "halt_on_error=1"})
        stats, failure = None, None
        if os.path.exists(o + "/stats.json"):
            stats = json.load(open(o + "/stats.json"))
        if os.path.exists(o + "/failure.json"):
            failure = json.load(open(o + "/failure.json"))
        elif rc != 0:
            i = max(0, min([x for x in (out.find("WARNING: DATA RACE"), out.find("fatal error"), out.find("panic:")) if x >= 0] or [len(out) - 4000]))
            failure = {"why": "the run of the real code ended abnormally", "exit": rc, "output": out[i:i + 6000]}
        if failure is not None:
            failure["rerun"] = f"VERIF_SEED={seed} VERIF_SECS={secs}, test {os.path.basename(self.src)}"
        return stats, failure


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    plimit, rsecs, rmore = BUDGET[tier]
    tmp = tempfile.mkdtemp(prefix="verif-")
    try:
        return check(prop, tier, seed, plimit, rsecs, rmore, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(prop, tier, seed, plimit, rsecs, rmore, tmp):
    rc, out = run(["go", "build", "-o", tmp + "/govc", "."], VERIF + "/govc", 600)
    if rc != 0:
        print("cannot build the verifier:\n" + out)
        return 2
    replay = Replay(prop, tmp, seed)
    note = replay.build()
    if note:
        rc, out = run(["go", "build", "./..."], REPO, 300, {"GOFLAGS": "-mod=readonly"})
        if rc != 0:
            print("/repo does not build:\n" + out)
            return 2
    # the verifier, and the replay alongside
    report = tmp + "/report.json"
    cmd = [tmp + "/govc", "-repo", REPO, "-specs", VERIF + "/specs", "-hints", VERIF + "/hints", "-prop", prop, "-v",
           "-secs", "10" if tier == "quick" else "60", "-limit", str(plimit), "-report", report]
    log = open(tmp + "/govc.log", "w+")
    v = subprocess.Popen(["prlimit", f"--as={24 << 30}"] + cmd, cwd=VERIF, env=env(), stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
    stats, failure = None, None

    def look(secs, name, sd):
        nonlocal stats, failure
        more, failure = replay.go(secs, name, sd)
        if stats and more:
            stats["evaluations"] += more["evaluations"]
            stats["distinct_nontrivial"] += more["distinct_nontrivial"]
        stats = stats or more

    def wait(until):
        try:
            v.wait(timeout=max(0.1, until - time.time()))
            return True
        except subprocess.TimeoutExpired:
            return False

    end = T0 + plimit + 120
    if not note:
        look(rsecs, "alongside", seed)
        if not failure and not wait(max(T0 + 45, time.time() + 5)):
            look(rmore, "search", seed + 1000)  # it takes longer than usual: some obligation may have been rejected
    # with a failing input at hand, the proof may be given up
    done = wait(min(end, time.time() + 40)) if failure else wait(end)
    if not done:
        os.killpg(v.pid, 9)
        v.wait()
    log.seek(0)
    vout = log.read()
    rep = json.load(open(report)) if os.path.exists(report) else None
    if rep:
        failures = rep["failures"]
    else:
        known = re.findall(r"^rejected with the known invariants: (.*?): (\w+): (.*?) ?(\S*:\d+)?$", vout, re.M)
        failures = [{"function": f, "kind": k, "obligation": o, "position": p, "verifier_output": "the proof was given up when a failing input was found"} for f, k, o, p in known]
        if not failures and not failure:
            failures = [{"function": "", "kind": "error", "obligation": "the verifier did not finish", "verifier_output": vout[-4000:]}]
    if failures and not failure and not note:
        look(rmore, "search2", seed + 2000)
    evidence(prop, tier, seed, cmd, rep, failures, stats, failure, note)
    if not failures and not failure:
        print(f"{prop}: {rep['discharged']} of {rep['obligations']} obligations discharged, "
              f"{stats['evaluations'] if stats else 0} runs of the real code, {time.time() - T0:.0f} s")
        return 0
    os.makedirs(VERIF + "/replays", exist_ok=True)
    path = f"{VERIF}/replays/{prop}.json"
    json.dump({"property": prop, "failing_input": failure, "failed_obligations": failures, "replay_not_built": note, "verifier_log": vout[-20000:]}, open(path, "w"), indent=1)
    for f in failures[:20]:
        print(f"rejected: {f['function']}: {f['kind']}: {f['obligation']} {f.get('position', '')}")
    if failure:
        print("failing input: " + json.dumps(failure)[:3000])
        print(f"VIOLATION property={prop} replay={path}")
    else:
        print(f"VIOLATION property={prop} replay={path} no-failing-input-found")
    return 1


def evidence(prop, tier, seed, cmd, rep, failures, stats, failure, note):
    rep = rep or {}
    trusted = ["govc (this verifier): SSA semantics, memory model, VC generation", "golang.org/x/tools go/packages and go/ssa", "z3, cvc5",
               "the Go compiler and runtime", "no data races outside the functions under contract"]
    trusted += ["assumed contract: " + x for x in rep.get("assumed_contracts") or []]
    trusted += ["axiom: " + x for x in rep.get("used_axioms") or rep.get("axioms") or []]
    cov = {
        "obligations": rep.get("obligations", 0), "discharged": rep.get("discharged", 0),
        "checker_cmd": "bash check.sh %s %s" % (prop, tier), "trusted_base": trusted,
        "verifier_cmd": " ".join(["govc"] + cmd[1:]),
        "functions_under_contract": rep.get("functions"), "discharged_by": rep.get("by_solver"), "solver_seconds": rep.get("solver_seconds"),
        "discharged_without_solver": rep.get("trivial"), "lemmas_proved": rep.get("lemmas"), "inlined_functions": rep.get("inlined"),
        "rejected": [{k: f.get(k) for k in ("function", "kind", "obligation", "position")} for f in failures],
        "runtime_check_bounded": {"what": "not part of the proof: the real code on random inputs against an independent oracle", **(stats or {}), "not_built": note},
    }
    if stats:
        cov["evaluations"], cov["distinct_nontrivial"] = stats["evaluations"], stats["distinct_nontrivial"]
        cov["rule"], cov["samples"] = stats["rule"], stats["samples"]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov,
          "assumptions": (rep.get("assumed_facts") or []) + (rep.get("notes") or []), "wall_s": round(time.time() - T0, 2),
          "violations": 1 if failures or failure else 0}
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    json.dump(ev, open(f"{VERIF}/evidence/{prop}.json", "w"), indent=1)


sys.exit(main())
