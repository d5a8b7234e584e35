#!/usr/bin/env python3
"""check.py CXX — decide one property against /repo's current working tree.

Two parts run side by side:
 * the contract layer: function contracts on the real code, discharged by Kani/CBMC (bounded in the
   node-size parameter M) and, for pieces extracted mechanically on every run, by Verus (unbounded);
 * the labelled-bounded stand-in and replay engine: histories run against the real code through its
   public interface and compared with a list model; also used to turn a failed obligation into a
   failing input.
Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken. Nothing else is an
outcome: what could not be decided (tool limits, code that no longer has the shape a contract
names) is recorded as undecided in the evidence.
"""
import json, os, sys, subprocess, threading, time, shutil, re, signal, glob

VERIF = "/verif"
REPO = "/repo"
BUILD = f"{VERIF}/.build"
sys.path.insert(0, f"{VERIF}/tools")
import props as P
import kani_layer, verus_layer

def log(*a):
    print(*a, flush=True)

def env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET_DIR"):
        e.pop(k, None)
    return e

class Engine:
    """The stand-in: builds, searches, confirms."""
    def __init__(self, prop, conf, work, seed):
        self.prop, self.conf, self.work, self.seed = prop, conf, work, seed
        self.bins = conf["bins"]
        self.note = []
        self.stats = {}
        self.fail = None       # dict(what, replay)
        self.built = False
        self.dir = f"{BUILD}/engine/release"
    def build(self):
        args = ["cargo", "build", "--release", "--offline", "--target-dir", f"{BUILD}/engine"]
        for b in self.bins:
            args += ["--bin", b]
        for b in self.bins:
            try: os.unlink(f"{self.dir}/{b}")
            except FileNotFoundError: pass
        try:
            r = subprocess.run(args, cwd=f"{VERIF}/engine", env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=420)
        except subprocess.TimeoutExpired:
            self.note.append("undecided: building the stand-in timed out")
            return False
        out = r.stdout.decode(errors="replace")
        if r.returncode != 0:
            self.note.append("undecided: the stand-in does not compile against this tree: " + "\n".join(out.splitlines()[-15:]))
            return False
        self.built = True
        return True
    def probe(self):
        if not self.built:
            return []
        try:
            r = subprocess.run([f"{self.dir}/{self.bins[0]}", "probe"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60)
            return r.stdout.decode(errors="replace").splitlines()
        except Exception:
            return []
    def add(self, s):
        for k, v in s.items():
            if k in ("max_slices", "max_height", "exhaustive_n"):
                self.stats[k] = max(self.stats.get(k, 0), v)
            elif k == "samples":
                self.stats.setdefault("samples", []).extend(v[: max(0, 4 - len(self.stats.get("samples", [])))])
            elif k == "exhaustive_complete":
                self.stats[k] = self.stats.get(k, True) and v
            else:
                self.stats[k] = self.stats.get(k, 0) + v
    def search(self, seconds, nproc, exhaustive, salt=0):
        """Runs shards over the bins; returns True when a failing input was found."""
        procs = []
        per = {b: 0 for b in self.bins}
        for i in range(max(nproc, len(self.bins))):
            per[self.bins[i % len(self.bins)]] += 1
        i = 0
        for b, n in per.items():
            for sh in range(n):
                j = f"{self.work}/j.{salt}.{i}"
                o = f"{self.work}/o.{salt}.{i}"
                so = open(f"{self.work}/so.{salt}.{i}", "wb")
                p = subprocess.Popen([f"{self.dir}/{b}", "search", "--prop", self.prop, "--shard", str(sh), "--shards", str(n),
                                      "--seconds", str(seconds), "--seed", str(self.seed + salt * 1000003 + i * 17), "--exhaustive", str(exhaustive),
                                      "--journal", j, "--out", o], stdout=so, stderr=subprocess.DEVNULL, env=env())
                procs.append((p, b, j, o, so.name))
                i += 1
        limit = time.time() + seconds + 60
        pending = list(procs)
        while pending and time.time() < limit and not self.fail:
            time.sleep(0.1)
            for x in list(pending):
                if x[0].poll() is not None:
                    pending.remove(x)
                    self.done(x)
        for x in pending:
            x[0].kill()
            x[0].wait()
            if not self.fail:
                self.confirm(x, "did not end")
        return self.fail is not None
    def done(self, x):
        p, b, j, o, so = x
        out = open(so, errors="replace").read()
        if p.returncode == 0:
            for line in out.splitlines():
                if line.startswith("{"):
                    self.add(json.loads(line))
        elif p.returncode == 1 and os.path.exists(o):
            if self.fail: return
            d = json.load(open(o))
            d["binary"] = b
            self.record(d)
        elif not self.fail:
            self.confirm(x, f"ended with status {p.returncode}")
    def confirm(self, x, how):
        """The process died or hung: the journal has the case it was running."""
        p, b, j, o, so = x
        try:
            case = json.loads(open(j).readline())
        except Exception:
            self.note.append(f"undecided: a search process {how} and left no case")
            return
        d = {"property": self.prop, "what": f"the process {how} while running this history", "after_operation": None, "case": case, "binary": b}
        f = f"{self.work}/confirm.json"
        json.dump(d, open(f, "w"))
        bad = 0
        for _ in range(2):
            try:
                r = subprocess.run([f"{self.dir}/{b}", "replay", f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=90)
                if r.returncode != 0:
                    bad += 1
            except subprocess.TimeoutExpired:
                bad += 1
                break
        if bad:
            self.record(d)
        else:
            self.note.append(f"a search process {how}, but its last case passes when run alone")
    def record(self, d):
        os.makedirs(f"{VERIF}/evidence/replay", exist_ok=True)
        path = f"{VERIF}/evidence/replay/{self.prop}.json"
        d["how_to_replay"] = f"cd {VERIF}/engine && cargo build --release --offline --target-dir {BUILD}/engine --bin {d['binary']} && {self.dir}/{d['binary']} replay {path}"
        json.dump(d, open(path, "w"), indent=1)
        self.fail = {"what": d["what"], "replay": path}

def main():
    prop = sys.argv[1]
    tier = "thorough" if ("--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough") else "quick"
    if "--quick" in sys.argv: tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    conf = P.PROPS[prop]
    t0 = time.time()
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    work = f"{BUILD}/run-{prop}"
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    for old in glob.glob(f"{VERIF}/evidence/replay/{prop}.*"):
        os.unlink(old)

    deadline = t0 + (800 if tier == "thorough" else 780)
    eng = Engine(prop, conf, work, seed)
    kani = kani_layer.Kani(prop, tier, work, env())
    verus = verus_layer.Verus(prop, tier, work, env())
    threads = [threading.Thread(target=kani.run, args=(t0 + (700 if tier == "thorough" else P.KANI_QUICK_S),)),
               threading.Thread(target=verus.run, args=(t0 + (700 if tier == "thorough" else 240),))]
    for t in threads: t.start()
    probes = []
    found = False
    if conf["bins"]:
        if eng.build():
            probes = eng.probe()
            secs = conf.get("thorough_s", 400) if tier == "thorough" else conf.get("quick_s", P.ENGINE_QUICK_S)
            found = eng.search(secs, P.ENGINE_PROCS, conf["ex_thorough"] if tier == "thorough" else conf["ex_quick"])
    for t in threads: t.join()

    failed = kani.failed + verus.failed      # obligations that have an answer and it is "no"
    if failed and not found and eng.built:
        # look harder for a failing input
        left = deadline - time.time()
        found = eng.search(min(120 if tier == "quick" else 250, max(5, left - 70)), 8, conf["ex_quick"] + 1, salt=1)

    violations = 0
    line = None
    if found:
        violations = 1
        log(f"failing input: {eng.fail['what']}")
        if failed:
            d = json.load(open(eng.fail["replay"]))
            d["failed_obligations"] = failed
            json.dump(d, open(eng.fail["replay"], "w"), indent=1)
        line = f"VIOLATION property={prop} replay={eng.fail['replay']}"
    elif failed:
        violations = 1
        os.makedirs(f"{VERIF}/evidence/replay", exist_ok=True)
        path = f"{VERIF}/evidence/replay/{prop}.obligation.json"
        json.dump({"property": prop, "failed_obligations": failed,
                   "note": "the verifier rejects these obligations on the current tree; no public call sequence showing the failure was found in the time given"},
                  open(path, "w"), indent=1)
        for f in failed: log(f"failed obligation: {f['obligation']}: {'; '.join(f['reason'][:4])}")
        line = f"VIOLATION property={prop} replay={path} no-failing-input-found"

    for k in P.known_findings():
        if k["property"] == prop and any(l == f"probe {k['probe']} fails" for l in probes):
            log(f"KNOWN-FINDING: property={prop} {k['text']}")

    ev = evidence(prop, tier, seed, conf, eng, kani, verus, time.time() - t0, violations)
    json.dump(ev, open(f"{VERIF}/evidence/{prop}.json", "w"), indent=1)
    shutil.rmtree(work, ignore_errors=True)
    c = ev["coverage"]
    log(f"{prop} {tier}: obligations {c.get('obligations',0)} discharged {c.get('discharged',0)} undecided {len(c.get('undecided',[]))}; "
        f"stand-in cases {c.get('evaluations',0)}; {ev['wall_s']} s")
    if line:
        log(line)
        sys.exit(1)
    sys.exit(0)

def evidence(prop, tier, seed, conf, eng, kani, verus, wall, violations):
    s = eng.stats
    obligations = kani.obligations + verus.obligations
    discharged = kani.discharged + verus.discharged
    undecided = kani.undecided + verus.undecided + eng.note
    cov = {
        "explanation": conf["explanation"] + (P.VERUS_EXPL if verus.obligations else ""),
        "obligations": obligations,
        "discharged": discharged,
        "checker_cmd": "; ".join(x for x in [kani.cmd, verus.cmd] if x),
        "functions_under_contract": sorted(set(kani.functions + verus.functions)),
        "harnesses": kani.results + verus.results,
        "back_ends": {"kani/cbmc (bounded in M, complete within the bound)": kani.discharged, "verus/z3 (unbounded)": verus.discharged},
        "solver_time_s": round(kani.solver_s + verus.solver_s, 1),
        "undecided": undecided,
        "trusted_base": (P.TRUSTED[:2] if conf["level"] == "proof" else P.TRUSTED) + (P.VERUS_TRUSTED if verus.obligations else []) + conf.get("trusted", []),
        "bounded_stand_in": "histories through the public interface, bounded in length and time; never counted as proved",
        "evaluations": s.get("cases", 0),
        "distinct_nontrivial": s.get("nontrivial", 0),
        "rule": conf.get("rule") or "random and exhaustively enumerated operation histories run against the real code and compared with a list model after every operation; a case counts when it is textually new and reached at least 3 slices or 3 insertions",
        "samples": s.get("samples", []) or kani.samples[:3] or ["none"],
        "stand_in_counters": {k: v for k, v in s.items() if k != "samples"},
    }
    if not conf["bins"]:
        for k in ("evaluations", "distinct_nontrivial", "rule", "bounded_stand_in", "stand_in_counters"):
            cov.pop(k, None)
    return {"property": prop, "tier": tier, "seed": seed, "level": conf["level"], "coverage": cov,
            "assumptions": (conf.get("assume_only") or P.ASSUME + conf.get("assume", [])) + verus.assumed + (P.VERUS_ASSUME if verus.obligations else []), "wall_s": round(wall, 1), "violations": violations}

if __name__ == "__main__":
    main()
