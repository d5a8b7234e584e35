"""Contract layer, part one: function contracts on the real code, discharged by Kani (CBMC).

Pieces live in /verif/kani/<module>/<piece>.rs and are compiled *inside* the crate's module of that
name (hook: `#[cfg(kani)] mod verif { include!(..) }`), so that they call the real, private
functions of the current working tree. Each harness is annotated

    //@ props=C03,C15 tier=quick m=2 fn=tree::search_step

directly above its #[kani::proof]. A piece that no longer compiles against the tree (renamed
function, changed signature) is left out and its obligations are reported undecided.
"""
import json, os, re, subprocess, time, glob, shutil

KDIR = "/verif/kani"

def needs(mod, piece):
    """Pieces whose items this one uses: a line `//! needs: insert/leaf` in it."""
    m = re.search(r"^//! needs: (.*)$", open(f"{KDIR}/{mod}/{piece}.rs").read(), re.M)
    return {tuple(x.strip().split("/")) for x in m.group(1).split(",")} if m else set()

def closure(pieces):
    out, todo = set(), list(pieces)
    while todo:
        p = todo.pop()
        if p not in out:
            out.add(p)
            todo += needs(*p)
    return out

def features(pieces):
    """Crate features that pieces ask for: a line `//! features: serde`."""
    out = set()
    for mod, piece in pieces:
        m = re.search(r"^//! features: (.*)$", open(f"{KDIR}/{mod}/{piece}.rs").read(), re.M)
        if m: out |= {x.strip() for x in m.group(1).split(",")}
    return ["--features", ",".join(sorted(out))] if out else []

MODS = ["tree", "node", "fix", "insert", "iter", "entry", "slice_ref", "cow", "cursor", "recycle", "range"]
PATHS = {"tree": "tree::verif", "cursor": "cursor::verif", "recycle": "recycle::verif", "range": "range::verif"}

def harnesses():
    out = []
    for f in sorted(glob.glob(f"{KDIR}/*/*.rs")):
        mod, piece = f.split("/")[-2], os.path.basename(f)[:-3]
        if piece.startswith("lib"):
            continue
        text = open(f).read().splitlines()
        meta = None
        for line in text:
            m = re.match(r"\s*//@ (.*)", line)
            if m:
                meta = dict(x.split("=", 1) for x in m.group(1).split())
                continue
            m = re.search(r"\bfn\s+(\w+)\s*\(", line)
            if meta is not None and m:
                base = PATHS.get(mod, f"tree::{mod}::verif")
                out.append({"name": f"{base}::{piece}::{m.group(1)}", "mod": mod, "piece": piece,
                            "props": meta["props"].split(","), "late": meta.get("late", "").split(","), "tier": meta.get("tier", "quick"),
                            "quick": [x for x in meta.get("quick", "").split(",") if x],
                            "m": meta.get("m", "-"), "fn": meta.get("fn", "?").split(",")})
                meta = None
    return out

def is_quick(h, prop):
    """Belongs to the property's quick check? `tier`, with exceptions `quick=` and `late=`."""
    return prop in h["quick"] or (h["tier"] == "quick" and prop not in h["late"])

# nodes are byte arrays to CBMC; let it follow constants through ones of their size
CBMC = ["--cbmc-args", "--max-field-sensitivity-array-size", "1024"]

class Kani:
    def __init__(self, prop, tier, work, env):
        self.prop, self.tier, self.work = prop, tier, work
        self.env = dict(env)
        hs = [h for h in harnesses() if prop in h["props"]]
        self.hs = [h for h in hs if tier == "thorough" or is_quick(h, prop)]
        self.obligations = len(self.hs)
        self.discharged = 0
        self.failed, self.undecided, self.results, self.functions, self.samples = [], [], [], [], []
        self.solver_s = 0.0
        self.cmd = ""

    def gen(self, pieces):
        inc = f"{self.work}/inc"
        shutil.rmtree(inc, ignore_errors=True)
        os.makedirs(inc)
        for m in MODS:
            with open(f"{inc}/{m}.rs", "w") as o:
                if os.path.exists(f"{KDIR}/{m}/lib.rs"):
                    o.write(f'#[path = "{KDIR}/{m}/lib.rs"] pub mod lib;\n')
                for (mm, p) in sorted(pieces):
                    if mm == m:
                        o.write(f'#[path = "{KDIR}/{mm}/{p}.rs"] pub mod {p};\n')
        self.env["SHERMAN_VERIF_DIR"] = inc

    def run(self, deadline):
        try:
            self.run_inner(deadline)
        except Exception as e:
            self.undecided.append(f"kani layer: {e!r}")

    def run_inner(self, deadline):
        if not self.hs:
            return
        pieces = {(h["mod"], h["piece"]) for h in self.hs}
        dropped = set()
        left = list(self.hs)
        js = f"{self.work}/kani.json"
        for attempt in range(6):
            left = [h for h in left if (h["mod"], h["piece"]) in pieces and not (closure({(h["mod"], h["piece"])}) & dropped)]
            if not left:
                return
            self.gen(closure({(h["mod"], h["piece"]) for h in left}))
            budget = deadline - time.time()
            if budget < 20:
                self.undecided.append("kani layer: out of time")
                return
            per = min(600 if self.tier == "thorough" else 150, int(budget - 10))
            cmd = ["cargo", "kani", "--target-dir", os.environ.get("KT", "/verif/.build/kani"), "--no-assertion-reach-checks", "-j", "6",
                   "--output-format", "terse", "-Z", "unstable-options", "-Z", "stubbing", "--harness-timeout", f"{per}s", "--export-json", js, "--exact"]
            for h in left:
                cmd += ["--harness", h["name"]]
            cmd += features(closure({(h["mod"], h["piece"]) for h in left}))
            cmd += CBMC
            self.cmd = "cd /repo && SHERMAN_VERIF_DIR=<generated> cargo kani --no-assertion-reach-checks --exact --harness <each> (see coverage.harnesses)"
            if os.path.exists(js): os.unlink(js)
            p = subprocess.Popen(cmd, cwd="/repo", env=self.env, stdout=open(f"{self.work}/kani.log", "wb"), stderr=subprocess.STDOUT, start_new_session=True)
            try:
                p.wait(timeout=budget)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                p.wait()
            log = open(f"{self.work}/kani.log", errors="replace").read()
            if os.path.exists(js):
                self.collect(js, left)
                return
            # did it not compile?
            bad = set()
            errs = re.split(r"\n(?=error)", log)
            for e in errs:
                if not e.startswith("error"): continue
                for m in re.finditer(r"--> (/verif/kani/(\w+)/(\w+)\.rs):(\d+)", e):
                    bad.add((m.group(2), m.group(3)))
            if not bad:
                for h in left: self.undecided.append(f"{h['name']}: no answer ({' '.join(log.splitlines()[-3:])[:300]})")
                return
            if any(p.startswith("lib") for _, p in bad):
                for h in left: self.undecided.append(f"{h['name']}: the contract vocabulary does not compile against this tree")
                return
            for h in left:
                if closure({(h["mod"], h["piece"])}) & bad:
                    self.undecided.append(f"{h['name']}: its piece does not compile against this tree")
            pieces -= bad
            dropped |= bad
        self.undecided.append("kani layer: gave up after repeated compile errors")

    def collect(self, js, left):
        d = json.load(open(js))
        res = {r["harness_id"]: r for r in d["verification_results"]["results"]}
        err = {r["harness_id"]: r for r in d["error_details"]}
        stats = {r["harness_id"]: (r.get("cbmc_stats") or {}) for r in d["cbmc"]}
        bad = []
        for h in left:
            n = h["name"]
            r = res.get(n)
            if r is None:
                self.undecided.append(f"{n}: not run")
                continue
            st = stats.get(n, {})
            sol = st.get("runtime_decision_procedure_s") or 0
            self.solver_s += r["duration_ms"] / 1000
            entry = {"obligation": n, "functions": h["fn"], "m": h["m"], "time_s": round(r["duration_ms"] / 1000, 1),
                     "conditions": len(r["checks"])}
            fails = [c for c in r["checks"] if c["status"] == "Failure"]
            hard = [c for c in fails if c["category"] not in ("unwind", "unsupported_construct")
                    and "not currently supported" not in c["description"]]
            # `never:` covers are reachability claims the other way round: reaching one is a violation.
            # (A harness that must panic says so with one: the call never returns.)
            covers = [c for c in r["checks"] if c["category"] == "cover" and not c["description"].strip('"').startswith("never:")]
            nevers = [c for c in r["checks"] if c["category"] == "cover" and c["description"].strip('"').startswith("never:")]
            unsat = [c for c in covers if c["status"] != "Satisfied"]
            if r["status"] == "Success" or nevers:
                reached = [c for c in nevers if c["status"] == "Satisfied"]
                if reached:
                    hard = hard + reached
                    r["status"] = "Failure"
            if r["status"] == "Success" and r["checks"]:
                if unsat or not covers:
                    entry["status"] = "undecided (its precondition is not shown satisfiable)"
                    self.undecided.append(f"{n}: vacuous or no cover")
                else:
                    entry["status"] = "discharged"
                    self.discharged += 1
                    self.functions += h["fn"]
            elif hard:
                entry["status"] = "failed"
                reasons = [f"{c['description']} ({c['location'].get('file','?')}:{c['location'].get('line','?')}, in {c['function'][:120]})" for c in hard]
                bad.append({"obligation": n, "functions": h["fn"], "reason": reasons[:12]})
            else:
                why = "timeout" if err.get(n, {}).get("exit_status") == "timeout" else \
                      ("unwinding bound or unsupported construct" if fails else f"tool: {err.get(n, {})}")
                entry["status"] = f"undecided ({why})"
                self.undecided.append(f"{n}: {why}")
            self.results.append(entry)
        for b in bad:
            b["verifier_output"] = self.counterexample(b["obligation"])
            self.failed.append(b)

    def counterexample(self, name):
        """The verifier's own account, with its counterexample as concrete input bytes."""
        try:
            cmd = ["cargo", "kani", "--target-dir", os.environ.get("KT", "/verif/.build/kani"), "--no-assertion-reach-checks", "-Z", "concrete-playback", "-Z", "stubbing",
                   "--concrete-playback=print", "--exact", "--harness", name, "-Z", "unstable-options", "--harness-timeout", "100s"] + CBMC
            r = subprocess.run(cmd, cwd="/repo", env=self.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=150)
            t = r.stdout.decode(errors="replace")
            i = t.find("SUMMARY:")
            fails = re.findall(r"Failed Checks:.*(?:\n File:.*)?", t)
            j = t.find("Concrete playback unit test")
            return {"failed_checks": fails[:20], "concrete_playback": t[j:j + 6000] if j >= 0 else "", "summary": t[i:i + 1500] if i >= 0 else t[-1500:]}
        except Exception as e:
            return {"error": repr(e)}
