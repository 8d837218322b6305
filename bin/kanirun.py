"""Runs the Kani harnesses of one job on /repo's current tree.

A harness is a contract of one function of the real crates: it assumes the precondition, calls the function
and asserts the postcondition, for every value of its inputs.  All its generated checks (postcondition,
panics, arithmetic, memory accesses, loop bounds) have to be discharged by CBMC.
A harness listed in job["stops"] states that a misuse is stopped by a panic: every path has to end before
the check with the text "the misuse was granted", so panics of the code under contract are what it expects.
"""
import fcntl, json, os, re, signal, subprocess

PANICS = ("assertion",)
MEMORY = ("pointer", "array_bounds", "dereference", "safety_check", "precondition", "unreachable")
GRANTED = "the misuse was granted"


def cargo_kani(V, TGT, ENV, args, limit):
    env = dict(ENV)
    env.pop("RUSTUP_TOOLCHAIN", None)
    env["RUSTFLAGS"] = "--cfg stronghold_verif"
    p = subprocess.Popen(["cargo", "kani", "--target-dir", os.path.join(TGT, "kani")] + args, cwd=os.path.join(V, "kani"), env=env,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        o, _ = p.communicate(timeout=limit)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return None, ""


def run(self, V, REPO, SCRATCH, TGT, ENV, TIER):
    job = self.job
    hs = job["harness"]
    lim = 420 if TIER == "quick" else 800
    js = os.path.join(SCRATCH, "kani%d.json" % self.n)
    flags = ["-Z", "stubbing"]
    hargs = [x for h in hs for x in ("--harness", h)]
    os.makedirs(os.path.join(TGT, "kani"), exist_ok=True)
    with open(os.path.join(TGT, "kani.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        rc, out = cargo_kani(V, TGT, ENV, hargs + ["--exact", "--output-format", "terse", "-j", "6", "-Z", "unstable-options", "--export-json", js,
                                                   "--harness-timeout", "%ds" % (lim - 60)] + flags, lim)
        if rc is None:
            self.why = "no answer from Kani within %d s" % lim
            return
        if not os.path.exists(js):
            self.why = "the harnesses do not compile against this tree: " + "\n".join(l for l in out.splitlines() if l.startswith("error"))[:600]
            return
        d = json.load(open(js))
        seen = set()
        unk = []
        for r in d["verification_results"]["results"]:
            h = r["harness_id"]
            seen.add(h)
            checks = r["checks"]
            stop = h in job.get("stops", ())
            bad, undecided, ok, fns, vac, stopped = [], [], 0, set(), [], 0
            for c in checks:
                st = c["status"]
                loc = c.get("location") or {}
                f = loc.get("file", "")
                if f.startswith(REPO):
                    fns.add(c["function"])
                own = f.startswith("src/") and c["category"] == "assertion" and not re.match(r"index out|attempt to|.*(unreachable|unwrap|expect)", c["description"])
                if st in ("Success", "Unreachable", "Satisfied", "Covered"):
                    ok += 1
                    if own and st == "Unreachable" and not (stop and GRANTED in c["description"]) and "(must not be reached)" not in c["description"]:
                        vac.append(c["description"])
                    continue
                if st != "Failure" or c["category"] in ("unsupported_construct", "unwind", "recursion") or "unwinding assertion" in c["description"]:
                    undecided.append(c)
                    continue
                if stop and not (GRANTED in c["description"]) and c["category"] in PANICS:
                    # the panic that stops the misuse
                    ok += 1
                    stopped += 1
                    continue
                bad.append(c)
            self.res["verified"] += ok
            self.res["nerr"] += len(bad) + len(undecided)
            self.res["smt_ms"] += r.get("duration_ms", 0)
            self.detail.append({"harness": h, "checks": len(checks), "discharged": ok, "ms": r.get("duration_ms", 0), "functions": sorted(fns),
                                "kind": "the misuse is stopped" if stop else "contract", "bounded": job.get("bounded", {}).get(h, "")})
            if undecided or (r["status"] not in ("Success", "Failure")):
                # after a failed unwinding check nothing else that failed is trustworthy
                unk.append("%s: %s" % (h, undecided[0]["description"] if undecided else r["status"]))
            elif bad:
                self.failed.append({"fn": h, "message": bad[0]["description"], "lines": [], "harness": h,
                                    "rendered": "\n".join("%s in %s (%s:%s)" % (c["description"], c["function"], (c.get("location") or {}).get("file"), (c.get("location") or {}).get("line")) for c in bad)})
            elif stop and not stopped:
                unk.append("%s: the misuse is not reachable" % h)
            elif vac:
                unk.append("%s: the check '%s' is not reachable" % (h, vac[0]))
        for h in hs:
            if h not in seen:
                unk.append("%s: not run" % h)
        if self.failed:
            self.status = "refuted"
            for e in self.failed[:3]:
                playback(self, e, V, SCRATCH, TGT, ENV, flags)
        elif unk:
            self.why = "; ".join(unk)[:600]
        else:
            self.status = "proved"


def playback(self, e, V, SCRATCH, TGT, ENV, flags):
    """the verifier's counterexample, replayed against the real code"""
    rc, out = cargo_kani(V, TGT, ENV, ["--harness", e["harness"], "--exact", "-Z", "concrete-playback", "--concrete-playback", "print"] + flags, 200)
    best = None
    for m in re.finditer(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", out or "", re.S):
        vals = [[int(x) for x in re.findall(r"\d+", v)] for v in re.findall(r"^\s*vec!\[([^\]]*)\]", m.group(1), re.M)]
        hexs = "".join("%02x" % b for v in vals for b in v)
        e["values"] = hexs
        if self.job.get("native", True):
            try:
                p = subprocess.run([os.path.join(SCRATCH, "falsify"), "harness", e["harness"], hexs or "-"], env=ENV, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True, errors="replace", timeout=60)
                if p.returncode != 0:
                    best = (hexs, p.stdout[-1500:])
            except subprocess.TimeoutExpired:
                pass
    if best:
        e["values"], e["confirmed"] = best
    e["rendered"] += "\n\ncounterexample (bytes of the quantified variables in order): %s\n" % e.get("values", "none given")
    if "confirmed" in e:
        e["rendered"] += "replayed against the real code: falsify harness %s %s\n%s\n" % (e["harness"], e["values"], e["confirmed"])
