#!/usr/bin/env python3
"""check.py ID: decide one property.

1. vx extracts the functions named in specs/<ID>*.rs from /repo's working tree and attaches the contracts.
2. Verus discharges every obligation (and a second run with `assert(false)` at the start of every function and
   loop body must fail at every one of them: no contract is vacuous).
3. The harness runs the same contracts, as executable oracles, on the real crates (bounded). It supplies the
   failing input when an obligation fails, and stands in, labelled bounded, where extraction is impossible.
"""
import sys, os, json, subprocess, time, re, threading, glob, shutil, resource

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LAPEX_REPO", "/repo")
BUILD = os.path.join(V, "build")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
CFG = json.load(open(os.path.join(V, "specs", "props.json")))

PROOF_FAIL = re.compile(
    r"(postcondition not satisfied|precondition not satisfied|invariant not satisfied|assertion failed|"
    r"possible arithmetic (underflow|overflow)|possible division by zero|decreases not satisfied|"
    r"could not prove termination|assertion not satisfied|constructed value may fail|unable to prove|"
    r"possible bit shift|loop must have a decreases|requires not satisfied|ensures not satisfied|"
    r"failed precondition|might not be allowed|index out of bounds|recommendation not met)", re.I)
RLIMIT = re.compile(r"(resource limit|rlimit|timed? ?out|canceled)", re.I)


def sh(cmd, timeout=None, env=None, cwd=None, mem=None):
    def pre():
        os.setsid()
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    e = dict(os.environ)
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd, preexec_fn=pre)
    try:
        o, er = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf-8", "replace"), er.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        o, er = p.communicate()
        return -999, o.decode("utf-8", "replace"), er.decode("utf-8", "replace")


def build_crate(name, target):
    rc, o, e = sh(["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(V, "tools", name, "Cargo.toml")],
                  timeout=800, env={"CARGO_TARGET_DIR": os.path.join(BUILD, target), "CARGO_NET_OFFLINE": "true",
                                    "RUSTFLAGS": "-Awarnings"})
    return rc, e


def verus(f, threads):
    cmd = ["verus", f, "--output-json", "--time", "--multiple-errors", "60", "--rlimit", "60" if THOROUGH else "30",
           "--num-threads", str(threads), "--error-format=json"]
    t = time.time()
    rc, o, e = sh(cmd, timeout=800)
    r = {"rc": rc, "wall": time.time() - t, "cmd": " ".join(cmd), "errs": [], "raw": e}
    try:
        j = json.loads(o)
        vr = j.get("verification-results", {})
        r["verified"] = vr.get("verified", 0)
        r["errors"] = vr.get("errors", 0)
        r["vir"] = vr.get("encountered-vir-error", True)
        tm = j.get("times-ms", {})
        r["smt_ms"] = (tm.get("smt") or {}).get("total", tm.get("smt-run", 0)) if isinstance(tm.get("smt"), dict) else 0
        r["version"] = j.get("verus", {}).get("version", "?")
    except Exception:
        r["verified"] = 0; r["errors"] = 0; r["vir"] = True; r["smt_ms"] = 0
    for line in e.splitlines():
        if not line.startswith("{"):
            continue
        try:
            d = json.loads(line)
        except Exception:
            continue
        if d.get("level") == "error" and not d["message"].startswith("aborting"):
            spans = d.get("spans", [])
            r["errs"].append({"msg": d["message"], "lines": [s["line_start"] for s in spans],
                              "plines": [s["line_start"] for s in spans if s.get("is_primary")],
                              "text": d.get("rendered", "")})
    return r


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.cfg = CFG[pid]
        self.t0 = time.time()
        self.work = os.path.join(BUILD, "run", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work, exist_ok=True)
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        os.makedirs(os.path.join(V, "replays"), exist_ok=True)
        self.notes = []
        self.hbuild = None

    # -- proof side -------------------------------------------------------------------------------
    def proof_one(self, spec, res):
        stem = spec[:-3]
        vx = os.path.join(BUILD, "vx", "debug", "vx")
        out = os.path.join(self.work, stem + ".rs")
        mp = os.path.join(self.work, stem + ".json")
        rc, o, e = sh([vx, REPO, os.path.join(V, "specs"), spec, out, mp], timeout=120)
        r = {"spec": spec, "lost": None, "failed": [], "map": None}
        res[spec] = r
        if rc != 0:
            r["lost"] = (o + e).strip()[-600:]
            return
        m = json.load(open(mp))
        r["map"] = m
        if m["loopmismatch"]:
            r["lost"] = "loop structure changed in " + ", ".join(m["loopmismatch"])
            return
        vac = os.path.join(self.work, stem + "_vac.rs")
        vmp = os.path.join(self.work, stem + "_vac.json")
        rc, o, e = sh([vx, REPO, os.path.join(V, "specs"), spec, vac, vmp, "vacuity"], timeout=120)
        # the probe run needs the lemmas' statements only; their proofs are checked in the main run
        vt = open(vac).read()
        open(vac, "w").write(re.sub(r"^(pub proof fn )", r"#[verifier::external_body] \1", vt, flags=re.M))
        vr = {}
        th = threading.Thread(target=lambda: vr.update(verus(vac, 3)))
        th.start()
        main = verus(out, 5)
        th.join()
        r["main"] = main
        r["vac"] = vr
        src = open(out).read().splitlines()
        r["trusted"] = scan_trusted(src)

        def fn_of(lines):
            for l in lines:
                for f in m["fns"]:
                    if f["out"][0] <= l <= f["out"][1]:
                        return f
            return None
        infra = []
        if main["rc"] == -999:
            infra.append("verus timed out")
        for er in main["errs"]:
            f = fn_of(er["plines"]) or fn_of(er["lines"])
            name = f["name"] + " (" + f["file"] + ")" if f else "lemma/spec"
            if RLIMIT.search(er["msg"]):
                infra.append("resource limit in " + name)
            elif PROOF_FAIL.search(er["msg"]):
                r["failed"].append({"fn": name, "msg": er["msg"], "text": er["text"], "in_code": f is not None})
            else:
                infra.append(er["msg"])
        if main["vir"] or (main["verified"] + main["errors"] == 0):
            infra.append("verus rejected the extracted text")
        if infra and (main["vir"] or not r["failed"]):
            r["failed"] = []
            r["lost"] = "; ".join(infra)[:800]
            return
        # a failure only in the spec's own lemmas says nothing about the code
        if r["failed"] and not any(x["in_code"] for x in r["failed"]):
            r["lost"] = "lemma failed: " + r["failed"][0]["msg"]
            r["failed"] = []
            return
        if not r["failed"] and main["rc"] != 0:
            r["lost"] = "verus exit %d" % main["rc"]
            return
        # vacuity
        vs = open(vac).read().splitlines()
        probes = [i + 1 for i, l in enumerate(vs) if "/*VACUITY*/" in l]
        hit = set(l for er in vr.get("errs", []) for l in er["lines"])
        slow = any(RLIMIT.search(er["msg"]) for er in vr.get("errs", []))
        r["probes"] = len(probes)
        r["probes_failed"] = len([p for p in probes if p in hit])
        dead = [p for p in probes if p not in hit]
        vm = json.load(open(vmp))
        r["vacuous"] = []
        for p in dead:
            for f in vm["fns"]:
                if f["out"][0] <= p <= f["out"][1]:
                    r["vacuous"].append("%s line %d" % (f["name"], p))
        if not probes:
            r["lost"] = "no obligation generated"
        elif dead and not slow and not vr.get("vir", True):
            allow = set(self.cfg.get("dead_ok", []))
            left = [d for d in r["vacuous"] if d.split(" line")[0] not in allow]
            if left:
                r["lost"] = "vacuity probe not refuted: " + ", ".join(left)

    def proof(self):
        rc, e = build_crate("vx", "vx")
        res = {}
        if rc != 0:
            for s in self.cfg["specs"]:
                res[s] = {"spec": s, "lost": "extractor does not build: " + e[-300:], "failed": [], "map": None}
            return res
        ths = [threading.Thread(target=self.proof_one, args=(s, res)) for s in self.cfg["specs"]]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        return res

    # -- bounded side -----------------------------------------------------------------------------
    def harness_bin(self):
        if self.hbuild is None:
            hc = self.cfg.get("harness", "harness")
            rc, e = build_crate(hc, hc)
            self.hbuild = (rc, e, os.path.join(BUILD, hc, "debug", hc))
        return self.hbuild

    def harness(self, millis, seed):
        rc, e, b = self.harness_bin()
        r = {"ok": False, "fail": None, "cases": 0, "distinct": 0, "samples": [], "known": [], "err": None}
        if rc != 0:
            r["err"] = "harness does not build: " + e[-1500:]
            return r
        wd = os.path.join(self.work, "h")
        shutil.rmtree(wd, ignore_errors=True)
        os.makedirs(wd)
        env = {"KNOWN_KEYS": ",".join(known_keys(self.pid)), "LAPEX_REPO": REPO}
        cmd = [b, self.pid, str(seed), str(millis), wd]
        lim = millis / 1000 + 400
        mem = 12 << 30
        rc, o, e = sh(cmd, timeout=lim, env=env, mem=mem)
        if rc not in (0, 1, 2):
            # crash or hang in the code under test: rerun, tracing the current case
            tr = os.path.join(wd, "trace")
            env["HARNESS_TRACE"] = tr
            rc2, o2, e2 = sh(cmd, timeout=lim, env=env, mem=mem)
            if rc2 not in (0, 1, 2) and os.path.exists(tr):
                what = "does not terminate (no result within the harness's time limit)" if rc2 in (3, -999) else "crashes (exit %d: %s)" % (rc2, e2.strip()[-300:])
                r["fail"] = "input: " + open(tr, errors="replace").read() + "\nthe code " + what
            else:
                o = o2
                rc = rc2
        for l in o.splitlines():
            if l.startswith("CASES "):
                r["cases"] = int(l[6:])
            elif l.startswith("DISTINCT "):
                r["distinct"] = int(l[9:])
            elif l.startswith("SAMPLE "):
                r["samples"].append(l[7:][:600])
            elif l.startswith("KNOWN "):
                r["known"].append(l[6:])
        if "FAIL-BEGIN" in o:
            r["fail"] = o.split("FAIL-BEGIN\n", 1)[1].split("FAIL-END")[0].strip()
        if r["fail"] is None and rc == 2:
            r["err"] = "harness error: " + (o + e)[-800:]
        r["ok"] = r["fail"] is None and r["err"] is None and r["cases"] > 0
        r["cmd"] = " ".join(cmd)
        return r

    def run(self):
        hb = threading.Thread(target=self.harness_bin)
        hb.start()
        res = self.proof() if self.cfg["specs"] else {}
        hb.join()
        failed = [(s, f) for s, r in res.items() for f in r["failed"]]
        lost = [(s, r["lost"]) for s, r in res.items() if r["lost"]]
        ms = self.cfg.get("millis", 8000)
        if THOROUGH:
            ms *= 12
        h = self.harness(ms, SEED)
        if (failed or lost) and h["ok"]:
            # a proof did not go through: search harder for a concrete input
            h2 = self.harness(ms * (4 if failed else 2), SEED + 7919)
            h2["cases"] += h["cases"]; h2["distinct"] += h["distinct"]
            h = h2
        self.evidence(res, failed, lost, h)
        for k in h["known"]:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        for s, l in lost:
            print("NOTE property=%s proof of %s not re-established (%s): bounded check stands in" % (self.pid, s, l.replace("\n", " ")[:300]))
        if h["fail"] or failed:
            rp = os.path.join(V, "replays", self.pid + ".txt")
            with open(rp, "w") as f:
                f.write("property %s\n" % self.pid)
                for s, x in failed:
                    f.write("\nFAILED OBLIGATION in %s [%s]: %s\n%s\n" % (x["fn"], s, x["msg"], x["text"]))
                if h["fail"]:
                    f.write("\nFAILING INPUT on the real code:\n%s\n\nreplay: %s\n" % (h["fail"], h.get("cmd")))
                else:
                    f.write("\nNo failing input found in %d bounded cases.\n" % h["cases"])
            for s, x in failed:
                print("FAILED-OBLIGATION %s: %s" % (x["fn"], x["msg"]))
            if h["fail"]:
                print(h["fail"][:1500])
                print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            else:
                print("VIOLATION property=%s replay=%s no-failing-input-found" % (self.pid, rp))
            return 1
        if h["err"]:
            print("ERROR " + h["err"])
            # a complete proof decides alone; otherwise there is no answer
            return 0 if (res and not lost) else 2
        if not res and h["cases"] == 0:
            return 2
        n = sum(r["main"]["verified"] for r in res.values() if r.get("main"))
        print("OK property=%s: %d proof queries discharged%s, bounded cases %d" % (self.pid, n, " (proof incomplete)" if lost else "", h["cases"]))
        return 0

    def evidence(self, res, failed, lost, h):
        obl = dis = 0
        smt = 0
        fns, trusted, cmds, probes, loops = [], [], [], 0, 0
        for s, r in sorted(res.items()):
            if r.get("map"):
                for f in r["map"]["fns"]:
                    d = "%s %s lines %d-%d%s" % (f["file"], f["name"], f["src"][0], f["src"][1], " (contract assumed, body not verified here)" if f["external"] else "")
                    fns.append(d)
                    loops += f["loops"]
            if r.get("main"):
                obl += r["main"]["verified"] + r["main"]["errors"]
                dis += 0 if r["lost"] else r["main"]["verified"]
                smt += r["main"]["smt_ms"]
                cmds.append(r["main"]["cmd"].replace(V, "/verif"))
                probes += r.get("probes_failed", 0)
            else:
                obl += 1
            trusted += r.get("trusted", [])
        lvl = self.cfg["level"]
        cov = {
            "obligations": obl, "discharged": dis,
            "checker_cmd": "; ".join(cmds) or "none",
            "trusted_base": sorted(set(trusted)) + ["Verus + Z3", "vx extraction (tools/vx), rewrites listed in DESIGN.md"],
            "backend": "Verus, Z3 (SMT)", "smt_ms": smt,
            "functions_under_contract": fns, "loops_with_invariants": loops,
            "vacuity_probes_refuted": probes,
            "failed_obligations": ["%s: %s" % (x["fn"], x["msg"]) for _, x in failed],
            "not_reestablished": ["%s: %s" % (s, l) for s, l in lost],
            "bounded": {"label": "bounded, not counted as proved", "evaluations": h["cases"], "distinct_nontrivial": h["distinct"],
                        "rule": self.cfg.get("rule", ""), "samples": h["samples"], "error": h["err"]},
        }
        if lvl != "proof":
            cov["explanation"] = self.cfg.get("explanation", "")
            cov["evaluations"] = h["cases"]
            cov["distinct_nontrivial"] = h["distinct"]
            cov["rule"] = self.cfg.get("rule", "")
            cov["samples"] = h["samples"] or ["(none)"]
        ev = {"property": self.pid, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": lvl, "coverage": cov,
              "assumptions": self.cfg.get("assumptions", []) + COMMON_ASSUMPTIONS,
              "wall_s": round(time.time() - self.t0, 2),
              "violations": (1 if (failed or h["fail"]) else 0)}
        json.dump(ev, open(os.path.join(V, "evidence", self.pid + ".json"), "w"), indent=1)


COMMON_ASSUMPTIONS = [
    "usize is 64 bits wide",
    "std containers behave as the contracts in specs/prelude.rs state (assumed, not proved)",
    "Clone/Eq/Ord/Hash of the crate's own types are the derived, structural ones",
]


def scan_trusted(lines):
    out = []
    for i, l in enumerate(lines):
        if "external_body" in l or re.search(r"\b(assume|admit)\(", l) or "external_type_specification" in l or "assume_specification" in l:
            for k in range(i, min(i + 6, len(lines))):
                m = re.search(r"\b(?:proof fn|fn|struct|enum)\s+(\w+)", lines[k])
                if m:
                    im = re.search(r"/\*IMPORTED (\S+)\*/", l)
                    out.append("discharged by check %s: %s" % (im.group(1), m.group(1)) if im else "assumed: " + m.group(1))
                    break
            else:
                out.append("assumed: " + l.strip()[:80])
    return out


def known_keys(pid):
    ks = []
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"property=(\S+) key=(\S+)", l)
            if m and m.group(1) == pid:
                ks.append(m.group(2))
    return ks


if __name__ == "__main__":
    sys.exit(Check(sys.argv[1]).run())
