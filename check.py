#!/usr/bin/env python3
"""Decides one property: check.py Cxx.  See DESIGN.md for what each step means.

 1. vx re-emits /repo/src as a Verus crate with the contracts of this property's slice spliced in.
 2. Verus must discharge every obligation; failing support clauses are dropped and the rest is tried
    again, so that only a clause which states the property itself (a goal) is ever held against the code.
 3. The replay program runs the real crate (path dependency on /repo) against a reference peer: it
    replays what the verifier refused, and is the labelled, bounded stand-in where Verus has no answer.
Exit 0: held on everything explored; exit 1 with a VIOLATION line: broken."""
import json, os, re, subprocess, sys, time, hashlib, concurrent.futures

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PKSTL_REPO", "/repo")
B = os.path.join(V, ".build")
VX = os.path.join(B, "vx", "release", "vx")
REPLAY = os.path.join(B, "replay", "release", "replay")
T0 = time.time()
VERIF_MSGS = ("postcondition not satisfied", "precondition not satisfied", "invariant not satisfied",
              "possible arithmetic", "possible division", "possible bit shift", "assertion fail", "decreases not satisfied",
              "could not prove termination", "loop ensures not satisfied", "unable to prove", "cannot show invariant",
              "assert", "requires not satisfied", "split postcondition", "split precondition", "split assertion")


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sh(cmd, timeout, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace", **kw)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return -9, "", "timeout"


def left(budget):
    return budget - (time.time() - T0)


# ---------------------------------------------------------------- building the machinery
def build_vx():
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(B, "vx"))
    rc, o, e = sh(["cargo", "build", "--release", "--offline", "-q"], 600, cwd=os.path.join(V, "vx"), env=env)
    return rc == 0, e


def build_replay():
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(B, "replay"), RUSTUP_TOOLCHAIN="1.77.2", CARGO_NET_OFFLINE="true")
    rc, o, e = sh(["cargo", "build", "--release", "--offline", "-q"], 600, cwd=os.path.join(V, "replay"), env=env)
    return rc == 0, e


# ---------------------------------------------------------------- one verifier run
class Run:
    """outcome of extraction plus verification with given options"""


def verify(work, slice_, opts, tag, vacuity=False, rlimit=None, timeout=300):
    r = Run()
    r.compile, r.fails, r.rlimit, r.crash, r.verified, r.errors, r.smt_ms = [], [], [], None, 0, 0, 0
    rs, mp = os.path.join(work, tag + ".rs"), os.path.join(work, tag + ".json")
    cmd = [VX, "--src", os.path.join(REPO, "src"), "--contracts", os.path.join(V, "contracts"), "--slice", slice_, "--out", rs, "--map", mp]
    for k in ("external", "nocontract", "drop"):
        for x in sorted(opts[k]):
            cmd += ["--" + k, x]
    if vacuity:
        cmd.append("--vacuity")
    rc, o, e = sh(cmd, 60)
    if rc != 0:
        r.crash = "extraction: " + (e.strip().splitlines() or ["?"])[0][:300]
        r.map = {"fns": [], "regions": [], "lines": {}, "lost": [], "inlined": [], "not_emitted": [], "dropped": []}
        return r
    r.map = json.load(open(mp))
    cmd = ["verus", rs, "--triggers-mode", "silent", "--multiple-errors", "20", "--error-format=json", "--output-json", "--time"]
    if rlimit:
        cmd += ["--rlimit", str(rlimit)]
    r.cmd = " ".join(cmd)
    rc, o, e = sh(cmd, timeout, cwd=work)
    r.stderr = e
    if e == "timeout":
        r.crash = "verifier timed out"
        return r
    try:
        j = json.loads(o[o.index("{"):])
        vr = j["verification-results"]
        r.verified, r.errors = vr.get("verified", 0), vr.get("errors", 0)
        r.smt_ms = j.get("times-ms", {}).get("smt", {}).get("total", 0)
    except Exception:
        j = None
    src = {int(k): v for k, v in r.map["lines"].items()}
    for l in e.splitlines():
        if not l.startswith("{"):
            continue
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get("level") != "error" or d["message"].startswith("aborting due"):
            continue
        m = d["message"]
        spans = [s for s in d.get("spans", []) if os.path.basename(s["file_name"]) == tag + ".rs"]
        f = {"message": m, "fn": None, "clauses": [], "at": None, "lines": [], "text": (d.get("rendered") or m)[:4000]}
        for s in spans:
            f["lines"].append((s["line_start"], s["is_primary"]))
        for ln, _ in f["lines"]:
            for g in r.map["regions"]:
                if g.get("id") and g["l0"] <= ln <= g["l1"]:
                    f["clauses"].append(g)
                    break
            else:
                for q in r.map["fns"]:
                    if q["l0"] <= ln <= q["l1"]:
                        f["fn"] = q["key"]
                        f["at"] = src.get(ln)
                        break
        if f["fn"] is None and f["clauses"]:
            f["fn"] = f["clauses"][0]["fn"]
            for q in r.map["fns"]:
                if any(q["l0"] <= ln <= q["l1"] for ln, _ in f["lines"]):
                    f["fn"] = q["key"]
        if "esource limit" in m or "rlimit" in m:
            r.rlimit.append(f)
        elif d.get("code") is None and any(m.startswith(x) or x in m for x in VERIF_MSGS) and "verification-results" in (o or ""):
            r.fails.append(f)
        else:
            r.compile.append(f)
    if j is None and not r.compile and not r.fails:
        r.crash = "verifier gave no result: " + e[-300:]
    return r


def loop_text(q):
    """the loops of a function, without the numbers of generated names"""
    return [re.sub(r"(__[a-z_]+?)\d+", r"\1", t) for t in q.get("loop_src", [])]


def loops():
    """the loops that the contracts give invariants for, as they were when the contracts were written"""
    try:
        return json.load(open(os.path.join(V, "contracts", "loops.json")))
    except (OSError, ValueError):
        return {}


def goal_ids(m, prop):
    return {g["id"] for g in m["regions"] if g.get("id") and prop in g["goals"]}


# ---------------------------------------------------------------- deciding by contracts
def decide(prop, work, budget, early):
    """-> dict(status=proved|refuted|undecided, goals_failed=[...], undecided=[...], run=Run, log=[...])"""
    opts = {"external": set(), "nocontract": set(), "drop": set()}
    notes, undecided, failed_goals, shaky = [], set(), {}, set()
    rl, n, last = None, 0, None
    all_goals = None
    first = {}
    while True:
        n += 1
        if n == 2:
            early.start()
        if n > 1 and early.found() and first:
            # an obligation fails and the real code shows the failure: no need to find the least set that fails
            notes.append("stopped after %d rounds: the replay program has a failing input" % (n - 1))
            return {"status": "refuted", "failed": list(first.values()), "undecided": [], "notes": notes, "run": last, "opts": opts, "rounds": n - 1}
        if n > 40 or left(budget) < 60:
            undecided.add("budget used up before a fixed point was reached")
            break
        r = verify(work, prop, opts, "%s_%d" % (prop, n % 2), rlimit=rl, timeout=max(30, left(budget)))
        last = r
        if all_goals is None and r.map["regions"]:
            all_goals = goal_ids(r.map, prop)
        if r.crash:
            undecided.add(r.crash)
            break
        for f in r.fails:
            for c in f["clauses"] or [None]:
                k = c["id"] if c else f["fn"]
                first.setdefault(k, {"fn": f["fn"], "clause": c and c["id"], "label": c["label"] if c else f["message"], "text": c["text"] if c else "", "message": f["message"], "at": f["at"], "output": f["text"]})
        if r.compile:
            changed = False
            for f in r.compile:
                c = f["clauses"][0] if f["clauses"] else None
                if c is not None:
                    if c["id"] not in opts["drop"]:
                        opts["drop"].add(c["id"])
                        changed = True
                        shaky.add(c["fn"])
                        notes.append("clause %s '%s' no longer fits the code: %s" % (c["id"], c["label"], f["message"][:120]))
                        if prop in c["goals"]:
                            undecided.add("goal %s '%s' no longer fits the code" % (c["id"], c["label"]))
                elif f["fn"]:
                    if f["fn"] not in opts["external"]:
                        opts["external"].add(f["fn"])
                        changed = True
                        notes.append("body of %s is outside the supported subset: %s" % (f["fn"], f["message"][:160]))
                        undecided.add("body of %s not verified (unsupported)" % f["fn"])
            if not changed:
                undecided.add("not expressible for the verifier: " + r.compile[0]["message"][:200])
                break
            continue
        if r.rlimit:
            if rl is None:
                rl = 40
                continue
            changed = False
            for f in r.rlimit:
                if f["fn"] and f["fn"] not in opts["external"]:
                    opts["external"].add(f["fn"])
                    undecided.add("resource limit in %s" % f["fn"])
                    changed = True
            if changed:
                continue
            undecided.add("resource limit")
            break
        # a function without loops that no longer meets a support clause: look through it instead
        drop, inline = set(), set()
        for f in r.fails:
            for c in f["clauses"]:
                if prop in c["goals"] or c["id"] in opts["drop"]:
                    continue
                if c["label"].startswith("assume:"):
                    undecided.add("assumption '%s' of %s not established by %s" % (c["label"][7:], c["fn"], f["fn"]))
                    continue
                cf = c["fn"]
                simple = not any(g.get("fn") == cf and (g["loop"] is not None or prop in g["goals"]) for g in r.map["regions"])
                private = not any(k in cf for k in ("MinimalSecureLayer::", "SecureLayer::")) or cf.split("::")[-1] in ("verify_sig", "compute_shared_secret", "encapsulate_message", "encrypt_and_write", "encapsulate_and_encrypt_and_write_message")
                if simple and private and cf not in opts["nocontract"]:
                    inline.add(cf)
                elif c["label"].startswith("inv:"):
                    for g in r.map["regions"]:
                        if g.get("id") and g["label"] == c["label"]:
                            drop.add(g["id"])
                else:
                    drop.add(c["id"])
        if inline:
            o2 = dict(opts, nocontract=opts["nocontract"] | inline)
            t = verify(work, prop, o2, prop + "_in", rlimit=rl, timeout=max(30, left(budget)))
            opaque = {q["key"] for q in t.map["fns"] if q["external"]}
            if t.crash or t.compile or (opaque & inline):
                for f in r.fails:
                    for c in f["clauses"]:
                        if c["fn"] in inline and prop not in c["goals"]:
                            drop.add(c["id"])
            else:
                opts = o2
                notes.append("looked through instead of by contract: " + ", ".join(sorted(inline)))
                continue
        drop -= opts["drop"]
        if drop:
            opts["drop"] |= drop
            for g in r.map["regions"]:
                if g.get("id") in drop:
                    notes.append("support clause dropped: %s '%s'" % (g["id"], g["label"]))
            continue
        # a function whose loops are not the ones the contract was written for does not refute its goals by failing to
        # prove them
        for q in r.map["fns"]:
            if loop_text(q) != loops().get(q["key"], []):
                shaky.add(q["key"])
        # and its callers, which see a contract that lost clauses
        weak = {g["fn"] for g in r.map["regions"] if g.get("id") in opts["drop"]} | {i.rsplit("#", 1)[0] for i in opts["drop"]}
        if weak & shaky:
            shaky |= {f["fn"] for f in r.fails}
        # fixed point: what fails now are goals, or obligations of the code itself (panics, overflow, termination)
        for f in r.fails:
            gs = [c for c in f["clauses"] if prop in c["goals"]]
            if f["fn"] is None:
                undecided.add("lemma: " + f["message"])
            if f["fn"] in shaky and (gs or (prop == "C01" and not f["clauses"])):
                undecided.add("%s: %s" % (f["fn"], ", ".join(c["label"] for c in gs) or f["message"]))
            elif gs:
                for c in gs:
                    failed_goals.setdefault(c["id"], {"fn": f["fn"], "clause": c["id"], "label": c["label"], "text": c["text"], "message": f["message"], "at": f["at"], "output": f["text"]})
            elif prop == "C01" and not f["clauses"]:
                k = "%s: %s at %s" % (f["fn"], f["message"], f["at"])
                failed_goals.setdefault(k, {"fn": f["fn"], "clause": None, "label": f["message"], "text": "", "message": f["message"], "at": f["at"], "output": f["text"]})
        break
    now = goal_ids(last.map, prop)
    if prop != "C01" and not last.crash and not all_goals:
        undecided.add("no function under contract states this property")
    for g in (all_goals or set()) - now - set(failed_goals):
        undecided.add("goal %s not checked" % g)
    for q in last.map["fns"]:
        if prop == "C01" and q.get("loops_without_decreases") and not q.get("vac"):
            undecided.add("termination of a loop in %s" % q["key"])
    expected = expected_goals(prop)
    for fn in expected - {g["fn"] for g in last.map["regions"] if g.get("id") and prop in g["goals"]}:
        undecided.add("function under contract not found: " + fn)
    return {"status": "refuted" if failed_goals else ("undecided" if undecided else "proved"), "failed": list(failed_goals.values()),
            "undecided": sorted(undecided), "notes": notes, "run": last, "opts": opts, "rounds": n}


def expected_goals(prop):
    """functions whose contract states this property"""
    out, cur = set(), None
    for f in sorted(os.listdir(os.path.join(V, "contracts"))):
        if not f.endswith(".vc"):
            continue
        for l in open(os.path.join(V, "contracts", f)):
            m = re.match(r"@fn ([\w:]+)", l)
            if m:
                cur = m.group(1)
            m = re.match(r"(?:loop \d+ )?\w+\[([^\]]*)\]", l)
            if m and cur and prop + "!" in [t.strip() for t in m.group(1).split(",")]:
                out.add(cur)
    return out


def vacuity(prop, work, opts, budget):
    """every function under contract must fail to prove `false`"""
    r = verify(work, prop, opts, prop + "_vac", vacuity=True, timeout=max(30, min(300, left(budget))))
    vac = {q["key"] for q in r.map["fns"] if q.get("vac")}
    if r.crash or r.compile:
        return {"probes": len(vac), "reachable": 0, "vacuous": [], "error": r.crash or r.compile[0]["message"][:200]}
    hit = {f["fn"] for f in r.fails if f["fn"] in vac} | {f["fn"] for f in r.rlimit if f["fn"] in vac}
    return {"probes": len(vac), "reachable": len(hit), "vacuous": sorted(k[:-5] for k in vac - hit), "error": None}


# ---------------------------------------------------------------- the replay program
class Early:
    """a replay that runs beside the verifier once an obligation has failed"""
    def __init__(self, ex, rb, prop, seed):
        self.ex, self.rb, self.prop, self.seed, self.f = ex, rb, prop, seed, None
        self.res = None

    def start(self):
        def go():
            if not self.rb.result()[0]:
                return None
            ls = literals()
            return run_replay(self.prop, self.seed + 1000, 40, {"literals": ls, "novel": novel(ls), "failed": []}, "_early")
        self.f = self.ex.submit(go)

    def found(self):
        if self.f is None or not self.f.done():
            return False
        self.res = self.f.result()
        listed = [k for k, _ in known(self.prop)]
        return bool(self.res) and any(v.get("kind") not in listed for v in self.res[0].get("violations", []))


def run_replay(prop, seed, secs, hints, tag=""):
    hf = os.path.join(B, "work", prop, "hints%s.json" % tag)
    json.dump(hints, open(hf, "w"))
    out = os.path.join(B, "replays", prop + tag + ".json")
    if os.path.exists(out):
        os.remove(out)
    rc, o, e = sh([REPLAY, "--property", prop, "--seed", str(seed), "--secs", str(secs), "--hints", hf, "--out", out], secs + 120)
    try:
        st = json.loads(o.strip().splitlines()[-1])
    except Exception:
        st = {"error": "replay program: rc %d %s" % (rc, e[-300:])}
    return st, out


def literals():
    """integer literals of the current source, and what constant expressions of them evaluate to: where a
    boundary may lie"""
    ns = set()
    lit = r"(?:0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*)(?:[ui](?:8|16|32|64|128|size))?"
    num = lambda m: int(re.sub(r"[ui](8|16|32|64|128|size)$", "", m).replace("_", ""), 0)
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in fs:
            if f.endswith(".rs"):
                t = open(os.path.join(d, f), errors="replace").read().split("#[cfg(test)]")[0]
                t = re.sub(r"//[^\n]*", "", t)
                for m in re.findall(r"(?<![\w.])" + lit + r"(?:\s*(?:<<|\*|\+|-)\s*" + lit + r")*(?![\w.])", t):
                    try:
                        parts = re.split(r"\s*(<<|\*|\+|-)\s*", m)
                        vs = [num(x) for x in parts[0::2]]
                        ns.update(vs)
                        if len(parts) == 1 or max(vs) >= 2 ** 64 or (parts[-2] == "<<" and vs[-1] > 63) or "<<" in parts[1:-2]:
                            continue
                        ns.add(eval(str(vs[0]) + "".join(o + str(v) for o, v in zip(parts[1::2], vs[1:]))))
                    except (ValueError, SyntaxError):
                        continue
    return sorted(n for n in ns if 0 <= n < 2 ** 64)


def novel(ls):
    """those the source did not have when the list was committed"""
    try:
        base = set(json.load(open(os.path.join(V, "replay", "literals.json"))))
    except (OSError, ValueError):
        return []
    return [n for n in ls if n not in base][:64]


# ---------------------------------------------------------------- trusted base
def trusted(run):
    names = []
    for f in ("prelude.rs", "spec.rs"):
        t = open(os.path.join(V, "contracts", f)).read().splitlines()
        for i, l in enumerate(t):
            if "axiom fn" in l or "assume_specification" in l:
                names.append(l.strip()[:110])
            if "external_body" in l:
                for x in t[i:i + 3]:
                    m = re.search(r"(?:fn|struct) (\w+)", x)
                    if m:
                        names.append("external: " + m.group(1))
                        break
    ops = sorted(q["key"] for q in run.map["fns"] if q["external"])
    return sorted(set(names)), ops


def lemmas(prop):
    """the lemmas that carry the contracts of single calls over to whole histories, or to the other side"""
    try:
        return re.findall(r"pub proof fn (\w+)", open(os.path.join(V, "contracts", "history", prop + ".rs")).read())
    except OSError:
        return []


def known(prop):
    out = []
    p = os.path.join(V, "known_findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"finding: property=(\w+) (\S+) (.*)", l)
        if m and m.group(1) == prop:
            out.append((m.group(2), m.group(3).strip()))
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    budget = 560 if tier == "quick" else 700
    work = os.path.join(B, "work", prop)
    os.makedirs(work, exist_ok=True)
    os.makedirs(os.path.join(B, "replays"), exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    ex = concurrent.futures.ThreadPoolExecutor(4)
    rb = ex.submit(build_replay)
    ok, e = build_vx()
    if not ok:
        log("cannot build the extractor:\n" + e)
        return 2
    if prop == "C21":
        return wiped(tier, seed, work, ex, rb)
    vac, kf = None, known(prop)
    if True:
        vf = ex.submit(vacuity, prop, work, {"external": set(), "nocontract": set(), "drop": set()}, budget)
        early = Early(ex, rb, prop, seed)
        d = decide(prop, work, budget, early)
        vac = vf.result()
        if d["opts"]["drop"] or d["opts"]["nocontract"] or d["opts"]["external"]:
            if d["status"] == "proved":
                vac = vacuity(prop, work, d["opts"], budget)
        if d["status"] == "proved" and (vac["vacuous"] or vac["error"] or vac["probes"] == 0):
            d["status"] = "undecided"
            d["undecided"].append("vacuity probe: %s" % (vac["error"] or vac["vacuous"]))
    # an obligation that a recorded finding says cannot be discharged
    d["listed"] = [f for f in d["failed"] if f["label"] in [k for k, _ in kf]]
    d["failed"] = [f for f in d["failed"] if f not in d["listed"]]
    if d["status"] == "refuted" and not d["failed"]:
        d["status"] = "undecided" if d["undecided"] else "known"
    ok, e = rb.result()
    status = d["status"]
    secs = {"proved": 10, "known": 10, "undecided": 60, "refuted": 90}[status]
    if tier == "thorough":
        secs = max(secs, 120)
    secs = int(max(5, min(secs, left(820))))
    if early and early.f is not None:
        early.f.result()
    if ok and early and early.found():
        st, rp = early.res
    elif ok:
        ls = literals()
        hints = {"literals": ls, "novel": novel(ls), "failed": [{"fn": f["fn"], "label": f["label"]} for f in (d["failed"] if d else [])]}
        st, rp = run_replay(prop, seed, secs, hints)
    else:
        st, rp = {"error": "replay program does not build against this tree: " + e[-600:]}, None
    viol = [v for v in st.get("violations", [])]
    listed = [v for v in viol if v.get("kind") in [k for k, _ in kf]]
    viol = [v for v in viol if v not in listed]
    # ------------------------------------------------------------ evidence
    ev = {"property": prop, "tier": tier, "seed": seed, "wall_s": round(time.time() - T0, 1), "coverage": {}}
    cov = ev["coverage"]
    if True:
        r = d["run"]
        names, ops = trusted(r)
        fns = [q for q in r.map["fns"] if q.get("contract") and not q["external"] and not q.get("vac")]
        goals = [g for g in r.map["regions"] if g.get("id") and prop in g["goals"]]
        ev["level"] = "proof" if d["status"] == "proved" else "other"
        cov.update({
            "explanation": "status %s: %d of %d verifier items discharged (Verus, Z3); goal clauses of this property: %d; rounds: %d" % (d["status"], r.verified, r.verified + r.errors, len(goals), d["rounds"]),
            "obligations": r.verified + r.errors, "discharged": r.verified,
            "checker_cmd": getattr(r, "cmd", "verus (not run)"), "back_end": "Verus 0.2026.09.13 with its Z3",
            "trusted_base": names,
            "not_under_contract": ops, "not_emitted": r.map["not_emitted"], "dropped_by_extraction": r.map["dropped"],
            "inlined": r.map["inlined"], "lost": r.map["lost"],
            "functions_under_contract": sorted(q["key"] for q in fns), "goal_clauses": ["%s: %s" % (g["fn"], g["label"]) for g in goals],
            "history_lemmas": lemmas(prop),
            "contract_clauses_in_slice": len([g for g in r.map["regions"] if g.get("id")]),
            "solver_ms": r.smt_ms, "vacuity": vac, "undecided": d["undecided"], "notes": d["notes"],
            "listed_findings": [{k: f[k] for k in ("fn", "clause", "label", "at", "message")} for f in d["listed"]],
            "failed": [{k: f[k] for k in ("fn", "clause", "label", "at", "message")} for f in d["failed"]],
            "assumptions": assumptions(r),
        })
    cov["bounded_stand_in"] = {k: st.get(k) for k in ("runs", "operations", "distinct", "rule", "secs", "error") if k in st}
    cov["bounded_stand_in"]["note"] = "replay of the real crate against a reference peer: bounded, never counted as proved"
    cov["known_findings"] = [k for k, _ in kf]
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    # ------------------------------------------------------------ verdict
    for k, t in kf:
        if any(v.get("kind") == k for v in listed) or any(f["label"] == k for f in d["listed"]):
            print("KNOWN-FINDING: property=%s %s" % (prop, t))
    if viol:
        if d and d["failed"]:
            j = json.load(open(rp))
            j["failed_obligations"] = d["failed"]
            json.dump(j, open(rp, "w"), indent=1)
        print("%s: %s" % (prop, viol[0].get("what", "")))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if d and d["status"] == "refuted":
        rp = os.path.join(B, "replays", prop + ".json")
        json.dump({"property": prop, "failed_obligations": d["failed"], "replay": st, "notes": d["notes"], "cmd": getattr(d["run"], "cmd", "")}, open(rp, "w"), indent=1)
        for f in d["failed"]:
            print("%s: obligation not discharged: %s '%s' (%s)" % (prop, f["fn"], f["label"], f["at"]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp))
        return 1
    if d and d["status"] == "undecided":
        print("%s: undecided by contracts (%s); bounded stand-in found nothing" % (prop, "; ".join(d["undecided"])[:400]))
        log("\n".join(d["notes"][:40]))
    else:
        print("%s: %s" % (prop, "nothing but the known finding" if d["status"] == "known" else "held"))
    if st.get("error"):
        print("%s: note: %s" % (prop, st["error"][:300]))
    return 0


def wiped(tier, seed, work, ex, rb):
    """C21: see wipe.py; the deciding step is the verifier over the drop glue of the macro-expanded crate"""
    import wipe
    prop = "C21"
    r = wipe.prove(work)
    left_, looked, derr = wipe.driver()
    ok, e = rb.result()
    if ok:
        st, rp = run_replay(prop, seed, 10 if tier == "quick" else 10, {})
    else:
        st, rp = {"error": "replay program does not build against this tree: " + e[-600:]}, None
    viol = [{"kind": "not-wiped", "what": w} for w in left_] + st.get("violations", [])
    m = r["map"]
    goals = [f for f in m.get("fns", []) if f["goal"]]
    ev = {"property": prop, "tier": tier, "seed": seed, "wall_s": round(time.time() - T0, 1), "level": "proof" if r["status"] == "proved" and not viol else "other",
          "coverage": {
        "explanation": "status %s: %d of %d verifier items discharged (Verus, Z3) over the drop glue of %d types" % (r["status"], r["verified"], r["verified"] + r["errors"], len(m.get("types", []))),
        "obligations": r["verified"] + r["errors"], "discharged": r["verified"], "checker_cmd": r["cmd"] or "verus (not run)", "back_end": "Verus 0.2026.09.13 with its Z3", "solver_ms": r["smt_ms"],
        "functions_under_contract": [f["key"] for f in m.get("fns", [])], "goal_clauses": ["%s: wiped-when-dropped" % f["key"] for f in goals],
        "types": m.get("types", []), "own_drop_bodies": m.get("own_drop", []), "own_zeroize_bodies": m.get("own_zeroize", []),
        "trusted_base": ["zeroize for arrays, Vec, Option, Box (contracts/wipe_prelude.rs): the value is zero afterwards, by writes the compiler keeps",
                         "the language's drop glue: Drop::drop, then every field in turn; run on every path that does not leak the value",
                         "rustc's macro expansion of the derives"],
        "assumptions": ["copies left on the stack by moves, and key material kept by ring, are out of scope", "panics during a drop are out of scope"],
        "undecided": r["undecided"], "notes": r["notes"], "failed": r["failed"],
        "bounded_stand_in": {"in_crate": looked, "error": derr, "layers": {k: st.get(k) for k in ("runs", "operations", "secs", "error") if k in st},
                             "note": "drops values of a known pattern, and layers whose session key the reference peer knows, and reads their storage; bounded, never counted as proved"},
    }}
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    rp = os.path.join(B, "replays", prop + ".json")
    if viol or r["status"] == "refuted":
        json.dump({"property": prop, "left_in_memory": viol, "failed_obligations": r["failed"], "cmd": r["cmd"], "notes": r["notes"],
                   "how": "values are dropped in place and their storage is read back (wipe/types.rs, wipe/keys.rs, replay/src/wiped.rs)"}, open(rp, "w"), indent=1)
        for f in r["failed"]:
            print("%s: obligation not discharged: %s '%s' (%s)" % (prop, f["fn"], f["label"], f["message"]))
        for v in viol[:4]:
            print("%s: %s" % (prop, v["what"]))
        print("VIOLATION property=%s replay=%s%s" % (prop, rp, "" if viol else " no-failing-input-found"))
        return 1
    if r["status"] == "undecided":
        print("%s: undecided by contracts (%s); bounded stand-in found nothing" % (prop, "; ".join(r["undecided"])[:400]))
    else:
        print("%s: held" % prop)
    return 0


def assumptions(run):
    out = ["dependencies behave as specified in contracts/prelude.rs (ring, chacha20-poly1305-aead, flate2, serde back ends, std::io)",
           "byte strings are at most 2^47-1 long"]
    for g in run.map["regions"]:
        if g.get("id") and g["label"].startswith("assume:"):
            out.append("%s: %s" % (g["fn"], g["label"][7:]))
    return sorted(set(out))


if __name__ == "__main__":
    sys.exit(main())
