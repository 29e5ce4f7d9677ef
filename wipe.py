"""C21: the drop glue of every type that stores a secret, from the macro-expanded crate, under contract."""
import json, os, re, shutil, subprocess, time

V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, ".build")
REPO = os.environ.get("PKSTL_REPO", "/repo")
VX = os.path.join(B, "vx", "release", "vx")


def cargo(args, cwd, timeout=400):
    env = dict(os.environ, RUSTUP_TOOLCHAIN="1.77.2", RUSTC_BOOTSTRAP="1", CARGO_NET_OFFLINE="true", RUSTFLAGS="--cap-lints allow",
               CARGO_TARGET_DIR=os.path.join(B, "wipe"), CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
    try:
        p = subprocess.run(["cargo"] + args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return -9, "", "timeout"


def copy(extra):
    """a copy of the crate's manifest and sources; with extra, the driver is added as one more module"""
    d = os.path.join(B, "wipe_src_" + ("driver" if extra else "plain"))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree(os.path.join(REPO, "src"), os.path.join(d, "src"))
    for f in ("Cargo.lock", "README.md"):
        if os.path.exists(os.path.join(REPO, f)):
            shutil.copy(os.path.join(REPO, f), d)
    t = open(os.path.join(REPO, "Cargo.toml")).read() + "\n[workspace]\n"
    if extra:
        t = re.sub(r"(?m)^\[features\]$", "[features]\nwipe_keys = []", t)
        t += '\n[[bin]]\nname = "wipe"\npath = "wipe_main.rs"\n'
        shutil.copy(os.path.join(V, "wipe", "main.rs"), os.path.join(d, "wipe_main.rs"))
        w = os.path.join(d, "src", "__wipe")
        os.makedirs(w)
        for f in ("mod.rs", "types.rs", "keys.rs"):
            shutil.copy(os.path.join(V, "wipe", f), w)
        with open(os.path.join(d, "src", "lib.rs"), "a") as f:
            f.write("\n#[doc(hidden)]\n#[allow(unsafe_code, missing_docs)]\npub mod __wipe;\n")
    open(os.path.join(d, "Cargo.toml"), "w").write(t)
    return d


def driver():
    """(what is left in memory, what was looked at, error)"""
    d = copy(True)
    err = ""
    for feats in ("bin,cbor,json,wipe_keys", "bin,cbor,json"):
        rc, o, e = cargo(["run", "--release", "--offline", "-q", "--bin", "wipe", "--features", feats], d)
        if "DONE" in o:
            return [l[5:] for l in o.splitlines() if l.startswith("LEFT ")], [l[5:] for l in o.splitlines() if l.startswith("DONE ")][0], err
        err = (e or o)[-400:]
    return [], "", err


def expand(work):
    d = copy(False)
    rc, o, e = cargo(["rustc", "--lib", "--release", "--offline", "--all-features", "--", "-Zunpretty=expanded"], d)
    p = os.path.join(work, "expanded.rs")
    if rc != 0 or "mod" not in o:
        return None, (e or "no output")[-600:]
    open(p, "w").write(o)
    return p, None


def prove(work):
    """runs the verifier over the generated file; zeroize bodies carry a support contract that is dropped when it fails"""
    r = {"status": "undecided", "failed": [], "undecided": [], "notes": [], "verified": 0, "errors": 0, "map": {}, "cmd": "", "smt_ms": 0, "expanded": None}
    p, e = expand(work)
    if not p:
        r["undecided"].append("macro expansion: " + e)
        return r
    r["expanded"] = p
    weak, weak_drop = set(), set()
    rs, mp = os.path.join(work, "wipe.rs"), os.path.join(work, "wipe.json")
    for _ in range(6):
        cmd = [VX, "--expanded", p, "--contracts", os.path.join(V, "contracts"), "--out", rs, "--map", mp]
        for w in sorted(weak):
            cmd += ["--nocontract", w]
        for w in sorted(weak_drop):
            cmd += ["--external", w]
        q = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if q.returncode != 0:
            r["undecided"].append("extraction: " + q.stderr[-300:])
            return r
        m = r["map"] = json.load(open(mp))
        r["undecided"] = list(m["undecided"])
        cmd = ["verus", rs, "--triggers-mode", "silent", "--multiple-errors", "20", "--error-format=json", "--output-json", "--time"]
        r["cmd"] = " ".join(cmd)
        try:
            v = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=200, cwd=work)
        except subprocess.TimeoutExpired:
            r["undecided"].append("verifier timed out")
            return r
        try:
            j = json.loads(v.stdout[v.stdout.index("{"):])
            res = j["verification-results"]
            r["verified"], r["errors"] = res.get("verified", 0), res.get("errors", 0)
            r["smt_ms"] = j.get("times-ms", {}).get("smt", {}).get("total", 0)
        except Exception:
            j = None
        comp, hit = [], {}
        for l in v.stderr.splitlines():
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") != "error" or d["message"].startswith("aborting"):
                continue
            fn = None
            for s in d.get("spans", []):
                for f in m["fns"]:
                    if os.path.basename(s["file_name"]) == "wipe.rs" and f["l0"] <= s["line_start"] <= f["l1"]:
                        fn = f
            if d.get("code") is None and "not satisfied" in d["message"] and fn is not None and j is not None:
                hit[fn["key"]] = (fn, d["message"], (d.get("rendered") or "")[:3000])
            else:
                comp.append("%s: %s" % (fn["key"] if fn else "?", d["message"]))
        if comp or j is None:
            r["undecided"] += ["not verifiable: " + c for c in comp[:5]] or ["verifier gave no result"]
            r["notes"] += comp
            return r
        support = {f["type"] for f, _, _ in hit.values() if not f["goal"] and (f["key"].endswith("::zeroize") or f.get("helper"))} - weak
        glue = {f["type"] for f, _, _ in hit.values() if not f["goal"] and f["key"].endswith("::drop")} - weak_drop
        if support or glue:
            weak |= support
            weak_drop |= glue
            continue
        for f, msg, text in hit.values():
            what = {"fn": f["key"], "label": "wiped-when-dropped", "clause": "gpost(o, n): n.wiped()", "at": "src (macro-expanded)", "message": msg, "text": text}
            if f["goal"] and f["complete"]:
                r["failed"].append(what)
            else:
                r["undecided"].append("%s: %s" % (f["key"], msg))
        break
    r["failed"] += [{"fn": x, "label": "no-leak", "clause": "no call that keeps a value from being dropped", "at": "src (macro-expanded)", "message": "calls " + x} for x in r["map"].get("leaks", [])]
    r["status"] = "refuted" if r["failed"] else "undecided" if r["undecided"] else "proved"
    return r
