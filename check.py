#!/usr/bin/env python3
"""Decide one property: check.py ID [--tier quick|thorough]

1. Extract the functions under contract from /repo's current source (vx/extract.py) and let Verus
   discharge every obligation of the property's units; beside it, the vacuity run.
2. Build the replay harness against /repo's crates and search (bounded, seeded) for a concrete
   failing input: it is the replay of a failed obligation, and a labelled bounded stand-in where an
   obligation could not be decided.
Exit 0: held. Exit 1 + VIOLATION line: an obligation failed or a concrete input violates."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "vx"))
import extract, novel, vx                                       # noqa: E402
from rustlex import Anchor                               # noqa: E402

TOOL_LIMIT = ("rlimit", "Resource limit", "not supported", "unsupported", "does not yet support", "cannot find",
              "mismatched types", "no method named", "timeout", "expected", "unresolved")
PROOF_FAIL = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
              "possible arithmetic", "decreases not satisfied", "loop invariant", "could not prove termination",
              "possible division by zero", "unreachable", "loop ensures", "recommendation not met", "unable to prove",
              "possible bit shift", "constructed value may fail", "failed this postcondition", "invariant on loop")


def is_proof_fail(m):
    return any(x in m for x in PROOF_FAIL) and "limit" not in m


class Unit:
    def __init__(self, name, wd):
        self.name, self.wd = name, wd
        self.error = None
        self.fails, self.undecided = [], []
        self.verified = self.errors = 0
        self.fns, self.vac_bad, self.trusted, self.assumptions = [], [], [], []
        self.smt_ms = 0
        self.secs = 0
        self.extraction = {}

    def run(self):
        t0 = time.time()
        try:
            u = extract.load(self.name)
        except (Anchor, Exception) as ex:
            self.error = f"extraction: {ex}"
            return
        txt, lm = extract.render(u)
        txt = vx.HEAD + txt
        lm = [(a + 1, b + 1, f) for a, b, f in lm]
        path = os.path.join(self.wd, self.name + ".rs")
        open(path, "w").write(txt)
        self.fns = u.fns + u.autos
        self.trusted = u.trusted
        self.extraction = dict(rewrites={k: n for k, n in u.rew_count.items() if n}, lost=u.lost, loop_count_changed=u.loopdiff, functions_without_overlay=u.autos)
        self.assumptions = trusted_items(txt)
        vt = {}

        def vac():
            try:
                u2 = extract.load(self.name, vacuity=True)
                t2, lm2 = extract.render(u2)
                t2 = vx.HEAD + t2
                p2 = os.path.join(self.wd, self.name + "_vacuity.rs")
                open(p2, "w").write(t2)
                js, out, err, dt = vx.run_verus(p2)
                hit = {f["fn"] for f in vx.failures(err, t2, [(a + 1, b + 1, f) for a, b, f in lm2]) if is_proof_fail(f["msg"]) or "limit" in f["msg"]}
                vt["bad"] = [f for f in u2.vac if f not in hit] if js else None
                vt["n"] = len(u2.vac)
            except Exception as ex:  # noqa: BLE001
                vt["bad"], vt["err"] = None, str(ex)
        th = threading.Thread(target=vac)
        th.start()
        js, out, err, dt = vx.run_verus(path, extra=["--num-threads", "4"])
        self.stderr = err
        self.path = path
        th.join()
        self.secs = time.time() - t0
        self.vac = vt
        if js is None:
            self.error = "verifier: " + (err if err == "timeout" else err[-300:])
            return
        r = js.get("verification-results", {})
        self.verified, self.errors = r.get("verified", 0), r.get("errors", 0)
        try:
            self.smt_ms = js["times-ms"]["smt"]["smt-run"]
        except (KeyError, TypeError):
            pass
        fs = vx.failures(err, txt, lm)
        soft = {f for f, _ in u.lost} | {f for f, _ in u.loopdiff} | set(u.autos)
        autos = [a.split("::")[-1] for a in u.autos]
        lines = txt.split("\n")
        for f in fs:
            body = next(("\n".join(lines[a - 1:b]) for a, b, n in lm if n == f["fn"]), "")
            if not is_proof_fail(f["msg"]):
                self.undecided.append(f)
            elif f["fn"] is None or f["fn"] in soft or any(re.search(r"\b%s\(" % re.escape(a), body) for a in autos):
                self.undecided.append(f)
            else:
                self.fails.append(f)
        if not r.get("success") and not fs:
            self.error = "verifier: " + err[-300:]
        # a rustc/VIR error leaves nothing decided
        if r.get("encountered-vir-error") or (self.verified == 0):
            self.error = "verifier rejected the extracted text: " + (fs[0]["msg"] if fs else err[-300:])
            self.undecided += self.fails
            self.fails = []
        if vt.get("bad") and not self.error:
            self.vac_bad = vt["bad"]

    def ok(self):
        return not (self.error or self.fails or self.undecided or self.errors or self.vac_bad) and self.verified > 0


def trusted_items(txt):
    out = []
    for m in re.finditer(r"#\[verifier::(external_body|external|assume_specification|external_type_specification)\]|assume_specification|admit\(\)|(?<![a-z_])assume\(|\baxiom fn", txt):
        ln = txt[m.start():m.start() + 400]
        k = re.search(r"(?:fn|struct|assume_specification)\s*(?:<[^>]*>)?\s*(\[[^\]]*\]|\w+)", ln)
        nm = (m.group(0), k.group(1) if k else "?")
        if nm not in out:
            out.append(nm)
    return [f"{a.strip('#[]')} {b}" for a, b in out]


def use_dictionary(wd, res, lines=None):
    # what the source mentions and the source the contracts were written for does not: steers the search only
    f = os.path.join(wd, "dict")
    try:
        if lines is None:
            novel.write(extract.REPO, f)
        else:
            open(f, "w", newline="").write(lines)
        os.environ["SEARCH_DICT"] = f
        res["dictionary"] = open(f, newline="").read()
    except Exception as ex:
        res["dictionary_error"] = str(ex)


def build_harness(name, wd, res):
    t = time.time()
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(wd, "target"), CARGO_NET_OFFLINE="true")
    env.pop("RUSTUP_TOOLCHAIN", None)
    src = os.path.join(V, "harness", name)
    cp = os.path.join(wd, "h_" + name)
    shutil.copytree(src, cp, ignore=shutil.ignore_patterns("target"))
    shutil.copytree(os.path.join(V, "harness", "common"), os.path.join(wd, "common"), ignore=shutil.ignore_patterns("target"))
    if extract.REPO != "/repo":
        for dp, _, fs in os.walk(cp):
            for f in fs:
                if f == "Cargo.toml":
                    q = os.path.join(dp, f)
                    s = open(q).read().replace('"/repo/', '"%s/' % extract.REPO)
                    open(q, "w").write(s)
    gen = os.path.join(cp, "extract.py")
    try:
        if os.path.exists(gen):
            subprocess.run([sys.executable, gen, cp], check=True, capture_output=True, text=True, env=dict(env, STYX_REPO=extract.REPO, VX=os.path.join(V, "vx")))
        p = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=cp, env=env, capture_output=True, text=True, timeout=700)
        if p.returncode:
            res["error"] = p.stderr[-2000:]
        res["bin"] = os.path.join(wd, "target", "debug", name)
    except (subprocess.SubprocessError, OSError) as ex:
        res["error"] = str(ex) + (getattr(ex, "stderr", None) or "")[-1500:]
    res["build_s"] = round(time.time() - t, 1)


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = json.load(open(os.path.join(V, "props.json")))[pid]
    known = [k for k in json.load(open(os.path.join(V, "known_findings.json"))) if k["property"] == pid and not k.get("fixed")]
    t0 = time.time()
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    replays = os.path.join(V, "evidence", "replay")
    os.makedirs(replays, exist_ok=True)
    wd = tempfile.mkdtemp(prefix=f"styxv_{pid}_")
    try:
        rc = decide(pid, cfg, tier, seed, known, wd, replays, t0)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    sys.exit(rc)


def decide(pid, cfg, tier, seed, known, wd, replays, t0):
    units = [Unit(n, wd) for n in cfg.get("units", [])]
    hres = {}
    ths = [threading.Thread(target=u.run) for u in units]
    hname = cfg.get("harness")
    if hname:
        ths.append(threading.Thread(target=build_harness, args=(hname, wd, hres)))
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    oracle = None
    secs = cfg.get("secs", [20, 300])[tier == "thorough"]
    broken = any(u.fails or u.undecided or u.error for u in units)
    if broken and tier == "quick":
        secs = max(secs, 100)
    if hname and "bin" in hres and "error" not in hres:
        use_dictionary(wd, hres)
        cmd = [hres["bin"], pid, "--tier", tier, "--seed", str(seed), "--secs", str(secs), "--threads", "8", "--known", ",".join(k["class"] for k in known)]
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, timeout=secs + 200)
            oracle = json.loads(p.stdout)
        except subprocess.TimeoutExpired:
            hres["error"] = "search did not end in time: a call on some input does not return"
            hres["hang"] = True
        except ValueError:
            hres["error"] = f"search ended with {p.returncode}: {p.stderr[-600:]}"
            hres["crash"] = p.returncode
    for u in units:     # units that serve other properties too: only these functions' obligations are this property's
        rx = cfg.get("scope", {}).get(u.name)
        if rx:
            u.undecided += [f for f in u.fails if not re.search(rx, f["fn"])]
            u.fails = [f for f in u.fails if re.search(rx, f["fn"])]
        rx = cfg.get("skip", {}).get(u.name)    # clauses that belong to another property
        if rx:
            u.undecided += [f for f in u.fails if re.search(rx, f["block"])]
            u.fails = [f for f in u.fails if not re.search(rx, f["block"])]
    # weak: a failed obligation of this unit alone does not decide the property (the named exceptions do)
    weak = cfg.get("weak", False)
    fails = [(u, f) for u in units for f in u.fails]
    if weak and any(re.search(cfg.get("strong", r"$^"), f["fn"]) for _, f in fails):
        weak = False
    concrete = (oracle or {}).get("failures") or []
    violations = []
    for k in known:
        if k.get("replay") and oracle is not None:
            q = replay_one(hres["bin"], pid, k["replay"], wd)
            if q:
                print(f"KNOWN-FINDING: property={pid} {k['what']}")
    names = sorted({f"{u.name}:{f['fn']}: {f['msg']}" for u, f in fails})
    for n in names:
        print(f"obligation failed: {n}")
    rep = os.path.join(replays, f"{pid}.json")
    if os.path.exists(rep):
        os.remove(rep)
    rc = 0
    hang = bool(hres.get("hang") or (hres.get("crash") not in (None, 0)))
    if concrete or hang or (fails and not weak):
        doc = dict(property=pid, title=cfg.get("title"), failed_obligations=names,
                   verifier_output=[f["block"][:1500] for _, f in fails][:10], failing_input=concrete[0] if concrete else None,
                   note=hres.get("error") if hang else None, dictionary=hres.get("dictionary"),
                   how_to_replay=f"python3 check.py --replay {pid} evidence/replay/{pid}.json")
        json.dump(doc, open(rep, "w"), indent=1, ensure_ascii=False)
        if concrete:
            c = concrete[0]
            print(f"failing input ({c['kind']}): {c.get('display') or c['input']!r}\n  {c['detail']}")
        elif hang:
            print(hres["error"])
        tail = "" if (concrete or hang) else " no-failing-input-found"
        print(f"VIOLATION property={pid} replay={rep}{tail}")
        violations.append(dict(obligations=names, input=concrete[0] if concrete else None))
        rc = 1
    und = [f"{u.name}: {u.error}" for u in units if u.error] + [f"{u.name}:{f['fn']}: {f['msg'][:200]}" for u in units for f in u.undecided] \
        + [f"{u.name}:{f['fn']}: {f['msg']} (shared obligation, decided elsewhere)" for u, f in fails if weak] \
        + [f"{u.name}: contract of {b} is vacuous" for u in units for b in u.vac_bad]
    for x in und:
        print("UNDECIDED (bounded search only): " + x[:300])
    write_evidence(pid, cfg, tier, seed, units, und, oracle, hres, violations, known, t0)
    if rc == 0 and oracle is None and (und or not units):
        print("error: neither the proof nor the search gave an answer: " + str(hres.get("error")))
        return 2
    if rc == 0:
        st = "proved" if units and not und else ("bounded search only" if und else "held on everything explored")
        print(f"{pid}: {st}; obligations {sum(u.verified for u in units)} discharged, {sum(u.errors for u in units)} not; "
              f"search {oracle['evaluations'] if oracle else 0} cases; {time.time() - t0:.0f}s")
    return rc


def replay_one(binary, pid, r, wd):
    if r["kind"] == "text":
        f = os.path.join(wd, "replay.txt")
        open(f, "w", newline="").write(r["input"])
        p = subprocess.run([binary, pid, "text", f], capture_output=True, text=True, timeout=120)
    elif r["kind"] == "choices":
        p = subprocess.run([binary, pid, "choices", r["input"]], capture_output=True, text=True, timeout=120)
    else:
        p = subprocess.run([binary, pid, "--secs", "0"], capture_output=True, text=True, timeout=120)
        return '"failures":[]' not in p.stdout
    return p.returncode == 1


def write_evidence(pid, cfg, tier, seed, units, und, oracle, hres, violations, known, t0):
    cov = {}
    lvl = cfg.get("level", "proof")
    if units:
        cov.update(
            obligations=sum(u.verified + max(u.errors, len(u.fails)) for u in units),
            discharged=sum(u.verified for u in units),
            checker_cmd="verus --edition 2024 UNIT.rs (Verus 0.2026.09.13, Z3 back end), UNIT.rs extracted from /repo by vx/extract.py on this run",
            trusted_base=sorted({"Verus and Z3", "vstd's specifications of the standard library", "vx/extract.py: the extraction and the rewrites listed under extraction"} | {f"{u.name}: {a}" for u in units for a in u.assumptions}),
            units={u.name: dict(functions_under_contract=len(u.fns), functions=u.fns, verified=u.verified, not_discharged=u.errors, smt_ms=u.smt_ms, seconds=round(u.secs, 1),
                                trusted_repo_functions=u.trusted, extraction=u.extraction,
                                vacuity=dict(asserted_false_at_entry=(getattr(u, "vac", {}) or {}).get("n"), not_refuted=(getattr(u, "vac", {}) or {}).get("bad")), error=u.error) for u in units},
            back_end="z3", undecided=und)
    if oracle:
        b = {k: oracle[k] for k in ("evaluations", "distinct_nontrivial", "rule", "samples")}
        if oracle["exhaustive_total"]:
            b["exhaustive"] = f"all {oracle['exhaustive_total']} concatenations of up to {oracle['exhaustive_len']} of 26 lexical fragments: {'done' if oracle['exhaustive_done'] else 'not finished'}"
        b["known_finding_hits"] = oracle["known_hits"]
        if units:
            cov["bounded_replay_search"] = dict(b, label="bounded, not counted as proved", bound=f"{oracle['seconds']} s of seeded search")
        else:
            cov.update(b)
    if not cov:
        cov = {"explanation": "no answer: " + str(hres.get("error"))}
    ev = dict(property=pid, tier=tier, seed=seed, level=lvl, coverage=cov, wall_s=round(time.time() - t0, 1),
              assumptions=cfg.get("assumptions", []) + ["machine integers are exact (overflow is an obligation); byte offsets above 4 GiB are excluded by precondition"],
              violations=len(violations))
    try:
        vs = json.load(open("/root/.vp/EVIDENCE.schema.json"))["properties"].get("violations", {})
        if vs.get("type") == "array":
            ev["violations"] = violations
    except (OSError, ValueError):
        pass
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1, ensure_ascii=False)


def replay_main():
    pid, f = sys.argv[2], sys.argv[3]
    cfg = json.load(open(os.path.join(V, "props.json")))[pid]
    d = json.load(open(f))
    if not d.get("failing_input"):
        print("\n".join(d["verifier_output"]))
        return
    wd = tempfile.mkdtemp(prefix="styxv_replay_")
    try:
        res = {}
        build_harness(cfg["harness"], wd, res)
        use_dictionary(wd, res, d.get("dictionary") or "")
        bad = replay_one(res["bin"], pid, d["failing_input"], wd)
        print("still violated" if bad else "holds now")
    finally:
        shutil.rmtree(wd, ignore_errors=True)


if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "--replay":
        replay_main()
    else:
        main()
