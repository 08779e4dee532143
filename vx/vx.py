"""Run one unit: extract, verify with Verus, classify."""
import json, os, re, subprocess, sys, time, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import extract

VERUS = os.environ.get("VERUS", "verus")
HEAD = "// GENERATED on every run from /repo's current source by /verif/vx; do not edit.\n"


def run_verus(path, rlimit=None, extra=(), timeout=700):
    cmd = [VERUS, "--edition", "2024", "--output-json", "--time-expanded", "--multiple-errors", "10"]
    if rlimit:
        cmd += ["--rlimit", str(rlimit)]
    cmd += list(extra) + [path]
    cmd += ["--", "--error-format=json"] if False else []
    t = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired:
        return None, "", "timeout", time.time() - t
    js = None
    try:
        js = json.loads(p.stdout)
    except ValueError:
        m = re.search(r"\{.*\}", p.stdout, re.S)
        if m:
            try:
                js = json.loads(m.group())
            except ValueError:
                pass
    return js, p.stdout, p.stderr, time.time() - t


def failures(err, text, lm):
    """[(function, message, line, source text, detail)] from Verus' stderr."""
    out = []
    lines = text.split("\n")
    for blk in re.split(r"\n(?=error|note|warning)", "\n" + err):
        m = re.match(r"\s*error(?:\[E\d+\])?: (.*)", blk)
        if not m or m.group(1).startswith("aborting due"):
            continue
        m2 = re.search(r"--> [^:\n]*:(\d+):(\d+)", blk)
        ln = int(m2.group(1)) if m2 else 0
        fn = next((f for a, b, f in lm if a <= ln <= b), None)
        src = lines[ln - 1].strip() if 0 < ln <= len(lines) else ""
        others = [int(x) for x in re.findall(r"(?m)^\s*(\d+)\s*\|", blk)]
        if fn is None:
            for o in others:
                fn = next((f for a, b, f in lm if a <= o <= b), None)
                if fn:
                    break
        out.append(dict(fn=fn, msg=m.group(1), line=ln, src=src, block=blk, lines=others))
    return out


if __name__ == "__main__":
    u = extract.load(sys.argv[1])
    txt, lm = extract.render(u)
    os.makedirs("/tmp/vx", exist_ok=True)
    f = f"/tmp/vx/{sys.argv[1]}.rs"
    open(f, "w").write(HEAD + txt)
    js, out, err, dt = run_verus(f, extra=[a for a in sys.argv[2:] if a != "-v"])
    if "-v" in sys.argv:
        print(err[-12000:])
    tl = (HEAD + txt).split("\n")
    for x in failures(err, HEAD + txt, [(a + 1, b + 1, c) for a, b, c in lm]):
        print(f"{x['fn']}: {x['msg'][:150]}")
        for l in x["lines"][:4]:
            print("     %d| %s" % (l, tl[l - 1].strip()[:170]))
    if js:
        print(json.dumps(js.get("verification-results")), "%.1fs" % dt)
    else:
        print(out[-3000:])
    print("lost", u.lost, "loopdiff", u.loopdiff, "autos", u.autos)
