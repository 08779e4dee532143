"""vx/baseline.json: the functions and constants of each source file a unit reads, as the contracts know them."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/vx")
from rustlex import RustFile
import inline
out = {}
for p in glob.glob(V + "/units/*.vu") + glob.glob(V + "/units/*.vlib"):
    for m in re.finditer(r"(?m)^@file \S+ (\S+)", open(p).read()):
        f = m.group(1)
        out[f] = inline.names(RustFile(open("/repo/" + f).read(), f))
json.dump(dict(sorted(out.items())), open(V + "/vx/baseline.json", "w"), indent=0)
print({k: len(v["fns"]) for k, v in out.items()})
import novel
json.dump(novel.baseline("/repo"), open(V + "/vx/literals.json", "w"), indent=0, ensure_ascii=False)
