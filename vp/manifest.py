"""Regenerates MANIFEST.json:  python3 -m vp.manifest"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STORE = ("TLA+ model of the set API (spec/Store.tla) explored exhaustively by TLC to a bounded depth (spec/MCStore.tla: the property restated as invariants and "
         "action properties); every explored history and long random histories are run in the real library (ASan) and each observation is judged by TLC against the specification (spec/Trace.tla)")
CLAIMS = {
 "P01": ("TLA+ spec + TLC model checking, model-generated histories and recorded traces judged by TLC", STORE),
 "P02": ("TLA+ spec + TLC model checking, model-generated histories and recorded traces judged by TLC", STORE + "; both storages are judged by the same specification"),
 "P03": ("TLA+ spec + TLC model checking, model-generated histories and recorded traces judged by TLC", STORE),
 "P04": ("TLA+ spec + TLC model checking, model-generated histories and recorded traces judged by TLC", STORE),
 "P05": ("TLA+ spec + TLC model checking, model-generated histories and recorded traces judged by TLC", STORE),
 "P06": ("TLA+ spec + TLC model checking, model-generated histories and recorded traces judged by TLC", STORE),
 "P07": ("TLA+ spec + TLC model checking, model-generated histories and recorded traces judged by TLC", STORE),
 "P08": ("TLA+ spec + TLC model checking; model-generated and recorded traces of the real queries judged by TLC", "Every small arrangement with every query of its family enumerated by TLC (spec/MCGeom.tla, its invariants checked), and box and nearest queries on seeded particle clouds (all sizes 0-19, powers of two neighbourhoods up to 1000, coincident, collinear, planar and clustered points) judged exactly by spec/Store.tla BoxOk/NearOk in integer arithmetic; positions are multiples of 1/4 so that float distances are exact"),
}
try:
    from vp.manifest_more import MORE; CLAIMS.update(MORE)
except ImportError: pass
NA = {}
HOOKS = {"guard": "", "enable": "no hooks: the checks compile /repo/src/lib as it is", "source_commits": []}
def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
    m = {"version": 1, "setup_cmd": "true", "hooks": HOOKS, "checks": [], "not_applicable": []}
    for p in props:
        if p in CLAIMS:
            t, n = CLAIMS[p][:2]
            m["checks"].append({"property": p, "quick_cmd": "./check %s quick" % p, "thorough_cmd": "./check %s thorough" % p, "technique": t, "level": "model_checking", "level_note": n})
        else: m["not_applicable"].append({"property": p, "reason": NA.get(p, "check not built yet")})
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
if __name__ == "__main__": main()
