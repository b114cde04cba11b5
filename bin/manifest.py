import sys,json
sys.path.insert(0,"/verif/bin")
import importlib, properties
props=[json.loads(l) for l in open("/verif/properties.jsonl")]
checks=[];na=[]
for p in props:
    d=properties.PROPERTIES.get(p["id"])
    if d is None:
        na.append({"property":p["id"],"reason":properties.NOT_APPLICABLE.get(p["id"],"not built yet")}); continue
    checks.append({"property":p["id"],"quick_cmd":"python3 bin/check.py "+p["id"],"thorough_cmd":"VERIF_TIER=thorough python3 bin/check.py "+p["id"],
      "evidence_file":"evidence/%s.json"%p["id"],"technique":d["technique"],"level":d["level"],"level_note":d["note"]})
m={"version":1,"setup_cmd":"python3 bin/setup.py",
   "hooks":{"guard":"rtps_verif","enable":"RUSTFLAGS='--cfg rtps_verif' and RTPS_VERIF_DIR=<directory of contracts>: modules named verif, included from there, at the end of lib.rs and of five private modules","source_commits":["d3ce101"]},
   "checks":checks,"not_applicable":na}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1); open("/verif/MANIFEST.json","a").write("\n")
