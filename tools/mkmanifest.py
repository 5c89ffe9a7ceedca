import json,sys
sys.path.insert(0,'/verif')
import checks
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
NA=json.load(open('/verif/na.json')) if __import__('os').path.exists('/verif/na.json') else {}
m={"version":1,"setup_cmd":"python3 run.py --setup",
"hooks":{"guard":"NBDL_VERIF_HOOKS","enable":"not needed: no hook is compiled into nbdl; the harnesses observe through public interfaces, sockets and instrumented types","source_commits":[]},
"checks":[],"not_applicable":[],"notes":"python3 run.py <ID>: builds the harnesses of the property from /repo's working tree with sanitizers and runs them; see DESIGN.md"}
for p in props:
    i=p["id"]
    if i in checks.CHECKS:
        c=checks.CHECKS[i]
        m["checks"].append({"property":i,"quick_cmd":"VERIF_TIER=quick python3 run.py "+i,"thorough_cmd":"VERIF_TIER=thorough python3 run.py "+i,
          "technique":c["technique"],"level":c["level"],"level_note":c["note"]})
    else:
        m["not_applicable"].append({"property":i,"reason":NA.get(i,"no check has been built yet")})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
print(len(m["checks"]),"checks")
