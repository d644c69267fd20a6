"""Records names and statement shapes of the functions under contract, from the tree the contracts were written for."""
import glob, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tpls = sorted({t for p in json.load(open(f"{V}/spec/props.json")).values() for t in p["templates"]})
out = {}
for t in tpls:
    subprocess.run([f"{V}/build/xtarget/debug/extract", f"{V}/spec/{t}", "/repo/src", f"{V}/build/p/_b.rs", f"{V}/build/p/_b.json"], check=True)
    r = json.load(open(f"{V}/build/p/_b.json"))
    for e in r["errors"]:
        print(t, e)
    for f in r["functions"]:
        if "names" in f:
            o = out.setdefault(f["key"], {"names": f["names"], "flow": f["flow"], "inl": {}})
            o["inl"].update(f["inl"])
json.dump(out, open(f"{V}/spec/baseline.json", "w"), indent=1, sort_keys=True)
print(len(out), "functions")
