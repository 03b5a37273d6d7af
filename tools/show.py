"""Runs the W case of a replay file in every language and shows what each of them says."""
import sys, json, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from zsv import codec, engine, runner
import importlib
v = json.load(open(sys.argv[1]))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "checks"))
m = importlib.import_module(v["property"].lower())
chk = [x for x in vars(m).values() if isinstance(x, type) and getattr(x, "PROPERTY", None) == v["property"] and x.__module__ == m.__name__][0]()
schema, out = chk.schema_for(v["seed"], v["task"], v.get("tape"))
cases = chk.cases(schema, v["seed"], v["task"])
w = engine.Worker()
b = codec.Bundle(w, schema, chk.OPTS)
print(codec.schema_text(schema))
for k, x in b.failed.items():
    print("FAILED", k, x[:2000])
for c in cases:
    if not v.get("request") or c.line[:3000] == v["request"]:
        print(c.line); print("ref", c.exp)
        for l in b.langs:
            print(l, b.run(l, [c.line]))
        break
if len(sys.argv) > 2:
    os.system("rm -rf /tmp/px/out; cp -r %s /tmp/px/out" % b.pr.dir)
w.close()
