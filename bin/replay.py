#!/usr/bin/env python3
"""replay.py FILE: runs the cases of a reported violation on the code in /repo
again and shows what it does and what the specification says."""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *

d = json.load(open(sys.argv[1]))
det = d["detail"]
c = Check(d["property"], "quick", d["seed"])
c.build()
cases = [dict(x) for x in det["cases"]]
recs = c.run(cases, timeout=30, jobs=1)
print("property", d["property"], "-", d["what"])
for r in recs:
    print("text     %r" % r["s"])
    print("options  permissive=%s bodyIncludingComments=%s op=%s" % (r["P"], r["B"], r["op"]))
    print("outcome  %s %s" % (r["out"], r["err"]))
    print("tree     %s" % json.dumps(r["t"], ensure_ascii=False))
if det["module"] in ("ProtoTrace", "ProtoSingle", "Total", "LexStream", "Inert", "Visit", "Unordered", "Remarks", "Isolation"):
    bad = c.judge(det["module"], recs)
    print("verdict of %s: %s" % (det["module"], {k: (sorted(v[0]), v[1]) for k, v in bad.items()} or "agrees"))
else:
    print("the record that was judged by %s, tags %s:" % (det["module"], det["tags"]))
    print(json.dumps(det["record"], ensure_ascii=False)[:4000])
