#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list. Run by hand after editing."""
import json, subprocess, sys
SVC="src/invariant_service.rs"; STO="src/invariant_storage.rs"
POOL="src/contracts/storage/pool.rs"; TICK="src/contracts/storage/tick.rs"; POS="src/contracts/storage/position.rs"
TM="src/contracts/collections/tickmap.rs"; CLAMM="calc/math/clamm.rs"
H=["histories","inputs"]
P=[]
def p(id,title,statement,over,text,why,files,mech,obs=None,state=None,hook=None,tech=None,note=None,sdk=False):
    P.append(dict(id=id,title=title,statement=statement,over=over,text=text,why=why,files=files,mech=mech,obs=obs or [],state=state or [],hook=hook,tech=tech,note=note,sdk=sdk))
HOOK="storage snapshot/restore under cfg(invariant_verif)"
EXPL="explicit-state exploration of the real contract (all operation sequences to a depth), every step compared with a reference model"
PROTO="stateless exploration of all interleavings of messages, replies, wake-ups and timeouts on the real contract, judged by a ledger model"
ENUM="exhaustive enumeration of bounded input grids on the real code against an unbounded-integer reference"
SEQ="exhaustive enumeration of all request sequences to a depth on the real token program, every step compared with a reference model"
WHY_H="Unit tests run a few hand-written histories on the library types; the service and storage layers have no test in the offline suite, and none quantifies over operation sequences."
WHY_I="Tests sample a handful of inputs; off-by-one and rounding faults live at boundaries no sample hits."
WHY_S="No offline test runs the asynchronous transfer code at all; the order and kind of the replies is chosen by other programs."
BH="all sequences of the alphabets of the listed scenarios up to their depth, from every listed start state (quick: depth 2-4, about a million transitions; thorough: 1-2 levels deeper)"

exec(open(__file__.replace("gen.py","props_data.py")).read())

root="/verif/"
with open(root+"properties.jsonl","w") as f:
    for q in P:
        assert len(q["title"])<=80,(q["id"],len(q["title"]))
        assert q["statement"].count(". ")<=2,(q["id"],"too many sentences")
        f.write(json.dumps({"id":q["id"],"title":q["title"],"statement":q["statement"],
          "quantifier":{"over":q["over"],"text":q["text"]},"why_tests_cant":q["why"],
          "anchors":{"files":q["files"],"state":q["state"],"mechanism":[{"name":a,"where":b} for a,b in q["mech"]],"observe_at":q["obs"],"hook_needed":q["hook"]}})+"\n")
hook=subprocess.run(["git","-C","/repo","log","--format=%H","--grep=^Add state snapshot hook"],capture_output=True,text=True).stdout.split()
m={"version":1,"setup_cmd":"./setup.sh",
 "hooks":{"guard":"cfg(invariant_verif)","enable":"RUSTFLAGS=--cfg invariant_verif (env.sh)","source_commits":hook},
 "checks":[{"property":q["id"],"quick_cmd":f"./check.sh {q['id']} quick","thorough_cmd":f"./check.sh {q['id']} thorough","technique":q["tech"],"level":"model_checking","level_note":q["note"]} for q in P if q["tech"]],
 "not_applicable":[{"property":q["id"],"reason":q["note"]} for q in P if not q["tech"]],
 "notes":"Every check rebuilds the contract from /repo's working tree natively against a recorded system-call layer (vendor/gsys) and runs offline; replay a violation with: target/release/mc replay evidence/<id>-N.replay"}
json.dump(m,open(root+"MANIFEST.json","w"),indent=1)
print(len(P),"properties,",len(m["checks"]),"claimed")
