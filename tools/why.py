#!/usr/bin/env python3
"""why.py PROPERTY [N]: replay/<PROPERTY>.cmds line by line, with the rejected event and its clauses (debugging aid)"""
import os, sys, json, shutil, re
sys.argv = [sys.argv[0]] + sys.argv[1:]
import check
from config import PROPS
prop = sys.argv[1]; n = int(sys.argv[2]) if len(sys.argv) > 2 else 5; pat = sys.argv[3] if len(sys.argv) > 3 else ""
P = PROPS[prop]; fam = P["family"]
work = "/tmp/why"; shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
ls = open(os.path.join(check.HERE, "replay", prop + ".cmds")).read().split("\n")
pick = [b for a, b in zip(ls, ls[1:]) if a.startswith("#") and re.search(pat, a + " " + b)][:n]
cmds = work + "/cmds"; open(cmds, "w").write("\n".join(pick) + "\n")
exe = check.compile_driver(fam, work); check.run_driver(exe, cmds, work + "/trace")
tl = open(work + "/trace").readlines()
# every event becomes its own id so that the rejected step is named
new = ['{"id":%d,%s' % (k + 1, l.split(",", 1)[1]) for k, l in enumerate(tl)]
open(work + "/trace-v-0.ndjson", "w").writelines(new)
rej = work + "/rej"; open(rej, "w").close()
check.tlc(fam["trace"], check.cfgtext("TSpec", {}, {"S0": fam["s0"], "Step": fam["step"]}, post="Accepted"), work, "v", [("verif.rejects", rej)], {"TRACE": work + "/trace-v-0.ndjson"})
for l in open(rej):
    i, what = l.split(" ", 1); i = int(i)
    print("CALL", pick[int(tl[i - 1][6:tl[i - 1].index(",")]) - 1][:600]); 
    if i > 1 and "hist" in tl[i - 1]: print("  PREV", tl[i - 2].strip()[:1500])
    print("  REJ", what.strip(), tl[i - 1].strip()[:1800])
