import json


def check(c):
    c.design("BlockRule")
    shapes = c.path("shapes.json")
    c.tlc("BlockGen", env={"OUT": shapes, "DEEP": "1" if c.deep else "0"}, workers=1)
    rec = c.vh("body", inp=shapes, timeout=850)
    r = json.load(open(rec))
    out = c.tlc("BlockTrace", env={"CASES": rec})
    for _, i in c.rejects(out):
        x = r[i - 1]
        brief = {k: [(e["cb"], e["ok"]) for e in x["b"][k]] for k in ("outs", "kers")}
        c.reject("body", "validation said ok=%s crash=%r for header %s (good: %s), (coinbase, ok) %s, %d inputs, faults %s" %
                 (x["ok"], x["crash"], x["header"], x["b"]["hdr"], brief, len(x["b"]["ins"]), x["notes"]), x)
    c.traces += len(r)
    c.samples = [x for x in r if x["ok"]][:2] + [x for x in r if not x["ok"]][:2]
    c.extra.update(blocks=len(r), accepted=sum(x["ok"] for x in r))
    c.assumptions += ["the range proof library accepts the proofs it made for the commitment they were made for, and no corrupted ones (sampled)"]
