import json
from collections import Counter


def check(c):
    c.design("Schnorr", "SchnorrDeep" if c.deep else None)
    ops = c.path("ops.json")
    c.tlc("SchnorrGen", env={"OUT": ops, "DEEP": "1" if c.deep else "0"}, workers=1)
    rec = c.vh("sig", inp=ops)
    r = json.load(open(rec))
    out = c.tlc("SchnorrTrace", env={"CASES": rec}, timeout=850)
    for x in c.rejects(out):
        o = r[x[1] - 1]
        c.reject("sig-" + o["op"], "%s(%d): verdicts %s, crash %r; key %s, signed %s, asked %s" % (
            o["op"], o["n"], o["ok"], o["crash"], bytes(o["key"]).hex()[:64], bytes(o["sig"]).hex(), bytes(o["askSig"]).hex()), o)
    n = Counter(o["op"].split("-")[0] for o in r)
    c.traces += len(r)
    c.samples = [r[0]] + r[-300::100]
    c.extra.update(verdicts=sum(len(o["ok"]) for o in r), alterations=dict(n), by_arithmetic=sum(o["full"] for o in r))
    c.assumptions += ["an altered signature passes by chance with negligible probability (random oracle, shown in the toy group)"]
