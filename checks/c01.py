import json


def check(c):
    c.design("Cuckoo")
    shapes = c.path("shapes.json")
    c.tlc("CuckooShapes", env={"OUT": shapes}, workers=1)
    rec = c.vh("cuckoo", inp=shapes)
    r = json.load(open(rec))
    out = c.tlc("CuckooTrace", env={"CASES": rec})
    for _, what, i, verdict in c.rejects(out):
        if verdict == "harness":
            from lib import ToolError
            raise ToolError("harness reference disagrees with SipHash.tla")
        x = r["cases" if what == "case" else "edges"][i - 1]
        if what == "case":
            c.reject("verify-" + x["kind"], "verifier said %s (crash %s) on edge numbers %s, limit %d, u %s v %s" %
                     (x["ok"], x["crash"], x["nonces"], x["limit"], x["u"], x["v"]), x)
        else:
            c.reject("edge-" + x["kind"], "edge of nonce %s is not the specified one" % x["nonce"], x)
    c.traces += len(r["cases"]) + len(r["edges"])
    c.samples = [x for x in r["cases"] if x["ok"]][:2] + [x for x in r["cases"] if not x["ok"]][:2] + r["edges"][:1]
    c.extra.update(proofs_judged=len(r["cases"]), proofs_accepted=sum(x["ok"] for x in r["cases"]),
                   accepted_by_length=r["accepted"], edges_judged=len(r["edges"]), shapes_realised=r["shapes"])
