import json
from collections import Counter


def brief(r):
    return json.dumps({k: (v if len(str(v)) < 400 else str(v)[:400] + "...") for k, v in r.items()})


def run(c, what, gen=False):
    """Design check of the layout, then a record of the real code judged by TLC."""
    c.design("WireProps", "WirePropsDeep" if c.deep else None)
    inp = None
    if gen:
        inp = c.path("cases.json")
        c.tlc("WireGen", env={"OUT": inp}, workers=1)
    rec = c.vh("wire", inp=inp, x=what, timeout=800)
    r = json.load(open(rec))
    out = c.tlc("WireTrace", env={"CASES": rec})
    for x in c.rejects(out):
        o = r[x[1] - 1]
        c.reject("%s-%s" % (o["op"], o.get("kind", "")), brief(o), o)
    n = Counter(o["op"] + ("-" + o["kind"] if "kind" in o else "") for o in r)
    c.traces += len(r)
    c.samples += [json.loads(json.dumps(o)) for o in r[:: max(1, len(r) // 4)] if len(str(o)) < 4000][:4]
    c.extra.update(judged=dict(n))
    return r
