import json


def check(c):
    c.design("RetargetProps", "RetargetPropsDeep" if c.deep else None)
    rec = c.vh("retarget")
    r = json.load(open(rec))
    out = c.tlc("RetargetTrace", env={"CASES": rec})
    for x in c.rejects(out):
        i, want = x[1], x[2]
        y = r[i - 1]
        c.reject("retarget", "%d blocks: demanded %s (limbs), specified %s; list changed: %s, crash %r" % (len(y["ts"]), y["demand"], want, y["changed"], y["crash"]), y)
    c.traces += len(r)
    c.samples = [{k: (v[:3] if isinstance(v, list) and k != "demand" else v) for k, v in x.items()} for x in (r[0], r[80], r[-1])]
    c.extra.update(histories=len(r), long_enough=sum(len(x["ts"]) >= 71 for x in r))
    c.assumptions += ["difficulties small enough that their sum and the product with 3600 fit 64 bits"]
