import json
from collections import Counter


def check(c):
    c.design("Conn", "ConnDeep" if c.deep else "Conn")
    gen = c.path("conns.json")
    calm = c.path("quiet.json")
    c.tlc("ConnGen", env={"COUNT": c.n(300, 6000), "OUT": gen, "QUIET": calm}, workers=1, args=("-seed", str(c.seed)))
    scn = json.load(open(gen))
    rec = c.vh("conns", inp=gen, x=24, timeout=850)
    runs = json.load(open(rec))
    for s, r in zip(scn, runs):
        if "how" not in r:      # the process ended
            r.update({k: s[k] for k in ("senders", "how", "when", "pace", "role", "flood")}, garbled="", got=[], arrived=0, pongs=0, early=[],
                     returned=False, took=0, closers=False, late="", lateMs=0, closed=False)
    long = json.load(open(c.under_clock("TestQuiet", calm)))
    scn += json.load(open(calm))[:len(long)]
    runs += long
    json.dump(runs, open(rec, "w"))
    for x in c.rejects(c.tlc("ConnTrace", env={"CASES": rec})):
        r = runs[x[1] - 1]
        key = "crash" if r["crash"] else "garbled" if r["garbled"] else "order" if r["returned"] else "stuck"
        c.reject("conn-" + key, json.dumps({k: v for k, v in r.items() if k not in ("senders", "got")})[:1500], {"scenario": scn[x[1] - 1], "record": r})
    c.traces += len(runs)
    c.extra.update(connections=len(runs), ends=dict(Counter(r["how"] for r in runs)), days_of_silence=sum(sum(x["gaps"]) for x in scn[-len(long):]) // 86400, paces=dict(Counter(r["pace"] for r in runs)),
                   messages=sum(len(r["got"]) for r in runs), slowest_end_ms=max(r["took"] for r in runs))
    c.samples += [{k: r[k] for k in ("role", "how", "when", "pace", "flood", "arrived", "took", "lateMs")} for r in runs[3:8] + runs[-2:]]
    c.assumptions += ["prompt is within 12 s"]
