import json
from collections import Counter


def check(c):
    c.design("HandshakeProps", "HandshakePropsDeep" if c.deep else "HandshakeProps")
    genesis = c.vh("genesis")
    gen = c.path("hands.json")
    c.tlc("HandGen", env={"GENESIS": genesis, "COUNT": c.n(40, 1500), "OUT": gen}, workers=1, args=("-seed", str(c.seed)))
    cases = json.load(open(gen))

    def judge(inp, width):
        rec = c.vh("hands", inp=inp, x=width)
        return json.load(open(rec))["list"], sorted((x[1], x[2]) for x in c.rejects(c.tlc("HandTrace", env={"CASES": rec})))
    runs, rej = judge(gen, 100)

    def report(r):
        c.reject("handshake-" + r["role"], "handshake judged wrong: ok=%s err=%r ms=%s crash=%r closed=%s got %d bytes" %
                 (r.get("ok"), r.get("err"), r["ms"], r["crash"], r.get("closed"), len(r.get("got", []))), {"record": r})
    wrong = [i for i, why in rej if why == "wrong"]
    for i in wrong:
        report(runs[i - 1])
    if rej and not wrong:      # a busy machine is not a verdict: they have to be rejected again, alone
        again = [cases[i - 1] for i, why in rej[:40]]
        p = c.path("again.json")
        json.dump(cases[:3] + [x for x in again for _ in (1, 2)], open(p, "w"))
        runs2, rej2 = judge(p, 10)
        for i, why in rej2:
            report(runs2[i - 1])
    c.traces += len(runs)
    c.extra.update(handshakes=len(runs), outcomes=dict(Counter("%s:%s" % (r["role"], "peer" if r.get("ok") else "refused") for r in runs)),
                   slowest_ms=max(r["ms"] for r in runs))
    c.samples += [{k: r.get(k) for k in ("role", "end", "ok", "err", "ms", "sent")} for r in runs[150:400:80]]
    c.assumptions += ["attempts are to end within 25 s and handshakes done within 3 s are in time (the code allows 10 s)"]
