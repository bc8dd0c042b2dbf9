import json, os
from collections import Counter


def judge(c, scenarios, module, prop, settle=None, width=40, timeout=800):
    """Play scenarios against the real node; returns the records and the rejected (record, step)."""
    inp = c.path("scn-%d.json" % len(os.listdir(c.dir)))
    if settle:
        for s in scenarios:
            s["settle"] = settle
    json.dump(scenarios, open(inp, "w"))
    rec = c.vh("nodes", inp=inp, x=width, timeout=timeout)
    out = c.tlc(module, env={"CASES": rec, "PROP": prop}, timeout=timeout)
    return json.load(open(rec)), sorted(set(tuple(x[1:3]) for x in c.rejects(out)))


def report(c, runs, scenarios, rej, prefix):
    for i, k in rej:
        r = runs[i - 1]
        if r["crash"]:
            c.reject(prefix + "-crash", r["crash"][:1500], {"scenario": scenarios[i - 1], "record": r})
            continue
        if k < 0:       # the whole of it
            c.reject(prefix + "-never", "scenario %d: what no delay explains: %s" % (i, json.dumps([{x: o.get(x) for x in ("op", "from", "f", "fs", "got", "after")} for o in r["steps"]])[:2500]),
                     {"scenario": scenarios[i - 1], "record": r})
            continue
        o = r["steps"][k - 1] if k else {"op": "start", "start": r.get("start")}
        kind = o.get("f", {}).get("k", "") if isinstance(o.get("f"), dict) else ""
        c.reject("-".join(x for x in (prefix, o["op"], kind) if x), "step %d of scenario %d: %s" % (k, i, json.dumps(o)[:2500]),
                 {"step": k, "scenario": scenarios[i - 1], "record": r})


def confirm(c, scenarios, module, prop, runs, rej, prefix, settle=600, copies=3):
    """A rejected behaviour counts if it is rejected again with all the time in the world, ended the process, or is what no delay explains."""
    report(c, runs, scenarios, [(i, k) for i, k in rej if runs[i - 1]["crash"] or k < 0], prefix)
    again = sorted(set(i for i, k in rej if not runs[i - 1]["crash"]))[:8]
    if again and not c.rejections:
        c.log("looking again at scenarios", again)
        l = [json.loads(json.dumps(scenarios[i - 1])) for i in again for _ in range(copies)]
        r2, rej2 = judge(c, l, module, prop, settle=settle, width=12)
        report(c, r2, l, rej2, prefix)


def overlaps(c, scenarios):
    """The specification's steps use the tables of peers one at a time; does the code?"""
    inp = c.path("overlaps.json")
    json.dump(scenarios, open(inp, "w"))
    runs = json.load(open(c.vh("nodes", inp=inp, x=10, race=True)))
    for s, r in zip(scenarios, runs):
        if "at the same time" in r["crash"]:
            c.reject("node-overlap", r["crash"][:2000], {"scenario": s, "crash": r["crash"]})
    c.extra["scenarios_watched_for_overlaps"] = len(runs)


def generate(c, kind, count, length):
    gen = c.path("gen-%s.json" % kind)
    c.tlc("NodeGen", env={"KIND": kind, "COUNT": count, "LENGTH": length, "OUT": gen}, workers=1, args=("-seed", str(c.seed)))
    return json.load(open(gen))


def run(c, kind, cfgs, count, length):
    for cfg in cfgs:
        c.design("NodeProps", cfg)
    # the node with the real chain inside, that module Chain speaks for
    real = generate(c, "real", c.n(32, 300), 24)
    for i, s in enumerate(real):
        s["world"] = c.seed * 1000 + i + 1
    rruns, rej = judge(c, real, "NodeTrace", c.prop)
    confirm(c, real, "NodeTrace", c.prop, rruns, rej, "real")
    c.extra["scenarios_with_the_real_chain"] = len(rruns)
    c.extra["steps_with_the_real_chain"] = sum(len(r["steps"]) for r in rruns)
    c.traces += sum(len(r["steps"]) for r in rruns)
    scenarios = generate(c, kind, count, length)
    runs, rej = judge(c, scenarios, "NodeTrace", c.prop)
    confirm(c, scenarios, "NodeTrace", c.prop, runs, rej, "node")
    if kind in ("hostile", "spread", "ban"):
        overlaps(c, scenarios[:c.n(10, 60)])
    steps = Counter(o["op"] + (":" + o["f"]["k"] if "f" in o else "") for r in runs for o in r["steps"])
    c.traces += sum(steps.values())
    c.extra.update(scenarios=len(runs), steps=dict(steps), messages=sum(len(g) for r in runs for o in r["steps"] for g in o["got"]))
    c.samples += [{k: v for k, v in o.items() if k in ("op", "from", "f", "got", "tip")} for r in runs[:8:2] for o in r["steps"][:1]]
    return scenarios, runs
