import json
from collections import Counter


def run(c, what, ops):
    """Design check of the chain, then recorded runs of the wanted kind judged by TLC."""
    c.design("ChainProps", "ChainPropsDeep" if c.deep else None)
    if what == "lookup":
        c.design("ChainShared", "ChainSharedDeep" if c.deep else None)
    runs = {}
    for kind in (what, "shared"):      # one after the other, and many at once
        rec = c.vh("chain", x=kind, timeout=850)
        runs[kind] = json.load(open(rec))
        judge(c, runs[kind], c.tlc("ChainTrace", env={"CASES": rec}), kind)
    r = runs[what] + runs["shared"]
    n = Counter(o["op"] + (("-ok" if o["ok"] else "-err") if "ok" in o else "") for s in r for o in s["ops"])
    c.traces += sum(n.values())
    c.samples = [o for s in runs[what][:40:8] for o in s["ops"][-1:]][:4]
    c.extra.update(scenarios=len(runs[what]), scenarios_used_by_many_at_once=len(runs["shared"]), operations=dict(n))
    missing = [k for k in ops if not n.get(k)]
    if missing:
        from lib import ToolError
        raise ToolError("runs exercise no " + ", ".join(missing))


def judge(c, r, out, kind):
    for x in c.rejects(out):
        t, k = x[1], x[2]
        s = r[t - 1]
        o = s["ops"][k - 1]
        brief = {a: b for a, b in o.items()}
        c.reject(("shared-" if kind == "shared" else "chain-") + o["op"], "operation %d of scenario %d (%d stored blocks): %s" % (k, t, len(s["main"]), json.dumps(brief)[:1500]),
                 {"op": o, "scenario": s})
