import json, os, subprocess
from lib import ToolError, FIX


def check(c):
    c.design("HeaderRule")
    plan = c.path("plan.json")
    c.tlc("HeaderGen", env={"OUT": plan}, workers=1)
    recs = [c.vh("header", inp=plan)]
    # under a fake clock
    t = c.build(test="cmd/vh")
    clock = c.path("clock.json")
    p = subprocess.run([t, "-test.run", "TestClock", "-test.timeout", "300s", "-seed", str(c.seed), "-tier", c.tier, "-out", clock, "-fix", FIX],
                       capture_output=True, text=True, cwd=c.dir)
    if p.returncode != 0 or not os.path.exists(clock):
        raise ToolError("clock test: " + p.stdout + p.stderr)
    recs.append(clock)
    total = {"headers": 0, "versions": 0, "lists": 0}
    acc = clk = 0
    for rec in recs:
        r = json.load(open(rec))
        out = c.tlc("HeaderTrace", env={"CASES": rec})
        for _, what, i in c.rejects(out):
            x = r[what][i - 1]
            c.reject("header-" + what + "-" + x.get("what", ""), "real code said ok=%s crash=%r on %s" % (x["ok"], x["crash"], json.dumps({k: v for k, v in x.items() if k != "bytes"})), x)
        for k in total:
            total[k] += len(r[k])
        acc += sum(x["ok"] for x in r["headers"])
        c.samples += r["headers"][:2] + r["versions"][:1] + r["lists"][-1:]
    c.traces += sum(total.values())
    c.extra.update(judged=total, headers_accepted=acc)
    c.assumptions += ["blake2b of the committed bytes is computed by the harness's own codec (C10 checks the codec)"]
