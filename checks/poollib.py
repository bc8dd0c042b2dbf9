import json
from collections import Counter

TEXT = {"crash": "the process ended or the book is locked for good", "ban": "a banned address is still connected, dialled, known or shared", "others": "an address left the book without being banned",
        "stuck": "an operation does not come back", "closed": "the node broke a connection without a reason", "twice": "two connections to one address", "many": "more connections than slots",
        "foreign": "an address was dialled that is not in the book", "slots": "a slot is free and an address waits, but nobody is dialled", "overlooked": "an address that can be connected is passed over",
        "entry": "the entry of an address does not tell what its connection does", "ended": "the loop ended", "book": "an address is in the book that nobody added", "lost": "an address was added and is not in the book",
        "list": "a list with wrong addresses, or without right ones", "stop": "activity after the stop"}


def play(c, scenarios, width=120, race=False):
    inp = c.path("pools-%d.json" % c.traces)
    json.dump(scenarios, open(inp, "w"))
    rec = c.vh("pools", inp=inp, x=width, timeout=850, race=race)
    runs = json.load(open(rec))
    for s, r in zip(scenarios, runs):
        for k, v in (("kind", s["kind"]), ("peers", s["peers"]), ("ops", []), ("links", []), ("spans", []), ("lists", []), ("returned", -1), ("last", 0)):
            r.setdefault(k, v)
    json.dump(runs, open(rec, "w"))
    c.traces += len(runs)
    out = c.tlc("PoolTrace", env={"CASES": rec, "PROP": c.prop}, timeout=600)
    return runs, [(x[1], x[2]) for x in c.rejects(out)]


def run(c, count, copies=4):
    """The real pool at work. A rejection counts if the same scenario is rejected again, or the process ended."""
    gen = c.path("pool-gen.json")
    c.tlc("PoolGen", env={"KIND": c.prop, "COUNT": count, "OUT": gen}, workers=1, args=("-seed", str(c.seed)))
    scn = json.load(open(gen))
    runs, rej = play(c, scn, race=True)
    sure = [(scn[i - 1], runs[i - 1], k) for i, k in rej if k == "crash"]
    rest = [(i, k) for i, k in rej if k != "crash"][:12]
    if rest and not sure:
        c.log("looking again at scenarios", rest)
        l = [scn[i - 1] for i, k in rest for _ in range(copies)]
        r2, rej2 = play(c, l, width=60)
        sure = [(l[i - 1], r2[i - 1], k) for i, k in rej2]
    for s, r, k in sure:
        c.reject("pool-" + k, "%s (%s scenario) %s" % (TEXT.get(k, k), s["kind"], r["crash"][:1500]), {"rule": k, "scenario": s, "record": r})
    c.extra.update(pools=len(runs), pool_kinds=dict(Counter(r["kind"] for r in runs)), attempts=sum(len(l) for r in runs for l in r["links"]),
                   connections=sum(1 for r in runs for l in r["links"] for k in l if k["up"] >= 0), operations=dict(Counter(o["op"] for r in runs for o in r["ops"])),
                   lists=sum(len(r["lists"]) for r in runs))
    c.samples += [{"kind": r["kind"], "ops": r["ops"][:3], "links": r["links"][:3]} for r in runs[:3]]
    c.assumptions += ["what the node does after an event is done within 0.3 to 1.5 s, and it takes the next address within 4.5 s"]


def book(c, count):
    gen = c.path("book-gen.json")
    c.tlc("BookGen", env={"COUNT": count, "OUT": gen}, workers=1, args=("-seed", str(c.seed)))
    scn = json.load(open(gen))
    rec = c.vh("books", inp=gen, timeout=600, race=True)
    runs = json.load(open(rec))
    for i, k in sorted(set(tuple(x[1:3]) for x in c.rejects(c.tlc("BookTrace", env={"CASES": rec}, timeout=800)))):
        o = runs[i - 1]["steps"][k - 1]
        c.reject("book-" + (o["crash"] and "crash" or o["op"]), "step %d of use %d of the book: %s (addresses %s)" % (k, i, json.dumps(o)[:1500], scn[i - 1]["addrs"]),
                 {"step": k, "scenario": scn[i - 1], "record": o, "before": runs[i - 1]["steps"][max(0, k - 2)]})
    c.traces += len(runs)
    c.extra.update(books=len(runs), book_steps=dict(Counter(o["op"] for r in runs for o in r["steps"])))
    c.samples += [{k: v for k, v in o.items() if k != "state"} for o in runs[1]["steps"][:2]]


def ages(c, count):
    """Books over days, under a clock of their own."""
    gen = c.path("ages-gen.json")
    c.tlc("BookGen", env={"COUNT": count, "OUT": gen, "AGES": 1}, workers=1, args=("-seed", str(c.seed)))
    scn = json.load(open(gen))
    rec = c.under_clock("TestBooks", gen)
    runs = json.load(open(rec))
    for i, k in sorted(set(tuple(x[1:3]) for x in c.rejects(c.tlc("BookTrace", env={"CASES": rec}, timeout=800)))):
        o = runs[i - 1]["steps"][k - 1]
        c.reject("ages-" + o["op"], "step %d of use %d of the book: %s (addresses %s)" % (k, i, json.dumps(o)[:1500], scn[i - 1]["addrs"]),
                 {"step": k, "scenario": scn[i - 1], "record": o})
    c.traces += len(runs)
    c.extra.update(books_over_days=len(runs))


def long(c, count, windows):
    """Nodes that run for hours, under a clock of their own."""
    gen = c.path("long-gen.json")
    c.tlc("LongGen", env={"COUNT": count, "WINDOWS": windows, "OUT": gen}, workers=1, args=("-seed", str(c.seed)))

    def judge(inp):
        rec = c.under_clock("TestLong", inp, timeout=700)
        out = c.tlc("LongTrace", env={"CASES": rec, "PROP": c.prop}, timeout=600)
        return json.load(open(rec)), [(x[1], x[2]) for x in c.rejects(out)]
    scn = json.load(open(gen))
    runs, rej = judge(gen)
    if rej:
        c.log("looking again at long runs", rej[:6])
        again = c.path("long-again.json")
        # a run that does not end is the only one of its record
        l = [scn[i - 1] for i, k in rej[:4] for _ in range(3)] if len(runs) == len(scn) else scn
        json.dump(l, open(again, "w"))
        runs2, rej = judge(again)
        for i, k in rej:
            c.reject("long-" + k, TEXT.get(k, "what happened over hours does not fit") + ": " + json.dumps(runs2[i - 1])[:2500], {"rule": k, "record": runs2[i - 1]})
    c.traces += len(runs)
    c.extra.update(long_runs=len(runs), long_hours=sum(len(r["windows"]) for r in runs) / 2, long_attempts=sum(sum(w["att"]) for r in runs for w in r["windows"]))
