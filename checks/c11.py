from checks import wirelib


def check(c):
    r = wirelib.run(c, "hostile", gen=True)
    ok = sum(x["ok"] for o in r if o["op"] == "bytes" for x in o["results"])
    c.extra.update(accepted=ok, largest_memory_mb=max(o.get("alloc", 0) for o in r if o["op"] == "stream"))
    if not ok:
        from lib import ToolError
        raise ToolError("nothing was accepted")
