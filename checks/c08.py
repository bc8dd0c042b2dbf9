from checks import chainlib


def check(c):
    chainlib.run(c, "audit", "audit-ok,audit-err".split(","))
