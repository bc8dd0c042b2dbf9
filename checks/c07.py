from checks import chainlib


def check(c):
    chainlib.run(c, "lookup", "lookup,process-ok,process-err".split(","))
