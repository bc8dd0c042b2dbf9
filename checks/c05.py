from checks import chainlib


def check(c):
    chainlib.run(c, "extend", "process-ok,process-err".split(","))
