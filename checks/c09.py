from checks import chainlib


def check(c):
    chainlib.run(c, "locator", "headers".split(","))
