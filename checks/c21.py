from checks import nodelib


def check(c):
    nodelib.run(c, "ban", ["NodeOffencesDeep" if c.deep else "NodeOffences"], c.n(120, 1500), 40)
