from checks import poollib


def check(c):
    c.design("Pool", "PoolDeep" if c.deep else "Pool")
    poollib.long(c, c.n(12, 60), c.n(6, 40))
    poollib.run(c, c.n(84, 1000))
