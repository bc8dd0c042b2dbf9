from checks import poollib


def check(c):
    c.design("Pool", "PoolDeep" if c.deep else "Pool")
    c.design("Pool", "PoolReachDeep" if c.deep else "PoolReach")
    poollib.long(c, c.n(12, 60), c.n(6, 48))
    poollib.run(c, c.n(96, 1200))
