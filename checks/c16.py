from checks import poollib


def check(c):
    c.design("Pool", "PoolDeep" if c.deep else "Pool")
    c.design("BookProps", "BookPropsDeep" if c.deep else "BookProps")
    poollib.book(c, c.n(60, 2500))
    poollib.ages(c, c.n(40, 1000))
    poollib.long(c, c.n(8, 40), c.n(6, 40))
    poollib.run(c, c.n(72, 1000))
