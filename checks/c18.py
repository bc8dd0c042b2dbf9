from checks import poollib


def check(c):
    c.design("BookProps", "BookPropsDeep" if c.deep else "BookProps")
    poollib.book(c, c.n(150, 5000))
    poollib.ages(c, c.n(60, 2000))
    poollib.run(c, c.n(40, 600))
