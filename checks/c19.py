from checks import nodelib


def check(c):
    nodelib.run(c, "spread", ["NodeBlocksDeep" if c.deep else "NodeBlocks"], c.n(120, 1500), 40)
