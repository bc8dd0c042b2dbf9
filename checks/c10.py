from checks import wirelib


def check(c):
    wirelib.run(c, "objects")
