from checks import nodelib


def check(c):
    nodelib.run(c, "answers", ["NodeAnswersDeep" if c.deep else "NodeAnswers"], c.n(120, 1500), 40)
