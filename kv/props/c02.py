import gram

FLOOR = 1


def run(ck):
    gram.check(ck)
