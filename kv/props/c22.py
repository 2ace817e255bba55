import props.derived as d

FLOOR = 24


def run(ck):
    d.check(ck, 'C22')
