import props.derived as d

FLOOR = 40


def run(ck):
    d.check(ck, 'C24')
