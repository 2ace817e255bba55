import props.derived as d

FLOOR = 5


def run(ck):
    d.check(ck, 'C27')
