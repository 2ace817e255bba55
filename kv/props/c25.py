import props.derived as d

FLOOR = 28


def run(ck):
    d.check(ck, 'C25')
