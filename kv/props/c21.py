import props.derived as d

FLOOR = 20


def run(ck):
    d.check(ck, 'C21')
