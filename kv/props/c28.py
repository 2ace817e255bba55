import props.derived as d

FLOOR = 38


def run(ck):
    d.check(ck, 'C28')
