import props.derived as d

FLOOR = 30


def run(ck):
    d.check(ck, 'C23')
