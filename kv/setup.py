import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
build.ensure_driver()
for f in (None, ['derive', 'line-numbers']):
    try:
        print(build.dump_lib(f))
    except build.BuildError as e:
        print('warm-up:', str(e)[-500:])
try:
    print(build.dump_fixtures())
except build.BuildError as e:
    print('warm-up:', str(e)[-500:])
