import sys, importlib, traceback
from checks import common
from engine import tree

def main():
    pid = sys.argv[1]
    mod = importlib.import_module('checks.p' + pid[1:])
    c = common.Check(pid)
    try:
        mod.check(c)
    except tree.BuildError as ex:
        # the current tree does not build: nothing can be decided about it
        c.undecided('the current tree builds', ex)
    except Exception as ex:
        c.undecided('check machinery', traceback.format_exc())
    sys.stdout.flush()
    return c.finish()

if __name__ == '__main__':
    sys.exit(main())
