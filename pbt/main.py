import os
import sys

from pbt import core


def main():
    args = sys.argv[1:]
    if not args:
        print('usage: run.sh <PROPERTY> [quick|thorough] | replay <FILE> | setup')
        return 2
    if args[0] == 'setup':
        core.setup_paths()
        import hypothesis
        import numpy
        print('python %s, hypothesis %s, numpy %s' % (sys.version.split()[0], hypothesis.__version__, numpy.__version__))
        return 0
    if args[0] == 'replay':
        return core.replay(args[1])
    tier = args[1] if len(args) > 1 else os.environ.get('VERIF_TIER', 'quick')
    only = args[2] if len(args) > 2 else None
    return core.run_property(args[0].upper(), tier, int(os.environ.get('VERIF_SEED', '1')), only)


if __name__ == '__main__':
    sys.exit(main())
