import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import boot  # noqa


def main():
    pid = sys.argv[1]
    args = sys.argv[2:]
    boot.setup()
    from vlib import core
    registry = importlib.import_module(f'props.{pid.lower()}').R
    if args and args[0] == '--replay':
        return core.replay(registry, args[1])
    tier = args[0] if args else os.environ.get('VERIF_TIER', 'quick')
    only = os.environ.get('VERIF_LAW')
    if only:
        registry.laws = [x for x in registry.laws if x.name in only.split(',')]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    return core.run(registry, seed, tier)


if __name__ == '__main__':
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:  # noqa
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    sys.exit(code)
