import importlib, sys
from . import env


def main():
    if len(sys.argv) < 2:
        print("usage: python -m sim.check Cnn [options]")
        return 2
    pid = sys.argv[1].upper()
    env.setup()
    mod = importlib.import_module("sim.checks." + pid.lower())
    from . import core
    return core.main(mod.CHECK, sys.argv[2:])


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
