import argparse
import os
import sys


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    parser.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    parser.add_argument("--replay")
    args = parser.parse_args()
    from harness import core
    if args.replay:
        return core.replay(args.property, args.replay)
    return core.run_property(args.property, args.tier, args.seed)


if __name__ == "__main__":
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc(file=sys.stdout)
        code = 2
    sys.stdout.flush()
    os._exit(code)
