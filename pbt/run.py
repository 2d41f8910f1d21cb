"""python -m pbt.run <property> [--tier quick|thorough] [--seed N] [--replay FILE] [--part NAME] [--scale X]."""
import argparse
import importlib
import os
import sys

sys.setrecursionlimit(5000)


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    parser.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    parser.add_argument("--replay")
    parser.add_argument("--part")
    parser.add_argument("--scale", type=float, default=1.0)
    parser.add_argument("--worker")
    parser.add_argument("--out")
    args = parser.parse_args()
    from pbt import engine

    check = importlib.import_module("pbt.props." + args.property.lower())
    if args.worker:
        shard, shards = map(int, args.worker.split("/"))
        engine.worker(check, args.tier, args.seed, shard, shards, args.part, args.scale, args.out)
        return 0
    if args.replay:
        return engine.replay(check, os.path.abspath(args.replay))
    return engine.run(check, args.tier, args.seed, args.part, args.scale)


if __name__ == "__main__":
    sys.exit(main())
