"""C04"""
from . import args


def run(tier):
    return args.envs(tier)
