"""C03"""
from . import args


def run(tier):
    return args.reads(tier)
