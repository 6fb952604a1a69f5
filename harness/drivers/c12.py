"""C12: see coords.py"""
from . import coords


def run(ck, thorough):
    coords.run(ck, thorough, "diff")
