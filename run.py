#!/opt/veriftools/pyvenv/bin/python
"""Runs the check of one property: run.py PROPERTY.

Builds the C++ headers (and the binding where needed) from the working tree
of the repository, explores every job symbolically, replays counterexamples on
the unmodified code, writes evidence/PROPERTY.json.  Exit 0 or 1.
"""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
sys.setrecursionlimit(5000)


def main():
    prop = sys.argv[1]
    if prop == '--setup':
        # nothing is kept between runs: every check builds what it needs
        import z3
        print('z3', z3.get_version_string())
        return
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    from symex import registry
    sys.exit(registry.run(prop, tier, seed))


if __name__ == '__main__':
    main()
