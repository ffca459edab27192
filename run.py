#!/opt/venv/bin/python
"""Entry point of every check: run.py <PROPERTY> [--tier quick|thorough] [--replay FILE].

Exit 0: the property held on everything that was observed.
Exit 1: a line 'VIOLATION property=<id> replay=<path>' was printed.
Exit 2: inconclusive (harness problem, watchdog, or the deciding monitor was not reached).
"""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from vlib import driver  # pylint: disable=wrong-import-position

if __name__ == '__main__':
  p = argparse.ArgumentParser()
  p.add_argument('property')
  p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
  p.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
  p.add_argument('--replay', default=None)
  p.add_argument('--spec', default=None, help='only run the worker with this name')
  a = p.parse_args()
  sys.exit(driver.main(a.property, a.tier, a.seed, a.replay, a.spec))
