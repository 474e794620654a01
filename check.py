#!/opt/veriftools/pyvenv/bin/python3
"""check.py PROPERTY [--tier quick|thorough] [--only LABEL]"""
import argparse
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from irvc import runner

a = argparse.ArgumentParser()
a.add_argument('prop')
a.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
a.add_argument('--only')
n = a.parse_args()
sys.exit(runner.check(n.prop, 'thorough' if n.tier == 'thorough' else 'quick', int(os.environ.get('VERIF_SEED') or 1), only=n.only))
