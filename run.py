'Run one check: python run.py <property> [--tier quick|thorough] [--replay file]'
import argparse, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import core
p = argparse.ArgumentParser()
p.add_argument('prop')
p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
p.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
p.add_argument('--replay')
p.add_argument('--only')
p.add_argument('--count', type=int)
p.add_argument('--jobs', type=int)
a = p.parse_args()
sys.exit(core.main(a.prop, a.tier, a.seed, a.replay, a.only, a.count, a.jobs))
