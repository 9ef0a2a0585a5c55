#!/usr/bin/env python3
"""setup: builds the extractor and extracts the facts of every unit, so that the checks only extract what has changed since."""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), 'rules')]
from facts import *
import concurrent.futures as cf
ensure_tool(); ensure_pch()
import diag, balance, variants, widths
jobs = [(os.path.join(os.path.dirname(HERE), 'probe', f), ()) for f in sorted(os.listdir(os.path.join(os.path.dirname(HERE), 'probe')))]
jobs += [(u, ()) for u in all_units('kaminpar-common', 'kaminpar-shm', 'kaminpar-dist', 'kaminpar-mpi', 'kaminpar-cli', 'apps')]
jobs += [(u, tuple(diag.overlay())) for u in diag.units()]
jobs += [(u, balance.EXTRA) for u in balance.units()]
jobs += [(u, tuple(widths.extra_shm())) for u in widths.units_shm()] + [(u, tuple(widths.extra_dist())) for u in widths.units_dist()]
with cf.ThreadPoolExecutor(min(8, os.cpu_count() or 4)) as ex:
    v = list(ex.map(lambda j: variants.check(*j), variants.jobs('quick')))
    r = list(ex.map(lambda j: run_tu(os.path.join(REPO, j[0]), j[1]), jobs))
print('%d type checks' % len(v))
print('%d extractions, %d failed' % (sum(1 for o, e in r if o), sum(1 for o, e in r if not o)))
