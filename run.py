#!/usr/bin/env python3-vt
"""run.py <property id> [quick|thorough]: decide one property; see DESIGN.md"""
import sys, os, time, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cfg = dict(tier=tier, seed=seed, quick=tier == 'quick')
    if tier == 'thorough': cfg.update(budget=3*3600, harness_timeout=900, timeout=60)
    else: cfg.update(budget=560)
    from engine import build
    try:
        m = importlib.import_module('checks.' + pid.lower())
        rc = m.main(cfg, t0)
    except build.BuildError as e:
        print(f'ERROR build: {e}', file=sys.stderr); rc = 2
    except Exception:
        import traceback; traceback.print_exc(); rc = 2
    sys.stdout.flush()
    os._exit(rc)
if __name__ == '__main__': main()
