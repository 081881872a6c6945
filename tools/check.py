#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property."""
import sys, os, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'checks'))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import vlib


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    ctx = vlib.Ctx(pid, tier)
    try:
        importlib.import_module(pid).run(ctx)
        if not ctx.results and not ctx.undecided:
            raise vlib.AnalysisError('no obligation was generated')
    except vlib.AnalysisError as e:
        if any(not r[2] for r in ctx.results):
            print('note: analysis incomplete: %s' % e)
            sys.exit(vlib.finish(ctx))
        print('ANALYSIS-ERROR property=%s %s' % (pid, e))
        sys.exit(3)
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-ERROR property=%s' % pid)
        sys.exit(3)
    try:
        sys.exit(vlib.finish(ctx))
    except vlib.AnalysisError as e:
        print('ANALYSIS-ERROR property=%s %s' % (pid, e))
        sys.exit(3)


main()
