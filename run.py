#!/usr/bin/env python3
"""run.py ID...  -- decide the named properties on /repo's current source."""
import importlib, os, sys, traceback
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(V, 'lib'), V]
sys.setrecursionlimit(20000)
import prog, report


def main(ids):
    rc = 0
    try:
        P = prog.load()
    except prog.AnalysisError as e:
        print('analysis error:', e, file=sys.stderr)
        return 2
    import rules
    for pid in ids:
        mods, title = rules.TABLE[pid]
        ck = report.Check(pid, title)
        try:
            for mod in mods:
                importlib.import_module('rules.' + mod).run(P, ck)
            r = ck.finish()
        except prog.AnalysisError as e:
            print(f'{pid}: analysis error: {e}', file=sys.stderr)
            r = 2
        except Exception:
            traceback.print_exc()
            r = 2
        rc = max(rc, r) if 1 not in (rc, r) else 1
    return rc


if __name__ == '__main__':
    ids = sys.argv[1:]
    if ids == ['all']:
        import rules
        ids = sorted(rules.TABLE)
    sys.exit(main(ids))
