#!/usr/bin/env python3
"""check.py <property id> [--thorough] [--item JSON]      (see DESIGN.md)"""
import json, os, shutil, sys, tempfile, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    args = sys.argv[1:]
    pid = args[0]
    tier = 'thorough' if '--thorough' in args or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    from vf import build, runner, checks, hostile
    base = tempfile.mkdtemp(prefix='vf-%s-' % pid)
    os.environ['VF_SCRATCH'] = base
    os.environ.pop('GROOT_LOG', None)
    try:
        ctx = runner.Ctx(pid, tier, seed)
        if '--item' in args:
            ctx.only = json.loads(args[args.index('--item') + 1])
        try:
            checks.CHECKS[pid](ctx)
        except checks.NoProbe as e:
            checks.outside(ctx, str(e))
        return ctx.finish()
    except build.BuildError as e:
        print('BUILD FAILED (no verdict):', e)
        return 3
    except Exception:
        traceback.print_exc()
        return 3
    finally:
        shutil.rmtree(base, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
