#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's current tree. See DESIGN.md."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core, codec, recv, stores, pgen, startup, e2e, replay

RUN = {p: codec.run for p in codec.SUITES}
RUN.update({p: recv.run for p in recv.SETS})
RUN['C23'] = startup.run
RUN['C24'] = stores.run
RUN['C25'] = pgen.run
RUN['C29'] = e2e.run
RUN['C30'] = replay.run


def c19(ctx):
    codec.run(ctx)
    recv.run(ctx, recv.c19)



def c03(ctx):
    recv.run(ctx)
    if not ctx.violations:
        startup.refusals(ctx)


RUN['C19'] = c19
RUN['C03'] = c03


def main():
    prop = sys.argv[1]
    ctx = core.Ctx(prop)
    try:
        RUN[prop](ctx)
        rc = ctx.finish('model_checking')
    except core.CheckError as e:
        print('ERROR: %s' % e, file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        ctx.cleanup()
    sys.exit(rc)


main()
