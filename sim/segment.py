"""A segment of a run in a freshly started interpreter: request on stdin, report on stdout."""
import os
import pickle
import sys


def main():
    out = os.dup(1)
    os.dup2(2, 1)
    from . import main as m
    m.prepare()
    plan, k, blob = pickle.loads(sys.stdin.buffer.read())
    from . import session
    ctx = m.Ctx(os.environ["SIM_SCRATCH"])
    ctx.start_twin()
    rep = session.segment(plan, ctx, k, blob)
    ctx.twin.close()
    with os.fdopen(out, "wb") as f:
        f.write(pickle.dumps(rep))


if __name__ == "__main__":
    main()
