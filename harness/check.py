"""check.py ID [quick|thorough]: decides one property."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import base   # noqa: E402
import bounded  # noqa: E402
import props  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    ck = base.Check(pid, tier, seed)
    old = os.path.join(base.VERIF, 'replay', '%s_%s_%d.json' % (pid, tier, seed))
    if os.path.exists(old):
        os.unlink(old)
    fn = props.ALL[pid]
    run = getattr(fn, 'run', None)
    if run:
        return run(ck)
    fn(ck)
    if pid in bounded.ALL:
        bounded.ALL[pid](ck)
    ck.validate(ck.drive())
    return ck.finish({}, [])


if __name__ == '__main__':
    sys.exit(main())
