"""check ID | replay FILE | selftest ID N"""
import os
import sys
import zlib

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from dst import core  # noqa: E402


def main():
    cmd = sys.argv[1]
    seed = os.environ.get('VERIF_SEED', '1') or '1'
    try:
        seed = str(int(seed))
    except ValueError:
        seed = str(zlib.crc32(seed.encode()) & 0x7fffffff)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    if cmd == 'check':
        if len(sys.argv) > 3 and sys.argv[3] in ('quick', 'thorough'):
            tier = sys.argv[3]
        rc = core.check(sys.argv[2], tier, seed)
    elif cmd == 'replay':
        rc = core.replay(sys.argv[2])
    elif cmd == 'selftest':
        for line in core.selftest(sys.argv[2], int(sys.argv[3]), seed):
            print(*line)
        rc = 0
    else:
        raise SystemExit('unknown command')
    sys.stdout.flush()
    return rc


if __name__ == '__main__':
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 2
    sys.exit(code)
