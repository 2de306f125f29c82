"""Driver side: runs under the interpreter the repository is built for."""
import json
import os
import resource
import signal
import sys
import traceback

sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)


class Hang(BaseException):
    pass


def _alarm(*a):
    raise Hang()


LIMIT = int(os.environ.get('VF_CASE_LIMIT', '60'))


_hangs = []


def guarded(fn, *args, **kw):
    """Call the code under test; exceptions and hangs become observations.

    Once something did not end, less time is spent on the rest.
    """
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm((LIMIT, 10, 4)[len(_hangs)] if len(_hangs) < 3 else 2)
    try:
        return 'ok', fn(*args, **kw)
    except Hang:
        _hangs.append(1)
        return 'hang', None
    except RecursionError as e:
        return 'err', 'RecursionError'
    except Exception as e:
        if os.environ.get('VF_TRACE'):
            traceback.print_exc()
        return 'err', type(e).__name__
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def run(handler):
    inp, outp = sys.argv[1], sys.argv[2]
    # Code that uses up all memory fails by itself
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, -1))
    with open(inp) as fi, open(outp, 'w') as fo:
        for line in fi:
            sc = json.loads(line)
            rec = handler(sc)
            rec['n'] = sc['n']
            rec.setdefault('key', sc.get('key', ''))
            fo.write(json.dumps(rec) + '\n')
            fo.flush()
            if len(_hangs) > 40:
                sys.exit('too many calls that do not end')


def ints(b):
    return [int(x) for x in bytearray(b)]


def be(n, width=None):
    """Non-negative integer as big-endian octets (no leading zeros)."""
    out = []
    while n:
        out.append(n & 0xff)
        n >>= 8
    out.reverse()
    if width is not None:
        out = [0] * (width - len(out)) + out
    return out


def unbe(a):
    r = 0
    for x in a:
        r = (r << 8) | x
    return r


def text(s):
    return [ord(c) for c in s]
