"""Common part of the replay drivers (runs under the interpreter the repository uses)."""
import sys, os, json, io, contextlib, signal, warnings
warnings.simplefilter('ignore')
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
from fractions import Fraction


class Timeout(Exception):
    pass


def _alarm(sig, frame):
    raise Timeout()


signal.signal(signal.SIGALRM, _alarm)


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def rat(x):
    """A float coefficient as an exact small rational; [0, 0] when it is not one."""
    try:
        x = float(x)
        f = Fraction(x).limit_denominator(1000000)
        if abs(float(f) - x) > 1e-9 * max(1.0, abs(x)) or abs(f.numerator) > 2 ** 30:
            return [0, 0]
        return [f.numerator, f.denominator]
    except (TypeError, ValueError, OverflowError):
        return [0, 0]


def main(handle, limit=60):
    """handle(input) -> event dict or list of event dicts; exceptions are recorded in 'exc'."""
    fi, fo = sys.argv[1], sys.argv[2]
    with open(fi) as f, open(fo, 'w') as g:
        for line in f:
            inp = json.loads(line)
            signal.alarm(limit)
            try:
                out = handle(inp)
            except Timeout:
                out = {'inp': inp, 'exc': 'timeout', 'ev': 'crash'}
            finally:
                signal.alarm(0)
            for e in (out if isinstance(out, list) else [out]):
                g.write(json.dumps(e) + '\n')


def exc_str(e):
    return f'{type(e).__name__}: {e}'.replace('\n', ' ').replace('"', "'").replace('\\', '/')[:120]
