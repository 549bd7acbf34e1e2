"""Reading of printed LaTeX terms."""
import re
from fractions import Fraction
from ambit import Unreadable

ROW = r'\{\s*((?:[cavhpgCAVHPG]_\{\s*\d+\s*\}\s*)*)\}'
TENS = re.compile(r'\s*([A-Za-z]+)\s*\^\s*' + ROW + r'\s*_\s*' + ROW)
PERM = re.compile(r'\s*\{\\cal\s+P\}\s*\(([^)]*)\)')
LAB = re.compile(r'([cavhpgCAVHPG])_\{\s*(\d+)\s*\}')


def labs(x):
    return [a + b for a, b in LAB.findall(x)]


def tensor(x):
    m = TENS.match(x)
    if not m or x[m.end():].strip():
        raise Unreadable(x)
    return [m.group(1), labs(m.group(2)), labs(m.group(3))]


def dollars(x):
    """strip math-mode dollars"""
    y = x.strip()
    if y.startswith('$') != y.endswith('$') or y == '$':
        raise Unreadable(x)
    if y.startswith('$'):
        return y[1:-1].strip(), True
    return y, False


def perms(x):
    """groups of every permutation operator in x"""
    out, pos = [], 0
    while True:
        m = PERM.match(x, pos)
        if not m:
            break
        out.append([labs(g) for g in m.group(1).split('/')])
        if any(re.sub(LAB, '', g).strip() for g in m.group(1).split('/')):
            raise Unreadable(x)
        pos = m.end()
    return out, x[pos:]


def term(x):
    """[coeff, groups, tensors, operator, flags]"""
    y, dol = dollars(x)
    bs = y.endswith('\\\\')
    if bs:
        y = y[:-2].strip()
    m = re.match(r'^(-?\d+)(?:/(\d+))?', y)
    if not m:
        raise Unreadable(x)
    c = Fraction(int(m.group(1)), int(m.group(2) or 1))
    y = y[m.end():].strip()
    amp = y.startswith('&')
    if amp:
        y = y[1:].strip()
    if '&' in y or '$' in y or '\\\\' in y:
        raise Unreadable(x)
    groups, y = perms(y)
    ts, op, pos = [], [[], []], 0
    while y[pos:].strip():
        m = TENS.match(y, pos)
        if not m:
            raise Unreadable(x)
        if m.group(1) == 'a':
            if y[m.end():].strip():
                raise Unreadable(x)
            op = [labs(m.group(2)), labs(m.group(3))]
        else:
            ts.append([m.group(1), labs(m.group(2)), labs(m.group(3))])
        pos = m.end()
    return {'c': [c.numerator, c.denominator], 'groups': groups, 'ts': ts, 'op': op, 'flags': [dol, amp, bs]}
