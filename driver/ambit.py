"""Reading of the printed tensor programs into statements."""
import re
from fractions import Fraction

NUM = r'-?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?'
COEFF = re.compile(rf'^\(?\s*({NUM})\s*(?:/\s*({NUM})\s*)?\)?$')
TENS = re.compile(r'^([A-Za-z_]\w*)\s*\["([^"]*)"\]$')
LAB = re.compile(r'^([cavhpgCAVHPG])(\d+)$')


class Unreadable(Exception):
    pass


def frac(n, d=None):
    f = Fraction(n) / Fraction(d) if d else Fraction(n)
    return [f.numerator, f.denominator]


def tensor(x):
    """name, labels; a bare name is a scalar"""
    x = x.strip()
    m = TENS.match(x)
    if m:
        labs = [i.strip() for i in m.group(2).split(',')]
        if not all(LAB.match(i) for i in labs):
            raise Unreadable(x)
        return m.group(1), labs
    if re.match(r'^[A-Za-z_]\w*$', x):
        return x, []
    raise Unreadable(x)


def number(labels, factors):
    """indices numbered so that factors complete early"""
    order, left = {}, list(factors)
    while left:
        best = min(left, key=lambda g: (sum(1 for x in set(g) if x not in order), len(g)))
        left.remove(best)
        for x in best:
            order.setdefault(x, len(order) + 1)
    for x in labels:
        order.setdefault(x, len(order) + 1)
    return order


def statement(x):
    x = x.strip()
    if x.endswith(';'):
        x = x[:-1].strip()
    m = re.match(r'^BlockedTensor\s+(\w+)$', x)
    if m:
        return [{'op': 'decl', 't': m.group(1)}]
    m = re.match(r'^(BlockedTensor\s+)?(\w+)\s*=\s*(?:ambit::)?BlockedTensor::build\(\s*(?:ambit::)?CoreTensor\s*,\s*"[^"]*"\s*,\s*\{\s*"([cavhpgCAVHPG]*)"\s*\}\s*\)$', x)
    if m:
        b = [{'op': 'build', 't': m.group(2), 'blk': list(m.group(3))}]
        return ([{'op': 'decl', 't': m.group(2)}] if m.group(1) else []) + b
    m = re.match(r'^(\w+)\.zero\(\)$', x)
    if m:
        return [{'op': 'zero', 't': m.group(1)}]
    m = re.match(r'^(\w+)\.scale\((.*)\)$', x)
    if m:
        c = m.group(2).strip()
        return [{'op': 'scale', 't': m.group(1), 'c': [0, 0] if c == 'factor' else coeff(c)}]
    m = re.match(r'^(\w+)\s*\*=\s*(.*)$', x)
    if m:
        c = m.group(2).strip()
        return [{'op': 'scale', 't': m.group(1), 'c': [0, 0] if c == 'factor' else coeff(c)}]
    m = re.match(rf'^(\w+)\s*=\s*({NUM})$', x)
    if m:
        if Fraction(m.group(2)) != 0:
            raise Unreadable(x)
        return [{'op': 'zero', 't': m.group(1)}]
    m = re.match(r'^(\w+)\(([\w\s,]*)\)$', x)
    if m:
        return [{'op': 'call', 'fn': m.group(1), 'args': [i.strip() for i in m.group(2).split(',') if i.strip()]}]
    m = re.match(r'^(\w+\s*(?:\["[^"]*"\])?)\s*([-+]?=)\s*(.*)$', x, re.S)
    if not m:
        raise Unreadable(x)
    t, labs = tensor(m.group(1))
    sign = -1 if m.group(2) == '-=' else 1
    c, fs = Fraction(sign), []
    for part in re.split(r'\s\*\s', m.group(3).strip()):
        p = part.strip()
        k = COEFF.match(p)
        if k:
            f = frac(k.group(1), k.group(2))
            c *= Fraction(f[0], f[1])
        else:
            fs.append(tensor(p))
    order = number(labs, [l for _, l in fs])
    sp = [None] * len(order)
    for lab, i in order.items():
        sp[i - 1] = lab[0]
    out = []
    for n, l in fs:
        g = re.match(r'^([A-Za-z]+?)(\d+)$', n)
        half = len(l) // 2
        ids = [order[i] for i in l]
        out.append({'t': n, 'n': g.group(1) if g else n, 'r': int(g.group(2)) if g else half, 'i': ids, 'u': ids[:half], 'l': ids[half:]})
    # the order of the factors is irrelevant; sorted so that equal products are recognized
    out.sort(key=lambda g: (g['n'], g['r'], g['i']))
    return [{'op': 'set' if m.group(2) == '=' else 'acc', 't': t, 'li': [order[i] for i in labs], 'sp': sp,
             'c': [c.numerator, c.denominator], 'f': out}]


def coeff(x):
    k = COEFF.match(x.strip())
    if not k:
        raise Unreadable(x)
    return frac(k.group(1), k.group(2))


def program(text):
    """statements of a text; comments and empty lines dropped"""
    text = re.sub(r'//[^\n]*', '', text)
    out = []
    for x in text.split(';'):
        if x.strip():
            out += statement(x)
    return out
