"""Pools of objects: comparisons, reordering, permutations, constructors, counters."""
import re
from collections import Counter
from terms import *
from dsrg_generator.Indices import Indices
from dsrg_generator.IndicesPair import IndicesPair
from dsrg_generator.mo_space import MOSpaceCounter, find_space_label

OPS = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b,
       'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b}
COEF = {1: 1.0, 2: -1.0, 3: 0.25, 4: -0.25, 5: 1 / 2304, 6: 1 / 1152, 7: -1e-7, 8: 1e-7, 9: 1e8, 10: 1e8 + 1}


def nm(q):
    return [f'{s}{k}' for s, k in q]


def lab(i):
    return [i.space, i.number]


def labs(q):
    return [[i.space, i.number] for i in q]


def order_event(kind, objs, keys, rng, pre=False, hashes=True, **extra):
    n = len(objs)
    e = {'ev': 'order', 'kind': kind, 'n': n, 'key': keys, 'exc': '', 'pre': pre, 'hash': [], 'sorts': [], 'lab': [], 'cost': []}
    for k in OPS:
        e[k] = [[False] * n for _ in range(n)]
    e.update(extra)
    try:
        for k, f in OPS.items():
            e[k] = [[bool(f(a, b)) for b in objs] for a in objs]
        if hashes:
            hs = [hash(o) for o in objs]
            ids = {h: i for i, h in enumerate(sorted(set(hs)))}
            e['hash'] = [ids[h] for h in hs]
        for r in range(4):
            arr = list(range(n))
            if r:
                rng.shuffle(arr)
            s = sorted([objs[i] for i in arr])
            e['sorts'].append([next(j for j in range(n) if objs[j] is x) + 1 for x in s])
    except Exception as x:
        e['exc'] = exc_str(x)
    return e


def kinds_for(pool):
    up = any(s.isupper() for o in pool for s, _ in o['u'] + o['l'])
    return ['si', 'sa', 'asymm'] if up else ['so', 'si', 'sa', 'asymm']


def conserving(o):
    return len(o['u']) == len(o['l']) and sum(s.isupper() for s, _ in o['u']) == sum(s.isupper() for s, _ in o['l'])


def counterorder(inp, rng):
    pool, out = inp['pool'], []
    cs, cost = [], []
    for o in pool:
        c = Counter(s for s, _ in o['u'] + o['l'])
        cs.append(dict(c))
        g = lambda q: sum(v for k, v in c.items() if k.lower() in q)
        cost.append([g('vpgcha'), g('vpg'), g('ch'), g('a')])
    low = [Counter(s.lower() for s, _ in o['u'] + o['l']) for o in pool]
    out.append(order_event('counter', [MOSpaceCounter(c) for c in cs], [str(sorted(c.items())) for c in low], rng, pre=True, hashes=False, cost=cost))
    return out


def order(inp, rng):
    pool = inp['pool']
    out = []
    ls = [x for o in pool for x in o['u'] + o['l']][:7]
    idx = [Index(f'{s}{"0" * rng.choice([0, 0, 1])}{k}') for s, k in ls]
    out.append(order_event('index', idx, [str(x) for x in ls], rng, lab=ls))
    it = rng.choice(kinds_for(pool))
    out.append(order_event('indices', [Indices.make_indices(nm(o['u']), it) for o in pool], [str(o['u']) for o in pool], rng))
    uls = [str([o['u'], o['l']]) for o in pool]
    out.append(order_event('pair', [IndicesPair(nm(o['u']), nm(o['l']), it) for o in pool], uls, rng))
    out.append(order_event('operator', [SQ(nm(o['u']), nm(o['l']), it) for o in pool], uls, rng))
    pri = {'H': 0, 'T': 1, 'L': 2}
    ten = [Tensor(nm(o['u']), nm(o['l']), it, o['n'], pri[o['n']]) for o in pool]
    tk = [str([o['n'], o['u'], o['l']]) for o in pool]
    out.append(order_event('tensor', ten, tk, rng))
    # terms with one or two tensors; the operator closes what is left open
    ts, ks = [], []
    for o, t in zip(pool, ten):
        if set(map(tuple, o['u'])) & set(map(tuple, o['l'])):
            continue
        m = (o['c'] + len(o['u'])) % 3
        l, u = nm(o['l']), nm(o['u'])
        if m == 0:
            fs, op = [t], (l, u)
        elif m == 1:
            fs, op = [t, Tensor(l, u, it, 'X', 0)], ([], [])
        else:
            fs, op = [t, Tensor(l[:1], u[:1], it, 'X', 1)], (l[1:], u[1:])
        ts.append(Term(fs, SQ(op[0], op[1], it), COEF[o['c']]))
        ks.append(str([m, o['n'], o['u'], o['l'], o['c']]))
    if ts:
        out.append(order_event('term', ts, ks, rng))
    out.extend(counterorder(inp, rng))
    return out


def blocks(q, b, rng):
    d = {}
    for x, k in zip(q, b):
        d.setdefault(k, []).append(x)
    out = [d[k] for k in sorted(d)]
    for x in out:
        if rng.random() < 0.3:
            rng.shuffle(x)
    if rng.random() < 0.5:
        rng.shuffle(out)
    return out or [[]]


def parse_groups(s):
    out = []
    for g in re.findall(r'\\cal P\} \((.*?)\)', s):
        out.append([[[x[0], int(x[1])] for x in re.findall(r'([a-zA-Z])_\{(\d+)\}', b)] for b in g.split('/')])
    return out


def split_labels(s):
    return [] if s == '' else [[x[0], int(x[1:])] for x in s.split(',')]


def reorder(inp, rng):
    out = []
    for o in inp['pool']:
        u, l, it = o['u'], o['l'], rng.choice(kinds_for([o]))
        base = {'exc': '', 'it': it, 'u': u, 'l': l, 'ou': [], 'ol': [], 'sign': 0, 'same': True}
        e = dict(base, ev='canon', l=[], what='indices')
        try:
            a = Indices.make_indices(nm(u), it)
            r, s = a.canonicalize()
            e.update(ou=labs(r), sign=s, same=type(r) is type(a))
        except Exception as x:
            e['exc'] = exc_str(x)
        out.append(e)
        kinds = ['pair', 'X'] + (['op'] if it != 'asymm' else []) + ([o['n']] if conserving(o) and o['n'] != 'T' else [])
        w = rng.choice(kinds)
        e = dict(base, ev='canon', what=w)
        try:
            if w == 'pair':
                a = IndicesPair(nm(u), nm(l), it)
            elif w == 'op':
                a = SQ(nm(u), nm(l), it)
            elif w == 'X':
                a = Tensor(nm(u), nm(l), it, 'X', 5)
            else:
                a = Tensor.make_tensor(w, nm(u), nm(l), it)
            r, s = a.canonicalize()
            same = type(r) is type(a) and r.indices_type is a.indices_type
            if w not in ('pair', 'op'):
                same = same and r.name == a.name and r.priority == a.priority
            e.update(ou=labs(r.upper_indices), ol=labs(r.lower_indices), sign=s, same=same)
        except Exception as x:
            e['exc'] = exc_str(x)
        out.append(e)
        # counting permutations between two orders
        v = [x for x in u]
        rng.shuffle(v)
        e = dict(base, ev='count', ou=v, out=-1)
        try:
            e['out'] = Indices.make_indices(nm(u), it).count_permutations(Indices.make_indices(nm(v), it))
        except Exception as x:
            e['exc'] = exc_str(x)
        out.append(e)
        if max(len(u), len(l)) > 5:
            continue
        # permutation formats
        pu, pl = blocks(u, o['bu'], rng), blocks(l, o['bl'], rng)
        ix = lambda p: [[Index(f'{s}{k}') for s, k in b] for b in p]
        e = dict(base, ev='perm', pu=pu, pl=pl, out=[], num=-1, lnum=-1, exist=False, lgroups=[], lchk=False)
        m = rng.randrange(3)
        try:
            if m == 0:
                a = Indices.make_indices(nm(u), it)
                e.update(l=[], pl=[[]])
                e['out'] = [[s, split_labels(q), []] for s, q in a.ambit_permute_format(ix(pu))]
                e['num'], e['exist'] = a.n_multiset_permutation(ix(pu)), a.exist_permute_format(ix(pu))
                n, st = a.latex_permute_format(ix(pu))
            else:
                a = SQ(nm(u), nm(l), it)
                cf = rng.random() < 0.5
                if m == 1:
                    res = [(s, x, y) for s, x, y in a.permute_indices(ix(pu), ix(pl), cf)]
                    e['out'] = [[s, split_labels(x if cf else y), split_labels(y if cf else x)] for s, x, y in res]
                else:
                    e['out'] = []
                    for s, x in a.ambit_permute_format(ix(pu), ix(pl), cf):
                        q = [z for z in split_labels(','.join(y for y in x[2:-2].split(',') if y))]
                        k = len(u) if cf else len(l)
                        e['out'].append([s, q[:k], q[k:]] if cf else [s, q[k:], q[:k]])
                e['num'], e['exist'] = a.n_multiset_permutation(ix(pu), ix(pl)), a.exist_permute_format(ix(pu), ix(pl))
                n, st, opstr = a.latex_permute_format(ix(pu), ix(pl))
            e['lnum'], e['lgroups'], e['lchk'] = n, parse_groups(st), True
        except Exception as x:
            e['exc'] = exc_str(x)
        out.append(e)
    return out


# ---------------------------------------------------------------- constructors
def text(x):
    return x['s'] + x['d']


def give(row, form):
    t = [text(x) for x in row]
    if form == 'list':
        return t
    if form == 'tuple':
        return tuple(t)
    if form == 'str':
        return ', '.join(t)
    if form == 'index':
        return [Index(x) for x in t]
    if form == 'int':
        return 3
    if form == 'set':
        return set(t)
    if form == 'none':
        return None


def ctor(inp, rng):
    e = dict(inp, ev='ctor', ok=False, same=True, ru=[], rl=[], exc='')
    k = e['k']
    try:
        if k == 'index':
            t = text(e['u'][0])
            r = Index({'str': t, 'int': 3, 'list': [t], 'none': None}[e['form']])
            e.update(ok=True, ru=[lab(r)], same=r.name == t)
        elif k == 'indices':
            r = Indices.make_indices(give(e['u'], e['form']), e['it'])
            ex = {'so': 'IndicesSpinOrbital', 'si': 'IndicesSpinIntegrated', 'sa': 'IndicesSpinAdapted', 'asymm': 'IndicesAntisymmetric'}
            e.update(ok=True, ru=labs(r), same=type(r).__name__ == ex.get(e['it']) and r.size == len(e['u']) and len(r) == r.size and
                     set(r.indices_set) == set(r.indices))
        elif k == 'op':
            r = SQ(give(e['u'], e['form']), give(e['l'], e['form']), e['it'])
            e.update(ok=True, ru=labs(r.cre_ops), rl=labs(r.ann_ops),
                     same=(r.n_cre, r.n_ann, r.n_ops) == (len(e['u']), len(e['l']), len(e['u']) + len(e['l'])))
        elif k == 'tensor':
            a = give(e['u'], e['form']), give(e['l'], e['form']), e['it']
            r = Tensor(*a, name='X', priority=7) if e['n'] == 'X' else Tensor.make_tensor(e['n'], *a)
            cls = {'H': 'HamiltonianTensor', 'T': 'ClusterAmplitude', 'L': 'Cumulant', 'K': 'Kronecker', 'C': 'HoleDensity', 'X': 'Tensor'}
            e.update(ok=True, ru=labs(r.upper_indices), rl=labs(r.lower_indices),
                     same=r.name == e['n'] and type(r).__name__ == cls[e['n']] and r.size == len(e['u']) + len(e['l']))
        elif k == 'term':
            fs = []
            for g in e['fs']:
                u, l = [text(x) for x in g['u']], [text(x) for x in g['l']]
                if g['n'] == 'O':
                    op = SQ(u, l, g['it'])
                else:
                    fs.append(Tensor(u, l, g['it'], 'X', 0) if g['n'] == 'X' else Tensor.make_tensor(g['n'], u, l, g['it']))
            cf = {'one': 1.0, 'half': '0.5', 'int': -2, 'bad': 'x1', 'none': None}[e['coef']]
            r = Term(fs, op, cf)
            gave = sorted([t.name, labs(t.upper_indices), labs(t.lower_indices)] for t in fs)
            got = sorted([t.name, labs(t.upper_indices), labs(t.lower_indices)] for t in r.list_of_tensors)
            al = set(i for t in fs for i in t.indices()) | set(op.indices())
            nxt = all(r.next_index_number[i.space] > i.number for i in al)
            e.update(ok=True, same=gave == got and r.coeff == float(cf) and labs(r.sq_op.cre_ops) == labs(op.cre_ops) and
                     labs(r.sq_op.ann_ops) == labs(op.ann_ops) and r.n_tensors == len(fs) and set(r.indices_set) == al and nxt)
    except Exception:
        e['ok'] = False
    return [e]


def spaces(inp, rng):
    e = dict(inp, exc='')
    try:
        if e['ev'] == 'down':
            e['out'] = Tensor.make_tensor(e['n'], [e['a'] + '0'], [e['b'] + '1'],
                                        rng.choice(['si', 'sa'] if e['a'].isupper() else ['so', 'si', 'sa', 'so'])).downgrade_indices()
        elif e['ev'] == 'find':
            e['out'] = find_space_label(set(e['set']))
        elif e['ev'] == 'counter':
            r = MOSpaceCounter({k: v for k, v in e['cnt']})
            e['parsed'], e['total'] = list(r.parsed_counter), r.overall_scaling
            e['raw'] = {s: r.raw_counter.get(s, 0) for s in 'gphvca'}
    except Exception as x:
        e['exc'] = exc_str(x)
    return [e]


def spacecount(inp, rng):
    import SpaceCounter as SC
    out = []
    pool = inp['pool']
    for o, p in zip(pool, pool[1:] + pool[:1]):
        it = rng.choice(kinds_for([o, p])[:-1])
        e = {'ev': 'spacecount', 'exc': '', 'it': it, 'u': o['u'], 'l': o['l'], 'u2': p['u'], 'l2': p['l'], 'upper': [], 'lower': [], 'tu': [], 'tl': []}
        try:
            a = Tensor(nm(o['u']), nm(o['l']), it, 'X', 0)
            b = SQ(nm(p['u']), nm(p['l']), it) if rng.random() < 0.3 else Tensor(nm(p['u']), nm(p['l']), it, 'Y', 1)
            r = SC.SpaceCounter(a, b)
            t = r.transpose()
            e.update(upper=list(r.upper), lower=list(r.lower), tu=list(t.upper), tl=list(t.lower))
            if (r.n_upper, r.n_lower, r.size) != (sum(r.upper), sum(r.lower), sum(r.upper) + sum(r.lower)):
                e['upper'] = []
        except Exception as x:
            e['exc'] = exc_str(x)
        out.append(e)
    return out


MODE = {'order': order, 'reorder': reorder, 'ctor': ctor, 'spaces': spaces, 'spacecount': spacecount, 'counterorder': counterorder}


def handle(inp):
    mode = inp.pop('mode')
    return MODE[mode](inp, rng_for(inp))


if __name__ == '__main__':
    main(handle)
