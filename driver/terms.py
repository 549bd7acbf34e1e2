"""Build library terms from specification terms and project library terms back."""
import random, hashlib, json
from common import *
from dsrg_generator.Index import Index
from dsrg_generator.Tensor import Tensor, ClusterAmplitude, HamiltonianTensor
from dsrg_generator.SQOperator import SecondQuantizedOperator as SQ
from dsrg_generator.Term import Term

# a second amplitude and a second Hamiltonian
OTHER_NAMES = {'S': ClusterAmplitude, 'V': HamiltonianTensor}
SEED = int(os.environ.get('VERIF_SEED', '1'))


def rng_for(x, salt=''):
    return random.Random(hashlib.md5((json.dumps(x, sort_keys=True) + f'{SEED}{salt}').encode()).hexdigest())


def labels(t, rng=None):
    """names for indices 1..n: numbers distinct within a space, in random order"""
    names, per = {}, {}
    for i, s in enumerate(t['s'], 1):
        per.setdefault(s, []).append(i)
    for s, idx in per.items():
        nums = list(range(len(idx)))
        if rng is not None:
            if rng.random() < 0.5:
                nums = rng.sample(range(0, len(idx) + rng.choice([0, 3, 12])), len(idx))
        for i, n in zip(idx, nums):
            names[i] = f'{s}{n}'
    return names


def build_tensor(g, names, itype='so'):
    kind = OTHER_NAMES.get(g['n'])
    if kind:
        return kind([names[i] for i in g['u']], [names[i] for i in g['l']], itype, name=g['n'])
    return Tensor.make_tensor(g['n'], [names[i] for i in g['u']], [names[i] for i in g['l']], itype)


def build_term(t, rng=None, names=None, itype='so'):
    names = names or labels(t, rng)
    ts = [build_tensor(g, names, itype) for g in t['f'] if g['n'] != 'O']
    o = [g for g in t['f'] if g['n'] == 'O'][0]
    sq = SQ([names[i] for i in o['u']], [names[i] for i in o['l']], itype)
    return Term(ts, sq, t['c'][0] / t['c'][1])


def raw(term):
    """exact printed structure: [coeff, tensors, operator]"""
    return [rat(term.coeff), [[t.name, [f'{i.space}{i.number}' for i in t.upper_indices],
                               [f'{i.space}{i.number}' for i in t.lower_indices]] for t in term.list_of_tensors],
            [[f'{i.space}{i.number}' for i in term.sq_op.cre_ops], [f'{i.space}{i.number}' for i in term.sq_op.ann_ops]]]


def proj(term, probe='O'):
    return proj_raw(rat(term.coeff), [(t.name, list(t.upper_indices), list(t.lower_indices)) for t in term.list_of_tensors] +
                    ([(probe, list(term.sq_op.cre_ops), list(term.sq_op.ann_ops))] if probe else []))


def proj_raw(coeff, factors):
    """factors: [(name, uppers, lowers)] of Index; indices numbered so that factors complete early"""
    fac = []
    for n, u, l in factors:
        if len(u) + len(l) == 0 and n == 'O':
            continue
        fac.append((n, [(i.space, i.number) for i in u], [(i.space, i.number) for i in l]))
    order, spaces, left, out = {}, [], fac[:], []
    while left:
        best = min(left, key=lambda g: (sum(1 for x in set(g[1] + g[2]) if x not in order), g[0] not in 'KLC', len(g[1])))
        left.remove(best)
        for x in best[1] + best[2]:
            if x not in order:
                order[x] = len(order) + 1
                spaces.append(x[0])
        u, l = [order[x] for x in best[1]], [order[x] for x in best[2]]
        out.append({'n': best[0], 'u': u, 'l': l, 'k': max(u + l) if u + l else 0})
    out.sort(key=lambda g: g['k'])
    return {'c': coeff, 's': spaces, 'f': out}


def cost(t, m):
    n = {'c': m['c'], 'a': m['a'], 'v': m['v'], 'h': m['c'] + m['a'], 'p': m['a'] + m['v'], 'g': m['c'] + m['a'] + m['v']}
    p = 1
    for s in t['s']:
        p *= n[s.lower()] * (2 if m.get('both') else 1)
    return p


MODELS = [(2, 2, 2), (2, 1, 2), (2, 2, 1), (1, 2, 2), (1, 2, 1), (2, 1, 1), (1, 1, 2), (1, 1, 1)]
MODELS_SR = [(3, 0, 3), (3, 0, 2), (2, 0, 2), (2, 0, 1), (1, 0, 1)]
MODELS_A = [(1, 3, 1), (1, 2, 1), (1, 1, 1)]


def rows_fit(t, m):
    """every antisymmetric row can be filled with different orbitals"""
    n = {'c': m['c'], 'a': m['a'], 'v': m['v'], 'h': m['c'] + m['a'], 'p': m['a'] + m['v'], 'g': m['c'] + m['a'] + m['v']}
    k = 2 if m.get('both') else 1
    for g in t['f']:
        for row in (g['u'], g['l']):
            if len(row) < 2:
                continue
            sp = [t['s'][i - 1].lower() for i in row]
            if g['n'] == 'L':
                sp = ['a'] * len(sp)
            for cls, lab in (('c', 'c'), ('a', 'a'), ('v', 'v'), ('h', 'hca'), ('p', 'pav'), ('g', 'ghpcav')):
                if sum(1 for s in sp if s in lab) > k * n[cls]:
                    return False
    return True


ALL_MODELS = sorted(((c, a, v) for c in range(1, 4) for a in range(0, 4) for v in range(1, 4)), key=lambda x: (sum(x), min(x)))


def pick_model(ts, budget=30000, rng=None, both=False, models=None):
    """a large model whose assignment count is within budget and in which no row is too long for its spaces"""
    sp = set(s.lower() for t in ts for s in t['s'])
    if models is None:
        if sp <= {'c', 'v'}:
            models = MODELS_SR
        elif sp <= {'a'}:
            models = [(0, 4, 0), (0, 3, 0), (0, 2, 0)]
        else:
            models = MODELS
    first = None
    for c, a, v in models:
        m = {'c': c, 'a': a, 'v': v, 'both': both, 'seed': 1}
        if all(cost(t, m) <= budget for t in ts):
            if all(rows_fit(t, m) for t in ts):
                return m
            first = first or m
    if first is None:
        first = m
    act = bool(sp & set('ahpg'))
    best = None
    for c, a, v in ALL_MODELS:
        if act and a == 0:
            continue
        m = {'c': c, 'a': a, 'v': v, 'both': both, 'seed': 1}
        if all(rows_fit(t, m) for t in ts):
            k = max(cost(t, m) for t in ts)
            if k <= 4 * budget and (best is None or k < best[0]):
                best = (k, m)
    return best[1] if best else first


def opt(herm=True, act0=True, k='all', c=99, v=99, sr=False, sp='so'):
    return {'herm': herm, 'act0': act0, 'sp': sp, 'pr': {'k': k, 'c': c, 'v': v, 'sr': sr}}
