"""Products and commutators of terms (C07)."""
from terms import *
import dsrg_generator.phys_op_contraction as PC
from dsrg_generator.Term import hamiltonian_operator, cluster_operator


def shift(t, k):
    """the same term with numbers shifted, so that labels of different terms differ"""
    mp = {i: Index(f'{i.space}{i.number + k}') for i in t.indices_set}
    ts = [x.from_indices([mp[i] for i in x.upper_indices], [mp[i] for i in x.lower_indices], 'so') for x in t.list_of_tensors]
    return Term(ts, SQ([mp[i] for i in t.sq_op.cre_ops], [mp[i] for i in t.sq_op.ann_ops]), t.coeff)


def product(terms, factor, cu, lo, hi, fc):
    """the specification's product: indices of the lightest tensors first"""
    ids, s = {}, []
    c = Fraction(*factor)
    fac, ops = [], []
    for t in terms:
        r = rat(t.coeff)
        c *= Fraction(r[0], r[1])
    def num(x):
        if x not in ids:
            ids[x] = len(ids) + 1
            s.append(x.space)
        return ids[x]
    tens = [x for t in terms for x in t.list_of_tensors]
    left = tens[:]
    while left:
        b = min(left, key=lambda g: (sum(1 for x in g.indices_set if x not in ids) > 0, g.name == 'H', -sum(1 for x in g.indices_set if x in ids), g.size))
        left.remove(b)
        u, l = [num(i) for i in b.upper_indices], [num(i) for i in b.lower_indices]
        fac.append({'n': b.name, 'u': u, 'l': l, 'k': max(u + l) if u + l else 0})
    for t in terms:
        if t.sq_op.n_ops:
            ops.append({'u': [num(i) for i in t.sq_op.cre_ops], 'l': [num(i) for i in t.sq_op.ann_ops]})
    fac.sort(key=lambda g: g['k'])
    return {'c': [c.numerator, c.denominator], 's': s, 't': fac, 'ops': ops, 'cu': cu, 'lo': lo, 'hi': hi, 'fc': fc}


def ev(what, prods, f, m, o, win=None, inp=None, before=(), fc=False):
    e = {'what': what, 'prods': prods, 'before': list(before), 'after': [], 'm': m, 'o': o, 'win': True, 'exc': '', 'inp': inp, 'fc': fc}
    try:
        r = quiet(f)
        e['after'] = [proj(t) for t in r]
        if win:
            e['win'] = all(win[0] <= t.sq_op.n_ops <= win[1] for t in r)
    except Timeout:
        raise
    except Exception as x:
        e['exc'] = exc_str(x)
    return e


def neg(p):
    return dict(p, c=[-p['c'][0], p['c'][1]])


def space_model(terms, rng, budget):
    """orbitals such that a product of the terms has at most budget assignments"""
    sp = [i.space for t in terms for i in t.indices_set]
    ms = [(1, 2, 1), (2, 1, 1), (1, 1, 2), (1, 1, 1)]
    if set(sp) <= {'c', 'v'}:
        ms = [(2, 0, 2), (2, 0, 1), (1, 0, 2)]
    rng.shuffle(ms[:-1])
    for c, a, v in ms:
        m = {'c': c, 'a': a, 'v': v, 'both': False, 'seed': 1}
        if cost({'s': sp}, m) <= budget:
            return m
    return m


def comm(inp):
    rng = rng_for(inp)
    A, B = build_term(inp['x'], rng), shift(build_term(inp['y'], rng), 20)
    n = A.sq_op.n_ops + B.sq_op.n_ops
    cu = inp['cu']
    lo = rng.choice([0, 0, 0, 1, 2])
    hi = max(lo, rng.choice([n, n, n - 2, 2, 4]))
    fac = rng.choice([[1, 1], [-1, 2], [1, 6]])
    herm = rng.random() < 0.7
    fc, eh = rng.random() < 0.6, rng.random() < 0.85
    o = opt(herm=herm)
    m = space_model([A, B], rng, inp['budget'])
    f = fac[0] / fac[1]
    full = inp['full']
    AB, BA = product([A, B], fac, cu, lo, hi, False), neg(product([B, A], fac, cu, lo, hi, False))
    k = inp['kind']
    if k == 'contract':
        return [ev('contract_terms', [dict(AB, fc=fc)],
                   lambda: PC.contract_terms([A, B], cu, hi, lo, f, fc, eh, 1, herm), m, o, (lo, hi), inp)]
    if k == 'single':
        prods = [AB, BA] if full else [dict(AB, fc=True), dict(BA, fc=True)]
        return [ev('single_commutator', prods, lambda: PC.single_commutator(A, B, cu, hi, lo, f, fc, eh, 1, herm), m, o, (lo, hi), inp)]
    if k == 'linear':
        C = shift(build_term(inp['z'], rng), 40)
        n = A.sq_op.n_ops + B.sq_op.n_ops + C.sq_op.n_ops
        L, R = ([A, C], [B]) if rng.random() < 0.5 else ([A], [B, C])
        prods = []
        for x in L:
            for y in R:
                prods += [product([x, y], fac, cu, lo, hi, not full), neg(product([y, x], fac, cu, lo, hi, not full))]
        m = space_model([A, B], rng, inp['budget'])
        return [ev('linear_commutator', prods, lambda: PC.linear_commutator(L, R, f, lo, hi, cu, 1, fc, herm), m, o, (lo, hi), inp)]
    if k == 'triple':
        # [[A, B], C] as four products of three operators; the inner window is open
        C = shift(build_term(inp['z'], rng), 40)
        n = A.sq_op.n_ops + B.sq_op.n_ops + C.sq_op.n_ops
        hi = rng.choice([2, 4, n])
        lo = 0
        one = [1, 1]
        prods = [product([A, B, C], one, 9, lo, hi, False), neg(product([B, A, C], one, 9, lo, hi, False)),
                 neg(product([C, A, B], one, 9, lo, hi, False)), product([C, B, A], one, 9, lo, hi, False)]
        m = space_model([A, B, C], rng, inp['budget'])
        def g():
            r = PC.recursive_single_commutator([A, B, C], [9, 9], [(0, 99), (lo, hi)], fc, eh, 1, herm)
            return r[2]
        return [ev('recursive_single_commutator', prods, g, m, o, (lo, hi), inp)]
    if k == 'chain':
        # level by level: level two is the commutator of the returned level one
        C = shift(build_term(inp['z'], rng), 40)
        w1, w2 = (lo, hi), (0, rng.choice([2, 4]))
        out = []
        try:
            r = quiet(lambda: PC.recursive_single_commutator([A, B, C], [cu, cu], [w1, w2], fc, eh, 1, herm))
        except Timeout:
            raise
        except Exception as x:
            return [dict(ev('recursive_single_commutator', [], lambda: [], m, o, None, inp), exc=exc_str(x))]
        one = [1, 1]
        p1 = [product([A, B], one, cu, lo, hi, not full), neg(product([B, A], one, cu, lo, hi, not full))]
        out.append(ev('recursive level 1', p1, lambda: r[1], m, o, w1, inp))
        p2 = []
        for t in r[1]:
            if t.sq_op.n_ops:
                p2 += [product([t, C], one, cu, *w2, True), neg(product([C, t], one, cu, *w2, True))]
        if len(p2) <= 40:
            m2 = space_model([max(r[1], key=lambda t: len(t.indices_set)), C] if r[1] else [A, C], rng, inp['budget'])
            out.append(ev('recursive level 2', p2, lambda: r[2], m2, o, w2, inp))
        return out


def bch(inp):
    rng = rng_for(inp)
    lv, sr, un, level = inp['levels'], inp['sr'], inp['unitary'], inp['level']
    cu, hi = inp['cu'], inp['hi']
    h, p = ('c', 'v') if sr else ('h', 'p')
    # spaces of the Hamiltonian: the general label covers only core and virtual orbitals when there are none active
    m = {'c': inp.get('orb', 2), 'a': 0, 'v': inp.get('orb', 2), 'both': False, 'seed': 1} if sr else {'c': 1, 'a': inp.get('act', 1), 'v': 1, 'both': False, 'seed': 1}
    H = [hamiltonian_operator(1), hamiltonian_operator(2)]
    def amps(s):
        out = [cluster_operator(k, start=s, hole_label=h, particle_label=p) for k in lv]
        if un:
            out += [cluster_operator(k, start=s, excitation=False, scale_factor=-1.0, hole_label=h, particle_label=p) for k in lv]
        return out
    # [[[H, A], B], ...] / level!: every amplitude stands on one side of what came before
    one = []
    for x in H:
        todo = [([x], 1)]
        for i in range(level):
            todo = [(q, s) for w, s0 in todo for a in amps(10 * (i + 1)) for q, s in ((w + [a], s0), ([a] + w, -s0))]
        one += todo
    nf = 1
    for i in range(level):
        nf *= i + 1
    prods = [product(w, [s, nf], cu, 0, hi, False) for w, s in one] if inp.get('direct', True) else []
    o = opt(herm=inp['herm'])
    fc = inp['fc']
    out = []
    if 'nested' in inp['what']:
        out.append(ev('nested_commutator_cc', prods, lambda: PC.nested_commutator_cc(level, lv, cu, hi, 0, fc, True, sr, un, 1, inp['herm']), m, o, (0, hi), inp, fc=fc))
    if 'bch' in inp['what']:
        wins = [(0, 99)] * (level - 1) + [(0, hi)]
        out.append(ev('bch_cc_rsc', prods, lambda: PC.bch_cc_rsc(level, lv, [cu] * level, wins, fc, True, sr, un, 1, inp['herm'])[level], m, o, (0, hi), inp))
    if 'steps' in inp['what']:
        # level by level: level i is 1/i of the commutator of the returned level i - 1 with the amplitudes
        wins = [(0, inp['hi0'])] * (level - 1) + [(0, hi)]
        r = {}
        def g():
            r.update(PC.bch_cc_rsc(level, lv, [cu] * level, wins, fc, True, sr, un, 1, inp['herm']))
            return r[level]
        last = ev('bch_cc_rsc', [], g, m, o, (0, hi), inp)
        if last['exc']:
            return [last]
        for i in range(1, level + 1):
            ps = []
            for t in r[i - 1]:
                for a in amps(60):
                    if t.sq_op.n_ops:
                        ps += [product([t, a], [1, i], cu, *wins[i - 1], True), neg(product([a, t], [1, i], cu, *wins[i - 1], True))]
            out.append(ev(f'bch_cc_rsc level {i}', ps, lambda: r[i], m, o, wins[i - 1], inp))
    if 'same' in inp['what']:
        # both formulations have the same value when nothing is discarded between the levels
        r = quiet(lambda: PC.bch_cc_rsc(level, lv, [cu] * level, [(0, 99)] * (level - 1) + [(0, hi)], fc, True, sr, un, 1, inp['herm'])[level])
        out.append(ev('nested_commutator_cc and bch_cc_rsc', [], lambda: PC.nested_commutator_cc(level, lv, cu, hi, 0, False, True, sr, un, 1, inp['herm']), m, o, (0, hi), inp,
                      before=[proj(t) for t in r]))
    if 'amp' in inp['what'] and level == 1:
        out.append(ev('linear_commutator_amp', prods, lambda: PC.linear_commutator_amp(H, lv, 1.0, 0, hi, 10, 1, un, cu, fc, sr, inp['herm']), m, o, (0, hi), inp))
    return out


def handle(inp):
    return bch(inp) if inp['kind'] == 'bch' else comm(inp)


if __name__ == '__main__':
    main(handle, limit=300)
