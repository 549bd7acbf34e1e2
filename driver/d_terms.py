"""Replay of operations from terms to terms: spin integration, projections, gradient."""
from terms import *


def ev(what, before, after, m, o, m2=None, o2=None, cnt=-1, blocks=(), flag=True, exc='', inp=None):
    return {'ev': 'value', 'what': what, 'before': before, 'after': after, 'm': m, 'o': o, 'm2': m2 or m, 'o2': o2 or o,
            'cnt': cnt, 'blocks': list(blocks), 'flag': flag, 'exc': exc, 'inp': inp}


def attempt(what, inp, o, f, before=None, **k):
    """f() -> list of Terms"""
    try:
        r = quiet(lambda: list(f()))
        after = [proj(t) for t in r]
        exc = ''
    except Timeout:
        raise
    except Exception as x:
        r, after, exc = [], [], exc_str(x)
    return r, after, exc


# ---------------------------------------------------------------- projections (C16)
def h_project(inp):
    rng = rng_for(inp)
    out = []
    conv = [('expand', 0), ('ddca', 0), ('exc', 0), ('diag', 0)]
    for kind, _ in conv:
        si = any(x.isupper() for x in inp['a']['s'])
        t = build_term(inp['a'], rng, itype='si' if si else 'so')
        op = [g for g in inp['a']['f'] if g['n'] == 'O'][0]
        before = [proj(t)]
        nop = len(op['u']) + len(op['l'])
        sr = rng.random() < 0.4
        start = rng.choice([0, 0, 1, 7])
        if kind == 'expand':
            o = opt(act0=False, k='ddca', c=99, v=99, sr=sr)
            f = lambda: t.expand_composite_indices(sr, start) if start else t.expand_composite_indices(sr)
        elif kind == 'ddca':
            c, v = rng.randrange(0, nop + 1), rng.randrange(0, nop + 1)
            o = opt(act0=False, k='ddca', c=c, v=v, sr=sr)
            f = lambda: t.make_ddca(c, v, sr, start)
        elif kind == 'exc':
            o = opt(k='exc', sr=sr)
            if nop and all(inp['a']['s'][i - 1] in 'aA' for i in op['u'] + op['l']):
                # an all-active operator is not an excitation
                o = opt(k='ddca', c=-1, v=-1)
            f = lambda: [t.make_excitation(sr)]
        else:
            if (len(op['u']), len(op['l'])) != (1, 1):
                continue
            o = opt(k='diag', sr=sr)
            f = lambda: t.make_one_body_diagonal(sr)
        r, after, exc = attempt(kind, inp, o, f)
        blocks, flag, cnt = [], True, -1
        if kind in ('expand', 'ddca'):
            blocks = [[i.space for i in x.sq_op.cre_ops] + [i.space for i in x.sq_op.ann_ops] for x in r]
            flag = all(i.number >= start for x in r for i in x.indices_set)
        elif kind == 'exc':
            cnt = 1 if not exc else -1
            p, h = ('v', 'c') if sr else ('pav', 'hac')
            flag = all(i.space.lower() in p for x in r for i in x.sq_op.cre_ops) and all(i.space.lower() in h for x in r for i in x.sq_op.ann_ops)
        else:
            flag = all(x.is_void() or x.sq_op.cre_ops[0].space == x.sq_op.ann_ops[0].space for x in r)
        m = pick_model(before + after, 6000)
        out.append(ev(kind, before, after, m, o, o2=dict(o, pr=opt()['pr']), cnt=cnt, blocks=blocks, flag=flag, exc=exc, inp=inp))
    return out


# ---------------------------------------------------------------- spin integration (C08)
def lab(x):
    return [x.space, x.number]


def h_spin(inp):
    rng = rng_for(inp)
    t = build_term(inp['a'], rng)
    before = [proj(t)]
    r, after, exc = attempt('spin integration', inp, None, t.generate_spin_cases_naive)
    flag = all('Integrated' in type(x.sq_op.upper_indices).__name__ for x in r)
    m = pick_model(before, 60000, both=True, models=[(2, 2, 1), (1, 2, 1), (1, 1, 1)])
    out = [ev('spin integration', before, after, m, opt(k='cons'), m2=dict(m, both=False), o2=opt(), flag=flag, exc=exc, inp=inp)]
    # spin cases of the parts
    objs = list(t.list_of_tensors) + [t.sq_op]
    for ob in objs:
        u, l = [lab(i) for i in ob.upper_indices], [lab(i) for i in ob.lower_indices]
        cons = rng.random() < 0.6
        e = {'ev': 'spins', 'kind': 'pair', 'u': u, 'l': l, 'cons': cons, 'nb': -1, 'out': [], 'same': True, 'exc': '', 'inp': inp}
        try:
            # tensors that require spin conservation only have conserving cases
            if ob is not t.sq_op:
                cons = e['cons'] = True
            rs = list(ob.generate_spin_cases(cons))
            e['out'] = [[[lab(i) for i in x.upper_indices], [lab(i) for i in x.lower_indices]] for x in rs]
            e['same'] = all(type(x) is type(ob) and getattr(x, 'name', '') == getattr(ob, 'name', '') for x in rs)
        except Exception as x:
            e['exc'] = exc_str(x)
        out.append(e)
        if len(u) <= 4:
            nb = rng.choice([-1] + list(range(len(u) + 1)))
            e = {'ev': 'spins', 'kind': 'list', 'u': u, 'l': [], 'cons': False, 'nb': nb, 'out': [], 'same': True, 'exc': '', 'inp': inp}
            try:
                rs = list(ob.upper_indices.generate_spin_cases() if nb < 0 else ob.upper_indices.generate_spin_cases(nb))
                e['out'] = [[lab(i) for i in x] for x in rs]
            except Exception as x:
                e['exc'] = exc_str(x)
            out.append(e)
    return out


# ---------------------------------------------------------------- gradient (C20)
def h_grad(inp):
    rng = rng_for(inp)
    names = labels(inp['a'], rng)
    t = build_term(inp['a'], names=names, itype='si' if any(x.isupper() for x in inp['a']['s']) else 'so')
    before = []
    for i, g in enumerate(inp['a']['f']):
        if g['n'] in ('T', 'S'):
            fs = [(h['n'], [Index(names[x]) for x in h['u']], [Index(names[x]) for x in h['l']])
                  for j, h in enumerate(inp['a']['f']) if j != i and h['n'] != 'O']
            fs.append(('O', [Index(names[x]) for x in g['l']], [Index(names[x]) for x in g['u']]))
            before.append(proj_raw(inp['a']['c'], fs))
    r, after, exc = attempt('gradient', inp, None, t.gradient_t)
    m = pick_model(before + after, 20000)
    return [ev('gradient', before, after, m, opt(), cnt=len(before), exc=exc, inp=inp)]


# ---------------------------------------------------------------- singlet adaptation (C09)
def binom(n, k):
    r = 1
    for i in range(k):
        r = r * (n - i) // (i + 1)
    return r


def h_singlet(inp):
    rng = rng_for(inp)
    names = labels(inp['a'], rng)
    out = []
    fs = [(g['n'], [Index(names[i]) for i in g['u']], [Index(names[i]) for i in g['l']]) for g in inp['a']['f']]
    before0 = proj_raw(inp['a']['c'], fs)
    op = [g for g in inp['a']['f'] if g['n'] == 'O'][0]
    k, nb = len(op['u']), sum(1 for i in op['u'] if inp['a']['s'][i - 1].isupper())
    # with an open operator the adapted terms stand for one of the orderings of its spins
    n = binom(k, nb) ** 2
    for g in inp['a']['f']:
        if g['n'] in 'KLC' and len(g['u']) == 1:
            # both ends on one row: repeats an index once the delta is removed, which spin-adapted lists cannot hold
            for h in inp['a']['f']:
                if h is not g and {g['u'][0], g['l'][0]} <= set(h['u'] + h['l']):
                    return []
    if nb != sum(1 for i in op['l'] if inp['a']['s'][i - 1].isupper()):
        return []
    for maj in (True, False):
        t = build_term(inp['a'], names=names, itype='si')
        before = [dict(before0, c=[before0['c'][0], before0['c'][1] * n])]
        what = f'singlet adaptation (alpha_major={maj})'
        r, after, exc = attempt(what, inp, None, lambda: t.generate_singlet_adaptation(maj) if rng.random() < 0.7 or not maj
                                else t.generate_singlet_adaptation())
        flag = all(type(x.sq_op.upper_indices).__name__ == 'IndicesSpinAdapted' for x in r)
        if before0['s'] and not set(''.join(before0['s']).lower()) - set('cv'):
            models = [(2, 0, 2), (2, 0, 1), (1, 0, 1)]
        else:
            models = [(2, 2, 2), (1, 2, 2), (2, 2, 1), (1, 2, 1), (2, 1, 1), (1, 1, 1)]
        for c, a, v in models:
            m = {'c': c, 'a': a, 'v': v, 'both': False, 'seed': 1}
            if sum(cost(x, m) for x in after) <= 4000:
                break
        out.append(ev(what, before, after, m, opt(sp='singlet'), o2=opt(sp='free'), flag=flag, exc=exc, inp=inp))
    return out


def h_adapt(inp):
    """one pair of index lists"""
    rng = rng_for(inp)
    t = build_term(inp['a'], rng, itype='si')
    out = []
    for ob in list(t.list_of_tensors) + [t.sq_op]:
        if ob.size == 0 or ob.upper_indices.n_beta() != ob.lower_indices.n_beta():
            continue
        labs = list(ob.upper_indices) + list(ob.lower_indices)
        new = {}
        for i in labs:
            if i not in new:
                new[i] = Index(f'{i.space.lower()}{50 + len(new)}')
        num = {v: v.number for v in new.values()}
        for maj in (True, False):
            e = {'ev': 'adapt', 'u': [num[new[i]] for i in ob.upper_indices], 'l': [num[new[i]] for i in ob.lower_indices],
                 'beta': [num[new[i]] for i in new if i.is_beta()], 'out': [], 'exc': '', 'inp': inp}
            try:
                e['out'] = [[s, [num[i] for i in u], [num[i] for i in l]] for s, u, l in ob.generate_singlet_adaptation(new, maj)]
            except Exception as x:
                e['exc'] = exc_str(x)
            out.append(e)
    return out


def handle(inp):
    return {'singlet': lambda x: h_singlet(x) + h_adapt(x), 'project': h_project, 'spin': h_spin, 'grad': h_grad}[inp['mode']](inp)


if __name__ == '__main__':
    main(handle)
