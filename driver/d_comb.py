from terms import *
from dsrg_generator.phys_op_contraction import combine_terms


def key(t):
    """everything but the coefficient, independently of how the library prints or hashes terms"""
    r = raw(t)
    return json.dumps([type(t.sq_op.upper_indices).__name__, [[type(x).__name__] + y for x, y in zip(t.list_of_tensors, r[1])], r[2]])


def kc(ts):
    return [[key(t), rat(t.coeff)] for t in ts]


def is_sorted(r):
    return all(r[i] <= r[i + 1] for i in range(len(r) - 1))


def pool(inp, rng):
    out = []
    for x in inp['pool']:
        t = quiet(lambda: build_term(x['a'], rng).canonicalize())
        if t.is_void():
            continue
        out.append(t)
        # near copies: another amplitude name, one index number changed, upper and lower exchanged
        ts = list(t.list_of_tensors)
        c = rng.randrange(4)
        if c == 0:
            i = rng.randrange(len(ts))
            ts[i] = type(ts[i])(ts[i].upper_indices, ts[i].lower_indices, name='S' + ts[i].name)
            out.append(Term(ts, t.sq_op, t.coeff))
        elif c == 1:
            idx = sorted(t.indices_set)
            a = idx[rng.randrange(len(idx))]
            rep = {i: i for i in idx}
            rep[a] = Index(f'{a.space}{a.number + 10}')
            n2 = {f'{i.space}{i.number}': f'{rep[i].space}{rep[i].number}' for i in idx}
            nm = lambda z: [n2[f'{i.space}{i.number}'] for i in z]
            out.append(Term([x.from_indices(nm(x.upper_indices), nm(x.lower_indices)) for x in ts],
                            SQ(nm(t.sq_op.cre_ops), nm(t.sq_op.ann_ops)), t.coeff))
        elif c == 2 and t.sq_op.n_ops:
            out.append(Term(ts, t.sq_op.clone(hc=True), t.coeff))
    return out


def handle(inp):
    rng = rng_for(inp)
    ps = pool(inp, rng)
    if not ps:
        return []
    ents = [(ps[(i - 1) % len(ps)], c[0] / c[1]) for i, c in inp['h']['q']]

    def fresh(sel):
        return [Term(ents[k][0].list_of_tensors, ents[k][0].sq_op, ents[k][1]) for k in sel]
    out = []
    ref = []
    e = {'ev': 'combine', 'inp': kc(fresh(range(len(ents)))), 'out': [], 'ref': [], 'sorted': True, 'exc': '', 'h': inp['h']}
    try:
        r = quiet(combine_terms, fresh(range(len(ents))))
        e['out'], e['sorted'] = kc(r), is_sorted(r)
        ref = [e['out']]
    except Exception as x:
        e['exc'] = exc_str(x)
    out.append(e)
    # another order and grouping: groups combined first, then their results together
    e2 = dict(e, ref=ref, exc='', out=[], sorted=True)
    try:
        cuts = sorted(inp['h']['cuts']) + [len(ents)]
        parts, a = [], 0
        for b in cuts:
            parts += quiet(combine_terms, fresh([k - 1 for k in inp['h']['perm'][a:b]]))
            a = b
        r = quiet(combine_terms, parts)
        e2['out'], e2['sorted'] = kc(r), is_sorted(r)
    except Exception as x:
        e2['exc'] = exc_str(x)
    out.append(e2)
    return out


if __name__ == '__main__':
    main(handle)
