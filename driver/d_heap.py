"""Replay: histories of calls on shared objects."""
import io, contextlib
from terms import *
from dsrg_generator.Indices import Indices
from dsrg_generator.phys_op_contraction import (combine_terms, contract_terms, single_commutator, categorize_contractions,
                                                print_terms_latex, print_terms_ambit)
from dsrg_generator.sqop_contraction import compute_operator_contractions


def nm(i):
    return f'{i.space}{i.number}'


def snap(x):
    """everything a caller can observe of an object, as text"""
    if isinstance(x, Term):
        return ' '.join(['Term', repr(x.coeff)] + [snap(t) for t in x.list_of_tensors] +
                        [snap(x.sq_op), str(sorted(map(nm, x.indices_set))), str(sorted((nm(k) for k in x.diagonal_indices))), str(x.n_tensors)])
    if isinstance(x, Tensor):
        return f'{type(x).__name__} {x.name} {x.n_body} {snap(x.upper_indices)} {snap(x.lower_indices)} {x.size}'
    if isinstance(x, SQ):
        return f'SQ {snap(x.upper_indices)} {snap(x.lower_indices)} {x.n_ops} {x.n_cre} {x.n_ann}'
    if isinstance(x, Indices):
        return f'{type(x).__name__}[{",".join(nm(i) for i in x.indices)}|{x.size}|{",".join(sorted(map(nm, x.indices_set)))}]'
    if isinstance(x, Index):
        return f'Index {nm(x)} {x.name}'
    if isinstance(x, (list, tuple)):
        return '[' + '; '.join(snap(i) for i in x) + ']'
    if isinstance(x, dict):
        return '{' + '; '.join(f'{snap(k)}: {snap(v)}' for k, v in x.items()) + '}'
    if isinstance(x, float):
        return repr(x)
    return str(x)


def fresh(x):
    """an equal object made from scratch"""
    if isinstance(x, Term):
        y = Term([fresh(t) for t in x.list_of_tensors], fresh(x.sq_op), x.coeff)
        order = {snap(t): n for n, t in reversed(list(enumerate(x.list_of_tensors)))}
        if len(y.list_of_tensors) == len(x.list_of_tensors):
            y.list_of_tensors.sort(key=lambda t: order.get(snap(t), 0))
        return y
    if isinstance(x, Tensor):
        return x.__class__(fresh(x.upper_indices), fresh(x.lower_indices)) if type(x).__name__ in ('Cumulant', 'HoleDensity', 'Kronecker') \
            else x.__class__(fresh(x.upper_indices), fresh(x.lower_indices), name=x.name)
    if isinstance(x, SQ):
        return SQ(fresh(x.upper_indices), fresh(x.lower_indices))
    if isinstance(x, Indices):
        return type(x)([nm(i) for i in x.indices])
    return x


def printed(f, ts):
    b = io.StringIO()
    with contextlib.redirect_stdout(b):
        f(ts)
    return b.getvalue()


def interleaved(ind):
    """two walks over one list with calls in between"""
    out = []
    for i in ind:
        out.append(nm(i))
        ind.latex()
        hash(ind)
        for j in ind:
            out.append(nm(j))
    return out


def parts(t):
    return [t.sq_op, t.sq_op.upper_indices] + t.list_of_tensors[:2] + [x.lower_indices for x in t.list_of_tensors[:1]]


def pick(t, salt):
    ps = t.list_of_tensors + [t.sq_op]
    return ps[salt % len(ps)]


OPS = {
    'copy': lambda t, u, k: Term.from_term(t),
    'flip': lambda t, u, k: Term.from_term(t, flip_sign=True),
    'hc': lambda t, u, k: Term.from_term(t, hc=True),
    'void': lambda t, u, k: t.void(),
    'share': lambda t, u, k: Term(t.list_of_tensors, t.sq_op, 2 * t.coeff),
    'latex': lambda t, u, k: [t.latex(), t.latex(True, False, True, True)],
    'ambit': lambda t, u, k: [t.ambit(), t.ambit('X', True), t.ambit('X', False, False)],
    'perm': lambda t, u, k: list(t.perm_partition_open()),
    'spin': lambda t, u, k: list(t.generate_spin_cases_naive()),
    'exc': lambda t, u, k: t.make_excitation(k % 2 == 0),
    'diag': lambda t, u, k: list(t.make_one_body_diagonal(k % 2 == 0)) if t.sq_op.n_cre == t.sq_op.n_ann == 1 else None,
    'ddca': lambda t, u, k: list(t.make_ddca(1, 1, k % 2 == 0)),
    'expand': lambda t, u, k: list(t.expand_composite_indices(k % 2 == 0)),
    'grad': lambda t, u, k: list(t.gradient_t()) if t.sq_op.is_empty() else None,
    'paths': lambda t, u, k: [str(x) for x in t.contraction_paths()] if 0 < t.n_tensors < 4 else None,
    'cost': lambda t, u, k: str(t.optimal_contraction_cost()) if 0 < t.n_tensors < 4 else None,
    'hash': lambda t, u, k: [hash(t) == hash(Term.from_term(t)), t.hash_term()],
    'parts': lambda t, u, k: parts(t),
    'part_canon': lambda t, u, k: list(pick(t, k).canonicalize()),
    'part_clone': lambda t, u, k: [pick(t, k).clone(), pick(t, k).clone(hc=True), pick(t, k).upper_indices.clone()],
    'part_spin': lambda t, u, k: list(pick(t, k).generate_spin_cases(False) if pick(t, k) is t.sq_op else pick(t, k).generate_spin_cases()),
    'part_text': lambda t, u, k: [pick(t, k).latex(), pick(t, k).ambit(), str(pick(t, k).diagonal_indices())],
    'iter': lambda t, u, k: [interleaved(pick(t, k).upper_indices), [nm(a) + nm(b) for a, b in zip(pick(t, k).lower_indices, pick(t, k).lower_indices)]],
    'singlet': lambda t, u, k: list(t.generate_singlet_adaptation()),
    'opspin': lambda t, u, k: list(t.sq_op.generate_spin_cases(True)),
    'cmp': lambda t, u, k: [t == u, t != u, t < u, t <= u, t > u, t >= u, t.almost_equal(u)],
    'combine': lambda t, u, k: combine_terms([t, u, t] if k % 2 else [t, Term.from_term(t, flip_sign=True), u]),
    'contract': lambda t, u, k: contract_terms([t, u], max_cu=2, max_n_open=4) if t.indices_set.isdisjoint(u.indices_set) else None,
    'comm': lambda t, u, k: single_commutator(t, u, max_cu=2, max_n_open=4) if t.indices_set.isdisjoint(u.indices_set) else None,
    'print': lambda t, u, k: [printed(print_terms_latex, [t, u]), printed(print_terms_ambit, [t, u]), categorize_contractions([t, u])],
    'wick': lambda t, u, k: [sorted(snap(c) for b in compute_operator_contractions([t.sq_op, u.sq_op], 2, 4, 0, k % 2 == 0) for c in b)]
    if not t.sq_op.is_empty() and not u.sq_op.is_empty() and t.indices_set.isdisjoint(u.indices_set) else None,
    'add': lambda t, u, k: [t.sq_op.upper_indices + u.sq_op.lower_indices, t.sq_op.upper_indices.any_overlap(u.sq_op.upper_indices)],
    'canon': lambda t, u, k: t.canonicalize(),
    'canonNH': lambda t, u, k: t.canonicalize(hermitian_tensor=False),
    'simple': lambda t, u, k: t.canonicalize_simple(),
    'sympy': lambda t, u, k: t.canonicalize_sympy(),
    'simplify': lambda t, u, k: t.simplify(),
}
REWRITE = {'canon', 'canonNH', 'simple', 'sympy', 'simplify'}


def call(op, t, u, k):
    try:
        return quiet(lambda: OPS[op](t, u, k)), None
    except Timeout:
        raise
    except Exception as x:
        return None, type(x).__name__


def terms_in(r):
    if isinstance(r, Term):
        return [r]
    if isinstance(r, (list, tuple)):
        return [y for x in r for y in terms_in(x)]
    return []


def only_terms(r):
    return isinstance(r, Term) or isinstance(r, (list, tuple)) and all(only_terms(x) for x in r)


def objs_in(r):
    if isinstance(r, (Term, Tensor, SQ, Indices)):
        return [r]
    if isinstance(r, (list, tuple)):
        return [y for x in r for y in objs_in(x)]
    return []


def handle(inp):
    rng = rng_for(inp)
    terms, pool, out = [], [], []
    seen = set()

    def keep(x):
        if id(x) in seen or len(pool) > 40:
            return
        seen.add(id(x))
        pool.append(x)

    for k, a in enumerate(inp['base']):
        per, names = {}, {}
        for i, s in enumerate(a['a']['s'], 1):
            per[s] = per.get(s, 0) + 1
            names[i] = f'{s}{10 * k + per[s] - 1}'
        si = any(s.isupper() for s in a['a']['s'])
        t = build_term(a['a'], names=names, itype='si' if si else 'so')
        terms.append(t)
        keep(t)
        for x in t.list_of_tensors + [t.sq_op, t.sq_op.lower_indices]:
            keep(x)
    for n, st in enumerate(inp['h']):
        op = st['o']
        t, u = terms[(st['a'] - 1) % len(terms)], terms[(st['b'] - 1) % len(terms)]
        k = rng.randrange(6)
        ft = fresh(t)
        fu = ft if u is t else fresh(u)
        before = [snap(x) for x in pool]
        own0 = proj(t)
        # densities of core or virtual labels vanish; they do not occur in what the library takes
        lam_ok = not any(i.space.lower() in 'cv' for g in t.list_of_tensors if g.name in ('L', 'C') for i in list(g.upper_indices) + list(g.lower_indices))
        # terms with a repeated label are outside what the library handles
        diag = bool(t.diagonal_indices or ft.diagonal_indices)
        if diag or u.diagonal_indices or fu.diagonal_indices:
            continue
        r, exc = call(op, t, u, k)
        rr, rexc = call(op, ft, fu, k)
        after = [snap(x) for x in pool]
        e = {'ev': 'call', 'op': op, 'self': next((i for i, x in enumerate(pool, 1) if x is t), 0) if op in REWRITE else 0,
             'before': before, 'after': after, 'kinds': [type(x).__name__ for x in pool],
             'out': f'{exc} {snap(r)}', 'ref': f'{rexc} {snap(rr)}', 'own': [], 'alt': [], 'inp': inp, 'step': n}
        if op == 'simplify':
            e['out'], e['ref'] = str(exc), str(rexc)
        if e['self'] and not exc and not t.diagonal_indices and lam_ok and before[e['self'] - 1] != after[e['self'] - 1]:
            e['own'] = [own0, proj(t)]
            e['m'] = pick_model(e['own'], 3000)
            e['o'] = opt()
        if e['out'] != e['ref'] and not exc and not rexc and only_terms(r) and only_terms(rr):
            # set order may lead to another form of the same terms
            a, b = [[proj(x) for x in terms_in(y) if not x.is_void()] for y in (r, rr)]
            e['alt'] = [a, b]
            e['m'] = pick_model(a + b, 3000) if a + b else {'c': 1, 'a': 1, 'v': 1, 'both': False, 'seed': 1}
            e['o'] = opt()
        out.append(e)
        for x in terms_in(r)[:3]:
            if not x.is_void() and len(terms) < 14 and len(x.list_of_tensors) < 5:
                terms.append(x)
        for x in objs_in(r)[:6]:
            keep(x)
            if isinstance(x, Term):
                for y in x.list_of_tensors[:2] + [x.sq_op]:
                    keep(y)
    return out


if __name__ == '__main__':
    main(handle)
