"""Contraction paths and optimal cost of a term (C17)."""
from terms import *


def leaves(x, ids):
    if isinstance(x, tuple):
        return leaves(x[0], ids) + leaves(x[1], ids)
    return [ids.get(id(x), 0)]


def tree(x, ids):
    """the sets of tensors merged at the steps of a path"""
    if not isinstance(x, tuple):
        return []
    if len(x) != 2:
        return [[0]]
    return tree(x[0], ids) + tree(x[1], ids) + [sorted(leaves(x, ids))]


def counter(c):
    return [c.overall_scaling] + list(c.parsed_counter)


def handle(inp):
    rng = rng_for(inp)
    e = {'ev': 'cost', 't': [], 'paths': [], 'optc': {'c': [], 'tree': []}, 'opts': {'c': [], 'tree': []}, 'exc': ''}
    try:
        it = 'si' if any(s.isupper() for s in inp['a']['s']) else rng.choice(['so', 'so', 'si', 'sa'])
        term = build_term(inp['a'], rng, itype=it)
        ids = {id(t): i for i, t in enumerate(term.list_of_tensors, 1)}
        e['t'] = [[[i.space, i.number] for i in t.indices()] for t in term.list_of_tensors]
        for c, s, p in term.contraction_paths():
            e['paths'].append({'c': counter(c), 's': counter(s), 'tree': tree(p, ids)})
        (c, p), (s, q) = term.optimal_contraction_cost()
        e['optc'] = {'c': counter(c), 'tree': tree(p, ids)}
        e['opts'] = {'c': counter(s), 'tree': tree(q, ids)}
    except Exception as x:
        e['exc'] = exc_str(x)
    return [e]


if __name__ == '__main__':
    main(handle)
