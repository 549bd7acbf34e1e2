"""Operator constructors (C19)."""
from terms import *
from dsrg_generator.Term import hamiltonian_operator, cluster_operator, diagonal_fock_operator, dyall_hamiltonian, fink_hamiltonian
from dsrg_generator.phys_op_contraction import cluster_operators

CLS = {'so': 'IndicesSpinOrbital', 'si': 'IndicesSpinIntegrated', 'sa': 'IndicesSpinAdapted', 'spin-orbital': 'IndicesSpinOrbital',
       'spin-integrated': 'IndicesSpinIntegrated', 'spin-adapted': 'IndicesSpinAdapted'}


def lab(q):
    return [[i.space, i.number] for i in q]


def rec(t):
    return {'c': rat(t.coeff), 't': [{'n': x.name, 'u': lab(x.upper_indices), 'l': lab(x.lower_indices)} for x in t.list_of_tensors],
            'u': lab(t.sq_op.cre_ops), 'l': lab(t.sq_op.ann_ops)}


def handle(inp):
    e = dict(inp, out=[], exc_='', kindok=True)
    rng = rng_for(inp)
    try:
        k = e['k']
        it = e.get('it', 'so')
        if k == 'ham':
            if rng.random() < 0.5 or e['start'] or CLS[it] != CLS['so']:
                r = [hamiltonian_operator(e['body'], e['start'], it)]
            else:
                r = [hamiltonian_operator(e['body'])]
        elif k == 'amp':
            r = [cluster_operator(e['body'], start=e['start'], excitation=e['exc'], name=e['name'], scale_factor=e['scale'][0] / e['scale'][1],
                                  hole_label=e['hp'][0], particle_label=e['hp'][1], indices_type=it)]
        elif k == 'list':
            r = cluster_operators(e['levels'], e['start'], e['unitary'], e['sr'])
        elif k == 'fock':
            r = diagonal_fock_operator(e['sr'])
        elif k == 'dyall':
            r = dyall_hamiltonian()
        else:
            r = fink_hamiltonian(e['sr'])
        e['out'] = [rec(t) for t in r]
        e['kindok'] = all(t.sq_op.indices_type.__name__ == CLS[it] and all(x.indices_type.__name__ == CLS[it] for x in t.list_of_tensors) for t in r)
    except Exception as x:
        e['exc_'] = exc_str(x)
    return [e]


if __name__ == '__main__':
    main(handle)
