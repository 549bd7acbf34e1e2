from common import *
from dsrg_generator.sqop_contraction import compute_operator_contractions
from dsrg_generator.SQOperator import SecondQuantizedOperator as SQ


def build(inp):
    """operators with labels numbered by position; the micro numbering in writing order"""
    ops, num, micro = [], 0, {}
    m = 0
    for o in inp['ops']:
        u = [f'{s}{num + i}' for i, s in enumerate(o['u'])]
        num += len(u)
        l = [f'{s}{num + i}' for i, s in enumerate(o['l'])]
        num += len(l)
        if inp['par'].get('dg'):
            # equal labels in creation and annihilation where the spaces allow it
            free = list(u)
            for i, x in enumerate(l):
                for y in free:
                    if y[0] == x[0]:
                        l[i] = y
                        free.remove(y)
                        break
        ops.append(SQ(u, l))
        for x in u:
            m += 1
            micro['u' + x] = m
        for x in l[::-1]:
            m += 1
            micro['l' + x] = m
    return ops, micro


def project(con, micro):
    s, dens, sq = con
    d = [{'n': t.name, 'u': [micro.get(f'u{i.space}{i.number}', 0) for i in t.upper_indices],
          'l': [micro.get(f'l{i.space}{i.number}', 0) for i in t.lower_indices]} for t in dens]
    return {'s': int(s), 'd': d, 'u': [micro.get(f'u{i.space}{i.number}', 0) for i in sq.cre_ops],
            'l': [micro.get(f'l{i.space}{i.number}', 0) for i in sq.ann_ops]}


def run(inp, n_process=1, batch_size=1):
    ops, micro = build(inp)
    p = inp['par']
    cons = quiet(lambda: [project(c, micro) for b in
                          compute_operator_contractions(ops, p['cu'], p['hi'], p['lo'], p['fc'], p['eh'], n_process, batch_size)
                          for c in b])
    return cons


def handle(inp):
    e = {'ops': inp['ops'], 'par': inp['par'], 'res': [], 'exc': ''}
    try:
        e['res'] = run(inp)
    except Timeout:
        e['exc'] = 'timeout'
    except Exception as x:
        e['exc'] = exc_str(x)
    return e


if __name__ == '__main__':
    main(handle)
