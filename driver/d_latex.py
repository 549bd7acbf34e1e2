"""Replay: LaTeX forms read back."""
import io, contextlib
from terms import *
from ambit import Unreadable
import latexread as lr
from d_ambit import open_term, usable, one_sided
from dsrg_generator.phys_op_contraction import print_terms_latex, combine_terms

REC = {'ev': 'latex', 'what': '', 'exc': '', 'bad': '', 'flags': [False] * 3, 'want': {}, 'got': {}, 'perm': False}


def got_term(g):
    """printed term as a specification term with the operator as factor Q"""
    def ix(l):
        return [Index(i) for i in l]
    t = proj_raw(g['c'], [(n, ix(u), ix(l)) for n, u, l in g['ts']] + [('Q', ix(g['op'][1]) + ix(g['op'][0]), [])])
    if not any(f['n'] == 'Q' for f in t['f']):
        t['f'] = [{'n': 'Q', 'u': [], 'l': [], 'k': 0}] + t['f']
    row = {x: i for i, x in enumerate(g['op'][1] + g['op'][0], 1)}
    return {'t': t, 'na': len(g['op'][1]), 'nc': len(g['op'][0]),
            'groups': [[[row.get(i, 99) for i in b] for b in p] for p in g['groups']]}


def names(x):
    return [f'{i.space}{i.number}' for i in x]


def h_term(inp):
    rng = rng_for(inp)
    kind = inp.get('itype') or ('si' if any(s.isupper() for s in inp['a']['s']) else 'so')
    t = build_term(inp['a'], rng, itype=kind)
    if rng.random() < 0.8:
        try:
            t = quiet(t.canonicalize)
        except Exception:
            pass
    if t.is_void() or not t.list_of_tensors:
        return []
    out = []
    sided = one_sided(t) and not t.diagonal_indices
    for perm in (True, False):
        if perm and not sided:
            continue
        dol, amp, bs = [rng.random() < 0.5 for _ in range(3)]
        e = dict(REC, what=f'latex(permute_format={perm})', perm=perm, flags=[dol, amp, bs], inp=inp)
        e['want'] = open_term(t)
        e['wraw'] = raw(t)[1:]
        try:
            s = t.latex(dollar=dol, permute_format=perm, delimiter=amp, backslash=bs)
            if not (dol or amp or bs) and perm and t.latex() != s:
                e['bad'] = 'default options differ'
            g = lr.term(s)
            e['got'] = got_term(g)
            e['graw'] = [g['ts'], g['op']]
            e['gflags'] = g['flags']
        except Unreadable as x:
            e['bad'] = str(x)[:200]
        except Exception as x:
            e['exc'] = exc_str(x)
        e['m'] = pick_model([e['want']['t']], 1500)
        e['o'] = dict(opt(act0=False), v=[])
        out.append(e)
    # parts
    for ob in list(t.list_of_tensors) + [t.sq_op]:
        dol = rng.random() < 0.5
        e = {'ev': 'part', 'exc': '', 'bad': '', 'flags': [dol], 'inp': inp}
        e['want'] = [getattr(ob, 'name', 'a') if ob is not t.sq_op else 'a', names(ob.upper_indices), names(ob.lower_indices)]
        try:
            s, d = lr.dollars(ob.latex(dollar=dol))
            e['got'], e['gflags'] = lr.tensor(s), [d]
        except Unreadable as x:
            e['bad'] = str(x)[:200]
        except Exception as x:
            e['exc'] = exc_str(x)
        out.append(e)
    # permutation format of the operator alone, with an arbitrary partition of each row
    if t.sq_op.n_ops and kind == 'so':
        def part(row):
            row, res = list(row), []
            for i in row:
                if res and rng.random() < 0.5:
                    rng.choice(res).append(i)
                else:
                    res.append([i])
            return res or [[]]
        pc, pa = part(t.sq_op.cre_ops), part(t.sq_op.ann_ops)
        e = {'ev': 'opperm', 'exc': '', 'bad': '', 'inp': inp, 'cre': names(t.sq_op.cre_ops), 'ann': names(t.sq_op.ann_ops),
             'pc': [names(b) for b in pc], 'pa': [names(b) for b in pa]}
        try:
            n, ps, os_ = t.sq_op.latex_permute_format(pc, pa)
            e['n'] = n
            g, rest = lr.perms(ps)
            if rest.strip():
                raise Unreadable(ps)
            e['groups'] = g
            e['op'] = lr.tensor(os_)[1:]
        except Unreadable as x:
            e['bad'] = str(x)[:200]
        except Exception as x:
            e['exc'] = exc_str(x)
        out.append(e)
    return out


def h_list(inp):
    ts = []
    for x in inp['list']:
        si = any(s.isupper() for s in x['a']['s'])
        try:
            t = quiet(build_term(x['a'], rng_for(x), itype='si' if si else 'so').canonicalize)
        except Exception:
            continue
        if usable(t):
            ts.append(t)
    if not ts:
        return []
    rng_for(inp).shuffle(ts)
    # equal terms are printed as often as they are given
    e = {'ev': 'list', 'exc': '', 'bad': '', 'inp': inp, 'want': [raw(t) for t in ts], 'envs': []}
    b = io.StringIO()
    try:
        with contextlib.redirect_stdout(b):
            print_terms_latex(ts)
        env = None
        for line in b.getvalue().splitlines():
            if not line.strip():
                continue
            if line.strip() == '\\begin{align}':
                if env is not None:
                    raise Unreadable('nested align')
                env = []
            elif line.strip() == '\\end{align}':
                e['envs'].append(env)
                env = None
            else:
                g = lr.term(line)
                q = got_term(g)
                env.append({'c': g['c'], 'ts': g['ts'], 'op': g['op'], 'groups': q['groups'], 'na': q['na'], 'nc': q['nc'], 'flags': g['flags'],
                            'blk': [i[0] for i in g['op'][1] + g['op'][0]]})
        if env is not None:
            raise Unreadable('open align')
    except Unreadable as x:
        e['bad'] = str(x)[:200]
    except Exception as x:
        e['exc'] = exc_str(x)
    return [e]


def handle(inp):
    return h_list(inp) if 'list' in inp else h_term(inp)


if __name__ == '__main__':
    main(handle)
