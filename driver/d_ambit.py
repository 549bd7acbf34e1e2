"""Replay: printed ambit code of terms and of lists of terms."""
import io, contextlib
from terms import *
from ambit import program, Unreadable
from dsrg_generator.phys_op_contraction import print_terms_ambit, combine_terms
from dsrg_generator.Indices import IndicesSpinIntegrated


def open_term(term):
    """projection with the open operator as factor Q: annihilators and then creators"""
    t = proj_raw(rat(term.coeff), [(x.name, list(x.upper_indices), list(x.lower_indices)) for x in term.list_of_tensors] +
                 [('Q', list(term.sq_op.ann_ops) + list(term.sq_op.cre_ops), [])])
    if not any(f['n'] == 'Q' for f in t['f']):
        t['f'] = [{'n': 'Q', 'u': [], 'l': [], 'k': 0}] + t['f']
    na, nc = len(term.sq_op.ann_ops), len(term.sq_op.cre_ops)
    return {'t': t, 'na': na, 'nc': nc, 'tgt': f'C{na}' if na == nc else f'C_{na}_{nc}'}


def one_sided(term):
    """each tensor carries open creators in one row and open annihilators in the other"""
    cre, ann = set(term.sq_op.cre_ops), set(term.sq_op.ann_ops)
    for x in term.list_of_tensors:
        u, l = set(x.upper_indices), set(x.lower_indices)
        if (u & cre and l & cre) or (u & ann and l & ann) or (u & cre and u & ann) or (l & cre and l & ann):
            return False
    return True


def usable(term):
    return not term.is_void() and not term.diagonal_indices and one_sided(term) and term.list_of_tensors


def model(ts, budget=1500):
    spin = any(s.isupper() for t in ts for s in t['s'])
    return pick_model(ts, budget)


def event(what, text, terms, names=None, temp=True, keep=False, old=False, factor=(1, 1), fns=(), conj=False, cterms=(), budget=1500, exc='', inp=None):
    e = {'ev': 'ambit', 'what': what, 'prog': [], 'fns': list(fns), 'terms': terms, 'targets': [], 'temp': temp, 'keep': keep,
         'factor': list(factor), 'conj': conj, 'cterms': list(cterms), 'exc': exc, 'bad': '', 'inp': inp}
    seen = {}
    for t in terms:
        seen[t['tgt']] = {'n': t['tgt'], 'na': t['na'], 'nc': t['nc'], 'old': old}
    e['targets'] = list(seen.values())
    e['m'] = model([t['t'] for t in terms], budget)
    e['o'] = dict(opt(act0=False), v=[])
    if not exc:
        try:
            e['prog'] = program(text)
        except Unreadable as x:
            e['bad'] = str(x)[:200]
    return e


def h_term(inp):
    rng = rng_for(inp)
    si = any(s.isupper() for s in inp['a']['s'])
    t = build_term(inp['a'], rng, itype='si' if si else 'so')
    try:
        t = quiet(t.canonicalize)
    except Exception:
        return []       # judged elsewhere
    if not usable(t):
        return []
    out = []
    want = [open_term(t)]
    name = rng.choice(['C', 'C', 'X', 'Heff'])
    want[0]['tgt'] = want[0]['tgt'].replace('C', name)
    for kw in ({}, {'init_temp': False}, {'declared_temp': False}, {'ignore_permutations': False, 'init_temp': True, 'declared_temp': True}):
        try:
            text, exc = t.ambit(name=name, **kw) if name != 'C' or rng.random() < 0.3 else t.ambit(**kw), ''
        except Exception as x:
            text, exc = '', exc_str(x)
        e = event(f'ambit {kw}', text, want, exc=exc, inp=inp)
        if kw == {'init_temp': False}:
            # the caller provides a zero temporary of the right block
            blk = [i.space for i in t.sq_op.ann_ops] + [i.space for i in t.sq_op.cre_ops]
            e['prog'] = [{'op': 'build', 't': 'temp', 'blk': blk}] + e['prog']
        out.append(e)
    try:
        full = program(t.ambit(name=name))
    except Exception:
        return out      # judged above
    for kind, kw in ((1, {'ignore_permutations': True}), (2, {'ignore_permutations': True, 'init_temp': False}), (3, {'init_temp': False, 'declared_temp': False})):
        e = {'ev': 'bare', 'kind': kind, 'full': full, 'bare': [], 'tgt': want[0]['tgt'], 'what': f'ambit {kw}', 'exc': '', 'bad': '', 'prog': [], 'inp': inp}
        try:
            e['bare'] = program(t.ambit(name=name, **kw))
        except Unreadable as x:
            e['bad'] = str(x)[:200]
        except Exception as x:
            e['exc'] = exc_str(x)
        out.append(e)
    return out


def h_list(inp):
    """inp: {'list': [terms]}"""
    ts = []
    for x in inp['list']:
        si = any(s.isupper() for s in x['a']['s'])
        try:
            t = quiet(build_term(x['a'], rng_for(x), itype='si' if si else 'so').canonicalize)
        except Exception:
            continue
        if usable(t):
            ts.append(t)
    try:
        ts = quiet(lambda: combine_terms(ts))
    except Exception:
        return []
    if not ts:
        return []
    rng_for(inp).shuffle(ts)
    want = [open_term(t) for t in ts]
    b, exc = io.StringIO(), ''
    try:
        with contextlib.redirect_stdout(b):
            print_terms_ambit(ts)
    except Exception as x:
        exc = exc_str(x)
    return [event('print_terms_ambit', b.getvalue(), want, exc=exc, inp=inp, budget=600)]


def handle(inp):
    return h_list(inp) if 'list' in inp else h_term(inp)


if __name__ == '__main__':
    main(handle)
