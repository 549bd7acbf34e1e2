from terms import *


def value_event(what, before, after, herm=True, act0=True, exc='', budget=20000, van=False):
    m = pick_model([before] + after, budget)
    return {'ev': 'value', 'what': what, 'before': [before], 'after': after, 'm': m, 'o': opt(herm, act0),
            'exc': exc, 'van': van}


def call(what, inp, rng, fn, herm=True, act0=True):
    t = build_term(inp['a'], rng, itype=inp.get('it', 'so'))
    before = proj(t)
    try:
        r = quiet(fn, t)
        after = [proj(r)]
        return value_event(what, before, after, herm, act0, van=what.startswith('canonicalize') and 'simple' not in what)
    except Timeout:
        raise
    except Exception as x:
        return value_event(what, before, [], herm, act0, exc_str(x))


def simp(t, *a):
    t.simplify(*a)
    return t


def handle(inp):
    mode = inp.get('mode', 'value')
    rng = rng_for(inp)
    out = []
    if mode == 'value':
        out.append(call('canonicalize', inp, rng, lambda t: t.canonicalize()))
        k = rng.randrange(4)
        if k == 0:
            out.append(call('canonicalize without Hermiticity', inp, rng, lambda t: t.canonicalize(hermitian_tensor=False), herm=False))
            out.append(call('simplify keeping active amplitudes', inp, rng, lambda t: simp(t, True, False), act0=False))
        elif k == 1:
            out.append(call('canonicalize_simple', inp, rng, lambda t: t.canonicalize_simple()))
            out.append(call('canonicalize keeping core cumulants', inp, rng, lambda t: t.canonicalize(False)))
        elif k == 2:
            out.append(call('simplify', inp, rng, lambda t: simp(t)))
            out.append(call('canonicalize keeping active amplitudes', inp, rng, lambda t: t.canonicalize(True, False), act0=False))
        else:
            out.append(call('canonicalize_sympy', inp, rng, lambda t: t.canonicalize_sympy(False, False, False), act0=False, herm=False))
            out.append(call('canonicalize_simple keeping core and active', inp, rng, lambda t: t.canonicalize_simple(False, False), act0=False))
    else:
        e = {'ev': 'same', 'exc': '', 'x': [], 'y': []}
        try:
            herm = inp.get('herm', True)
            it = inp.get('it', 'so')
            a = quiet(lambda: build_term(inp['a'], rng, itype=it).canonicalize(hermitian_tensor=herm))
            b = quiet(lambda: build_term(inp['b'], rng, itype=it).canonicalize(hermitian_tensor=herm))
            e['x'], e['y'] = raw(a), raw(b)
            out.append(e)
            if a.is_void() or a.diagonal_indices:
                raise StopIteration
            i = {'ev': 'idem', 'exc': '', 'x': raw(a), 'y': []}
            i['y'] = raw(quiet(lambda: Term.from_term(a).canonicalize(hermitian_tensor=herm)))
            out.append(i)
        except Timeout:
            raise
        except StopIteration:
            pass
        except Exception as x:
            e['exc'] = exc_str(x)
            out.append(e)
    for e in out:
        e['inp'] = inp
    return out


if __name__ == '__main__':
    main(handle)
