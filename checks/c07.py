from checks.gens import terms


def pairs(ctx, kind, n, x, y, z=None, cu=3, full=True, budget=20000):
    """pair the behaviours of two (three) runs of the term generator"""
    def job():
        gs = [terms(ctx, 4 * n, seed=ctx.seed * 1000 + 17 * i + hash_(kind) + cu, **g)() for i, g in enumerate((x, y, z)) if g]
        out = []
        for q in list(zip(*gs))[:n]:
            e = {'kind': kind, 'x': q[0]['a'], 'y': q[1]['a'], 'cu': cu, 'full': full, 'budget': budget}
            if len(q) > 2:
                e['z'] = q[2]['a']
            out.append(e)
        return out
    return job


def hash_(s):
    return sum(map(ord, s)) % 97


ONE = dict(kinds='KOne1', ops='OR11', maxf=1, slots=4)
TWO = dict(kinds='KTwo', ops='OROpen', maxf=1, slots=8)
H2 = dict(kinds='KTwoH', ops='OR22', maxf=1, slots=8)
PROD = dict(kinds='KProd', ops='OROpen', maxf=2, minf=2, slots=8, llinks='FALSE')
SR = dict(labels='LSR')


def bch_calls(ctx):
    out = []
    for un in (False, True):
        for sr in (True, False):
            for lv in ([1], [2], [1, 2]):
                for fc in (True, False):
                    if not sr and 2 in lv and (ctx.quick or un or not fc):
                        continue
                    out.append({'kind': 'bch', 'what': ['nested', 'bch', 'amp'], 'level': 1, 'levels': lv, 'sr': sr, 'unitary': un, 'cu': 2 if sr else 1,
                                'hi': 2 if 2 in lv else 4, 'fc': fc, 'herm': fc})
    for un in (False, True):
        out.append({'kind': 'bch', 'what': ['nested', 'bch'], 'level': 2, 'levels': [1], 'sr': True, 'unitary': un, 'cu': 1, 'hi': 2, 'fc': True, 'herm': True})
    # three levels and mixed amplitudes, level by level; both formulations against each other
    S = {'kind': 'bch', 'direct': False, 'sr': True, 'cu': 1, 'fc': True, 'herm': True}
    out += [dict(S, what=['steps', 'same'], level=3, levels=[1], unitary=True, hi=0, hi0=4), dict(S, what=['steps', 'same'], level=3, levels=[1], unitary=False, hi=4, hi0=6),
            dict(S, what=['steps', 'same'], level=2, levels=[1, 2], unitary=False, hi=2, hi0=4), dict(S, what=['same'], level=2, levels=[1, 2], unitary=True, hi=0, hi0=4)]
    # products of four operators, connected or not
    for fc in (True, False):
        out.append(dict(S, what=['nested'], direct=True, level=3, levels=[1], unitary=True, hi=0, fc=fc, orb=1 if ctx.quick else 2))
    return out


def run(ctx):
    q = ctx.quick
    n = 12 if q else 150
    jobs = []
    for kind in ('contract', 'single'):
        jobs += [pairs(ctx, kind, 2 * n, ONE, ONE, cu=3), pairs(ctx, kind, n, TWO, ONE, cu=2), pairs(ctx, kind, n, ONE, TWO, cu=1),
                 pairs(ctx, kind, n, dict(PROD, **SR), dict(TWO, **SR), cu=1), pairs(ctx, kind, n, PROD, ONE, cu=2)]
    jobs += [pairs(ctx, 'linear', n, ONE, ONE, ONE, cu=2), pairs(ctx, 'linear', n, dict(TWO, **SR), dict(ONE, **SR), dict(TWO, **SR), cu=1),
             pairs(ctx, 'triple', n, ONE, ONE, ONE), pairs(ctx, 'triple', n // 2, dict(TWO, **SR), dict(ONE, **SR), dict(ONE, **SR)),
             pairs(ctx, 'chain', n, TWO, ONE, ONE, cu=1), pairs(ctx, 'chain', n, ONE, ONE, TWO, cu=2)]
    ins = ctx.par(jobs) + bch_calls(ctx)
    ctx.log(len(ins), 'calls')
    ev = ctx.drive('d_comm.py', ins, timeout=800)
    ctx.log(len(ev), 'recorded')
    ctx.validate('CommTrace', ev, timeout=5000)
    ctx.samples = [{k: e[k] for k in ('what', 'prods', 'after')} for e in ev[:2]]
    cnt = {}
    for e in ev:
        cnt[e['what']] = cnt.get(e['what'], 0) + 1
    ctx.cov['calls'] = cnt
    ctx.assume = ['labels of different terms differ', 'every term has at least two open operators', 'operators conserve the particle number']
    return ctx.finish()
