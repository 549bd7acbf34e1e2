"""Pools under a chosen schedule (C03): multiprocessing.Pool is replaced by a pool that completes chunks in the order
the specification chose, with arguments and results passed through pickle as between processes; some runs use real pools."""
import pickle, itertools, multiprocessing
from terms import *
import d_wick, d_comm
import dsrg_generator.phys_op_contraction as PC
import dsrg_generator.sqop_contraction as SC

REAL = multiprocessing.Pool
REC, PICKS = [], [0]


class Handle:
    def __init__(self, v):
        self.v = v

    def get(self, timeout=None):
        return self.v

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        return True


class FakePool:
    def __init__(self, processes=None, *a, **k):
        self.w = processes or multiprocessing.cpu_count()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass
    join = terminate = close

    def _run(self, func, it, chunksize, star=False, ordered=True):
        it = iter(it)
        chunksize = max(1, chunksize or 1)
        rec = {'workers': self.w, 'tasks': 0, 'sizes': [], 'order': [], 'ran': 0}
        REC.append(rec)
        chunks = []
        while True:
            c = tuple(itertools.islice(it, chunksize))
            if not c:
                break
            chunks.append(pickle.dumps((func, c)))
            rec['sizes'].append(len(c))
            rec['tasks'] += len(c)
        order, running, nxt, k = [], [], 0, 0
        while len(order) < len(chunks):
            while nxt < len(chunks) and len(running) < self.w:
                running.append(nxt)
                nxt += 1
            order.append(running.pop(PICKS[k % len(PICKS)] % len(running)))
            k += 1
        rec['order'] = [i + 1 for i in order]
        results = {}

        def one(i):
            f, c = pickle.loads(chunks[i])
            out = []
            for x in c:
                rec['ran'] += 1
                out.append(f(*x) if star else f(x))
            return pickle.loads(pickle.dumps(out))
        if ordered:
            for i in order:
                results[i] = one(i)
            for i in range(len(chunks)):
                yield from results[i]
        else:
            for i in order:
                yield from one(i)

    def imap_unordered(self, func, it, chunksize=1):
        return self._run(func, it, chunksize, ordered=False)

    def imap(self, func, it, chunksize=1):
        return self._run(func, it, chunksize)

    def map(self, func, it, chunksize=None):
        return list(self._run(func, list(it), chunksize))

    def starmap(self, func, it, chunksize=None):
        return list(self._run(func, list(it), chunksize, star=True))

    def map_async(self, func, it, chunksize=None, callback=None, error_callback=None):
        r = self.map(func, it, chunksize)
        if callback:
            callback(r)
        return Handle(r)

    def starmap_async(self, func, it, chunksize=None, callback=None, error_callback=None):
        r = self.starmap(func, it, chunksize)
        if callback:
            callback(r)
        return Handle(r)

    def apply(self, func, args=(), kwds={}):
        return list(self._run(lambda_free(func, args, kwds), [0], 1))[0]

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        r = func(*pickle.loads(pickle.dumps(args)), **kwds)
        if callback:
            callback(r)
        return Handle(r)


def lambda_free(func, args, kwds):
    import functools
    return functools.partial(_call, func, args, kwds)


def _call(func, args, kwds, _):
    return func(*args, **kwds)


def with_pool(picks, real, f):
    REC.clear()
    if real:
        return quiet(f)
    PICKS[:] = picks or [0]
    saved = {}
    multiprocessing.Pool = FakePool
    for m in (PC, SC):
        if getattr(m, 'Pool', None) is not None:
            saved[m] = m.Pool
            m.Pool = FakePool
    try:
        return quiet(f)
    finally:
        multiprocessing.Pool = REAL
        for m, p in saved.items():
            m.Pool = p


def key_con(c):
    return json.dumps([c['d'], c['u'], c['l']]), c['s']


def key_term(t):
    r = raw(t)
    return json.dumps(r[1:]), json.dumps(r[0])


def compare(what, ref, run, inp):
    """ref(), run() -> list of (key, value)"""
    e = {'ev': 'pool', 'what': what, 'ref': [], 'got': [], 'pools': [], 'exc': '', 'inp': inp}
    try:
        a = quiet(ref)
        b = with_pool(inp['picks'], inp['real'], run)
        e['pools'] = [dict(p) for p in REC]
        ids = {k: i for i, k in enumerate(sorted(set(a) | set(b)))}
        e['ref'], e['got'] = sorted(ids[x] for x in a), sorted(ids[x] for x in b)
    except Timeout:
        raise
    except Exception as x:
        e['exc'] = exc_str(x)
    return e


def engine(inp):
    return [compare('contraction engine', lambda: [key_con(c) for c in d_wick.run(inp)],
                    lambda: [key_con(c) for c in d_wick.run(inp, inp['np'], inp['bs'])], inp)]


def terms_(inp):
    rng = rng_for(inp)
    A, B = build_term(inp['x'], rng), d_comm.shift(build_term(inp['y'], rng), 20)
    n = A.sq_op.n_ops + B.sq_op.n_ops
    cu, lo, hi = rng.choice([1, 2, 3]), rng.choice([0, 0, 2]), rng.choice([n, 4, 2])
    fc, eh, herm = rng.random() < 0.6, rng.random() < 0.8, rng.random() < 0.6
    f = rng.choice([1.0, -0.5])
    k = inp['kind']
    if k == 'contract':
        g = lambda p: [key_term(t) for t in PC.contract_terms([A, B], cu, hi, lo, f, fc, eh, p, herm)]
    elif k == 'single':
        g = lambda p: [key_term(t) for t in PC.single_commutator(A, B, cu, hi, lo, f, fc, eh, p, herm)]
    elif k == 'linear':
        g = lambda p: [key_term(t) for t in PC.linear_commutator([A], [B], f, lo, hi, cu, p, fc, herm)]
    elif k == 'recursive':
        g = lambda p: [key_term(t) for q in PC.recursive_single_commutator([A, B], cu, (lo, hi), fc, eh, p, herm).values() for t in q]
    return [compare(k, lambda: g(1), lambda: g(inp['np']), inp)]


def bch(inp):
    a = inp['args']
    if inp['which'] == 'nested':
        g = lambda p: [key_term(t) for t in PC.nested_commutator_cc(a['level'], a['levels'], 1, 2, 0, True, True, True, a['un'], p, a['herm'])]
    elif inp['which'] == 'bch':
        g = lambda p: [key_term(t) for q in PC.bch_cc_rsc(a['level'], a['levels'], 1, (0, 4), True, True, True, a['un'], p, a['herm']).values() for t in q]
    else:
        H = [d_comm.hamiltonian_operator(1), d_comm.hamiltonian_operator(2)]
        g = lambda p: [key_term(t) for t in PC.linear_commutator_amp(H, a['levels'], 1.0, 0, 4, 10, p, a['un'], 1, True, True, a['herm'])]
    return [compare(inp['which'], lambda: g(1), lambda: g(inp['np']), inp)]


def stream(inp):
    """a stream of contractions in groups of given sizes; the contraction engine is replaced by the stream"""
    e = {'ev': 'stream', 'what': 'contract_terms', 'groups': inp['groups'], 'counts': [], 'base': [], 'got': [], 'den': 1, 'pools': [], 'exc': '', 'np': inp['np']}
    rng = rng_for(inp)
    A, B = Term([Tensor.make_tensor('H', 'g2,g3', 'g0,g1')], SQ('g0,g1', 'g2,g3'), 0.25), Term([Tensor.make_tensor('T', 'h0', 'p0')], SQ('p0', 'h0'), 1.0)
    if not hasattr(PC, 'compute_operator_contractions'):
        return []
    engine_ = PC.compute_operator_contractions
    cons = quiet(lambda: [c for b in engine_([A.sq_op, B.sq_op], 1, 6, 0, True, True, 1, 1) for c in b])
    if len(cons) > 12:
        cons = rng.sample(cons, 12)
    orig = Term.canonicalize_sympy
    cache = {}

    def memo(self, *a, **k):
        key = json.dumps([raw(self), a, sorted(k.items())], default=str)
        if key not in cache:
            cache[key] = orig(self, *a, **k)
        return Term.from_term(cache[key])
    try:
        total = sum(inp['groups'])
        pos, groups, counts = 0, [], [0] * len(cons)
        for n in inp['groups']:
            g = [(pos + i) * 7 % len(cons) for i in range(n)]
            pos += n
            for i in g:
                counts[i] += 1
            groups.append([cons[i] for i in g])
        base = []
        for c in cons:
            PC.compute_operator_contractions = lambda *a, **k: [[c]]
            r = quiet(lambda: PC.contract_terms([A, B], 1, 6, 0, 1.0, True, True, 1, True))
            assert len(r) <= 1
            base.append([key_term(r[0])[0], rat(r[0].coeff)] if r else ['none', [0, 1]])
        den = 1
        for _, q in base:
            den = den * q[1] // __import__('math').gcd(den, q[1])
        e['base'] = [[k, v[0] * (den // v[1])] for k, v in base]
        e['counts'], e['den'] = counts, den
        Term.canonicalize_sympy = memo
        PC.compute_operator_contractions = lambda *a, **k: iter(groups)
        r = with_pool(inp['picks'], False, lambda: PC.contract_terms([A, B], 1, 6, 0, 1.0, True, True, inp['np'], True))
        e['pools'] = [dict(p, order=[], sizes=[], tasks=0, ran=0) if len(p['order']) > 3000 else dict(p) for p in REC]
        for t in r:
            v = t.coeff * den
            e['got'].append([key_term(t)[0], round(v) if abs(v - round(v)) < 1e-6 * max(1, abs(v)) else -10 ** 9])
    except Timeout:
        raise
    except Exception as x:
        e['exc'] = exc_str(x)
    finally:
        Term.canonicalize_sympy = orig
        PC.compute_operator_contractions = engine_
    return [e]


def handle(inp):
    return {'engine': engine, 'bch': bch, 'stream': stream}.get(inp['mode'], terms_)(inp)


if __name__ == '__main__':
    main(handle, limit=400)
