"""Replay: generated C++ files read back as functions."""
import re, shutil, tempfile
from terms import *
from ambit import program, Unreadable
from d_ambit import open_term, usable, event
from dsrg_generator.phys_op_contraction import combine_terms, categorize_contractions
from dsrg_generator.write_forte_functions import save_terms_ambit_functions, save_direct_t3

PARAM = re.compile(r'^(double|BlockedTensor)\s*(&?)\s*(\w+)$')


def params(x):
    out = []
    for p in x.split(','):
        if p.strip():
            m = PARAM.match(p.strip())
            if not m:
                raise Unreadable(x)
            out.append([m.group(1) + m.group(2), m.group(3)])
    return out


def functions(text, ns):
    """definitions void NS::name(params) { body } of a file"""
    out = []
    for m in re.finditer(r'void\s+(\w+)::(\w+)\s*\(([^)]*)\)\s*\{', text):
        depth, i = 1, m.end()
        while depth and i < len(text):
            depth += {'{': 1, '}': -1}.get(text[i], 0)
            i += 1
        if depth or m.group(1) != ns:
            raise Unreadable(m.group(0))
        out.append((m.group(2), params(m.group(3)), text[m.end():i - 1]))
    return out


def uses(body):
    r = set()
    for s in body:
        if s['op'] == 'call':
            r |= set(s['args'])
        else:
            r.add(s['t'])
            r |= {g['t'] for g in s.get('f', [])}
    return sorted(r)


def locs(body):
    return sorted({s['t'] for s in body if s['op'] == 'decl'})


def collect(inp, cons=True):
    ts = []
    for x in inp['list']:
        try:
            t = quiet(build_term(x['a'], rng_for(x)).canonicalize)
        except Exception:
            continue
        if usable(t) and (not cons or t.sq_op.is_particle_conserving()):
            ts.append(t)
    ts = quiet(lambda: combine_terms(ts))
    rng_for(inp).shuffle(ts)
    return ts


def conj_term(t):
    w = open_term(t)
    for f in w['t']['f']:
        if f['n'] == 'Q':
            k = w['na']
            f['u'] = f['u'][k:] + f['u'][:k]
    w['na'], w['nc'] = w['nc'], w['na']
    return w


def tdir():
    return tempfile.mkdtemp(dir=os.getcwd(), prefix='out')


def h_files(inp):
    ts = collect(inp)
    if not ts:
        return []
    rng = rng_for(inp, 'f')
    want, out = [open_term(t) for t in ts], []
    for dag, dest in rng.sample([(True, False), (True, True), (False, False), (False, True)], 2):
        d = tdir()
        fn, ns = rng.choice([('compute', 'MRDSRG_SO'), ('comm_H_T', 'Foo'), ('f', 'A')])
        exc = ''
        kw = {}
        if not dag or rng.random() < 0.5:
            kw['add_t_dagger'] = dag
        if dest or rng.random() < 0.5:
            kw['destroy_h'] = dest
        try:
            quiet(lambda: save_terms_ambit_functions(ts, fn, ns, d, **kw))
        except Exception as x:
            exc = exc_str(x)
        e = event(f'files add_t_dagger={dag} destroy_h={dest}', '', want, temp=False, keep=False, old=True, factor=(3, 7), conj=dag,
                  cterms=[conj_term(t) for t in ts] if dag else [], exc=exc, inp=inp, budget=400)
        e['ev'] = 'files'
        e.update(defs=[], decls=[], main=fn)
        if not exc:
            try:
                for f in sorted(os.listdir(d)):
                    with open(os.path.join(d, f)) as h:
                        text = h.read()
                    if f.endswith('.cc'):
                        fs = functions(text, ns)
                        if len(fs) != 1 or f != fs[0][0] + '.cc':
                            raise Unreadable(f)
                        for n, ps, body in fs:
                            b = program(body)
                            e['defs'].append({'name': n, 'types': ps, 'params': [p[1] for p in ps], 'body': b, 'uses': uses(b), 'locals': locs(b)})
                    elif f == fn + '_functions.h':
                        for m in re.finditer(r'void\s+(\w+)\s*\(([^)]*)\)\s*;', text):
                            e['decls'].append([m.group(1), params(m.group(2))])
                    else:
                        raise Unreadable(f)
            except Unreadable as x:
                e['bad'] = str(x)[:200]
            main = [x for x in e['defs'] if x['name'] == fn]
            if len(main) == 1:
                e['prog'] = main[0]['body']
            elif not e['bad']:
                e['bad'] = 'main function'
            e['fns'] = [x for x in e['defs'] if x['name'] != fn]
        shutil.rmtree(d)
        out.append(e)
    return out


def h_t3(inp):
    ts = collect(inp)
    ts = [t for t in ts if [i.space for i in t.sq_op.ann_ops] + [i.space for i in t.sq_op.cre_ops] == list('cccvvv')]
    if not ts:
        return []
    d, exc = tdir(), ''
    try:
        quiet(lambda: save_direct_t3(categorize_contractions(ts)['cccvvv'], 'run', 'NS', d))
    except Exception as x:
        exc = exc_str(x)
    e = event('direct T3', '', [open_term(t) for t in ts], temp=False, keep=False, old=False, exc=exc, inp=inp, budget=400)
    e['ev'] = 'files'
    e.update(defs=[], decls=[], main='run_direct_t3')
    e['targets'] = []
    if not exc:
        try:
            if os.listdir(d) != ['run_direct_t3.cc']:
                raise Unreadable('files')
            with open(os.path.join(d, 'run_direct_t3.cc')) as h:
                fs = functions(h.read(), 'NS')
            if len(fs) != 1 or fs[0][0] != 'run_direct_t3':
                raise Unreadable('function')
            k = fs[0][2].index('C3.iterate(')
            b = program(fs[0][2][:k])
            e['prog'] = b
            e['targets'] = []
            e['defs'] = [{'name': 'run_direct_t3', 'types': fs[0][1], 'params': [p[1] for p in fs[0][1]], 'body': b, 'uses': uses(b), 'locals': locs(b)}]
            e['decls'] = [['run_direct_t3', fs[0][1]]]
        except (Unreadable, ValueError) as x:
            e['bad'] = str(x)[:200]
    shutil.rmtree(d)
    return [e]


def handle(inp):
    return h_t3(inp) if inp.get('t3') else h_files(inp)


if __name__ == '__main__':
    main(handle)
