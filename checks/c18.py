from checks.gens import terms
from checks.c10 import batches
import random


def run(ctx):
    n = 250 if ctx.quick else 2500
    ins = ctx.par([terms(ctx, n, 'KHT', 'LSR', 'ORCons', 3, 1, 12),
                   terms(ctx, n, 'KHT', 'LMR', 'ORCons', 3, 1, 12),
                   terms(ctx, n, 'KOne1', 'LMR', 'OROpen', 3, 1, 10),
                   terms(ctx, n, 'KCC', 'LPH', 'ORCons', 3, 1, 10),
                   terms(ctx, n, 'KTwo', 'LSR', 'OR22', 3, 1, 12),
                   terms(ctx, n, 'KCC', 'LSR', 'OR11', 3, 1, 10)])
    rng = random.Random(ctx.seed)
    ls = batches(ins, 9)
    mixed = ins[:]
    rng.shuffle(mixed)
    ls += [{'list': mixed[i:i + 7]} for i in range(0, len(mixed), 7)]
    t3 = ctx.par([terms(ctx, 2 * n, 'KTwo', 'LSR', 'OR33', 3, 2, 16, excop='TRUE'),
                  terms(ctx, 2 * n, 'KHT', 'LSR', 'OR33', 3, 1, 14, excop='TRUE')])
    t3l = [{'list': t3[i:i + 6], 't3': 1} for i in range(0, len(t3), 6)]
    ctx.log(len(ins), 'terms,', len(ls), 'lists,', len(t3), 'triples terms')
    ev = ctx.drive('d_forte.py', ls + t3l)
    ctx.log(len(ev), 'recorded file sets')
    ctx.validate('ForteTrace', ev, verdict='FilesVerdict')
    ctx.samples = [{'what': e['what'], 'functions': [d['name'] for d in e['defs']]} for e in ev[:3]]
    ctx.cov['lists'] = len(ls) + len(t3l)
    ctx.assume = ['operators of up to 3 creators and 3 annihilators',
                  'each tensor carries open creators in one row and open annihilators in the other, as contraction results do']
    return ctx.finish()
