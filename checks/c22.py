from vlib import cfg


def dirs(ctx, n, steps, objs, depth, seed=None):
    c = cfg(consts={'Names': '<- NmDir', 'Steps': steps, 'MaxObjs': objs, 'MaxDepth': depth}, inv=['Emit', 'CwdExists', 'HomesExist', 'Closed', 'NoClash'])
    return lambda: ctx.gen('DirGen', c, num=n, depth=steps + 2, seed=seed)


def run(ctx):
    n = 600 if ctx.quick else 20000
    # the machine itself, exhaustively to a small depth
    ctx.model('DirGen', cfg(consts={'Names': '<- NmDir', 'Steps': 4 if ctx.quick else 6, 'MaxObjs': 2, 'MaxDepth': 2},
                            inv=['CwdExists', 'HomesExist', 'Closed', 'NoClash'], extra='PROPERTY Restores\n'))
    top = 14 if ctx.quick else 30
    ins = [{'k': 'part', 'n': i} for i in range(1, top)] + [{'k': 'sep', 'n': i, 'zero': z} for i in range(0, top + 4) for z in (True, False)]
    exh = cfg(consts={'Names': '<- NmDir', 'Steps': 4 if ctx.quick else 5, 'MaxObjs': 2, 'MaxDepth': 2}, inv=['Emit'])
    ins += ctx.par([lambda: ctx.gen('DirGen', exh), dirs(ctx, n, 8, 3, 3), dirs(ctx, n, 14, 4, 4)])
    ctx.log(len(ins), 'histories')
    ev = ctx.drive('d_help.py', ins)
    ctx.validate('HelpTrace', ev)
    ctx.samples = [e for e in ev if e['ev'] == 'dir'][:2] + [e for e in ev if e['ev'] == 'part'][3:4]
    ctx.cov['partitions_up_to'] = top - 1
    ctx.cov['directory_histories'] = sum(e['ev'] == 'dir' for e in ev)
    ctx.assume = ['positive integers are partitioned', 'directories are not removed by the body', 'entered with scopes nested (last entered leaves first)']
    return ctx.finish()
