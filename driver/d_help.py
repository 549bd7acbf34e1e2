"""Helper enumerations and scoped directories (C22); directories live in a scratch folder made and removed here."""
import tempfile, shutil
from common import *
from dsrg_generator.helper.integer_partition import integer_partition, integer_separation
from dsrg_generator.helper.file_utils import ChangeDir


class Boom(Exception):
    pass


def rel(path, root):
    p = os.path.relpath(os.path.realpath(path), root)
    return [] if p == '.' else p.split(os.sep)


ERRORS = [Boom, ValueError, OSError, FileNotFoundError, KeyError, RuntimeError, StopIteration, KeyboardInterrupt, SystemExit, GeneratorExit, ArithmeticError, MemoryError]


def replay(steps):
    root = os.path.realpath(tempfile.mkdtemp(prefix='verif-dir-'))
    home = os.getcwd()
    objs, stack, got = [], [], []
    try:
        os.chdir(root)
        for x in steps:
            ok, prop = True, False
            a = x['a']
            try:
                if a == 'make':
                    objs.append(ChangeDir('/'.join(x['p'])))
                elif a == 'enter':
                    o = objs[x['o'] - 1]
                    o.__enter__()
                    stack.append(o)
                elif a == 'leave':
                    prop = bool(stack.pop().__exit__(None, None, None))
                elif a == 'raise':
                    try:
                        raise ERRORS[(len(got) * 5 + len(steps) * 7 + len(stack)) % len(ERRORS)]('body')
                    except BaseException as b:
                        prop = not stack.pop().__exit__(type(b), b, b.__traceback__)
                elif a == 'chdir':
                    os.chdir(os.path.join(root, *x['p']))
                elif a == 'file':
                    open(os.path.join(root, *x['p']), 'w').close()
            except Exception:
                ok = False
            got.append({'ok': ok, 'prop': prop, 'cwd': rel(os.getcwd(), root), 'dirs': [rel(d, root) for d, _, _ in os.walk(root)]})
    finally:
        os.chdir(home)
        shutil.rmtree(root, ignore_errors=True)
    return got


def handle(inp):
    e = dict(inp, ev=inp.pop('k'), exc='')
    e.pop('k', None)
    try:
        if e['ev'] == 'part':
            e['out'] = [list(p) for p in integer_partition(e['n'])]
        elif e['ev'] == 'sep':
            e['out'] = [list(p) for p in integer_separation(e['n'], e['zero'])]
        else:
            e['got'] = replay(e['steps'])
    except Exception as x:
        e['exc'] = exc_str(x)
    return [e]


if __name__ == '__main__':
    main(handle)
