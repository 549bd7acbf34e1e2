"""Runner library: TLC generation, replay into the real code, TLC trace validation, evidence."""
import json, os, shutil, subprocess, sys, tempfile, time, hashlib, atexit, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(VERIF, 'spec')
EVID = os.environ.get('VERIF_EVID', os.path.join(VERIF, 'evidence'))
REPO = os.environ.get('VERIF_REPO', '/repo')
PYPY = '/opt/venv/bin/python'
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = os.cpu_count() or 4
T0 = time.time()


LOCK = threading.Lock()


class MachineryError(Exception):
    pass


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = tempfile.mkdtemp(prefix=f'verif-{prop}-')
        atexit.register(shutil.rmtree, self.work, ignore_errors=True)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.rejects = []
        self.samples = []
        self.assume = []
        self.cov = {}
        self.n = 0
        self.pending = []
        self.quick = tier != 'thorough'

    def log(self, *a):
        print(f'[{self.prop} {time.time() - T0:6.1f}s]', *a, flush=True)

    # ------------------------------------------------------------- TLC
    def tlc(self, module, cfg, args=(), env=None, workers=None, timeout=800, heap='8g'):
        with LOCK:
            self.n += 1
            d = os.path.join(self.work, f'tlc{self.n}')
        os.makedirs(d)
        cfgf = os.path.join(d, module + '.cfg')
        with open(cfgf, 'w') as f:
            f.write(cfg)
        for t in os.listdir(SPEC):
            if t.endswith('.tla'):
                os.symlink(os.path.join(SPEC, t), os.path.join(d, t))
        cmd = ['java', '-XX:+UseParallelGC', f'-Xmx{heap}', '-Xss64m', '-cp', JAR, 'tlc2.TLC', '-metadir', os.path.join(d, 'states'),
               '-workers', str(workers or NCPU), '-config', cfgf, '-noGenerateSpecTE', *map(str, args), module + '.tla']
        e = dict(os.environ)
        e.update(env or {})
        out = os.path.join(d, 'out.txt')
        with open(out, 'w') as f:
            try:
                rc = subprocess.call(cmd, cwd=d, stdout=f, stderr=subprocess.STDOUT, env=e, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise MachineryError(f'TLC timed out on {module}')
        with open(out, errors='replace') as f:
            text = f.read()
        shutil.rmtree(os.path.join(d, 'states'), ignore_errors=True)
        return rc, text

    @staticmethod
    def unquote(line):
        """ "GEN {\\"a\\":1}"  ->  dict """
        return json.loads(json.loads(line)[4:])

    def gen(self, module, cfg, num=None, depth=100, seed=None, timeout=300, distinct=True):
        """Run a generator specification (simulation when num is given, else exhaustively)."""
        args = []
        if num is not None:
            args = ['-simulate', f'num={num}', '-depth', depth, '-seed', (self.seed if seed is None else seed)]
        rc, text = self.tlc(module, cfg, args, workers=1, timeout=timeout)
        if rc != 0:
            raise MachineryError(f'generator {module} failed:\n' + text[-3000:])
        out, seen = [], set()
        for line in text.splitlines():
            if line.startswith('"GEN '):
                if distinct:
                    h = hashlib.md5(line.encode()).digest()
                    if h in seen:
                        continue
                    seen.add(h)
                out.append(self.unquote(line))
        self.count_states(text)
        if num is not None:
            self.states += len(out)      # simulation: distinct terminal states
        if not out:
            raise MachineryError(f'generator {module} produced nothing:\n' + text[-2000:])
        return out

    @staticmethod
    def par(jobs, n=6):
        """run generator jobs concurrently, results concatenated in the order of the jobs"""
        with ThreadPoolExecutor(n) as ex:
            return [x for r in ex.map(lambda j: j(), jobs) for x in r]

    def bg(self, jobs):
        """run model checks beside the rest of the check; finish() waits for them"""
        ex = ThreadPoolExecutor(2)
        self.pending += [ex.submit(j) for j in jobs]

    def count_states(self, text):
        import re
        LOCK.acquire()
        for m in re.finditer(r'^(\d+) states generated, (\d+) distinct states found', text, re.M):
            self.transitions += int(m.group(1))
            self.states += int(m.group(2))
        for m in re.finditer(r'The number of states generated: (\d+)', text):
            self.transitions += int(m.group(1))
        LOCK.release()

    def model(self, module, cfg, expect_ok=True, workers=None, timeout=600, args=()):
        """Model check a specification; a failure is a machinery error (the specification is ours)."""
        rc, text = self.tlc(module, cfg, args, workers=workers, timeout=timeout)
        self.count_states(text)
        if expect_ok and rc != 0:
            raise MachineryError(f'model {module} failed:\n' + text[-4000:])
        return rc, text

    # ------------------------------------------------------------- replay
    def drive(self, script, inputs, shards=None, timeout=600, env=None):
        """Replay inputs into the real code with the given driver; returns recorded events."""
        shards = max(1, min(shards or NCPU - 2, (len(inputs) + 19) // 20))
        procs = []
        self.n += 1
        for k in range(shards):
            fi = os.path.join(self.work, f'in{self.n}_{k}.ndjson')
            fo = os.path.join(self.work, f'out{self.n}_{k}.ndjson')
            with open(fi, 'w') as f:
                for i in inputs[k::shards]:
                    f.write(json.dumps(i) + '\n')
            e = dict(os.environ)
            e.update({'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', 'PYTHONPATH': os.path.join(VERIF, 'driver'),
                      'VERIF_REPO': REPO})
            e.update(env or {})
            log = open(os.path.join(self.work, f'log{self.n}_{k}.txt'), 'w')
            cwd = os.path.join(self.work, f'cwd{self.n}_{k}')
            os.makedirs(cwd)
            procs.append((subprocess.Popen([PYPY, os.path.join(VERIF, 'driver', script), fi, fo], stdout=log,
                                           stderr=subprocess.STDOUT, env=e, cwd=cwd), fo, log.name, len(inputs[k::shards])))
        per = []
        deadline = time.time() + timeout
        for pr, fo, logn, n in procs:
            try:
                rc = pr.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                pr.kill()
                rc = 'timeout'
            ev = []
            if os.path.exists(fo):
                with open(fo) as f:
                    for line in f:
                        try:
                            ev.append(json.loads(line))
                        except ValueError:
                            pass
            if rc != 0:
                with open(logn, errors='replace') as f:
                    tail = f.read()[-1500:]
                self.reject({'driver': script, 'log': tail}, f'implementation did not complete the replay ({rc})')
            per.append(ev)
        out = []
        for i in range(max((len(p) for p in per), default=0)):
            for p in per:
                if i < len(p):
                    out.append(p[i])
        return out

    # ------------------------------------------------------------- validation
    def validate(self, module, events, verdict='MyVerdict', consts='', timeout=800, env=None):
        """Validate recorded events against the trace specification; rejected events are recorded."""
        if not events:
            return []
        f = os.path.join(self.work, f'trace{self.n}.ndjson')
        with open(f, 'w') as h:
            for e in events:
                h.write(json.dumps(e) + '\n')
        cfg = (f'SPECIFICATION TSpec\nCONSTANT Verdict <- {verdict}\n{consts}\nPOSTCONDITION TAccepted\nCHECK_DEADLOCK FALSE\n')
        e = {'TRACE': f}
        e.update(env or {})
        rc, text = self.tlc(module, cfg, env=e, timeout=timeout)
        self.count_states(text)
        bad = []
        consumed = None
        for line in text.splitlines():
            if line.startswith('"REJECT '):
                _, n, v = line.split(' ', 2)
                bad.append((int(n), v.rstrip()[:-1]))
            elif 'REJECT' in line:
                raise MachineryError('unreadable verdict: ' + line)
            if line.startswith('<<"CONSUMED"'):
                consumed = line
        if rc != 0 or consumed is None:
            if 'analysis failed' in text or 'ConfigFileException' in text or 'OutOfMemory' in text or 'Parse Error' in text or rc >= 150:
                raise MachineryError(f'{module} (rc {rc}):\n' + text[-3000:])
            self.log(text[-1500:])
            # an event the specification cannot even evaluate is not a behaviour of the specification
            self.reject({'module': module, 'tlc': text[-3000:]}, 'recorded event outside the specification\'s domain')
            return bad
        a, b = [int(x) for x in consumed.strip('<>').split(', ')[1:]]
        if a != b:
            raise MachineryError(f'trace not consumed: {consumed}')
        self.traces += len(events)
        for n, v in bad:
            self.reject(events[n - 1], v)
        return bad

    def reject(self, event, clause):
        self.rejects.append((event, clause))

    # ------------------------------------------------------------- finish
    def finish(self, level='model_checking'):
        """Writes evidence, prints verdict, returns exit code; a clause that starts with the id of a
        known finding of this property is reported as such."""
        for j in self.pending:
            j.result()
        with open(os.path.join(VERIF, 'known_findings.json')) as f:
            known = {k['id']: k['what'] for k in json.load(f)['findings'] if k['property'] == self.prop}
        viol, kf = [], {}
        for ev, clause in self.rejects:
            tag = clause.split(':')[0]
            if tag in known:
                kf.setdefault(tag, []).append(ev)
            else:
                viol.append((ev, clause))
        os.makedirs(EVID, exist_ok=True)
        cov = {'states': self.states, 'transitions': self.transitions, 'traces_validated_against_impl': self.traces,
               'samples': self.samples[:5]}
        cov.update(self.cov)
        evd = {'property': self.prop, 'tier': 'quick' if self.quick else 'thorough', 'seed': self.seed, 'level': level,
               'coverage': cov, 'assumptions': self.assume, 'wall_s': round(time.time() - T0, 1), 'violations': len(viol)}
        with open(os.path.join(EVID, f'{self.prop}.json'), 'w') as f:
            json.dump(evd, f, indent=1)
        rp = os.path.join(EVID, f'replay-{self.prop}.json')
        if os.path.exists(rp):
            os.remove(rp)
        for tag, evs in sorted(kf.items()):
            print(f'KNOWN-FINDING: property={self.prop} {tag}: {known[tag]} ({len(evs)} recorded calls)')
        if viol:
            rp = os.path.join(EVID, f'replay-{self.prop}.json')
            with open(rp, 'w') as f:
                json.dump([{'clause': c, 'event': e} for e, c in viol[:50]], f, indent=1)
            clauses = {}
            for e, c in viol:
                clauses[c] = clauses.get(c, 0) + 1
            for c, n in sorted(clauses.items(), key=lambda x: -x[1])[:10]:
                print(f'  rejected {n} call(s): {c[:300]}')
            print(f'VIOLATION property={self.prop} replay={rp}')
            return 1
        print(f'{self.prop}: held ({self.traces} recorded calls validated, {self.states} states) in {time.time() - T0:.1f} s')
        return 0


def cfg(spec='Spec', consts=None, inv=(), post=None, extra=''):
    s = f'SPECIFICATION {spec}\n'
    for k, v in (consts or {}).items():
        s += f'CONSTANT {k} {v if str(v).startswith("<-") else "= " + str(v)}\n'
    for i in inv:
        s += f'INVARIANT {i}\n'
    if post:
        s += f'POSTCONDITION {post}\n'
    return s + 'CHECK_DEADLOCK FALSE\n' + extra
