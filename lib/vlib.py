"""Common machinery of the checks: build, drive, model check, validate, report."""
import hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
NCPU = os.cpu_count() or 4


class Inconclusive(Exception):
    """The check could not decide (error of the check, never a verdict)."""


def xs(s):
    """string -> x<hex> (latin-1: one character is one byte)"""
    return 'x' + s.encode('latin-1').hex()


def unx(h):
    return bytes.fromhex(h[1:]).decode('latin-1')


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.rng = random.Random('%s-%d' % (prop, self.seed))
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        self.states = 0            # distinct states found by TLC, all runs
        self.transitions = 0       # states generated by TLC, all runs
        self.validated = 0         # executions of the real code checked against the specification
        self.evaluations = 0       # executions of the real code
        self.samples = []
        self.notes = {}            # further measured numbers
        self.violations = []
        self.assumptions = []
        self.rule = ''
        self.exhaustive = None
        self.bins = {}

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

    def count(self, k, n=1):
        self.notes[k] = self.notes.get(k, 0) + n

    # ---------------------------------------------------------------- build
    def lib_sources(self):
        d = os.path.join(REPO, 'src')
        out = []
        for root, _, files in os.walk(d):
            out += [os.path.join(root, f) for f in files if f.endswith(('.cxx', '.cpp', '.cc'))]
        return sorted(out)

    def build(self, name, drivers, flags, rt=(), rtflags=(), link=()):
        """Compile every library source and the drivers from REPO's working tree.
        rt: sources compiled with rtflags instead of flags."""
        b = os.path.join(self.work, 'build-' + name)
        os.makedirs(b, exist_ok=True)
        with open(os.path.join(b, 'UtilsVersion.hxx'), 'w') as f:
            f.write('#pragma once\n#define SoDaUtils_VERSION "0.0.0"\n#define SoDaUtils_GIT_ID "verif"\n')
        inc = ['-I' + b, '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'src'), '-I' + HARNESS]
        jobs = []
        for i, s in enumerate(self.lib_sources()):
            jobs.append((s, os.path.join(b, 'lib%d.o' % i), list(flags)))
        for s in drivers:
            jobs.append((os.path.join(HARNESS, s), os.path.join(b, s + '.o'), list(flags)))
        for s in rt:
            jobs.append((os.path.join(HARNESS, s), os.path.join(b, s + '.o'), list(rtflags)))

        def comp(j):
            src, obj, fl = j
            cmd = ['g++', '-std=gnu++11', '-w'] + fl + inc + ['-c', src, '-o', obj]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            return (src, r.returncode, r.stdout)
        with ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(comp, jobs))
        for src, rc, out in res:
            if rc:
                raise Inconclusive('compiling %s failed:\n%s' % (src, out[-3000:]))
        exe = os.path.join(b, name)
        lf = [f for f in flags if f.startswith('-fsanitize=address')]
        cmd = ['g++', '-rdynamic'] + lf + [j[1] for j in jobs] + ['-o', exe] + list(link) + \
              ['-lyaml-cpp', '-lpthread', '-ldl']
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise Inconclusive('linking %s failed:\n%s' % (name, r.stdout[-3000:]))
        return exe

    def seq_driver(self, name):
        if name not in self.bins:
            self.bins[name] = self.build(name, [name + '.cxx'],
                                         ['-g', '-O1', '-fsanitize=address', '-fno-omit-frame-pointer',
                                          '-D_GLIBCXX_ASSERTIONS'])
        return self.bins[name]

    # --------------------------------------------------------------- driving
    def drive(self, exe, scripts, args=(), timeout=600, shares=NCPU):
        """scripts: list of lists of operation lines.
        Returns for each script the list of replies (dicts); a reply {'fault': why} ends a script
        that crashed, hung or let an exception escape."""
        n = len(scripts)
        results = [None] * n
        self.evaluations += n
        chunks = [list(range(i, n, shares)) for i in range(shares)]
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_malloc_fill_size=4096:max_free_fill_size=4096:malloc_fill_byte=190',
                   LC_ALL='C')

        def work(ids):
            todo = list(ids)
            deadline = time.time() + timeout
            cost = 0        # after enough faults the rest of this share is left out
            while todo and cost < 40:
                if time.time() > deadline:
                    raise Inconclusive('driver ran out of time')
                inp = []
                for t in todo:
                    inp.append('T %d' % t)
                    inp.extend(scripts[t])
                rfd, wfd = os.pipe()
                inf = tempfile.TemporaryFile(dir=self.work)
                inf.write(('\n'.join(inp) + '\n').encode())
                inf.seek(0)
                errf = tempfile.TemporaryFile(dir=self.work)
                p = subprocess.Popen([exe] + list(args), stdin=inf, stdout=subprocess.DEVNULL, stderr=errf,
                                     pass_fds=(wfd,), env=dict(env, DRV_FD=str(wfd)), cwd=self.work)
                os.close(wfd)
                data = b''
                with os.fdopen(rfd, 'rb') as f:
                    data = f.read()
                p.wait()
                errf.seek(0, 2)
                size = errf.tell()
                errf.seek(max(0, size - 200000))
                err = errf.read().decode('latin-1')
                cur, ended, hung = None, False, False
                for line in data.decode('latin-1').split('\n'):
                    if line.startswith('T '):
                        cur = int(line[2:])
                        results[cur] = []
                    elif line.startswith('R'):
                        d = {}
                        for w in line[1:].split():
                            k, v = w.split('=', 1)
                            d[k] = v
                        results[cur].append(d)
                    elif line == 'E':
                        ended = True
                    elif line == 'H':
                        hung = True
                if ended:
                    break
                if cur is None:
                    raise Inconclusive('driver %s did not start: %s' % (exe, err[-2000:]))
                if p.returncode == 3:
                    raise Inconclusive('driver %s: %s' % (exe, err[-500:]))
                why = 'hang' if hung else 'crash (exit %d)' % p.returncode
                m = re.search(r'(ERROR: AddressSanitizer: [^\n]*|Assertion [^\n]*|terminate called[^\n]*(\n *what[^\n]*)?)', err)
                if m:
                    why += ': ' + m.group(1)
                if len(results[cur]) >= len(scripts[cur]):
                    results[cur].pop()      # it happened while its objects were destroyed
                results[cur].append({'fault': why})
                cost += 10 if hung else 1
                todo = todo[todo.index(cur) + 1:]
        with ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(work, [c for c in chunks if c]))
        return results

    # ------------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, env=None, workers=None, timeout=800, extra=(), deque=False, xmx='12g', count=True):
        """Run TLC; returns (ok, output). Counts the states it explored."""
        meta = tempfile.mkdtemp(prefix='tlc-', dir=self.work)
        e = dict(os.environ)
        e.update(env or {})
        opts = '-Xss64m -Xmx%s' % xmx
        if deque:
            opts += ' -Dtlc2.tool.queue.IStateQueue=StateDeque'
        e['JAVA_TOOL_OPTIONS'] = opts
        if cfg is None:
            cfg = module + '.cfg'
        elif '\n' in cfg:
            path = os.path.join(meta, module + '.cfg')
            with open(path, 'w') as f:
                f.write(cfg)
            cfg = path
        cmd = ['tlc', '-config', cfg, '-workers', str(workers or NCPU), '-metadir', meta,
               '-noGenerateSpecTE'] + list(extra) + [module + '.tla']
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Inconclusive('TLC ran out of time on ' + module)
        out = r.stdout.decode('utf-8', 'replace')
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        if m and count:
            self.transitions += int(m[-1][0])
            self.states += int(m[-1][1])
        self.last_distinct = int(m[-1][1]) if m else 0
        self.last_diameter = 0
        shutil.rmtree(meta, ignore_errors=True)
        return r.returncode == 0 and 'No error has been found' in out, out

    def model_check(self, module, cfg=None, what=None, **kw):
        """Exhaustive model checking of the specification itself."""
        t = time.time()
        ok, out = self.tlc(module, cfg, **kw)
        if not ok:
            raise Inconclusive('the specification %s fails its own model check:\n%s' % (module, out[-4000:]))
        self.notes.setdefault('models_checked', []).append(
            {'model': what or module, 'distinct_states': self.last_distinct, 'seconds': round(time.time() - t, 1)})
        return out

    MIS = re.compile(r'<<\s*"MISMATCH",\s*(\d+),\s*(\d+),\s*"((?:[^"\\]|\\.)*)"\s*>>', re.S)

    def validate(self, module, traces, cfg=None, env=None, count=True):
        """traces: list of lists of events (dicts). Deterministic trace specification with one
        state per event. Returns {index: (event number from 0, expected)} of the rejected ones."""
        if not traces:
            return {}
        batch = 40000       # so that the queue in memory and each run of TLC stay small
        if len(traces) > batch:
            bad = {}
            for k in range(0, len(traces), batch):
                for i, m in self.validate(module, traces[k:k + batch], cfg, env, count).items():
                    bad[k + i] = m
            return bad
        path = os.path.join(self.work, 'traces-%d.ndjson' % time.time_ns())
        with open(path, 'w') as f:
            for i, t in enumerate(traces):
                f.write(json.dumps({'id': i, 'ev': t}) + '\n')
        e = {'TRACE_FILE': path}
        e.update(env or {})
        # in memory: TLC's queue on disk garbles characters beyond 127 in states
        ok, out = self.tlc(module, cfg, env=e, deque=True)
        if not ok:
            raise Inconclusive('TLC failed on %s:\n%s' % (module, out[-4000:]))
        bad = {}
        for m in self.MIS.finditer(out):
            bad[int(m.group(1)) - 1] = (int(m.group(2)) - 1, m.group(3).replace('\\"', '"').replace('\\\\', '\\'))
        if out.count('"MISMATCH"') != len(bad):
            raise Inconclusive('cannot read the mismatches:\n' + out[-2000:])
        want = sum((bad[i][0] + 2) if i in bad else len(t) + 1 for i, t in enumerate(traces))
        if self.last_distinct != want:
            raise Inconclusive('%s: %d states where %d were expected: events without an action?\n%s' %
                               (module, self.last_distinct, want, out[-1500:]))
        if count:
            self.validated += len(traces)
        os.remove(path)
        return bad

    # ------------------------------------------------------------- reporting
    def known(self):
        out = []
        p = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(p):
            for line in open(p):
                m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line)
                if m and m.group(1) == self.prop:
                    out.append((m.group(2), m.group(3).strip()))
        return out

    def report(self, what, data, key=None):
        """Record a confirmed violation; data is written to the replay file."""
        for k, text in self.known():
            if key is not None and k == key:
                if k not in [x[0] for x in self.notes.setdefault('known_findings', [])]:
                    self.notes['known_findings'].append((k, text))
                    print('KNOWN-FINDING: property=%s %s' % (self.prop, text))
                return
        d = os.path.join(VERIF, 'out', self.prop)
        os.makedirs(d, exist_ok=True)
        body = json.dumps(dict(data, property=self.prop, what=what, seed=self.seed, tier=self.tier), indent=1, default=str)
        path = os.path.join(d, 'violation-%s.json' % hashlib.sha1(body.encode()).hexdigest()[:10])
        with open(path, 'w') as f:
            f.write(body + '\n')
        self.violations.append((what, path))

    def finish(self):
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.validated,
               'evaluations': self.evaluations,
               'rule': self.rule, 'samples': self.samples[:6]}
        cov.update(self.notes)
        if self.exhaustive is not None:
            cov['exhaustive'] = self.exhaustive
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
              'coverage': cov, 'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2),
              'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            f.write(json.dumps(ev, indent=1) + '\n')

    # --------------------------------------------- sequential conformance loop
    def conform(self, driver, module, scripts, mk_events, label='', cfg=None, env=None, args=(), sample=True,
                keyfn=None):
        """Run scripts through the driver and check what was recorded against the specification.
        scripts: list of lists of operations (dicts); mk_events(ops, replies) -> trace events and
        lines(op) -> driver line are supplied by the component module."""
        lines, mk = mk_events
        exe = self.seq_driver(driver)
        text = [[lines(o) for o in s] for s in scripts]
        replies = self.drive(exe, text, args)
        ran = [i for i, r in enumerate(replies) if r is not None]
        allscripts = scripts
        scripts, text = [scripts[i] for i in ran], [text[i] for i in ran]
        traces = [mk(s, replies[i]) for s, i in zip(scripts, ran)]
        bad = self.validate(module, traces, cfg, env)
        if label:
            self.count('executions_' + label, len(scripts))
        if sample and traces:
            self.samples.append(short(traces[len(traces) // 2]))
        if not bad:
            return
        # confirm the smallest ones on a fresh run, alone
        order = sorted(bad, key=lambda i: (len(scripts[i]), len(json.dumps(traces[i]))))
        seen = 0
        for i in order[:6]:
            r2 = self.drive(exe, [text[i]], args)
            self.evaluations -= 1
            t2 = mk(scripts[i], r2[0])
            b2 = self.validate(module, [t2], cfg, env, count=False)
            if 0 in b2:
                at, exp = b2[0]
                self.report('%s: the specification rejects event %d of a recorded execution' % (label or module, at + 1),
                            {'driver': driver, 'script': text[i], 'trace': t2[:at + 1], 'rejected_event': t2[at],
                             'specification_expects': exp, 'module': module,
                             'rejected_executions': len(bad)},
                            key=keyfn(t2, at) if keyfn else None)
                seen += 1
                if seen >= 1:
                    return
        # or in one process with those that were run before it
        for i in order[:3]:
            before = [k for k in ran[:i + 1] if k % NCPU == ran[i] % NCPU]
            for width in (20, len(before)):
                ids = before[-width:]
                r2 = self.drive(exe, [[lines(o) for o in allscripts[k]] for k in ids], args, shares=1)
                self.evaluations -= len(ids)
                if r2[-1] is None:
                    continue
                t2 = mk(scripts[i], r2[-1])
                b2 = self.validate(module, [t2], cfg, env, count=False)
                if 0 in b2:
                    at, exp = b2[0]
                    self.report('%s: the specification rejects event %d of an execution that follows others in the same process'
                                % (label or module, at + 1),
                                {'driver': driver, 'script': text[i], 'scripts_before': [[lines(o) for o in allscripts[k]] for k in ids[:-1]],
                                 'trace': t2[:at + 1], 'rejected_event': t2[at], 'specification_expects': exp, 'module': module,
                                 'rejected_executions': len(bad)})
                    return
        raise Inconclusive('rejected executions could not be reproduced: %r' %
                           [(traces[i][:bad[i][0] + 1][-1], bad[i][1]) for i in order[:2]])


def short(t, n=1500):
    s = json.dumps(t)
    return t if len(s) <= n else s[:n] + '...'


def gen_lines(out):
    """The JSON texts a generator run of TLC printed."""
    res = []
    for m in re.finditer(r'<<\s*"GEN",\s*"((?:[^"\\]|\\.)*)"\s*>>', out, re.S):
        res.append(json.loads(m.group(1).replace('\\"', '"').replace('\\\\', '\\')))
    return res


def main(registry):
    if len(sys.argv) < 2 or sys.argv[1] not in registry:
        print('usage: check <property>; known: ' + ' '.join(sorted(registry)))
        sys.exit(2)
    prop = sys.argv[1]
    ctx = Ctx(prop)
    code = 2
    try:
        registry[prop](ctx)
        ctx.finish()
        for what, path in ctx.violations:
            print('%s: %s' % (prop, what))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        code = 1 if ctx.violations else 0
        if code == 0:
            print('%s held: %d states, %d executions of the code validated, %.1fs' %
                  (prop, ctx.states, ctx.validated, time.time() - ctx.t0))
    except Inconclusive as e:
        print('%s: NO ANSWER: %s' % (prop, e))
        code = 2
    finally:
        ctx.close()
    sys.stdout.flush()
    sys.exit(code)
