"""Concurrent executions under the controlled scheduler, and the Barrier: properties B01 to B03."""
import json
import os
import re
import subprocess
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
from vlib import Inconclusive, NCPU, gen_lines, short, unx, xs

RUN = dict(strategy='random', seed=1, runs=100, spurious=0, steals=0, mem=100, bound=0, steps=20000, picks='-')
NOLIMIT = [0, 0]


def run_line(r):
    r = dict(RUN, **r)
    return 'run %(strategy)s %(seed)d %(runs)d %(spurious)d %(steals)d %(mem)d %(bound)d %(steps)d %(picks)s' % r


def conc_driver(ctx):
    if 'conc' not in ctx.bins:
        ctx.bins['conc'] = ctx.build('conc_drv', ['conc_drv.cxx'], ['-g', '-O1', '-fsanitize=thread'],
                                     rt=['sched.cxx'], rtflags=['-g', '-O2'])
    return ctx.bins['conc']


def job_lines(i, j):
    out = ['J %d' % i] + list(j['head'])
    if j.get('pre'):
        out.append('pre ' + ' '.join(j['pre']))
    out += ['th ' + ' '.join(t) for t in j['threads']]
    if j.get('post'):
        out.append('post ' + ' '.join(j['post']))
    return out + [run_line(r) for r in j['runs']]


def execute(ctx, jobs, timeout=600, driver=conc_driver, workers=NCPU):
    """Run all jobs; returns a list of (job number, run number, seed, picks, log), distinct per job."""
    exe = driver(ctx)
    res = [[] for _ in range(workers)]
    totals = [0] * workers
    faults = [0] * workers
    full = [0] * workers

    def work(w):
        todo = list(range(w, len(jobs), workers))
        deadline = time.time() + timeout
        while todo and faults[w] < 20:
            inf = tempfile.TemporaryFile(dir=ctx.work)
            for i in todo:
                inf.write(('\n'.join(job_lines(i, jobs[i])) + '\n').encode())
            inf.seek(0)
            outf = tempfile.TemporaryFile(dir=ctx.work)
            errf = tempfile.TemporaryFile(dir=ctx.work)
            p = subprocess.Popen([exe], stdin=inf, stdout=outf, stderr=errf, cwd=ctx.work, env=dict(os.environ, LC_ALL='C'))
            try:
                p.wait(timeout=max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                raise Inconclusive('the concurrent executions ran out of time')
            outf.seek(0)
            ended, last = False, todo[0]
            for line in outf.read().decode('latin-1').split('\n'):
                f = line.split(' ', 5)
                if f[0] == 'X' and len(f) == 6:
                    last = int(f[1])
                    res[w].append((last, int(f[2]), int(f[3]), f[4], f[5]))
                elif f[0] == 'D':
                    last = int(f[1])
                    totals[w] += int(f[2])
                    full[w] += f[3] == '1'
                elif f[0] == 'E':
                    ended = True
            if ended:
                break
            if p.returncode != 78:
                errf.seek(0)
                raise Inconclusive('%s failed with %d: %s' % (os.path.basename(exe), p.returncode, errf.read()[-1000:]))
            faults[w] += 1
            todo = [i for i in todo if i > last]
    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(work, range(workers)))
    ctx.evaluations += sum(totals)
    ctx.count('schedules_run', sum(totals))
    ctx.count('schedule_spaces_exhausted_up_to_their_bound', sum(full))
    return sorted((x for r in res for x in r), key=lambda x: x[:2])


ACC = re.compile(r'<<\s*"ACCEPT",\s*(\d+)\s*>>')
REACH = re.compile(r'<<\s*"REACH",\s*(\d+),\s*(\d+)\s*>>')


def accepted(ctx, module, traces, count=True, reach=False, env=None, threads=None):
    """Which traces are behaviours of the (nondeterministic) trace specification?"""
    if not traces:
        return set()
    path = os.path.join(ctx.work, 'traces-%d.ndjson' % time.time_ns())
    with open(path, 'w') as f:
        for t in traces:
            f.write(json.dumps(t) + '\n')
    cfg = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec', module + '.cfg')).read()
    if threads:
        cfg = re.sub(r'Threads = .*', 'Threads = {%s}' % ', '.join(str(t) for t in range(threads)), cfg)
    if reach:
        cfg += '\nINVARIANT Reach\n'
    ok, out = ctx.tlc(module, cfg, env=dict({'FOCUS': '-'}, **dict(env or {}, TRACE_FILE=path)), count=count)
    os.remove(path)
    if not ok:
        raise Inconclusive('TLC failed on %s:\n%s' % (module, out[-4000:]))
    if reach:
        return max([int(m.group(2)) for m in REACH.finditer(out)] or [1])
    return set(int(m.group(1)) - 1 for m in ACC.finditer(out))


def several(t):
    """an execution may have one trace for each object"""
    return t if isinstance(t, list) else [t]


def check(ctx, module, jobs, parse, label, chunk=60000, env=None, threads=None):
    """Run the jobs, validate what was recorded, confirm and report rejections."""
    if ctx.violations:
        return False
    xs = execute(ctx, jobs)
    seen, traces, origin = {}, [], []
    for x in xs:
        for t in several(parse(jobs[x[0]], x[4])):
            k = json.dumps(t, sort_keys=True)
            if k not in seen:
                seen[k] = len(traces)
                traces.append(t)
                origin.append(x)
    ctx.count('distinct_executions_' + label, len(traces))
    if traces:
        ctx.samples.append(short(traces[len(traces) // 2]))
    bad = []
    for i in range(0, len(traces), chunk):
        if bad:
            break
        part = traces[i:i + chunk]
        acc = accepted(ctx, module, part, env=env, threads=threads)
        bad += [i + k for k in range(len(part)) if k not in acc]
    ctx.validated += len(traces)
    if not bad:
        return True
    bad.sort(key=lambda i: (len(traces[i]['ev']), len(origin[i][3])))
    for i in bad[:5]:
        job, (_, rn, seed, picks, log) = jobs[origin[i][0]], origin[i]
        again = dict(job, runs=[dict(job['runs'][rn], strategy='replay', seed=seed, runs=1, picks=picks)])
        r2 = execute(ctx, [again])
        if not r2:
            continue
        t2 = [t for t in several(parse(again, r2[0][4])) if 0 not in accepted(ctx, module, [t], count=False, env=env, threads=threads)]
        if not t2:
            continue
        t2 = t2[0]
        at = accepted(ctx, module, [t2], count=False, reach=True, env=env, threads=threads)
        ctx.report('%s: the specification has no behaviour for a recorded concurrent execution' % label,
                   {'module': module, 'job': job_lines(0, again), 'trace': t2, 'first_inexplicable_event': t2['ev'][min(at, len(t2['ev'])) - 1],
                    'rejected_executions': len(bad), 'original_log': log})
        return False
    # not by itself: after the executions that went before it in the same process
    for i in bad[:2]:
        j, log = origin[i][0], origin[i][4]
        before = jobs[j % NCPU:j + 1:NCPU]
        r2 = [x for x in execute(ctx, before, workers=1) if x[0] == len(before) - 1 and x[1:] == origin[i][1:]]
        if r2:
            ctx.report('%s: the specification has no behaviour for an execution recorded after others in the same process' % label,
                       {'module': module, 'jobs': [job_lines(k, b) for k, b in enumerate(before)], 'trace': traces[i],
                        'rejected_executions': len(bad), 'original_log': log})
            return False
    raise Inconclusive('rejected concurrent executions could not be reproduced: %r' % (traces[bad[0]],))


# --------------------------------------------------------------------------------------------- Barrier
def tm(s, ms):
    return [int(s), int(ms)]


def barrier_trace(job, log):
    """The traces of the barriers of an execution, each with the calls made on it."""
    head = job['head'][0].split()
    sizes, names = [int(head[1])], [unx(head[2]) if len(head) > 2 else 'b']
    if len(head) > 3:
        sizes.append(int(head[3]))
        names.append(unx(head[4]))
    out = [{'size': n, 'name': x, 'ev': []} for n, x in zip(sizes, names)]
    at = {}                                      # the barrier a thread is in, None outside
    for item in log.split(';'):
        f = item.split(',')
        if f[0] == 'c':
            v = int(f[2][1:] or 0)
            t = int(f[1])
            at[t] = 1 if f[2][0].isupper() else 0
            out[at[t]]['ev'].append({'e': 'call', 't': t, 'limit': tm(v // 1000, v % 1000), 'at': tm(f[3], f[4]), 'stolen': tm(f[5], f[6])})
        elif f[0] == 'r':
            t = int(f[1])
            res, bases, what = (f[2] + '||x').split('|')[:3]
            out[at[t]]['ev'].append({'e': 'ret', 't': t, 'res': res, 'bases': bases, 'what': unx(what), 'at': tm(f[3], f[4]), 'stolen': tm(f[5], f[6])})
            at[t] = None
        elif f[0] in ('stuck', 'hang'):
            stuck = [int(x) for x in f[1:-4]]
            for k, o in enumerate(out):
                o['ev'].append({'e': 'end' if f[0] == 'stuck' else 'fault', 'stuck': [t for t in stuck if at.get(t) == k], 'at': tm(f[-4], f[-3]),
                                'stolen': tm(f[-2], f[-1])})
        elif f[0] == 'fault':
            for o in out:
                o['ev'].append({'e': 'fault', 'why': f[1]})
    for o in out:
        ev = o['ev']
        # neighbouring calls (and neighbouring returns) of the same moment are in no order
        i = 0
        while i < len(ev):
            k = i
            while k < len(ev) and ev[k]['e'] == ev[i]['e'] and ev[k]['e'] in ('call', 'ret') and \
                    ev[k]['at'] == ev[i]['at'] and ev[k]['stolen'] == ev[i]['stolen']:
                k += 1
            if k > i + 1:
                ev[i:k] = sorted(ev[i:k], key=lambda e: e['t'])
            i = max(k, i + 1)
        if ev and ev[-1]['e'] in ('call', 'ret'):
            ev.append({'e': 'end', 'stuck': [], 'at': ev[-1]['at'], 'stolen': ev[-1]['stolen']})
    return [o for o in out if o['ev']]


IMPL = '''SPECIFICATION %s
CONSTANTS
  t1 = t1 t2 = t2 t3 = t3
  Threads = {t1, t2, t3}
  N = %d
  MaxCalls = %d
  Limits = {%s}
  MaxTime = %d
  Spurious = %d
  Defect = "%s"
%s
CHECK_DEADLOCK FALSE
'''
SAFE = 'SYMMETRY Sym\nINVARIANTS Incomplete NobodyLeft OneTimeout OnTime NoLostWakeup\nPROPERTY Refines'
DEFECTS = [('readEarly', 2), ('noCorrupt', 3), ('notSticky', 3), ('notifyOne', 3), ('noLoop', 3), ('rearm', 3), ('flagFirst', 3)]


def impl(ctx, n, calls, limits, mtime, spurious):
    ctx.model_check('BarrierImpl', IMPL % ('SafeSpec', n, calls, limits, mtime, spurious, 'none', SAFE),
                    'BarrierImpl refines Barrier, size %d, 3 threads, %d calls each, limits {%s}' % (n, calls, limits), timeout=850)


def sensitivity(ctx):
    for d, n in DEFECTS:
        ok, out = ctx.tlc('BarrierImpl', IMPL % ('SafeSpec', n, 2, '0, 1', 2, 1, d, SAFE), count=False)
        if ok or 'violated' not in out:
            raise Inconclusive('the barrier model does not notice the defect ' + d)
    ctx.notes['wrong_variants_rejected_by_the_model'] = [d for d, _ in DEFECTS]


MC = '''SPECIFICATION Spec
CONSTANTS
  Threads = {%s}
  Steps <- %s
  MaxLen = %d
  Sizes = {%s}
  Gen = %s
INVARIANTS B01 B02 B03 Rest Emit
PROPERTY Sticky
CHECK_DEADLOCK FALSE
'''


def programs(ctx, nthreads, steps, maxlen, sizes):
    out = ctx.model_check('MCBarrier', MC % (', '.join(str(i) for i in range(nthreads)), steps, maxlen, sizes, 'TRUE'),
                          'every program of %d threads with up to %d steps of %s' % (nthreads, maxlen, steps))
    return gen_lines(out)


def ms(step, form):
    """A step of MCBarrier as an operation of the driver; form w: milliseconds, x: duration."""
    return ('s' if step[0] == 's' else form) + str(int(step[1:]) * 1000)


def gen_jobs(ctx, progs, runs):
    jobs = []
    for i, g in enumerate(progs):
        form = 'wx'[i % 2]
        jobs.append({'head': ['barrier %d' % g['size']], 'threads': [[ms(s, form) for s in p] for p in g['prog']],
                     'runs': [dict(r, seed=1000 * i + 1) for r in runs]})
    return jobs


def wait(r, v):
    return r.choice(['w', 'w', 'x']) + str(v) if v else r.choice(['n', 'w0', 'x0'])


def mixed_runs(ctx, i, spurious, steals, k):
    seed = ctx.seed * 1000003 + i * 7919
    return [dict(strategy='random', seed=seed, runs=k, spurious=spurious, steals=steals),
            dict(strategy='random', seed=seed + 1, runs=k // 2, spurious=spurious, steals=steals, mem=15),
            dict(strategy='pct', seed=seed + 2, runs=k, spurious=spurious, steals=steals)]


def b01(ctx):
    ctx.rule = ('one execution of a small concurrent program per schedule, on a virtual clock; distinct ones are compared '
                'with the specification; a program is non-trivial if it has at least two threads')
    ctx.assumptions = BASE
    impl(ctx, 2, 2, '0', 0, 2)
    impl(ctx, 3, ctx.pick(2, 3), '0', 0, 2)
    if ctx.tier == 'thorough':
        sensitivity(ctx)
        ctx.model_check('BarrierImpl', IMPL % ('Spec', 2, 2, '0', 0, 1, 'none', 'PROPERTY Leaves'), 'liveness')
    progs = programs(ctx, 3, 'S1', ctx.pick(3, 4), '1, 2, 3')
    progs += programs(ctx, 4, 'S1', 2, '2, 3, 4')
    k = ctx.pick(60, 300)
    check(ctx, 'TraceBarrier', gen_jobs(ctx, progs, [dict(strategy='random', runs=k), dict(strategy='random', runs=k // 2, spurious=2),
                                                     dict(strategy='pct', runs=k // 2, spurious=1)]),
          barrier_trace, 'programs_enumerated_by_TLC')
    r = ctx.rng
    jobs = []
    for i in range(ctx.pick(160, 1200)):
        n = r.choice([1, 2, 2, 2, 3, 3, 4, 5])
        ths = [[wait(r, 0) for _ in range(r.choice([1, 1, 2, 3, 4]))] for _ in range(r.choice([n, n, n, n + 1, min(7, n + 2), max(1, n - 1)]))]
        if r.random() < 0.4:
            # everybody takes part in every pass
            c = r.randint(1, 4)
            ths = [[wait(r, 0)] * c for _ in range(n)]
        if r.random() < 0.3:
            for t in ths:
                if r.random() < 0.5:
                    t.insert(r.randint(0, len(t)), 's%d' % r.choice([1, 5, 1000]))
        # long calling threads come back again and again
        jobs.append({'head': ['barrier %d' % n], 'threads': ths, 'runs': mixed_runs(ctx, i, r.choice([0, 1, 3]), 0, ctx.pick(50, 400))})
    check(ctx, 'TraceBarrier', jobs, barrier_trace, 'random_programs')
    # all schedules with few preemptions
    jobs = [{'head': ['barrier %d' % n], 'threads': ths, 'runs': [dict(strategy='dfs', runs=0, bound=b, spurious=sp)]}
            for n, ths, b, sp in [(2, [['w0'], ['w0']], 3, 1), (2, [['w0', 'w0'], ['w0', 'w0']], 2, 0), (2, [['w0'], ['w0'], ['w0'], ['w0']], 2, 0),
                                  (3, [['w0'], ['w0'], ['w0']], 2, 1), (2, [['w0', 'w0'], ['w0'], ['w0']], 2, 0),
                                  (1, [['w0', 'w0'], ['w0']], 3, 0)]]
    if ctx.tier == 'thorough':
        for j in jobs:
            j['runs'][0]['bound'] += 1
    check(ctx, 'TraceBarrier', jobs, barrier_trace, 'all_schedules_with_bounded_preemptions')
    crowds(ctx, False)
    # many passes
    jobs = starved(ctx)
    jobs += [{'head': ['barrier %d' % n], 'threads': [['w0'] * c for _ in range(n)],
             'runs': [dict(strategy='random', seed=ctx.seed * 77 + s, runs=1, steps=2000000) for s in range(2)]}
            for n, c in [(2, 300), (3, 120), (5, 40), (2, 700)]]
    check(ctx, 'TraceBarrier', jobs, barrier_trace, 'many_passes')


def starved(ctx):
    """A thread is released and then kept from running while the others pass k more times."""
    jobs = []
    for i, k in enumerate([1, 2, 3, 7, 15, 31, 63, 127, 128, 255, 256, 511] + ctx.pick([], [1023, 2047, 4095])):
        for n in (2, 3):
            ths = [['w0']] + [['s1000'] + ['w0'] * (k + 1)] * n            # k + 1 passes; the last call of one is left over
            jobs.append({'head': ['barrier %d' % n], 'threads': ths, 'runs': [dict(strategy='starve', seed=ctx.seed * 131 + i, runs=ctx.pick(3, 12), steps=4000000, mem=2)]})
    return jobs


def crowds(ctx, broken):
    """Hundreds of threads at one barrier; everybody takes part in every pass."""
    r = ctx.rng
    jobs = []
    sizes = [9, 12, 16, 17, r.choice([20, 25, 31]), 32, 33]
    if not broken:
        sizes += [64, 65, r.choice([100, 128, 129, 200]), 256, r.choice([255, 257, 300])]
    for i, n in enumerate(sizes):
        ops = ['w0'] * (3 if n < 70 else 2)
        ths = [list(ops) for _ in range(n)]
        if broken:
            # all but one come; the limits of some run out and everybody is refused, the late one too
            late = ths.pop()
            for t in ths:
                t[0] = r.choice(['w0', 'w0', 'w50', 'x50', 'w70'])
            ths[r.randrange(len(ths))][0] = 'w50'
            ths.append(['s500'] + late)
        jobs.append({'head': ['barrier %d' % n], 'threads': ths,
                     'runs': [dict(strategy='random', seed=ctx.seed * 31 + i, runs=2 if n < 100 else 1, steps=2000000, mem=5),
                              dict(strategy='pct', seed=ctx.seed * 31 + i, runs=1, steps=2000000, mem=5)]})
    check(ctx, 'TraceBarrier', jobs, barrier_trace, 'crowds', env={'FOCUS': 'crowd'}, threads=300)


LIMITS = [1, 2, 7, 50, 250, 999, 1000, 1001, 1500, 4000, 60000, 65536, 3600000, 2147483, 2147483648, 4294967296 + 500, 4294967295,
          10 ** 10, 6 * 10 ** 10]


def b02(ctx):
    ctx.rule = 'as for B01; waits with limits, arrivals at, before and after the deadlines, spurious wakeups in between'
    ctx.assumptions = BASE
    impl(ctx, 3, ctx.pick(1, 2), '0, 1, 2', ctx.pick(2, 3), 2)
    if ctx.tier == 'thorough':
        ctx.model_check('BarrierImpl', IMPL % ('Spec', 2, 1, '0, 1', 2, 1, 'none', 'PROPERTY Leaves Ends'), 'liveness')
        sensitivity(ctx)
    progs = programs(ctx, 3, 'S2', 2, '2, 3') + programs(ctx, 2, 'S4', ctx.pick(2, 3), '2, 3')
    k = ctx.pick(40, 200)
    check(ctx, 'TraceBarrier', gen_jobs(ctx, progs, [dict(strategy='random', runs=k, spurious=2), dict(strategy='pct', runs=k, spurious=1)]),
          barrier_trace, 'programs_enumerated_by_TLC')
    r = ctx.rng
    jobs = []
    for i in range(ctx.pick(250, 2000)):
        n = r.choice([1, 2, 2, 3, 3, 4])
        l = r.choice(LIMITS)
        ths = []
        for _ in range(r.randint(1, n + 1)):
            t = []
            for _ in range(r.choice([1, 1, 1, 2])):
                if r.random() < 0.5:
                    t.append('s%d' % min(10 ** 10, r.choice([l // 2 + 1, l, l + 1, max(1, l - 1), l // 3 + 1, 2 * l])))
                t.append(wait(r, min(LIMITS[-1], r.choice([l, l, l, 0, r.choice(LIMITS), l + 1, 2 * l]))))
            ths.append(t)
        # somebody who only sleeps gives the scheduler occasions for spurious wakeups
        ths.append(['s%d' % max(1, l // 4)] * 5)
        jobs.append({'head': ['barrier %d' % n], 'threads': ths, 'runs': mixed_runs(ctx, i, r.choice([0, 1, 3, 6]), r.choice([0, 0, 1]), ctx.pick(60, 150))})
    # each limit by itself, in both forms
    for l in LIMITS + [0]:
        for f in ['w', 'x']:
            jobs.append({'head': ['barrier 2'], 'threads': [['%s%d' % (f, l)], ['s%d' % max(1, l // 3), 's%d' % max(1, l // 3)]],
                         'runs': [dict(strategy='random', runs=40, spurious=2)]})
    check(ctx, 'TraceBarrier', jobs, barrier_trace, 'random_programs')


def b03(ctx):
    ctx.rule = 'as for B01; waits that time out while others wait, arrive, leave or come later'
    ctx.assumptions = BASE
    impl(ctx, 3, 2, '0, 1', ctx.pick(2, 3), 1)
    impl(ctx, 2, 2, '0, 1', 1, 0)
    if ctx.tier == 'thorough':
        sensitivity(ctx)
    progs = programs(ctx, 3, 'S3', 2, '2, 3')
    k = ctx.pick(8, 200)
    check(ctx, 'TraceBarrier', gen_jobs(ctx, progs, [dict(strategy='random', runs=k), dict(strategy='random', runs=k, steals=2, spurious=1),
                                                     dict(strategy='pct', runs=k, steals=1)]),
          barrier_trace, 'programs_enumerated_by_TLC')
    r = ctx.rng
    jobs = []
    for i in range(ctx.pick(120, 1600)):
        n = r.choice([2, 2, 3, 3, 4, 5])
        l = r.choice([1000, 1000, 5, 300])
        ths = []
        for _ in range(r.choice([n - 1, n, n, n + 1, n + 2])):
            t = []
            for _ in range(r.choice([1, 2, 2, 3])):
                if r.random() < 0.35:
                    t.append('s%d' % r.choice([l, l, l // 2 + 1, 2 * l]))
                t.append(wait(r, r.choice([0, 0, l, l, 2 * l, 3 * l])))
            ths.append(t)
        jobs.append({'head': ['barrier %d' % n], 'threads': ths[:7], 'runs': mixed_runs(ctx, i, r.choice([0, 0, 2]), r.choice([0, 1, 3]), ctx.pick(45, 200))})
    check(ctx, 'TraceBarrier', jobs, barrier_trace, 'random_programs')
    jobs = [{'head': ['barrier %d' % n], 'threads': ths, 'runs': [dict(strategy='dfs', runs=0, bound=b, steals=st)]}
            for n, ths, b, st in [(2, [['w1000'], ['s1000', 'w0']], 2, 0), (2, [['w1000', 'w0'], ['s1000', 'w0', 'w0']], 2, 0),
                                  (3, [['w1000'], ['w1000'], ['s1000', 'w0']], 2, 0), (3, [['w1000'], ['w0'], ['s2000', 'w0', 'w0']], 2, 0),
                                  (2, [['w0'], ['w0', 'w1000'], ['s1000', 'w0']], 2, 1), (2, [['w0'], ['w0', 'w5']], 2, 1),
                                  (3, [['w1000'], ['w0'], ['s1000', 'w1000', 'w1000']], 2, 0)]]
    if ctx.tier == 'thorough':
        for j in jobs:
            j['runs'][0]['bound'] += 1
    check(ctx, 'TraceBarrier', jobs, barrier_trace, 'all_schedules_with_bounded_preemptions')
    crowds(ctx, True)


NAMES = ['b', '', 'gate', '%0', '%1 and %0', '%', '100%%', 'a b', 'Barrier', 'tab\there', 'x' * 40, '17', '%12', 'caf\xe9', 'new\nline', '"quoted"']


TWO = '''SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Size1 = %d
  Size2 = %d
  Programs <- %s
  MaxTime = %d
INVARIANT Invariants
PROPERTIES Alone OwnFault
%s
'''


def b04(ctx):
    ctx.rule = ('executions with two barriers, used by the same threads; each barrier\'s part must be a behaviour of a barrier by itself; '
                'the texts of all exceptions are compared')
    ctx.assumptions = BASE
    impl(ctx, 2, 2, '0, 1', 1, 0)
    for n, m, progs, time, dead in [(2, 3, ctx.pick('Few', 'Mixed'), 2, 'CHECK_DEADLOCK FALSE'), (3, 3, 'InOrder', 0, '')]:
        ctx.model_check('TwoBarriers', TWO % (n, m, progs, time, dead), 'two barriers of %d and %d, 3 threads, programs %s' % (n, m, progs))
    r = ctx.rng
    jobs = []
    for i in range(ctx.pick(260, 2400)):
        n, m = r.choice([1, 2, 2, 2, 3]), r.choice([1, 2, 2, 2, 3])
        l = r.choice([1, 5, 300, 1000, 1000, 3600000, 60000, 4294967296 + 500])
        ths = []
        together = r.random() < 0.4
        plan = [r.choice('01') for _ in range(r.choice([1, 2, 3, 4]))]
        for _ in range(r.choice([max(n, m), max(n, m), max(n, m) + 1, 2, 3])):
            t = []
            for k in (plan if together else [r.choice('01') for _ in range(r.choice([1, 2, 2, 3]))]):
                if r.random() < 0.3:
                    t.append('s%d' % r.choice([l, l // 2 + 1, 2 * l]))
                w = wait(r, 0 if (together and r.random() < 0.8) else r.choice([0, l, l, 2 * l]))
                t.append(w.upper() if k == '1' else w)
            ths.append(t)
        name = r.choice(NAMES)
        jobs.append({'head': ['barrier %d %s %d %s' % (n, xs(name), m, xs(name if r.random() < 0.4 else r.choice(NAMES)))], 'threads': ths[:6],
                     'runs': mixed_runs(ctx, i, r.choice([0, 0, 2]), r.choice([0, 0, 1]), ctx.pick(24, 160))})
    # every name, in both exceptions
    for i, name in enumerate(NAMES):
        l = LIMITS[i % len(LIMITS)]
        jobs.append({'head': ['barrier 2 %s 3 %s' % (xs(name), xs(NAMES[(i + 5) % len(NAMES)]))], 'threads': [['x%d' % l, 'W%d' % l], ['s%d' % (2 * l), 'w0'], ['n', 'N']],
                     'runs': [dict(strategy='random', runs=20)]})
    env = {'FOCUS': 'told'}
    check(ctx, 'TraceBarrier', jobs, barrier_trace, 'two_barriers', env=env)
    jobs = [{'head': ['barrier %d %s %d %s' % (n, xs('one'), m, xs('two'))], 'threads': ths, 'runs': [dict(strategy='dfs', runs=0, bound=b)]}
            for n, m, ths, b in [(2, 2, [['w0', 'W0'], ['W0', 'w0']], 1), (2, 2, [['w0', 'W0'], ['w0', 'W0']], 2), (2, 2, [['w0'], ['w0'], ['W0'], ['W0']], 2),
                                 (2, 2, [['w5', 'W0'], ['W0', 'W0']], 2), (1, 2, [['w0', 'W0'], ['W5', 'w0']], 2)]]
    if ctx.tier == 'thorough':
        for j in jobs:
            j['runs'][0]['bound'] += 1
    check(ctx, 'TraceBarrier', jobs, barrier_trace, 'all_schedules_with_bounded_preemptions', env=env)


BASE = ['the threads run one at a time on a sequentially consistent memory; a preemption is possible at every synchronisation call and '
        'every access of the library code to memory outside the stack',
        'the clock is virtual: it stands still while a thread can run, unless the scheduler holds threads back on purpose']
CHECKS = {'B01': b01, 'B02': b02, 'B03': b03, 'B04': b04}
