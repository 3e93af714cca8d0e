"""Several threads, each with objects of its own (property C01) or reading the same ones (C02)."""
import os
import re
import conc
import fmt
import mailbox
import opts
import ptree
import split
from vlib import Inconclusive, short, xs


def driver(ctx):
    if 'many' not in ctx.bins:
        ctx.bins['many'] = ctx.build('many_drv', ['many_drv.cxx'], ['-g', '-O1', '-fsanitize=thread', '-fsanitize-coverage=trace-pc'],
                                     rt=['sched.cxx'], rtflags=['-g', '-O2'])
    return ctx.bins['many']


# ------------------------------------------------------------------------------------- what a thread does
# focus: what all threads of a job do most, so that they meet in the same function
def one_value(r, focus):
    if focus == 'eng':
        return fmt.opF(fmt.dbits(r.choice([1, -1]) * r.uniform(1, 10) * 10 ** r.choice([0, 1, 2, 2, 5, -1, -3, 14])), 'e', r.randint(0, 9), r.randint(1, 5))
    if focus == 'float':
        return fmt.opF(fmt.dbits(r.choice([1, -1]) * r.uniform(1, 10) * 10 ** r.randint(-8, 8)), r.choice('fsg'), r.randint(0, 14), r.randint(0, 7))
    if focus == 'uns':
        return fmt.opU(fmt.runsigned(r), r.choice('dxXo'), r.randint(0, 16), r.choice(['', '_', ',']), r.randint(1, 5))
    if focus == 'int':
        return fmt.opI(fmt.rint(r), r.randint(0, 14), r.choice(['', ',', '.']), r.choice(['', '0', '*']))
    return fmt.runvalue(r)


VALUES = ['eng', 'float', 'uns', 'int', 'any']


def format_ops(r, focus):
    if focus in VALUES:
        n = r.randint(1, 3)
        f, need = ' '.join('%%%d' % i for i in range(n)), n
    else:
        f, need = fmt.rfmt(r, 3, nul=False)
    ops = [fmt.new(f)]
    for _ in range(min(need, 4)):
        ops.append(one_value(r, focus if r.random() < 0.85 else r.choice(VALUES)))
    if r.random() < 0.3:
        ops.append({'op': 'strict'})
    if r.random() < 0.3:
        ops.append({'op': 'reset'})
    return ops


def split_ops(r, focus):
    ops = []
    for _ in range(r.randint(1, 3)):
        s = ''.join(r.choice([' ', 'a', 'b', ',', ';', '  ']) for _ in range(r.randint(0, 12)))
        k = focus if r.random() < 0.8 and focus else r.choice(['squash', 'split', 'splitVec'])
        if k == 'squash':
            ops.append({'op': 'squash', 's': s})
        else:
            ops.append({'op': k, 's': s, 'd': r.choice([',', ' ', ',;', 'a']), 'n': r.choice([0, 1])})
    return ops


def options_ops(r, focus):
    types, form = focus or (None, None)
    su = opts.mkopts(r, types=types)
    su = dict(su, opts=su['opts'][:3], init=su['init'][:3])
    ops = [su]
    for _ in range(r.randint(1, 2)):
        if form == 'kv':
            items = [opts.kvitem(r, su, 0.05, 0.03) for _ in range(r.randint(1, 4))]
            ops.append({'op': 'kv', 'text': ','.join(items)})
        else:
            ops.append(opts.parse(r, opts.mkline(r, su, r.randint(0, 4), unknown=0.03, bad=0.05), (form,) if form else ('argv', 'list', 'str')))
    if r.random() < 0.4:
        ops.append({'op': 'help'})
    return ops


def ptree_ops(r, focus):
    d = ptree.doc(r, r.randint(1, 3), n=r.randint(1, 3))
    ops = [ptree.load(r, d, r.choice(['load', 'ctor']))]
    n = ptree.nodes(d)

    def ask():
        p, v = r.choice(n)
        o = ptree.ask(r, p, v)
        if focus == 'wrong type' and v['k'] != 's':
            o = {'op': 'get', 'type': 'string', 'path': ':'.join(p), 'thr': 1}
        return o
    for _ in range(r.randint(1, 3)):
        if focus == 'missing' and r.random() < 0.8:
            ops.append(ptree.ask(r, ptree.wrong(r, d), None, r.choice([0, 1, 1])))
        elif focus == 'dump' and r.random() < 0.8:
            ops.append(ptree.dump(r, d))
        elif focus == 'walk':
            ops.append({'op': 'walk'})
        else:
            ops.append(ask())
    if r.random() < 0.3:
        d2 = ptree.variant(r, d, 2)
        ops.append(ptree.load(r, d2))
        d = ptree.merge(d, d2)
    if r.random() < 0.3:
        ops.append(ptree.ask(r, ptree.wrong(r, d), None))
    ops.append(r.choice([ptree.dump(r, d), {'op': 'walk'}]))
    return ops


WEIGHTS = dict(sub=4, put=6, get=6, gets=1, ready=2, count=2, clear=1, unsub=1)


def mailbox_ops(r, focus):
    w = dict(WEIGHTS, **{focus: 15}) if focus else WEIGHTS
    return [mailbox.names(r)] + mailbox.script(r, r.randint(4, 12), w, r.randint(1, 2), start=2)


FOCUS = {'format': VALUES + [None],
         'split': ['squash', 'split', 'splitVec', None],
         'options': [(['bool'], 'argv'), (['string'], 'str'), (['int', 'double'], 'list'), (None, 'kv'), None],
         'ptree': ['missing', 'wrong type', 'dump', 'walk', 'get', None],
         'mailbox': ['sub', 'put', 'get', 'clear', 'unsub', None]}
WORLDS = {'format': (format_ops, fmt.MK, 'TraceFormat', None),
          'split': (split_ops, (split.lines, split.events), 'TraceSplit', None),
          'options': (options_ops, opts.MK, 'TraceOptions', {'FOCUS': 'vaprsdxh'}),
          'ptree': (ptree_ops, ptree.MK, 'TracePropertyTree', {'FOCUS': 'vmwnd'}),
          'mailbox': (mailbox_ops, (mailbox.lines, mailbox.events), 'TraceMailBox', {'FOCUS': '-'})}


def job(r, worlds, runs, focus=None):
    scripts = [(w, WORLDS[w][0](r, focus)) for w in worlds]
    if r.random() < 0.2 and len(set(worlds)) == 1:
        scripts = [scripts[0]] * len(scripts)               # the very same calls at once
    head = ['th %s %s' % (w, ' '.join(xs(WORLDS[w][1][0](o)) for o in ops)) for w, ops in scripts]
    return {'head': head, 'threads': [], 'runs': runs, 'scripts': scripts}


def replies(log):
    out = []
    for x in log.split('/'):
        d = {}
        for w in x.split('+'):
            if w:
                k, v = w.split('=', 1)
                d[k] = v
        out.append(d)
    return out


def traces(j, log):
    """(world, events) of each thread; None: the run never got that far, or the memory of the process was overwritten"""
    try:
        return traces_of(j, log)
    except (ValueError, KeyError, IndexError):
        return None


def traces_of(j, log):
    parts = log.split(';')
    if parts[-1].startswith('fault') or re.match(r'(stuck|hang)\b', parts[-1]):
        return None
    if j.get('before'):
        # what one thread did to make the object, and then each reader alone
        first = replies(parts[0])
        return [(w, WORLDS[w][1][1](j['before'] + ops, first + replies(p))) for (w, ops), p in zip(j['scripts'], parts[1:])]
    return [(w, WORLDS[w][1][1](ops, replies(p))) for (w, ops), p in zip(j['scripts'], parts)]


def judge(ctx, items, count=True):
    """items: (world, events); the numbers of those the specification rejects"""
    bad = {}
    for w in WORLDS:
        ids = [i for i, x in enumerate(items) if x[0] == w]
        if ids:
            b = ctx.validate(WORLDS[w][2], [items[i][1] for i in ids], env=WORLDS[w][3], count=count)
            bad.update({ids[k]: v for k, v in b.items()})
    return bad


def together(ctx, jobs, label):
    if ctx.violations:
        return
    items, origin, seen = [], [], {}
    never = []
    for x in conc.execute(ctx, jobs, driver=driver):
        t = traces(jobs[x[0]], x[4])
        if t is None:
            never.append(x)
            continue
        for k, it in enumerate(t):
            key = repr((x[0], k, it))
            if key not in seen:
                seen[key] = len(items)
                items.append(it)
                origin.append((x, k))
    ctx.count('executions_' + label, len(items))
    if items:
        ctx.samples.append(short(items[len(items) // 2]))
    bad = judge(ctx, items)
    if not bad and not never:
        return
    order = [(x, None, None) for x in sorted(never, key=lambda x: len(x[3]))[:4]]
    order += [(origin[i][0], origin[i][1], bad[i]) for i in sorted(bad, key=lambda i: (len(items[i][1]), len(origin[i][0][3])))[:5]]
    for (jn, rn, seed, picks, log), k, why in order:
        j = jobs[jn]
        again = dict(j, runs=[dict(j['runs'][rn], strategy='replay', seed=seed, runs=1, picks=picks)])
        r2 = conc.execute(ctx, [again], driver=driver)
        if not r2:
            continue
        t2 = traces(again, r2[0][4])
        data = {'job': conc.job_lines(0, again), 'schedule': picks, 'driver': 'many_drv'}
        if t2 is None:
            ctx.report('%s: %s end in: %s' % (label, 'threads that only read' if j.get('before') else 'threads that share nothing', r2[0][4].split(';')[-1][:200]), dict(data, log=r2[0][4]))
            return
        b2 = judge(ctx, t2, count=False)
        if b2:
            n = min(b2)
            at, exp = b2[n]
            ev = t2[n][1]
            # the same calls with nobody else about
            ctx.report('%s: a thread %s gets what the specification of its calls does not allow' %
                       (label, 'that reads while others read' if j.get('before') else 'with objects of its own'),
                       dict(data, world=t2[n][0], trace=ev[:at + 1], rejected_event=ev[min(at, len(ev) - 1)], specification_expects=exp))
            return
    raise Inconclusive('rejected executions could not be reproduced: %r' % (order[0],))


THREADS = '''SPECIFICATION Spec
CONSTANTS
  Threads = {%s}
  Texts = {"", "a", "ab"}
  Calls = %d
  Scratch = "%s"
INVARIANT Alone
%s
CHECK_DEADLOCK FALSE
'''


def model(ctx, n, calls, scratch, live=''):
    return THREADS % (', '.join('t%d' % i for i in range(n)), calls, scratch, live), 'Threads: %d threads, %d calls, %s' % (n, calls, scratch)


def schedules(ctx, i, k):
    s = ctx.seed * 1000003 + i * 7919
    base = dict(strategy='random', steps=2000000)
    return [dict(base, seed=s, runs=max(1, k // 10), mem=100), dict(base, seed=s + 1, runs=k, mem=10),
            dict(base, seed=s + 2, runs=k, mem=1), dict(base, seed=s + 3, runs=k // 2, mem=0)]


def c01(ctx):
    ctx.rng.nonul = True
    ctx.rule = ('one execution: two to four threads perform short scripts on Format, split, Options, PropertyTree or MailBox objects of '
                'their own under one schedule, with switches possible at every function entry, basic block and memory access of the '
                'library; distinct results are compared, thread by thread, with the specification of the calls alone')
    ctx.assumptions = ['threads switch at instrumented code of the library only: yaml-cpp, the C++ library and libc run without a switch inside',
                       'sequentially consistent memory', 'Format::separator is not assigned meanwhile']
    ctx.model_check('Threads', *model(ctx, 2, 2, 'own'))
    ctx.model_check('Threads', *model(ctx, 3, ctx.pick(1, 2), 'own', 'PROPERTY Ends'))
    if ctx.tier == 'thorough':
        for d in ('static', 'lockedSteps', 'staticResult'):
            ok, out = ctx.tlc('Threads', model(ctx, 2, 2, d)[0], count=False)
            if ok or 'violated' not in out:
                raise Inconclusive('the model of independent calls does not notice: ' + d)
    r = ctx.rng
    n, k = ctx.pick((40, 50), (300, 150))
    for w in WORLDS:
        jobs = [job(r, [w] * r.choice([2, 2, 2, 3, 4]), schedules(ctx, i, k), FOCUS[w][i % len(FOCUS[w])]) for i in range(n)]
        together(ctx, jobs, w)
    names = sorted(WORLDS)
    jobs = [job(r, [r.choice(names) for _ in range(r.choice([2, 3, 4]))], schedules(ctx, i + 5000, k)) for i in range(n)]
    together(ctx, jobs, 'mixed')


# ------------------------------------------------------------------------------- readers of the same object
def format_readers(r, focus):
    f, need = fmt.rfmt(r, 3, nul=False)
    before = [fmt.new(f)] + [fmt.runvalue(r) for _ in range(r.randint(0, min(need, 4)))]

    def reads():
        return [{'op': r.choice([focus, focus, 'str', 'stream', 'strict', 'strcopy'])} for _ in range(r.randint(1, 3))]
    return before, reads


def options_readers(r, focus):
    su = opts.mkopts(r)
    su = dict(su, opts=su['opts'][:4], init=su['init'][:4])
    before = [su] + [opts.parse(r, opts.mkline(r, su, r.randint(0, 4), unknown=0.03, bad=0.05)) for _ in range(r.choice([0, 1, 1, 2]))]
    return before, lambda: [{'op': 'help'}] * r.choice([1, 1, 2])


def ptree_readers(r, focus):
    d = ptree.doc(r, r.randint(1, 3), n=r.randint(1, 4))
    before = [ptree.load(r, d, r.choice(['load', 'ctor']))]
    if r.random() < 0.3:
        d2 = ptree.variant(r, d, 2)
        before.append(ptree.load(r, d2))
        d = ptree.merge(d, d2)
    n = ptree.nodes(d)
    some = [r.choice(n) for _ in range(2)]

    def one():
        k = r.random()
        if focus == 'get' or k < 0.4:
            p, v = r.choice(some if r.random() < 0.5 else n)
            return ptree.ask(r, p, v)
        if focus == 'missing' or k < 0.6:
            return ptree.ask(r, ptree.wrong(r, d), None, r.choice([0, 1]))
        if focus == 'walk' or k < 0.7:
            return {'op': 'walk'}
        return ptree.dump(r, d)
    return before, lambda: [one() for _ in range(r.randint(1, 3))]


READERS = {'format': (format_readers, ['str', 'stream', 'strict', 'strcopy']),
           'options': (options_readers, [None]),
           'ptree': (ptree_readers, ['get', 'missing', 'walk', 'dump'])}


def readers(r, w, runs, focus):
    before, reads = READERS[w][0](r, focus)
    scripts = [(w, reads()) for _ in range(r.choice([2, 2, 3, 4]))]
    mk = WORLDS[w][1][0]
    return {'head': ['pre %s %s' % (w, ' '.join(xs(mk(o)) for o in before))] + ['sh ' + ' '.join(xs(mk(o)) for o in ops) for _, ops in scripts],
            'threads': [], 'runs': runs, 'scripts': scripts, 'before': before}


READ = '''SPECIFICATION Spec
CONSTANTS
  Threads = {%s}
  Paths <- %s
  Calls = %d
  Way = "%s"
INVARIANTS Alone Untouched
PROPERTY Ends
CHECK_DEADLOCK FALSE
'''


def readmodel(n, paths, calls, way):
    return READ % (', '.join('t%d' % i for i in range(n)), paths, calls, way), 'Readers: %d threads, %s, %d calls, %s' % (n, paths, calls, way)


def c02(ctx):
    ctx.rng.nonul = True
    ctx.rule = ('one execution: an object is made, and two to four threads perform short scripts of reading operations on it under one '
                'schedule, with switches possible at every function entry, basic block and memory access of the library; distinct '
                'results are compared, thread by thread, with the specification of the calls alone')
    ctx.assumptions = ['threads switch at instrumented code of the library only', 'sequentially consistent memory',
                       'Format::separator is not assigned meanwhile']
    ctx.model_check('Readers', *readmodel(2, 'All', 2, 'own'))
    ctx.model_check('Readers', *readmodel(3, 'Few', ctx.pick(1, 2), 'own'))
    if ctx.tier == 'thorough':
        for d in ('cursor', 'memo', 'vivify'):
            ok, out = ctx.tlc('Readers', readmodel(2, 'All', 2, d)[0], count=False)
            if ok or 'violated' not in out:
                raise Inconclusive('the model of readers does not notice: ' + d)
    r = ctx.rng
    n, k = ctx.pick((60, 50), (400, 150))
    for w in sorted(READERS):
        fs = READERS[w][1]
        together(ctx, [readers(r, w, schedules(ctx, i, k), fs[i % len(fs)]) for i in range(n)], w)


CHECKS = {'C01': c01, 'C02': c02}
