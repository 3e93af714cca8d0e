"""MailBox: properties M01 to M06."""
import conc
from vlib import unx, xs, gen_lines

# ------------------------------------------------------------------------------------- one after the other
def lines(o):
    op = o['op']
    if op == 'names':
        return 'names ' + ' '.join(xs(n) for n in o['names'])
    k = o.get('k', -1)
    n = o.get('n', 0)
    if op == 'unsub':
        k = o.get('of', -1)
    return '%s %d %d %d %d %d' % (op, o.get('b', 0), k, o.get('h', -1), o.get('x', 0), n)


def result(t):
    if t[0] == 'm' and (len(t) == 1 or t[1] in '-0123456789'):
        return ['m'] + [int(x) for x in t[1:].split(',') if x]
    if t[0] == 'i' and len(t) > 1 and t[1] in '-0123456789':
        return ['i', int(t[1:])]
    return [t]


def events(ops, replies):
    ev = []
    for o, r in zip(ops, replies):
        if 'fault' in r or 'escaped' in r:
            ev.append({'op': 'fault', 'during': lines(o), 'why': r.get('fault') or unx(r['escaped'])})
            break
        e = {a: b for a, b in o.items() if a != 'of'}
        if 'n' in r:
            e['n'] = int(r['n'])
        e['res'] = result(unx(r['res']))
        if 'what' in r:
            e['what'], e['bases'] = unx(r['what']), r['bases']
        e['same'] = r['same'] == '1'
        e['died'] = [int(x) for x in r['died'][1:].split(',') if x]
        ev.append(e)
    return ev


class Track:
    """Keeps generated scripts within what callers may do."""

    def __init__(self, r, nboxes=1, cap=12):
        self.r, self.nboxes, self.cap = r, nboxes, cap
        self.ops, self.status, self.box = [], {}, {}
        self.hands, self.x = set(), 1
        self.gone_boxes = set()

    def add(self, **o):
        self.ops.append(o)

    def boxes(self):
        return [b for b in range(1, self.nboxes + 1) if b not in self.gone_boxes]

    def live(self, b=None):
        return [k for k in self.status if self.status[k] == 'live' and (b is None or self.box[k] == b)]

    def objects(self, b=None):
        return [k for k in self.status if self.status[k] in ('live', 'gone') and (b is None or self.box[k] == b)]

    def sub(self, b):
        k = len(self.status)
        if k < self.cap:
            self.status[k] = 'live'
            self.box[k] = b
            self.add(op='sub', b=b, k=k)

    def hand(self):
        if self.hands and self.r.random() < 0.5:
            return self.r.choice(sorted(self.hands))
        h = self.r.randint(0, 3)
        self.add(op='new', h=h, x=self.x)
        self.x += 1
        self.hands.add(h)
        return h

    def puts(self, b, n):
        self.add(op='puts', b=b, x=self.x, n=n)
        self.x += n

    def step(self, what, k=None):
        r = self.r
        bs = self.boxes()
        if not bs:
            return
        b = r.choice(bs)
        if what == 'sub':
            self.sub(b)
        elif what == 'puts':
            self.puts(b, r.choice([1, 1, 1, 2, 3, 10]))
        elif what == 'many':
            self.puts(b, r.choice([40, 200, 513, 1100]))
        elif what == 'put':
            h = self.hand()
            self.add(op='put', b=b, h=h)
        elif what == 'putn' and self.live(b):
            h = self.hand()
            self.add(op='putn', b=b, h=h, k=k if k in self.live(b) else r.choice(self.live(b)))
        elif what in ('get', 'hold') and self.live(b):
            o = dict(op='get', b=b, k=r.choice(self.live(b)))
            if what == 'hold':
                o['h'] = r.randint(4, 7)
            self.add(**o)
        elif what == 'gets' and self.live(b):
            self.add(op='gets', b=b, k=r.choice(self.live(b)), n=r.choice([1, 2, 3, 30, 600]))
        elif what in ('ready', 'clear') and self.live(b):
            self.add(op=what, b=b, k=r.choice(self.live(b)))
        elif what == 'min' and self.live(b):
            self.add(op='min', b=b)
        elif what == 'visit':
            self.add(op='visit', b=b, n=r.choice([1, 2, 10, 300]))
        elif what in ('count', 'convert', 'badconvert'):
            self.add(op=what, b=b)
        elif what == 'drop' and self.objects():
            k = r.choice(self.objects())
            self.status[k] = 'dropped'
            self.add(op='drop', k=k)
        elif what == 'unsub' and self.live(b):
            k = r.choice(self.live(b))
            self.status[k] = 'gone'
            self.add(op='unsub', b=b, of=k)
        elif what == 'lose' and self.objects():
            k = r.choice(self.objects())
            self.status[k] = 'lost' if self.status[k] == 'live' else 'dropped'
            self.add(op='lose', k=k)
        elif what == 'let' and self.hands:
            h = r.choice(sorted(self.hands))
            self.hands.discard(h)
            self.add(op='let', h=h)
        elif what == 'letgot':
            self.add(op='let', h=r.randint(4, 7))
        elif what == 'destroy' and not self.objects(b):
            self.gone_boxes.add(b)
            self.add(op='destroy', b=b)
        elif what == 'misuse':
            m = r.choice(['other', 'gone', 'number', 'convert', 'othern', 'stale'])
            if m == 'other':
                o = [k for k in self.objects() if self.box[k] != b]
                if o:
                    self.add(op=r.choice(['get', 'ready', 'clear', 'gets']), b=b, k=r.choice(o), n=1)
            elif m == 'othern':
                o = [k for k in self.objects() if self.box[k] != b]
                if o:
                    h = self.hand()
                    self.add(op='putn', b=b, k=r.choice(o), h=h)
            elif m == 'gone':
                o = [k for k in self.objects(b) if self.status[k] == 'gone']
                if o:
                    self.add(op=r.choice(['get', 'ready', 'clear', 'gets']), b=b, k=r.choice(o), n=1)
            elif m == 'number':
                self.add(op='unsub', b=b, n=r.choice([-1, 12, 77, 100000, 2147483647, -2147483648]))
            elif m == 'stale':
                o = [k for k in self.status if self.status[k] in ('gone', 'dropped') and self.box[k] == b]
                if o:
                    self.add(op='unsub', b=b, of=r.choice(o))
            else:
                self.add(op='badconvert', b=b)


def script(r, n, weights, nboxes=1, start=2, drain=True):
    t = Track(r, nboxes)
    for b in range(1, nboxes + 1):
        for _ in range(r.randint(0, start)):
            t.sub(b)
    names = [w for w, c in weights.items() for _ in range(c)]
    for _ in range(n):
        t.step(r.choice(names))
    if drain:
        for k in t.objects():
            if t.status[k] == 'live' and t.box[k] not in t.gone_boxes:
                t.add(op='ready', b=t.box[k], k=k)
                t.add(op='gets', b=t.box[k], k=k, n=5000)
    t.add(op='finish')
    return t.ops


CFG = '''SPECIFICATION Spec
CONSTANTS
  Slots = {0, 1, 2, 3}
  Hands = {0, 1}
  Ops <- %s
  Prefix <- %s
  MaxLen = %d
  Gen = TRUE
INVARIANTS M01 M02 M03 M04 M04b M05 M06 Emit
CHECK_DEADLOCK FALSE
'''


def fix(seq):
    """A sequence printed by TLC as a script: subscription numbers are those the code gives out."""
    out, subs = [], {}
    for o in seq:
        o = dict(o)
        if o['op'] == 'sub':
            subs[o['n']] = o['k']
            del o['n']
        if o['op'] == 'unsub' and o['n'] in subs:
            o['of'] = subs[o['n']]
            del o['n']
        out.append(o)
    return out


def enumerated(ctx, ops, prefix, n):
    out = ctx.model_check('MCMailBox', CFG % (ops, prefix, n), 'every sequence of %d operations of %s after %s' % (n, ops, prefix))
    scripts = []
    for g in gen_lines(out):
        s = fix(g)
        objects = {}
        for o in s:
            if o['op'] == 'sub':
                objects[o['k']] = o['b']
            elif o['op'] in ('drop', 'lose'):
                objects.pop(o['k'], None)
            elif o['op'] == 'unsub' and 'of' in o:
                objects.pop(o['of'], None)
        for k, b in objects.items():
            s.append({'op': 'gets', 'b': b, 'k': k, 'n': 99})
        if not any(o['op'] == 'destroy' for o in s):
            s.append({'op': 'count', 'b': 1})
        s.append({'op': 'finish'})
        scripts.append(s)
    return scripts


NAMES = ['box', 'box', '', 'in', '%0', '%1', 'a mailbox', '100%', '%%', 'a%%b%0', 'm' * 50, '7', 'caf\xe9', 'a\nb', '[x]', '"q"']


def names(r):
    """the names of three mailboxes, often the same ones"""
    a = [r.choice(NAMES) for _ in range(3)]
    if r.random() < 0.4:
        a[r.randint(1, 2)] = a[0]
    return {'op': 'names', 'names': a}


def large(ctx, after):
    """queues beyond 16 bits"""
    r, scripts = ctx.rng, []
    for _ in range(ctx.pick(3, 8)):
        t = Track(r, 1)
        t.sub(1)
        t.puts(1, r.choice([1, 3]))
        t.sub(1)
        t.puts(1, 65536 - r.choice([1, 2, 4]))
        for _ in range(3):
            for a in after:
                t.step(a)
            t.puts(1, r.choice([1, 2, 3]))
        for a in after:
            t.step(a)
        if 'gets' in after:
            t.add(op='gets', b=1, k=0, n=70000)
        t.add(op='finish')
        scripts.append(t.ops)
    ctx.conform('mailbox_drv', 'TraceMailBox', scripts, (lines, events), 'long_queues', env={'FOCUS': '-'}, sample=False)


CROWD = '''SPECIFICATION Spec
CONSTANTS Slots = %s
 Hands = {0, 1, 2, 3, 4, 5, 6, 7}
CHECK_DEADLOCK FALSE
''' % ('{%s}' % ', '.join(map(str, range(330))))


def crowd(ctx, weights, focus='-'):
    """many subscribers, and many that come and go"""
    r, scripts = ctx.rng, []
    names_ = [w for w, c in weights.items() for _ in range(c)]
    for i in range(ctx.pick(16, 160)):
        t = Track(r, r.choice([1, 1, 2]), 330)
        t.puts(1, 1)
        t.sub(1)
        for _ in range([20, 70, 140, 270, 300][i % 5]):
            t.sub(r.choice(t.boxes()))
        if i % 4 == 0:
            t.add(op='visit', b=1, n=r.choice([300, 65530, 65536, 70000]))
        for _ in range(r.randint(20, 50)):
            t.step(r.choice(names_))
            if t.objects() and r.random() < 0.2:
                # the first and the last one
                k = r.choice([t.objects()[0], t.objects()[-1]])
                if t.status[k] == 'live' and 'putn' in names_ and r.random() < 0.6:
                    t.step('putn', k)
                elif t.status[k] == 'live':
                    t.add(op=r.choice(['get', 'ready', 'clear']), b=t.box[k], k=k)
        for _ in range(r.randint(0, 20)):
            t.step(r.choice(['drop', 'unsub', 'sub', 'puts', 'count']))
        for k in t.objects() if i % 2 else t.objects()[:3] + t.objects()[-3:]:
            if t.status[k] == 'live':
                t.add(op='gets', b=t.box[k], k=k, n=5000)
        t.add(op='finish')
        scripts.append(t.ops)
    ctx.conform('mailbox_drv', 'TraceMailBox', scripts, (lines, events), 'crowds', cfg=CROWD, env={'FOCUS': focus}, sample=False)


def sequential(ctx, ops, prefix, n, weights, count, nboxes=1, length=(5, 40), focus='', drain=True):
    env = {'FOCUS': focus or '-'}
    r = ctx.rng
    scripts = [[names(r)] + s for s in enumerated(ctx, ops, prefix, n)]
    ctx.conform('mailbox_drv', 'TraceMailBox', scripts, (lines, events), 'enumerated_by_TLC', env=env)
    scripts = [[names(r)] + script(r, r.randint(*length), weights, r.randint(1, nboxes), drain=drain) for _ in range(count)]
    ctx.conform('mailbox_drv', 'TraceMailBox', scripts, (lines, events), 'random_histories', env=env)


# ------------------------------------------------------------------------------------- concurrently
def conc_op(s):
    a = s[1:]
    return {'s': lambda: {'op': 'sub', 'b': 1, 'k': int(a), 'n': int(a)},
            'p': lambda: {'op': 'put', 'b': 1, 'x': int(a)},
            'q': lambda: {'op': 'putn', 'b': 1, 'x': int(a.split('.')[0]), 'k': int(a.split('.')[1])},
            'g': lambda: {'op': 'get', 'b': 1, 'k': int(a)},
            'r': lambda: {'op': 'ready', 'b': 1, 'k': int(a)},
            'm': lambda: {'op': 'min', 'b': 1},
            'n': lambda: {'op': 'count', 'b': 1},
            'c': lambda: {'op': 'clear', 'b': 1, 'k': int(a)},
            'u': lambda: {'op': 'unsub', 'b': 1, 'n': int(a)},
            'd': lambda: {'op': 'drop', 'k': int(a)}}[s[0]]()


def conc_trace(job, log):
    ev, op = [], {}
    for item in log.split(';'):
        f = item.split(',')
        if f[0] == 'c':
            t = int(f[1]) % 9
            op[t] = f[2]
            ev.append({'e': 'call', 't': t, 'o': conc_op(f[2])})
        elif f[0] == 'r':
            t = int(f[1]) % 9
            v = f[2]
            if op[t][0] == 'g' and v not in ('missing', 'mismatch', 'other'):
                v = ['m'] if v == 'null' else ['m', int(v)]
            elif op[t][0] in 'rmn' and v not in ('missing', 'mismatch', 'other'):
                v = ['i', int(v)]
            else:
                v = [v]
            if f[1] == '-1':
                # before the threads start and after they are done
                ev[-1] = {'e': 'do', 'o': ev[-1]['o'], 'res': v}
            else:
                ev.append({'e': 'ret', 't': t, 'res': v})
        elif f[0] == 'live':
            ev.append({'e': 'end', 'stuck': []})
            ev.append({'e': 'live', 'n': int(f[1])})
        elif f[0] == 'stuck':
            ev.append({'e': 'end', 'stuck': [int(x) for x in f[1:]]})
        else:
            ev.append({'e': 'fault', 'why': item})
    # neighbouring calls (and neighbouring returns) are in no order
    i = 0
    while i < len(ev):
        k = i
        while k < len(ev) and ev[k]['e'] == ev[i]['e'] and ev[k]['e'] in ('call', 'ret'):
            k += 1
        if k > i + 1:
            ev[i:k] = sorted(ev[i:k], key=lambda e: e['t'])
        i = max(k, i + 1)
    return {'ev': ev}


def conc_jobs(ctx, count, kinds, k):
    """kinds: what the threads do, by weight: p put, q put naming, g get, r m n counts, s subscribe, c clear, d drop, u unsubscribe"""
    r = ctx.rng
    jobs = []
    for i in range(count):
        nth = r.choice([2, 2, 3, 3, 4])
        nsub = r.choice([1, 2, 2, 3])
        pre = ['s%d' % j for j in range(nsub)]
        x = 1
        for _ in range(r.choice([0, 0, 1, 2, 3])):
            pre.append('p%d' % x)
            x += 1
        # who owns which subscription; an unowned one belongs to nobody and is never dropped
        owner = [r.choice([-1] + list(range(nth))) for _ in range(nsub)]
        slots = nsub
        byother = set()
        progs = []
        mine = [[j for j in range(nsub) if owner[j] == t] for t in range(nth)]
        shared = [j for j in range(nsub) if owner[j] == -1]
        unsubscribed = set()
        # subscriptions that somebody may unsubscribe by number are not named in a put
        if 'u' in kinds and shared and r.random() < 0.7:
            byother.add(shared[0])
        for t in range(nth):
            p = []
            have = list(mine[t])
            for _ in range(r.choice([1, 2, 2, 3, 3, 4][:7 - nth])):
                o = r.choice(kinds)
                usable = have + shared
                if o == 'p':
                    p.append('p%d' % x)
                    x += 1
                elif o == 'q':
                    u = [j for j in usable if j not in byother]
                    if u:
                        p.append('q%d.%d' % (x, r.choice(u)))
                        x += 1
                elif o in 'grc':
                    if usable:
                        p.append('%s%d' % (o, r.choice(usable)))
                elif o in 'mn':
                    p.append(o)
                elif o == 's' and slots < 11:
                    p.append('s%d' % slots)
                    have.append(slots)
                    slots += 1
                elif o == 'd' and have:
                    j = have.pop(r.randrange(len(have)))
                    p.append('d%d' % j)
                elif o == 'u' and byother:
                    p.append('u%d' % r.choice(sorted(byother)))
            mine[t] = have
            if not p:
                p = ['n']
            progs.append(p)
        post = ['n']
        for j in sorted(set(shared + [y for m in mine for y in m])):
            if not (j in byother):
                post += ['r%d' % j] + ['g%d' % j] * (x if x < 8 else 8)
        jobs.append({'head': ['mailbox'], 'pre': pre, 'threads': progs, 'post': post,
                     'runs': [dict(strategy='random', seed=ctx.seed * 999983 + 31 * i, runs=k),
                              dict(strategy='random', seed=ctx.seed * 999983 + 31 * i + 1, runs=k // 2, mem=20),
                              dict(strategy='pct', seed=ctx.seed * 999983 + 31 * i + 2, runs=k)]})
    return jobs


def concurrent(ctx, count, kinds, k, fixed=(), focus='-', bound=1):
    env = {'FOCUS': focus}
    conc.check(ctx, 'TraceMailConc', conc_jobs(ctx, count, kinds, k), conc_trace, 'concurrent', env=env)
    if ctx.tier == 'thorough':
        bound += 1
    jobs = [{'head': ['mailbox'], 'pre': pre, 'threads': ths, 'post': post,
             'runs': [dict(strategy='dfs', runs=ctx.pick(4000, 60000), bound=bound)]} for pre, ths, post in fixed]
    conc.check(ctx, 'TraceMailConc', jobs, conc_trace, 'all_schedules_with_bounded_preemptions', env=env)


IMPL = '''SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  MaxOps = %d
  Defect = "%s"
INVARIANTS Atomic OneOrder Numbering GotOnce
CHECK_DEADLOCK FALSE
'''


def impl(ctx, n):
    ctx.model_check('MailBoxImpl', IMPL % (n, 'none'), 'put, get and subscribe under the lock, 3 threads, %d operations' % n)
    if ctx.tier == 'thorough':
        for d in ('putUnlocked', 'getTwice', 'counterEarly', 'skipEarly'):
            ok, out = ctx.tlc('MailBoxImpl', IMPL % (4, d), count=False)
            if ok or 'is violated' not in out:
                raise conc.Inconclusive('the mailbox model does not notice the defect ' + d)


RULE = ('sequences of mailbox operations, enumerated by TLC from the specification and random, compared event by event; '
        'concurrent executions must be linearizable')


def m01(ctx):
    ctx.rule, ctx.assumptions = RULE, conc.BASE
    impl(ctx, ctx.pick(4, 6))
    sequential(ctx, 'OpsFlow', 'PreSome', ctx.pick(4, 5),
               {'puts': 6, 'put': 2, 'many': 1, 'get': 6, 'gets': 3, 'sub': 1, 'ready': 1, 'unsub': 1}, ctx.pick(1500, 15000))
    large(ctx, ['gets', 'get'])
    crowd(ctx, {'puts': 6, 'get': 6, 'gets': 3, 'put': 2})
    concurrent(ctx, ctx.pick(260, 2500), 'pppppggggggrsu', ctx.pick(14, 120),
               [(['s0', 's1'], [['p1'], ['p2']], ['g0', 'g0', 'g1', 'g1', 'g0']),
                (['s0', 's1'], [['p1', 'g0'], ['p2', 'g1']], ['g0', 'g0', 'g1', 'g1']),
                (['s0', 'p1', 'p2'], [['g0', 'g0'], ['g0', 'p3']], ['g0', 'g0', 'r0']),
                (['s0'], [['s1', 'g1'], ['p1', 'p2']], ['g0', 'g0', 'g1', 'g1']),
                (['s0', 's1', 'p1'], [['g0'], ['u1'], ['p2']], ['g0', 'g0'])])


def m02(ctx):
    ctx.rule, ctx.assumptions = RULE, conc.BASE
    sequential(ctx, 'OpsSkip', 'PreHand', ctx.pick(4, 5),
               {'putn': 8, 'put': 3, 'puts': 2, 'get': 4, 'gets': 1, 'sub': 2, 'drop': 1, 'unsub': 1, 'ready': 2}, ctx.pick(2500, 20000))
    crowd(ctx, {'putn': 8, 'puts': 2, 'get': 4})
    concurrent(ctx, ctx.pick(160, 1500), 'pqqqqqggrs', ctx.pick(14, 120),
               [(['s0', 's1'], [['q1.0'], ['q2.1']], ['g0', 'g0', 'g1', 'g1']),
                (['s0', 's1'], [['q1.0', 'g0'], ['q2.1', 'g1']], ['g0', 'g0', 'g1', 'g1']),
                (['s0'], [['s1', 'q2.1', 'g1'], ['q1.0', 'p3']], ['g0', 'g0', 'g0', 'g1', 'g1', 'g1'])])


def m03(ctx):
    ctx.rule, ctx.assumptions = RULE, conc.BASE
    sequential(ctx, 'OpsSubs', 'PreSome', ctx.pick(4, 5),
               {'sub': 4, 'drop': 3, 'unsub': 3, 'clear': 3, 'puts': 6, 'get': 4, 'ready': 2, 'count': 2, 'put': 1, 'gets': 1, 'visit': 1},
               ctx.pick(2500, 20000))
    crowd(ctx, {'sub': 4, 'drop': 3, 'unsub': 3, 'clear': 3, 'puts': 4, 'get': 4, 'ready': 2, 'count': 2, 'visit': 1})
    concurrent(ctx, ctx.pick(220, 2000), 'ppppggsssddccun', ctx.pick(14, 120),
               [(['s0'], [['s1', 'g1'], ['p1', 'p2']], ['g0', 'g0', 'g1', 'g1']),
                (['s0'], [['s1'], ['s2']], ['p1', 'g0', 'g1', 'g2', 'n']),
                (['s0', 's1', 'p1'], [['d1'], ['p2']], ['g0', 'g0', 'g0', 'n']),
                (['s0', 's1', 'p1'], [['c1', 'g1'], ['p2', 'c0']], ['g0', 'g0', 'g1', 'g1', 'n']),
                (['s0', 's1', 'p1'], [['u1', 's2'], ['p2', 's3']], ['p3', 'g0', 'g0', 'g0', 'g2', 'g2', 'g3', 'g3', 'n'])])


def m04(ctx):
    ctx.rule, ctx.assumptions = RULE, conc.BASE
    sequential(ctx, 'OpsCounts', 'PreSome', ctx.pick(4, 5),
               {'puts': 5, 'many': 1, 'get': 3, 'gets': 2, 'ready': 5, 'min': 5, 'count': 3, 'sub': 2, 'drop': 1, 'unsub': 1, 'clear': 1},
               ctx.pick(1500, 15000))
    large(ctx, ['ready', 'ready', 'min', 'count'])
    crowd(ctx, {'puts': 4, 'get': 3, 'ready': 5, 'min': 5, 'count': 3, 'sub': 1, 'drop': 1, 'unsub': 1, 'clear': 1, 'visit': 1})
    concurrent(ctx, ctx.pick(220, 2000), 'pppggrrrmmmnnnsdcu', ctx.pick(14, 120),
               [(['s0', 's1'], [['p1', 'p2'], ['m', 'r0']], ['r0', 'r1', 'm', 'n']),
                (['s0', 's1', 'p1'], [['g0', 'p2'], ['m', 'm']], ['r0', 'r1', 'm', 'n']),
                (['s0', 's1', 'p1'], [['d1'], ['n', 'm']], ['r0', 'm', 'n']),
                (['s0', 'p1'], [['s1', 'p2'], ['m', 'n']], ['r0', 'r1', 'm', 'n'])])


def m05(ctx):
    ctx.rule, ctx.assumptions = RULE, []
    sequential(ctx, 'OpsMisuse', 'PreBoth', ctx.pick(3, 4),
               {'misuse': 12, 'puts': 4, 'get': 3, 'sub': 2, 'unsub': 3, 'drop': 2, 'count': 1, 'min': 1, 'convert': 1, 'ready': 1, 'put': 1},
               ctx.pick(4000, 30000), nboxes=3, focus='told')
    crowd(ctx, {'misuse': 12, 'puts': 2, 'unsub': 3, 'drop': 2, 'visit': 1}, focus='told')


def m06(ctx):
    ctx.rule, ctx.assumptions = RULE, conc.BASE
    sequential(ctx, 'OpsLife', 'PreHand', ctx.pick(4, 5),
               {'put': 5, 'puts': 3, 'putn': 2, 'hold': 5, 'get': 2, 'let': 4, 'letgot': 3, 'clear': 2, 'drop': 2, 'unsub': 2,
                'lose': 1, 'destroy': 1, 'sub': 3, 'gets': 1, 'many': 1, 'misuse': 1},
               ctx.pick(3500, 30000), nboxes=2, focus='life')
    crowd(ctx, {'put': 4, 'puts': 3, 'putn': 2, 'hold': 4, 'get': 2, 'let': 4, 'clear': 2, 'drop': 2, 'unsub': 2, 'sub': 2}, focus='life')
    r = ctx.rng
    # the mailbox goes while messages are queued and subscriptions have been leaked
    scripts = []
    for _ in range(ctx.pick(600, 6000)):
        t = Track(r, 1)
        for _ in range(r.randint(1, 4)):
            t.sub(1)
        for _ in range(r.randint(2, 12)):
            t.step(r.choice(['put', 'puts', 'hold', 'let', 'letgot', 'get', 'clear', 'unsub', 'putn']))
        for k in t.objects():
            t.add(op=r.choice(['lose', 'lose', 'drop']), k=k)
            t.status[k] = 'dropped'
        t.step('destroy')
        for h in range(8):
            t.add(op='let', h=h)
        t.add(op='finish')
        scripts.append(t.ops)
    ctx.conform('mailbox_drv', 'TraceMailBox', scripts, (lines, events), 'mailbox_destroyed', env={'FOCUS': 'life'})
    concurrent(ctx, ctx.pick(80, 800), 'ppqggscd', ctx.pick(14, 100), focus='life')


CHECKS = {'M01': m01, 'M02': m02, 'M03': m03, 'M04': m04, 'M05': m05, 'M06': m06}
