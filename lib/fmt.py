"""SoDa::Format: properties F01 .. F09."""
import struct
from decimal import Decimal
from vlib import xs, unx, gen_lines

# ------------------------------------------------------------------ values


def dbits(v):
    return '%016x' % struct.unpack('<Q', struct.pack('<d', v))[0]


def bitsd(h):
    return struct.unpack('<d', struct.pack('<Q', int(h, 16)))[0]


def dvalue(bits):
    """the double as [kind, neg, d, x]: exact decimal digits and exponent"""
    u = int(bits, 16)
    neg = bool(u >> 63)
    e = (u >> 52) & 0x7ff
    m = u & ((1 << 52) - 1)
    if e == 0x7ff:
        return {'kind': 'nan' if m else 'inf', 'neg': neg, 'd': '', 'x': 0}
    if e == 0 and m == 0:
        return {'kind': 'zero', 'neg': neg, 'd': '', 'x': 0}
    t = Decimal(bitsd(bits)).as_tuple()
    digs = ''.join(map(str, t.digits))
    x = len(digs) - 1 + t.exponent
    digs = digs.rstrip('0')
    return {'kind': 'num', 'neg': neg, 'd': digs, 'x': x}


# ------------------------------------------------------- operations <-> driver

DEF = {'addI': [('w', 0), ('sep', ''), ('fill', '')],
       'addU': [('fmt', 'd'), ('w', 0), ('sep', ''), ('k', 4)],
       'addF': [('fmt', 'f'), ('w', 0), ('p', 6)],
       'addS': [('w', 0)], 'addC': [], 'addB': []}


def opI(v, *a): return dict({'op': 'addI', 'v': str(v), 'na': len(a)}, **args('addI', a))
def opU(v, *a): return dict({'op': 'addU', 'v': '%x' % v, 'na': len(a)}, **args('addU', a))
def opF(bits, *a): return dict({'op': 'addF', 'bits': bits, 'na': len(a)}, **args('addF', a))
def opS(v, *a): return dict({'op': 'addS', 'v': v, 'na': len(a)}, **args('addS', a))
def opC(c): return {'op': 'addC', 'v': c, 'na': 0}
def opB(b): return {'op': 'addB', 'v': bool(b), 'na': 0}
def new(f): return {'op': 'new', 'fmt': f}


def args(op, a):
    d = {}
    for i, (k, dv) in enumerate(DEF[op]):
        d[k] = a[i] if i < len(a) else dv
    return d


def lines(o):
    op = o['op']
    if op in ('new', 'newx'):
        return '%s %s' % (op, xs(o['fmt']))
    if op == 'sep':
        return 'sep %s' % xs(o['c'])
    if op == 'pair':
        return 'pair %s' % xs(o['v'])
    if op not in DEF:
        return op
    if op == 'addF':
        out = [op, o['bits']]
    elif op == 'addB':
        out = [op, '1' if o['v'] else '0']
    elif op in ('addS', 'addC'):
        out = [op, xs(o['v'])]
    else:
        out = [op, o['v']]
    for k, _ in DEF[op][:o['na']]:
        out.append(xs(o[k]) if isinstance(o[k], str) else str(o[k]))
    return ' '.join(out)


def events(ops, replies):
    ev = []
    for i, o in enumerate(ops):
        if i >= len(replies):
            break
        r = replies[i]
        if 'fault' in r or 'escaped' in r:
            why = r.get('fault') or 'exception ' + unx(r['escaped'])
            ev.append({'op': 'fault', 'during': lines(o), 'why': why})
            break
        e = {k: v for k, v in o.items() if k not in ('na', 'bits')}
        if o['op'] == 'addF':
            e['v'] = dvalue(o['bits'])
        if o['op'] == 'newx':
            e['op'] = 'new'
        if o['op'] == 'strcopy':
            e['op'] = 'str'
        if o['op'] == 'pair':
            e = {'op': 'addS', 'v': '<' + o['v'] + '>', 'w': 0}
        if 'out' in r:
            e['out'] = unx(r['out'])
        if 'res' in r:
            e['res'] = r['res']
            e['what'] = unx(r['what'])
        ev.append(e)
        if 'same' in r:
            ev.append({'op': 'chained', 'same': r['same']})
    return ev


MK = (lines, events)
DRV, MOD = 'format_drv', 'TraceFormat'

# --------------------------------------------------------------- generators

PRINT = [chr(c) for c in range(32, 127)]
ANY = [chr(c) for c in range(0, 256)]


def rstr(r, n, alphabet=PRINT):
    return ''.join(r.choice(alphabet) for _ in range(n))


def rint(r):
    k = r.random()
    if k < 0.15:
        return r.choice([0, 1, -1, 9, -9, 10, -10, 99, -99, 100, -100, 999, -999, 1000, -1000, 999999, -999999,
                         1000000, -1000000, 2**31 - 1, -2**31, -2**31 + 1, 123456, -123456])
    n = r.randint(1, 31)
    v = r.getrandbits(n)
    if k < 0.6:
        v = r.randint(10**(r.randint(1, 9) - 1), 10**9)
        v = v // 10**r.randint(0, 9)
    return max(-2**31, min(2**31 - 1, v if r.random() < 0.5 else -v))


def runsigned(r):
    k = r.random()
    if k < 0.2:
        b = r.choice([2, 8, 10, 16])
        v = b ** r.randint(0, {2: 63, 8: 21, 10: 19, 16: 15}[b]) + r.choice([-1, 0, 1])
    elif k < 0.25:
        v = 2**64 - 1 - r.randint(0, 3)
    else:
        v = r.getrandbits(r.randint(1, 64))
    return max(0, min(2**64 - 1, v))


def rwidth(r, big=60):
    k = r.random()
    if k < 0.25:
        return 0
    if k < 0.9:
        return r.randint(1, 26)
    if k > 0.997:
        return r.choice([255, 256, 1000, 2000, 5000])
    return r.randint(1, 300 if k > 0.97 else big)


SEPS = [',', '.', '_', ' ', "'", '-', '0', '%', 'x', ':']


def rdouble(r):
    """a finite non-zero double's bits, with many boundary cases"""
    k = r.random()
    if k < 0.16:    # around powers of ten
        v = float('1e%d' % r.randint(-300, 307))
        v = v * r.choice([1, 1, 1, -1])
        u = int(dbits(v), 16) + r.choice([0, 0, 0, -1, 1, -2, 2])
        return '%016x' % u
    if k < 0.32:    # 99..95 style carries, and near ties
        n = r.randint(1, 13)
        s = '9' * n + r.choice(['4', '5', '49', '51', '499', '501', '', '6'])
        return dbits(float('%s%s.%se%d' % (r.choice(['', '-']), s[0], s[1:] or '0', r.randint(-40, 40))))
    if k < 0.42:    # exact ties and small decimals
        v = r.randint(1, 4000) / r.choice([1, 2, 4, 8, 16, 32, 64, 1000, 10, 100])
        return dbits(v * r.choice([1, -1]) * 10.0**r.choice([0, 0, 0, 3, -3, 6, 1, 2]))
    if k < 0.47:    # extremes
        return r.choice(['0000000000000001', '8000000000000001', '000fffffffffffff', '0010000000000000',
                         '7fefffffffffffff', 'ffefffffffffffff', '0000000000000002', '00000000000003e8',
                         '7fe0000000000000', '0008000000000000', '7fd0000000000001'])
    if k < 0.72:    # everyday numbers
        v = r.uniform(-1, 1) * 10.0**r.randint(-18, 18)
        return dbits(v) if v else dbits(1.0)
    if k < 0.8:
        return dbits(float(r.randint(1, 10**r.randint(1, 15))))
    while True:     # any bit pattern
        u = r.getrandbits(64)
        if (u >> 52) & 0x7ff != 0x7ff and u & (2**63 - 1):
            return '%016x' % u


def runvalue(r):
    """some value of any kind as an add operation (plain arguments)"""
    k = r.randint(0, 6)
    if k == 0:
        return opI(rint(r), r.choice([0, 0, 5]))
    if k == 1:
        return opU(runsigned(r), r.choice('dxX'))
    if k == 2:
        return opC(r.choice('%0a1 x'))
    if k == 3:
        return opB(r.random() < 0.5)
    return opS(r.choice(['', '%', '%%', '%0', '%1', '%0%1', '1', '0', '%2x', 'abc', '%', '\\', 'a b', '%9', '10%',
                         rstr(r, r.randint(1, 12))]))


def rfmt(r, maxn=None, nul=True):
    """format string and the number of values it calls for"""
    parts = []
    nums = []
    hi = r.choice([1, 2, 3, 3, 5, 12]) if maxn is None else maxn
    for _ in range(r.randint(0, r.choice([3, 6, 14]))):
        k = r.random()
        if k < 0.45:
            n = r.randint(0, hi - 1)
            if r.random() < 0.01:
                n = r.randint(13, 120)
            nums.append(n)
            parts.append('%' + ('0' if r.random() < 0.0 else '') + str(n))
        elif k < 0.6:
            parts.append('%%')
        elif k < 0.7:
            parts.append('%' + (r.choice('abz #.,-(\n') if r.random() < 0.7 else r.choice(ANY[0 if nul else 1:])))
        elif k < 0.8:
            parts.append(r.choice(['0', '1', '12', 'a', ' ', '.', '{}', '\\n', '-']))
        else:
            parts.append(rstr(r, r.randint(1, 8), [c for c in (PRINT if r.random() < 0.8 else ANY[0 if nul else 1:]) if c != '%']))
    if r.random() < 0.08:
        parts.append('%')
    s = ''.join(parts)
    # what the string really calls for (neighbouring parts may have run together)
    import re
    need = 0
    i = 0
    while i < len(s):
        if s[i] == '%' and i + 1 < len(s):
            m = re.compile(r'[0-9]+').match(s, i + 1)
            if m:
                need = max(need, int(m.group()) + 1)
                i = m.end()
            else:
                i += 2
        else:
            i += 1
    return s, need


# -------------------------------------------------------------------- checks

GENCFG = '''SPECIFICATION Spec
CONSTANTS
  Alphabet = {%s}
  MaxLen = %d
  Values = {%s}
  MaxOps = %d
  Gen = %s
INVARIANTS Substitution StrictIffOpen%s
PROPERTIES ResetRestores%s
CHECK_DEADLOCK FALSE
%s
'''


def q(items):
    return ', '.join('"%s"' % i for i in items)


def mc(ctx, alphabet, n, values, ops, gen=False, live=False):
    cfg = GENCFG % (q(alphabet), n, q(values), ops, 'TRUE' if gen else 'FALSE', ' Emit' if gen else '',
                    ' Terminates' if live else '', '' if gen or live else 'VIEW NoHist')
    return ctx.model_check('MCFormat', cfg, 'Format scanner and substitution, strings over %s up to %d, %d operations'
                           % (''.join(alphabet), n, ops))


def fields(ctx, *kinds):
    ctx.model_check('MCFields', 'SPECIFICATION Spec\nCONSTANT MaxV = %d\nCONSTANT Kinds = {%s}\n'
                    'INVARIANTS IntOK UnsOK EngOK FixOK StrOK\nCHECK_DEADLOCK FALSE\n' % (ctx.pick(150, 1500), q(kinds)),
                    'field renderers against integer arithmetic: ' + ' '.join(kinds))


def from_gen(h):
    out = []
    for o in h:
        out.append(dict(o, na=0) if o['op'] == 'addS' else o)
    return out


def f01(ctx):
    ctx.rule = ('histories of new/add on a format string; exhaustive ones enumerated by TLC from MCFormat, '
                'random ones from the seed; every add is followed by str() and compared with Format.tla')
    mc(ctx, ['%', '0', '1', 'a'], ctx.pick(5, 6), ['x', '%0'], ctx.pick(3, 4))
    mc(ctx, ['%', '0', 'a'], 4, ['x'], 3, live=True)
    hist = gen_lines(mc(ctx, ['%', '0', '1', 'a'], ctx.pick(4, 5), ['x', '%1'], 2, gen=True))
    scripts = [from_gen(h) for h in hist if not any(o['op'] == 'reset' for o in h)]
    ctx.conform(DRV, MOD, scripts, MK, 'enumerated_by_TLC')
    r = ctx.rng
    scripts = []
    for _ in range(ctx.pick(9000, 60000)):
        s, need = rfmt(r)
        n = need if r.random() < 0.7 else r.randint(0, need)
        scripts.append([new(s)] + [runvalue(r) for _ in range(n)])
    for hi in (100, 137, 255, 256, 300, 700, 999):      # many values
        order = list(range(hi + 1))
        r.shuffle(order)
        pick = sorted(r.sample(order, 12)) + [hi]
        r.shuffle(pick)
        scripts.append([new('<'.join('%%%d' % i for i in pick))] + [opS('v%d' % i) for i in range(hi + 1)])
    for i in range(ctx.pick(24, 300)):                  # long strings, many segments
        s, need = [lambda: (''.join('%%%d' % r.randint(0, 9) + r.choice([' ', '', ',', '%%', '.']) for _ in range(r.choice([130, 300, 700]))), 10),
                   lambda: (rstr(r, r.choice([300, 1100, 3000]), 'abc d.') + '%0' + rstr(r, 300, 'xy '), 1),
                   lambda: ('%1|%0|%1', 2)][i % 3]()
        vs = [opS(rstr(r, r.choice([0, 3, 130, 300, 1100, 5000]), 'abc%012 ')) if i % 3 else runvalue(r) for _ in range(need)]
        scripts.append([new(s)] + vs)
    ctx.conform(DRV, MOD, scripts, MK, 'random')


def f02(ctx):
    ctx.rule = ('histories that mix add with str, str(true), stream output and reset; non-trivial ones read at '
                'least once before the last add or reset at least once')
    mc(ctx, ['%', '0', '1', 'a'], ctx.pick(4, 5), ['x', '%0'], ctx.pick(5, 6))
    hist = gen_lines(mc(ctx, ['%', '0', '1'], 4, ['x'], 4, gen=True))
    ctx.conform(DRV, MOD, [from_gen(h) + [{'op': 'strict'}] for h in hist], MK, 'enumerated_by_TLC')
    r = ctx.rng
    scripts = []
    nontrivial = 0
    for _ in range(ctx.pick(8000, 60000)):
        s, need = rfmt(r, r.choice([1, 2, 3, 4]), nul=False)
        if need > 20:
            continue
        ops = [new(s)]
        k = k2 = 0
        two = False
        for _ in range(r.randint(2, 14)):
            x = r.random()
            if r.random() < 0.12:
                # another object comes into play, or goes away
                c = r.choice(['copy', 'assign', 'swap', 'swap', 'dispose'] if two else ['copy', 'copy', 'assign'])
                two = c != 'dispose'
                ops.append({'op': c})
                if c == 'swap':
                    k, k2 = k2, k
                elif c != 'dispose':
                    k2 = k
            elif x < 0.4 and k < need:
                ops.append(runvalue(r))
                k += 1
            elif x < 0.55:
                ops.append({'op': 'str'})
            elif x < 0.75:
                ops.append({'op': 'strict'})
            elif x < 0.87:
                ops.append({'op': 'stream'})
            else:
                ops.append({'op': 'reset'})
                k = 0
        if r.random() < 0.004 and not two:
            # a long life
            for _ in range(r.choice([40, 150, 300])):
                ops += [{'op': 'reset'}] + [runvalue(r) for _ in range(need)] + [{'op': r.choice(['str', 'strict', 'stream'])}]
        if sum(o['op'] in ('str', 'strict', 'stream', 'reset') for o in ops) > 1:
            nontrivial += 1
        scripts.append(ops)
    ctx.notes['distinct_nontrivial'] = nontrivial
    ctx.conform(DRV, MOD, scripts, MK, 'random')


def single(ctx, ops, label, fmts=('%0',)):
    """one value in one placeholder"""
    seen = {}
    for o in ops:
        seen[lines(o)] = o
    ctx.count('distinct_nontrivial', len(seen))
    scripts = [[new(fmts[i % len(fmts)]), o] for i, o in enumerate(seen.values())]
    ctx.conform(DRV, MOD, scripts, MK, label)


def f03(ctx):
    ctx.rule = 'one addI per execution; distinct (value, width, separator, fill) combinations'
    fields(ctx, 'int')
    r = ctx.rng
    ops = []
    for v in (0, 1, -1, 12, -12, 123, -123, 1234, -1234, 123456, -123456, 1234567, -1234567, 2**31 - 1, -2**31):
        for w in (0, 1, 4, 7, 8, 12, 15):
            for a in ((), (w,), (w, ','), (w, ',', '0'), (w, '', '*'), (w, '.', ' ')):
                ops.append(opI(v, *a))
    for n in range(0, 10):
        for d in (-1, 0, 1):
            for sg in (1, -1):
                v = sg * (10**n + d)
                ops += [opI(v, 0, ','), opI(v, r.randint(0, 20), ',', r.choice('0 #')), opI(v, r.randint(0, 12))]
    for _ in range(ctx.pick(12000, 200000)):
        a = (rwidth(r), r.choice(['', ',', ','] + SEPS), r.choice(['', '', '0', ' ', '*', '-', ',']))
        ops.append(opI(rint(r), *a[:r.randint(0, 3)]))
    single(ctx, ops, 'addI')


def f04(ctx):
    ctx.rule = 'one addU per execution; distinct (value, format, width, separator, group) combinations'
    fields(ctx, 'uns')
    r = ctx.rng
    ops = []
    for v in (0, 1, 7, 8, 9, 10, 15, 16, 255, 4096, 65535, 2**31, 2**32 - 1, 2**32, 10**12, 2**63, 2**64 - 1):
        for f in 'dxXhHo':
            for w in (0, 1, 3, 8, 16, 17, 24):
                ops.append(opU(v, f, w))
                ops.append(opU(v, f, w, '_', 4))
                ops.append(opU(v, f, w, ',', 3))
                ops.append(opU(v, f, w, ':', 2))
        ops += [opU(v), opU(v, 'd'), opU(v, 'x'), opU(v, 'd', 10, ',')]
    for _ in range(ctx.pick(12000, 200000)):
        a = (r.choice('ddxXhHo'), rwidth(r, 40), r.choice(['', ',', '_', ':', ' ', '.', '-']),
             r.choice([1, 2, 3, 3, 4, 4, 5, 8, 16, 30]))
        ops.append(opU(runsigned(r), *a[:r.randint(0, 4)]))
    single(ctx, ops, 'addU')


def eng_values(ctx, n):
    r = ctx.rng
    return [rdouble(r) for _ in range(n)]


def f05(ctx):
    ctx.rule = ("one addF(v, 'e', w, s) per execution; distinct (bits, width, digits); values cover all decades, "
                'carries such as 999.95, ties, subnormals and the largest double')
    fields(ctx, 'eng')
    r = ctx.rng
    ops = []
    for e in range(-324, 309):
        for m in ('1', '9.9999999999999', '9.995', '9.9949', '5', '2.5', '1.0005'):
            if float('%se%d' % (m, e)) in (0.0, float('inf')):
                continue
            if ctx.thorough or abs(e) < 25 or r.random() < 0.2:
                ops.append(opF(dbits(float('%se%d' % (m, e)) * r.choice([1, -1])), 'e', r.choice([0, 0, 12, 20]),
                               r.randint(1, 12)))
    for b in ('0000000000000001', '7fefffffffffffff', '0010000000000000', '000fffffffffffff'):
        for s in range(1, 13):
            ops.append(opF(b, 'e', 0, s))
    for v in (0.0, -0.0):
        for s in range(1, 13):
            for w in (0, 8, 15, 16, 22, 40):
                ops.append(opF(dbits(v), 'e', w, s))
    for v in (1, 10, 100, 1000, 999, 999.5, 999.4, 99.95, 9.995, 0.9995, 0.001, 0.01, 0.1, 123, 1234, 12345, 1e6, 999999,
              2.5, 0.5, 0.25, 1e15, 1e-15):
        for s in range(1, 13):
            ops.append(opF(dbits(v), 'e', r.choice([0, 5, 17]), s))
    for b in eng_values(ctx, ctx.pick(9000, 60000)):
        ops.append(opF(b, 'e', rwidth(r), r.randint(1, 12)))
    single(ctx, ops, 'addF_e')


SPECIAL = ['7ff8000000000000', 'fff8000000000000', '7ff0000000000000', 'fff0000000000000', '7ff0000000000001',
           '7ff8000000000001']


def f06(ctx):
    ctx.rule = 'one addF per execution in the notations f, s, g, and NaN and infinities in all four notations'
    fields(ctx, 'fix')
    r = ctx.rng
    ops = []
    for b in SPECIAL:
        for f in 'fsge':
            for w in (0, 2, 3, 4, 5, 9, 20):
                ops.append(opF(b, f, w, r.choice([1, 6, 12])))
        ops.append(opF(b))
    for f in 'fsg':
        for w in (0, 1, 10, 25):
            for p in (0, 1, 6, 12):
                ops.append(opF(dbits(r.choice([0.0, -0.0])), f, w, p))
    for b in eng_values(ctx, ctx.pick(8000, 60000)):
        a = (r.choice('fsg'), rwidth(r), r.randint(0, 17) if r.random() < 0.97 else r.choice([18, 25, 40, 64, 100]))
        ops.append(opF(b, *a[:r.choice([0, 1, 2, 3, 3, 3, 3, 3])]))
    single(ctx, ops, 'addF')


def f07(ctx):
    ctx.rule = 'one addS, addC or addB per execution; every byte value as a character'
    fields(ctx, 'str')
    r = ctx.rng
    ops = [opC(c) for c in ANY] + [opB(True), opB(False)]
    for s in ('', 'a', 'ab', ' ', '%', '%0', 'hello', '  x  '):
        for w in range(-10, 11):
            ops.append(opS(s, w))
        ops.append(opS(s))
    for _ in range(ctx.pick(9000, 60000)):
        n = r.choice([0, 1, 2, 5, 10, 20, r.randint(0, 60)])
        s = rstr(r, n, r.choice([PRINT, ANY, [' ', 'a'], ['%', '0', '1']]))
        w = r.choice([0, n, -n, n + 1, -n - 1, n - 1, 1 - n, r.randint(-40, 40), r.randint(-300, 300)])
        if r.random() < 0.005:
            s, w = rstr(r, r.choice([200, 256, 1000, 4000])), r.choice([0, 255, 256, -256, 1000, -5000])
        ops.append(opS(s, w) if r.random() < 0.9 else opS(s))
    single(ctx, ops, 'addS_addC_addB', ('%0', '[%0]'))


def f08(ctx):
    ctx.rule = ('chains of add calls on a class derived through Format_ext, with all numbers of defaulted arguments, '
                'each compared with Format.tla and with the identity of the returned object')
    fields(ctx, 'int', 'uns', 'str')
    r = ctx.rng
    scripts = []

    def anyop():
        k = r.randint(0, 6)
        if k == 0:
            a = (r.randint(0, 12), r.choice(['', ',', '_']), r.choice(['', '0', '*']))
            return opI(rint(r), *a[:r.randint(0, 3)])
        if k == 1:
            a = (r.choice('dxXo'), r.randint(0, 20), r.choice(['', '_', ',']), r.randint(1, 6))
            return opU(runsigned(r), *a[:r.randint(0, 4)])
        if k == 2:
            a = (r.choice('fsg'), r.randint(0, 20), r.randint(0, 9))
            v = r.choice([1.5, -2.25, 1000.0, 0.125, 3.14159, 1e10])
            return opF(dbits(v), *a[:r.randint(0, 3)])
        if k == 3:
            return opS(rstr(r, r.randint(0, 8)), *((r.randint(-12, 12),)[:r.randint(0, 1)]))
        if k == 4:
            return opC(r.choice(PRINT))
        if k == 5:
            return opB(r.random() < 0.5)
        return {'op': 'pair', 'v': rstr(r, 3)}
    for _ in range(ctx.pick(7000, 60000)):
        n = r.randint(1, 5)
        ops = [{'op': 'newx', 'fmt': '|'.join('%%%d' % i for i in range(n))}]
        k = r.randint(0, n)
        ops += [anyop() for _ in range(k)]
        if r.random() < 0.3:
            # go on with a copy, perhaps after the original is gone; the original is as it was
            ops.append({'op': r.choice(['copy', 'copy', 'assign'])})
            gone = r.random() < 0.4
            if gone and ops[-1]['op'] == 'copy':
                ops.append({'op': 'dispose'})
            ops += [anyop() for _ in range(n - k)]
            if not (gone and ops[-1 - (n - k)]['op'] == 'dispose'):
                ops.append({'op': 'swap'})
                ops += [anyop() for _ in range(n - k)] + [{'op': 'swap'}]
        else:
            ops += [anyop() for _ in range(n - k)]
        scripts.append(ops)
    ctx.notes['distinct_nontrivial'] = len(set(str(s) for s in scripts))
    ctx.conform(DRV, MOD, scripts, MK, 'extended')


def f09(ctx):
    ctx.rule = ('executions that change Format::separator between calls; numbers in every notation next to literal '
                'points, strings and integers that must not change')
    fields(ctx, 'fix', 'eng')
    r = ctx.rng
    scripts = []
    for _ in range(ctx.pick(7000, 60000)):
        n = r.randint(1, 4)
        ops = [new('1.5 ' + ' . '.join('%%%d' % i for i in range(n)))]
        for _ in range(n):
            if r.random() < 0.6:
                ops.append({'op': 'sep', 'c': r.choice([',', ',', '.', ';', '_', "'", ':'])})
            k = r.random()
            if k < 0.75:
                f = r.choice('efsg')
                v = rdouble(r) if r.random() < 0.7 else dbits(r.choice([1.5, 0.25, 1e20, 123456.789, 1e-7, 5.0, 0.0, 0.0, -0.0]))
                ops.append(opF(v, f, r.choice([0, 12, 20]), r.randint(1, 12)))
            elif k < 0.85:
                ops.append(opS('a.b,c'))
            elif k < 0.92:
                ops.append(opI(rint(r), 0, r.choice(['', '.', ','])))
            else:
                ops.append(opF(r.choice(SPECIAL), r.choice('efsg'), 8))
        if r.random() < 0.3:
            ops.append({'op': 'sep', 'c': '.'})
            ops.append({'op': 'str'})
        scripts.append(ops)
    ctx.notes['distinct_nontrivial'] = len(scripts)
    ctx.conform(DRV, MOD, scripts, MK, 'radix')


CHECKS = {'F01': f01, 'F02': f02, 'F03': f03, 'F04': f04, 'F05': f05, 'F06': f06, 'F07': f07, 'F08': f08, 'F09': f09}
