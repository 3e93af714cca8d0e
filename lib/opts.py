"""SoDa::Options: properties O01 .. O09."""
import re
from vlib import xs, unx, gen_lines

SIGNED = ('int', 'short', 'long', 'llong', 'double')
INTS = {'int': (-2**31, 2**31 - 1), 'short': (-2**15, 2**15 - 1), 'long': (-2**63, 2**63 - 1),
        'unsigned': (0, 2**32 - 1), 'ulong': (0, 2**64 - 1), 'ushort': (0, 2**16 - 1),
        'llong': (-2**63, 2**63 - 1), 'ullong': (0, 2**64 - 1)}
TYPES = list(INTS) + ['double', 'bool', 'string']
REAL = re.compile(r'[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?\Z')


def real(t):
    """canonical text of a clean real number token, or None"""
    if not REAL.match(t):
        return None
    v = float(t)
    if v in (float('inf'), float('-inf')) or (v == 0 and re.search('[1-9]', re.split('[eE]', t)[0])) or 0 < abs(v) < 1e-300:
        return None
    s = '%.17g' % v
    return s


def clean(typ, t):
    """is the meaning of t as a value of this type beyond doubt?"""
    if typ == 'string':
        return True
    if typ == 'bool':
        u = t.upper()
        return u in ('T', 'TRUE', 'F', 'FALSE') or (u != '' and u[0] not in 'TF' and clean('int', t))
    if typ == 'double':
        if REAL.match(t):
            return real(t) is not None or abs(float(t)) == float('inf')
        return not re.match(r'\s*[+-]?\.?\d', t)
    if re.match(r'[+-]?\d+\Z', t):
        return typ in SIGNED or t[0] != '-'
    return not re.match(r'\s*[+-]?\d', t)


def switchlike(t):
    return len(t) >= 2 and t[0] == '-' and t != '--'


def tokenok(t, opts, kv=False):
    abs_ = {o['ab'] for o in opts}
    if switchlike(t) and not kv:
        if t[1] != '-' and len(t) > 2 and (t[1] in abs_ or t[1] == 'h'):
            return False
    for o in opts:
        if o['shape'] == 'flag':
            continue
        if kv or o['shape'] == 'nodef' or o['type'] in SIGNED or not switchlike(t):
            if not clean(o['type'], t):
                return False
    return True


# --------------------------------------------------------------- driver side

def xlist(l):
    return ''.join(xs(s) for s in l) or '-'


def lines(o):
    if o['op'] == 'setup':
        w = ['setup', '1' if o['kvp'] else '0']
        for i in o['infos']:
            w += ['I', xs(i)]
        for p, init in zip(o['opts'], o['init']):
            t = p['test']
            arg = str(t.get('n', t.get('v', '')))
            w += ['O', p['shape'], p['type'], xs(p['name']), xs(p['ab']), xs(p['dflt']), xs(p['doc']), xs(t['kind']),
                  xs(arg), xs(p['err']), xlist(init) if isinstance(init, list) else '-']
        return ' '.join(w)
    if 'tokens' in o:
        return '%s %s' % (o['op'], xlist(o['tokens']))
    if 'text' in o:
        return '%s %s' % (o['op'], xs(o['text']))
    return o['op']


def unlist(t):
    return [unx('x' + p) for p in t.split('x')[1:]]


def obs(r):
    val = []
    for v in (r['val'].split(',') if r['val'] else []):
        val.append(unlist(v[1:]) if v[0] == 'v' else unx(v[1:]))
    return {'val': val, 'long': [c == '1' for c in r['long'][1:]], 'short': [c == '1' for c in r['short'][1:]],
            'other': r['other'] == '1', 'pos': unlist(r['pos']), 'npos': int(r['npos']), 'posg': unlist(r['posg'])}


def texts(ops):
    out = set()
    for o in ops:
        for t in o.get('tokens', []) + ([o['text']] if 'text' in o else []):
            out.add(t)
            if o['op'] in ('kv', 'kvobj', 'kvlist'):
                for it in (t.split(',') if o['op'] != 'kvlist' else [t]):
                    out.add(it.strip(' ').partition('=')[2])
            elif o['op'] == 'str':
                out.update(re.findall(r'"([^"]*)"', t))
                out.update(t.split())
    return out


def events(ops, replies):
    ev = []
    for o, r in zip(ops, replies):
        if 'fault' in r or 'escaped' in r:
            ev.append({'op': 'fault', 'during': o, 'why': r.get('fault') or 'exception ' + unx(r['escaped'])})
            break
        e = dict(o)
        e['obs'] = obs(r)
        if o['op'] == 'setup':
            e['reals'] = {t: real(t) for t in sorted(texts(ops)) if real(t)}
            e['reals']['1'] = '1'
        if 'ret' in r:
            e['ret'] = r['ret'] == '1'
            e['err'] = unx(r['err'])
            e['helponly'] = r['helponly'] == '1'
        if o['op'] == 'help':
            e['text'] = unx(r['text'])
        ev.append(e)
    return ev


# ----------------------------------------------------------------- generators
NAMES = ['alpha', 'alphabet', 'beta', 'gain', 'in', 'input', 'n', 'num-taps', 'x', 'file', 'rate', 'Verbose', 'verbose',
         'a_b', 'delta', 'e', 'freq', 'out.put', 'helpful', '5', '9lives', 'kilo']
ABS = 'abcdefgijklmnopqrstuvwxyzABCDEFGH0159?'
WORDS = ['fred', 'a', 'two words', 'b', '', ' ', 'tab\there', 'x=y', '-', '--', '=', 'a,b', '%0', 'long-word-with-dashes',
         'true', 't', 'FALSE', '0', '1', 'zed', '!', '\\', "'q'"]


CHARS = [chr(c) for c in range(1, 256) if chr(c) != '"']
ODD = ['%', '%', '%0', '%1', '%%', '%%', '\x80', '\x85', '\xa0', '\xff', '\x7f', '\x01', '\x1b', '\x1f', 'caf\xe9', '\\n', "'", '$x', '`', '*', '~']


def rtext(r, chars=CHARS):
    """any text"""
    if r.random() < 0.5:
        return ''.join(r.choice(ODD + ['a', ' ', '-']) for _ in range(r.randint(1, 4)))
    return ''.join(r.choice(chars) for _ in range(r.randint(1, 7)))


def value(r, typ):
    k = r.random()
    if typ in INTS:
        lo, hi = INTS[typ]
        if k < 0.3:
            v = r.choice([0, 1, 5, 7, 42, hi, hi - 1, lo, lo + 1])
        else:
            v = r.randint(0, 10**r.randint(1, 9))
            v = min(v, hi)
            if lo < 0 and r.random() < 0.5:
                v = max(lo, -v)
        t = str(v)
        if r.random() < 0.1:
            t = r.choice(['+', '+0', '00', '0']) + t if v >= 0 else '-0' + t[1:]
        return t
    if typ == 'double':
        return r.choice(['1.5', '-2.25', '0', '-0.001', '3', '-17', '1e6', '1.25e-3', '-4E2', '+0.5', '.5', '-.5', '6.',
                         '%.6g' % r.uniform(-1e5, 1e5), '%.17g' % r.uniform(-1, 1), str(r.randint(-10**6, 10**6))])
    if typ == 'bool':
        return r.choice(['true', 'false', 'T', 'F', 't', 'f', 'True', 'FALSE', '0', '1', '7', 'tRuE'])
    return r.choice(WORDS + ['s%d' % r.randint(0, 99), 'some value', '-dash', '--long-dash', '-5', '-h', 'abc def  ghi', rtext(r), rtext(r), rtext(r), rtext(r)])


BADS = ['abc', 'xyz', 'q9', 'none', '99999999999999999999999', '-99999999999999999999999', '+', '-x', '.', '-.', 'e5', '1e999',
        '32768', '-32769', '65536', '65535', '2147483648', '-2147483649', '4294967296', '18446744073709551616', '9223372036854775808',
        'yes', '#', '@home', '', ' ']


def mkopts(r, kv=False, types=None, big=0):
    types = types or r.choice([TYPES, TYPES, ['int', 'string', 'bool'], ['double', 'string'], ['int', 'unsigned'],
                               ['string'], ['bool', 'int', 'unsigned'], ['long', 'ulong', 'string']])
    n = big or r.randint(1, 6)
    if big:
        pool = list(NAMES)
        while len(pool) < n + 40:
            pool.append(r.choice(['opt%d', 'o-%d', 'a-rather-long-option-name-number-%d', 'z%dz', 'x' * r.choice([70, 130, 260]) + '%d']) % len(pool))
        names = r.sample(pool, n)
        abs_ = r.sample(ABS, min(n, len(ABS)))
        abs_ += [r.choice([' ', '+', abs_[0]])] * (n - len(abs_))
        r.shuffle(abs_)
    else:
        names = r.sample(NAMES, n)
        abs_ = r.sample(ABS, n)
    if r.random() < 0.12:
        # several options without a short name of their own
        c = r.choice([' ', abs_[0]])
        abs_ = [c if r.random() < 0.5 else a for a in abs_]
    opts, init = [], []
    for i in range(n):
        shape = r.choice(['def', 'def', 'nodef', 'vec', 'vec', 'flag'])
        typ = 'bool' if shape == 'flag' else r.choice(types)
        test = {'kind': 'none'}
        if shape != 'flag' and r.random() < 0.3:
            if typ in INTS:
                test = {'kind': r.choice(['lt', 'ge']), 'n': str(r.choice([0, 1, 5, 50, 1000, -3 if typ in SIGNED else 2]))}
            elif typ == 'string':
                test = r.choice([{'kind': 'len', 'n': r.randint(0, 6)}, {'kind': 'isnt', 'v': r.choice(WORDS[:4])}])
            elif typ == 'bool':
                test = {'kind': 'isnt', 'v': '0'}
        d = ''
        if shape == 'def':
            d = value(r, typ)
            if typ in INTS:
                d = str(int(d))
            elif typ == 'double':
                d = real(d) or '1.5'
            elif typ == 'bool':
                d = r.choice('01')
        err = r.choice(['', '', 'must be right', 'error <%d>' % i, rtext(r)]) if shape != 'flag' else ''
        doc = r.choice(['', 'sets %s' % names[i], 'the doc string of number %d' % i, '-x 100%0 of it', '100%%', 'in two\nlines', 'one line\n   and\n    more', rtext(r)])
        opts.append({'name': names[i], 'ab': abs_[i], 'shape': shape, 'type': typ, 'dflt': d, 'doc': doc, 'test': test,
                     'err': err})
        iv = ''
        if shape == 'vec':
            iv = []
            for _ in range(r.choice([0, 0, 1, 2])):
                v = value(r, typ)
                if typ in INTS:
                    v = str(int(v))
                elif typ == 'double':
                    v = real(v) or '1.5'
                elif typ == 'bool':
                    v = r.choice('01')
                iv.append(v)
        init.append(iv)
    infos = r.choice([[], [], ['program info'], ['first line', 'second line', 'third %0'], ['same', 'same'], ['b', 'a', 'c'], ['50%%', rtext(r)]])
    return {'op': 'setup', 'kvp': kv, 'opts': opts, 'init': init, 'infos': infos}


def okval(o, t):
    """a value this option accepts (used to bias the generator only)"""
    if not clean(o['type'], t):
        return False
    x = o['test']
    try:
        if o['type'] in INTS:
            v = int(t)
            lo, hi = INTS[o['type']]
            return lo <= v <= hi and (x['kind'] == 'none' or (x['kind'] == 'lt' and v < int(x['n'])) or
                                      (x['kind'] == 'ge' and v >= int(x['n'])))
        if o['type'] == 'double':
            return real(t) is not None
        if o['type'] == 'bool':
            u = t.upper()
            b = u[0] == 'T' or (u[0] != 'F' and int(u) != 0)
            return x['kind'] == 'none' or b
    except (ValueError, IndexError):
        return False
    return x['kind'] == 'none' or (x['kind'] == 'len' and len(t) <= x['n']) or (x['kind'] == 'isnt' and t != x['v'])


def goodval(r, o):
    for _ in range(12):
        v = value(r, o['type'])
        if okval(o, v):
            return v
    return None


def mkline(r, setup, n, unknown=0.0, helps=0.0, bad=0.0, alone=0.12, neg=0.1):
    """about n tokens"""
    opts = setup['opts']
    out = []

    def put(t):
        if tokenok(t, opts):
            out.append(t)
            return True
        return False
    while len(out) < n:
        k = r.random()
        if k < unknown:
            put(r.choice(['-~', '--nope', '--' + r.choice(opts)['name'] + 'x', '--' + r.choice(opts)['name'][:-1] + '!',
                          '---', '--=', '-!x', '--a b', '--nope=3', '-3', '-7.5', '-0', '--' + rtext(r), '--' + rtext(r), '-' + rtext(r)]))
            continue
        k = r.random()
        if k < helps:
            put(r.choice(['-h', '--help']))
            continue
        if r.random() < 0.62:
            o = r.choice(opts)
            sw = r.choice(['-' + o['ab'], '--' + o['name']])
            if not put(sw):
                continue
            if o['shape'] == 'flag' or r.random() < alone:
                continue
            if r.random() < bad:
                v = r.choice(BADS + [rtext(r)] * 3)
            elif r.random() < neg:
                v = r.choice(['-1', '-5', '-0.5', '-9', '-12345', '-zz', '--' + o['name'], '-' + o['ab'], '-'])
                if r.random() < 0.3:
                    v = r.choice(['-5', '-1', '-0.5', '-3', '-9x', '-.5', '-+'])
                if not okval(o, v) and not bad and (o['shape'] == 'nodef' or o['type'] in SIGNED):
                    v = goodval(r, o)
            else:
                v = goodval(r, o)
            if v is None or not put(v):
                v = goodval(r, o)
                if v is None or not put(v):
                    out.pop()
        else:
            put(r.choice(WORDS + ['file%d.txt' % r.randint(0, 9), 'john', 'paul', 'george', '%d' % r.randint(0, 99), rtext(r), rtext(r), rtext(r), rtext(r)]))
    return out


SPACES = [' ', ' ', ' ', '  ', '\t', '\n', ' \t ', '   ', '\r\n', '\f', '\v', '\r', ' \v\t']


def quoted(r, toks):
    """the tokens as one string, or None if that cannot be written"""
    s = r.choice(['', '', ' ', '\t ', '\n'])
    for i, t in enumerate(toks):
        if '"' in t:
            return None
        if i:
            s += r.choice(SPACES)
        if t == '' or re.search(r'[ \t\n\v\f\r]', t) or r.random() < 0.15:
            s += '"' + t + '"'
        else:
            s += t
    return s + r.choice(['', '', ' ', '\n', '  '])


def parse(r, toks, forms=('argv', 'list', 'str')):
    f = r.choice(forms)
    if f == 'str':
        s = quoted(r, toks)
        if s is not None and len(s) < 2500:
            return {'op': 'str', 'text': s}
        f = 'list'
    if f == 'argv' and any('\0' in t for t in toks):
        f = 'list'
    return {'op': f, 'tokens': toks}


MK = (lines, events)
CFG = '''SPECIFICATION Spec
CONSTANTS OptSets = {%s}
 Alphabet = {%s}
 MaxTok = %d
 MaxLines = %d
 Gen = %s
INVARIANTS Agree O01 O02 O03 O03stored O04 O07 %s
CHECK_DEADLOCK FALSE
'''
ALPHA = ['-i', '--un', '-f', '-5', '5', 't', '-', '--', '-h', '-z']


def mc(ctx, sets, alpha, ntok, nlines, gen=False):
    return ctx.model_check('MCOptions', CFG % (', '.join(map(str, sets)), ', '.join('"%s"' % a for a in alpha), ntok, nlines,
                                               'TRUE' if gen else 'FALSE', 'Emit' if gen else ''),
                           'Options::parse against the token machine, lines of %d tokens over %d, %d line(s)'
                           % (ntok, len(alpha), nlines))


def enumerated(ctx, focus, alpha=ALPHA, ntok=3, nlines=1, sets=(1, 2, 3, 4), forms=('list', 'argv', 'str')):
    """every line TLC enumerates, replayed into the code"""
    g = gen_lines(mc(ctx, sets, alpha, ntok, nlines, gen=True))
    scripts = []
    for i, h in enumerate(sorted(g, key=str)):
        su = {'op': 'setup', 'kvp': False, 'opts': h['opts'], 'init': [[] if o['shape'] == 'vec' else '' for o in h['opts']],
              'infos': []}
        if all(tokenok(t, h['opts']) for ln in h['lines'] for t in ln):
            scripts.append([su] + [parse(ctx.rng, ln, (forms[i % len(forms)],)) for ln in h['lines']])
    ctx.conform('options_drv', 'TraceOptions', scripts, MK, 'enumerated_by_TLC', env={'FOCUS': focus})


def rnd(ctx, focus, n, label='random', parses=(1, 1, 1, 2, 3), forms=('argv', 'list', 'str'), opt=None, size=(0, 9), **kw):
    r = ctx.rng
    scripts, nt = [], set()
    for _ in range(n):
        su = opt(r) if opt else mkopts(r)
        ops = [su]
        for _ in range(r.choice(parses)):
            ops.append(parse(r, mkline(r, su, r.randint(*size), **kw), forms))
        if r.random() < 0.1:
            ops.append({'op': 'help'})
        scripts.append(ops)
        if any(len(o.get('tokens', o.get('text', ''))) > 1 for o in ops[1:]):
            nt.add(str(ops))
    ctx.notes['distinct_nontrivial'] = ctx.notes.get('distinct_nontrivial', 0) + len(nt)
    ctx.conform('options_drv', 'TraceOptions', scripts, MK, label, env={'FOCUS': focus})


def bigline(r, su, n, **kw):
    """a long line: one vector option (or no option at all) very often, or anything very often, or huge values"""
    k = r.random()
    vec = [o for o in su['opts'] if o['shape'] == 'vec']
    line = mkline(r, su, r.randint(0, 6), **kw)
    if k < 0.4 and vec:
        o = r.choice(vec)
        for _ in range(n):
            v = goodval(r, o)
            if v is not None and tokenok(v, su['opts']):
                sw = r.choice(['-' + o['ab'], '--' + o['name']])
                line += [sw if tokenok(sw, su['opts']) else '--' + o['name'], v]
    elif k < 0.6:
        line += [t for t in ('%s%d' % (r.choice(['file', 'p', 'other ']), i) for i in range(n)) if tokenok(t, su['opts'])]
    elif k < 0.75:
        o = r.choice([o for o in su['opts'] if o['type'] == 'string'] or [None])
        t = ''.join(r.choice('abcdefgh -=,x') for _ in range(r.choice([100, 300, 1100, 5000]))).strip() + 'z'
        if tokenok(t, su['opts']):
            line += (['--' + o['name']] if o and o['shape'] != 'flag' and okval(o, t) else []) + [t]
    else:
        line += mkline(r, su, n, **kw)
    return line + mkline(r, su, r.randint(0, 4), **kw)


def large(ctx, focus, ops, n=None):
    """few, but large: many options, long names, long lines"""
    r = ctx.rng
    scripts = []
    for i in range(n or ctx.pick(32, 400)):
        su = mkopts(r, big=r.choice([0, 0, 12, 40, 90]))
        scripts.append([su] + ops(r, su))
    ctx.conform('options_drv', 'TraceOptions', scripts, MK, 'large', env={'FOCUS': focus}, sample=False)


def biglines(**kw):
    def ops(r, su):
        return [parse(r, bigline(r, su, r.choice([20, 70, 140, 300]), **kw)) for _ in range(r.choice([1, 1, 2]))]
    return ops


RULE = ('an execution registers 1 to 6 options and parses 1 to 3 lines; lines enumerated by TLC from MCOptions and random ones; '
        'non-trivial ones have at least two tokens. Compared: ')


def o01(ctx):
    ctx.rule = RULE + 'all targets'
    mc(ctx, (1, 2, 3, 4), ALPHA, ctx.pick(4, 5), 1)
    enumerated(ctx, 'vr', ntok=ctx.pick(3, 4))
    rnd(ctx, 'vr', ctx.pick(5000, 60000))
    large(ctx, 'vr', biglines())


def o02(ctx):
    ctx.rule = RULE + 'getPosArgs, numPosArgs and getPosArg for every index and some out of range'
    mc(ctx, (1, 2, 3, 4), ['-i', '-f', '5', 'p', '-', '--'], ctx.pick(4, 6), 1)
    enumerated(ctx, 'ar', ['-i', '-f', '5', 'p', '-', '--'], ntok=ctx.pick(4, 5))
    rnd(ctx, 'ar', ctx.pick(5000, 60000), size=(0, 12))
    large(ctx, 'ar', biglines())


def o03(ctx):
    ctx.rule = RULE + 'return value, escaping exceptions, diagnostics, and the target of a refused value'
    mc(ctx, (1, 2, 3, 4), ALPHA, ctx.pick(4, 5), 1)
    enumerated(ctx, 'rdx', ['-i', '--un', '5', 'xyz', '-z', '--none', '-'], ntok=ctx.pick(3, 4))
    rnd(ctx, 'rdx', ctx.pick(4000, 50000), unknown=0.08, bad=0.15)
    rnd(ctx, 'rdx', ctx.pick(1500, 20000), 'valid_lines')
    large(ctx, 'rdx', biglines(unknown=0.01, bad=0.01))


def o04(ctx):
    ctx.rule = RULE + 'isPresent by long and short name for every option and for names never registered'
    mc(ctx, (1, 2, 3, 4), ALPHA, ctx.pick(4, 5), 1)
    enumerated(ctx, 'pr', ['-i', '--un', '-f', '5', '-5', '-u'], ntok=ctx.pick(3, 4))
    rnd(ctx, 'pr', ctx.pick(5000, 60000), alone=0.4)
    large(ctx, 'pr', biglines(alone=0.4))


def o05(ctx):
    ctx.rule = RULE + 'targets, presence and positional arguments, with many tokens that look like switches'
    mc(ctx, (1, 2, 3, 4), ['-i', '--un', '-f', '-5', '5', 't', '-'], ctx.pick(5, 6), 1)
    enumerated(ctx, 'vapr', ['-i', '--un', '-f', '-5', '5'], ntok=ctx.pick(4, 5))
    rnd(ctx, 'vapr', ctx.pick(5000, 60000), alone=0.35, neg=0.5)
    large(ctx, 'vapr', biglines(alone=0.35, neg=0.5))


def o06(ctx):
    ctx.rule = RULE + ('everything, for the same lines given as argc/argv, as a list and as one string; '
                       'strings enumerated by TLC from MCCmdLine too')
    cfg = '''SPECIFICATION Spec
CONSTANTS TokChars = {"a", " ", "\t"}
 MaxTokLen = %d
 MaxToks = %d
 Gaps = {"", " ", "\t ", "  "}
 Gen = %s
INVARIANTS O06 %s
CHECK_DEADLOCK FALSE
'''
    ctx.model_check('MCCmdLine', cfg % (2, ctx.pick(2, 3), 'FALSE', ''), 'buildTokenList')
    g = gen_lines(ctx.model_check('MCCmdLine', cfg % (1, 2, 'TRUE', 'Emit'), 'buildTokenList, generator'))
    su = {'op': 'setup', 'kvp': False, 'infos': [], 'init': ['', []],
          'opts': [{'name': 'aa', 'ab': 'b', 'shape': 'flag', 'type': 'bool', 'dflt': '0', 'doc': '', 'err': '', 'test': {'kind': 'none'}},
                   {'name': 'cc', 'ab': 'c', 'shape': 'vec', 'type': 'string', 'dflt': '', 'doc': '', 'err': '', 'test': {'kind': 'none'}}]}
    ctx.conform('options_drv', 'TraceOptions', [[su, {'op': 'str', 'text': o['text']}] for o in g], MK, 'enumerated_by_TLC',
                env={'FOCUS': 'vapr'})
    r = ctx.rng
    scripts = []
    for _ in range(ctx.pick(2200, 30000)):
        su = mkopts(r)
        t = mkline(r, su, r.randint(0, 9), unknown=0.02, bad=0.03)
        s = quoted(r, t)
        scripts += [[su, {'op': 'argv', 'tokens': t}], [su, {'op': 'list', 'tokens': t}]]
        if s is not None:
            scripts.append([su, {'op': 'str', 'text': s}])
    ctx.notes['distinct_nontrivial'] = len(set(map(str, scripts)))
    ctx.conform('options_drv', 'TraceOptions', scripts, MK, 'three_forms', env={'FOCUS': 'vaprs'})

    def three(r, su):
        t = bigline(r, su, r.choice([20, 70, 140]))
        s = quoted(r, t)
        return [{'op': 'str', 'text': s}] if s is not None and len(s) < 2500 else [{'op': r.choice(['argv', 'list']), 'tokens': t}]
    large(ctx, 'vaprs', three)


def o07(ctx):
    ctx.rule = RULE + 'everything after each of several parses with the same object; lines end in options without a value, or are refused'
    mc(ctx, (1, 2, 3, 4), ['-i', '--un', '-5', '5', '-z'], ctx.pick(2, 3), 2)
    enumerated(ctx, 'vaps', ['-i', '--un', '-5', '5', '-z'], ntok=ctx.pick(2, 2), nlines=2, sets=(1, 2))
    r = ctx.rng
    scripts = []
    for _ in range(ctx.pick(4000, 60000)):
        su = mkopts(r)
        ops = [su]
        for _ in range(r.randint(2, 4)):
            t = mkline(r, su, r.randint(0, 4), unknown=0.05, bad=0.06, neg=0.25)
            if r.random() < 0.4:
                o = r.choice(su['opts'])
                if tokenok('-' + o['ab'], su['opts']):
                    t.append('-' + o['ab'])
            ops.append(parse(r, t))
        scripts.append(ops)
    ctx.notes['distinct_nontrivial'] = len(set(map(str, scripts)))
    ctx.conform('options_drv', 'TraceOptions', scripts, MK, 'several_parses', env={'FOCUS': 'vaps'})
    large(ctx, 'vaps', lambda r, su: [parse(r, mkline(r, su, r.randint(0, 4), unknown=0.02, bad=0.03)) for _ in range(r.choice([12, 40, 70]))]
          + [parse(r, bigline(r, su, 60))])


KVCHARS = [chr(c) for c in range(33, 127) if chr(c) != ',']


def kvitem(r, su, bad=0.0, unknown=0.0, listform=False):
    o = r.choice(su['opts'])
    if r.random() < unknown:
        return r.choice(['nope=3', 'nope', '=5', 'help', 'help=me', 'helpx', '--' + o['name'] + '=1', '-' + o['ab'] + '=1'])
    k = r.random()
    if k < 0.12:
        return o['name']
    if o['shape'] == 'flag':
        return o['name'] + r.choice(['', '', '=', '=1', '=true'])
    if r.random() < bad:
        v = r.choice(BADS)
    elif o['type'] == 'string':
        v = r.choice(['', 'x', 'a=b', '=', '==x=', '-5', '--' + o['name'], 'two words', '-h', 'q%d' % r.randint(0, 99), 'help', 'a b', 'a;b', 'x:y|z', '/a/b', 'a\\b', "it's", '"q"', '%0', 'a&b', ''.join(r.choice(KVCHARS) for _ in range(r.randint(1, 8)))])
        if listform:
            v = r.choice([v, v, 'a,b', ',', 'x,y=z'])
    else:
        v = goodval(r, o)
    if v is None or not clean(o['type'], v) or '  ' in v or (not listform and ',' in v) or v.startswith(' ') or v.endswith(' ') \
            or '\n' in v:
        return o['name']
    return '%s=%s' % (o['name'], v)


def o08(ctx):
    ctx.rule = RULE + ('everything after parseKeyValue of a text or a list and parse of a key=value object; texts enumerated by '
                       'TLC from MCKeyValue too')
    cfg = '''SPECIFICATION Spec
CONSTANTS Pieces1 = {%s}
 MaxPieces = %d
 Gen = %s
INVARIANTS O08 %s
CHECK_DEADLOCK FALSE
'''
    ps = ['a', 'b', 'f', '=', ',', ' ', '-5', '7']
    ctx.model_check('MCKeyValue', cfg % (', '.join('"%s"' % p for p in ps), ctx.pick(4, 6), 'FALSE', ''), 'parseKeyValue')
    out = ctx.model_check('MCKeyValue', cfg % (', '.join('"%s"' % p for p in ps), ctx.pick(4, 5), 'TRUE', 'Emit'),
                          'parseKeyValue, generator')
    N = {'kind': 'none'}
    base = [('a', 'def', 'string', 'd'), ('b', 'vec', 'int', ''), ('f', 'flag', 'bool', '0')]
    opts = [{'name': n, 'ab': n, 'shape': s, 'type': t, 'dflt': d, 'doc': '', 'err': '', 'test': N} for n, s, t, d in base]
    scripts = []
    for i, t in enumerate(sorted(set(o['text'] for o in gen_lines(out)))):
        vals = [it.strip(' ').partition('=') for it in t.split(',')]
        if not t.strip(' ,') or any(k == 'b' and e and not clean('int', v) for k, e, v in vals):
            continue
        kvp = i % 2 == 1
        su = {'op': 'setup', 'kvp': kvp, 'opts': opts, 'init': ['', [], ''], 'infos': []}
        scripts.append([su, {'op': 'kvobj' if kvp else 'kv', 'text': t}])
    ctx.conform('options_drv', 'TraceOptions', scripts, MK, 'enumerated_by_TLC', env={'FOCUS': 'vprsd'})
    r = ctx.rng
    scripts = []
    for _ in range(ctx.pick(4500, 60000)):
        kvp = r.random() < 0.4
        su = mkopts(r, kvp)
        ops = [su]
        for _ in range(r.choice([1, 1, 2, 3])):
            lf = r.random() < 0.4
            items = [kvitem(r, su, 0.04, 0.03, lf) for _ in range(r.randint(1, 6))]
            if r.random() < 0.25:
                items.insert(r.randint(0, len(items)), r.choice(['', ' ', '  ']))
            if r.random() < 0.4:
                items = [r.choice(['', ' ', '  ']) + i + r.choice(['', ' ', '  ']) for i in items]
            if lf:
                ops.append({'op': 'kvlist', 'tokens': items})
            else:
                t = ','.join(items)
                if not t.strip(' ,'):
                    continue
                ops.append({'op': 'kvobj' if kvp and r.random() < 0.7 else 'kv', 'text': t})
        scripts.append(ops)
    ctx.notes['distinct_nontrivial'] = len(set(map(str, scripts)))
    ctx.conform('options_drv', 'TraceOptions', scripts, MK, 'random', env={'FOCUS': 'vprsd'})

    def items(r, su):
        its = [kvitem(r, su) for _ in range(r.choice([30, 80, 200]))]
        return [{'op': 'kv', 'text': ','.join(its)}] if r.random() < 0.6 else [{'op': 'kvlist', 'tokens': its}]
    large(ctx, 'vprsd', items)


def o09(ctx):
    ctx.rule = RULE + 'the help text of printHelp and of lines with -h or --help, the result, and that later tokens are not acted upon'
    mc(ctx, (1, 2, 3, 4), ALPHA, 4, 1)
    enumerated(ctx, 'hvaps', ['-i', '--un', '-f', '5', '-h', '--help'], ntok=ctx.pick(3, 4))
    rnd(ctx, 'hvaps', ctx.pick(3000, 40000), helps=0.12)
    r = ctx.rng
    scripts = []
    for _ in range(ctx.pick(1500, 20000)):
        su = mkopts(r)
        su['infos'] = ['info %d %s' % (i, r.choice(['', 'x', '%0', '--in'])) for i in range(r.randint(0, 5))]
        r.shuffle(su['infos'])
        scripts.append([su, {'op': 'help'}, parse(r, [r.choice(['-h', '--help'])] + mkline(r, su, r.randint(0, 3)))])
    ctx.conform('options_drv', 'TraceOptions', scripts, MK, 'help', env={'FOCUS': 'hvaps'})

    def helps(r, su):
        su['infos'] = ['info %d' % i for i in range(r.choice([0, 3, 50]))]
        for o in su['opts']:
            if r.random() < 0.1:
                o['doc'] = 'a long text about it, ' * r.choice([5, 15, 60])
        return [{'op': 'help'}, parse(r, mkline(r, su, r.choice([3, 60])) + ['--help'] + mkline(r, su, 30))]
    large(ctx, 'hvaps', helps)


CHECKS = {'O01': o01, 'O02': o02, 'O03': o03, 'O04': o04, 'O05': o05, 'O06': o06, 'O07': o07, 'O08': o08, 'O09': o09}
