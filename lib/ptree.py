"""SoDa::PropertyTree / PropertyTreeYAML: properties P01 .. P07."""
import json, re
from vlib import xs, unx, gen_lines
from opts import clean, real

# ------------------------------------------------------------- documents
def S(t): return {'k': 's', 't': t}
def M(*c): return {'k': 'm', 'c': [list(x) for x in c]}
def L(*i): return {'k': 'l', 'i': list(i)}


PLAIN = re.compile(r'[A-Za-z0-9][A-Za-z0-9_./]*( [A-Za-z0-9_./]+)*\Z')
UTF8 = [c.encode().decode('latin-1') for c in ('\xe9', '\xfc', '\xdf', '\u20ac', '\u65e5\u672c', '\U0001d11e', '\u0100', '\u0439', '\ud7ff', '\ufffd')]
UTF = re.compile('(%s)([A-Za-z0-9]|%s)*\\Z' % ('|'.join(UTF8), '|'.join(UTF8)))
NUM = re.compile(r'[-+]?[0-9.]+([eE][-+]?[0-9]+)?\Z')


def scalar(r, t, key=False):
    """t as a YAML scalar in one of the styles that can carry it"""
    styles = ['dq']
    if (PLAIN.match(t) or NUM.match(t)) and t.lower() not in ('null', 'y', 'n', '.', '..') and not t.startswith('...'):
        styles += ['plain'] * 3
    if '\n' not in t and all(32 <= ord(c) and ord(c) != 127 for c in t):
        styles.append('sq')
    if UTF.match(t):
        styles += ['plain'] * 2
    st = r.choice(styles)
    if st == 'plain':
        return t
    if st == 'sq':
        return "'" + t.replace("'", "''") + "'"
    out = ''
    raw = r.random() < 0.7
    for c in t:
        if c in '"\\':
            out += '\\' + c
        elif c == '\n':
            out += '\\n'
        elif c == '\t':
            out += '\\t'
        elif 32 <= ord(c) < 127 or ord(c) > 127:
            # beyond ASCII: bytes of UTF-8
            out += c
        elif c == '\0' and raw:
            out += '\\0'
        else:
            out += '\\x%02x' % ord(c)
    return '"' + out + '"'


def flow(r, n):
    if 'a' in n:
        # a node that stands in several places: an anchor, then aliases
        if n['a'] in r.anchors:
            return '*' + n['a'] + ' '
        t = flow(r, {k: v for k, v in n.items() if k != 'a'})
        r.anchors.add(n['a'])
        return '&' + n['a'] + ' ' + t
    if n['k'] == 's':
        return scalar(r, n['t'])
    if n['k'] == 'l':
        return '[' + ', '.join(flow(r, x) for x in n['i']) + ']'
    return '{' + ', '.join('%s: %s' % (scalar(r, k, True), flow(r, x)) for k, x in n['c']) + '}'


def block(r, n, ind, step):
    """lines of a map or sequence in block style"""
    pad = ' ' * ind
    out = []
    if n['k'] == 'm':
        for k, x in n['c']:
            head = pad + scalar(r, k, True) + ':'
            if r.random() < 0.06:
                out.append(pad + '# a comment')
            if x['k'] == 's' and 'a' not in x and '\n' in x['t'] and re.match(r'[A-Za-z]', x['t']) and x['t'].endswith('\n') and \
                    not x['t'].endswith('\n\n') and all(c == '\n' or 32 <= ord(c) < 127 for c in x['t']) and r.random() < 0.7:
                out.append(head + ' |')
                out += [(' ' * (ind + 2) + ln) if ln else '' for ln in x['t'][:-1].split('\n')]
            elif x['k'] == 's' or 'a' in x or empty(x) or r.random() < 0.15:
                out.append(head + ' ' + flow(r, x) + (r.choice(['', '', '', ' # note'])))
            else:
                out.append(head)
                out += block(r, x, ind + (r.choice([0, step]) if x['k'] == 'l' else step), step)
    else:
        for x in n['i']:
            if x['k'] == 's' or 'a' in x or empty(x) or r.random() < 0.2:
                out.append(pad + '- ' + flow(r, x))
            else:
                sub = block(r, x, ind + 2, step)
                out.append(pad + '- ' + sub[0].lstrip(' ') if not sub[0].lstrip().startswith('#') else pad + '-')
                out += sub[1:] if not sub[0].lstrip().startswith('#') else sub
    return out


def empty(x):
    return not (x.get('c') or x.get('i'))


def yaml(r, doc):
    r.anchors = set()
    if empty(doc):
        return r.choice(['', '{}', '# nothing\n', '---\n', '{}\n'])
    if r.random() < 0.3:
        return flow(r, doc) + r.choice(['', '\n'])
    return r.choice(['', '', '---\n', '# head\n']) + '\n'.join(block(r, doc, 0, r.choice([1, 2, 4]))) + '\n'


KEYS = ['a', 'b', 'c', 'alpha', 'beta', 'gamma', 'key', 'Key', 'a b', 'x1', '5', '42', 'true', 'name', 'freq', 'rate', 'list',
        'deep', 'dir/file', 'snake_case', 'with-dash', '1.5', 'é', 'a,b', '%0', '#x', '-', '*s', 'q"q', "p'p", '[z', '{y', 'null']
KEYS = [k for k in KEYS if all(ord(c) < 128 for c in k)] + UTF8[:4] + ['caf' + UTF8[0]]


def odd(r, but=''):
    """any text that YAML can carry"""
    pool = r.choice([[chr(c) for c in range(33, 127)], UTF8 + list('ab '), list('\0\1\t\x1b\x7f') + UTF8 + list('xy9 %:')])
    return ''.join(c for c in (r.choice(pool) for _ in range(r.randint(1, 6))) if c not in but and (c != '\0' or not getattr(r, 'nonul', False)))


def keys(r, n):
    """n different keys"""
    out = r.sample(KEYS, n)
    for i in range(n):
        if r.random() < 0.12:
            k = odd(r, ': ')
            if k and k not in out:
                out[i] = k
    return out


STRS = ['one', 'two words', '', 'a  b', 'x y z', 'true', 'null', '~', 'fred', '# no comment', 'a: b', '- item', '[1]', '{}',
        'quote"d', "it's", 'back\\slash', ' lead', 'trail ', 'line one\nline two\n', 'multi\n\nline text\nend\n', '%1', '\ttab',
        'no', '0x', 'NaN', 'inf', 'q', '.', '-', '+', 'e9', '\x01\x7f']


def text(r):
    k = r.random()
    if k < 0.35:
        return r.choice(STRS) if r.random() < 0.75 else odd(r)
    if k < 0.6:
        return str(r.choice([0, 1, -1, 7, 42, -17, 2**31 - 1, -2**31, 2**31, -2**31 - 1, 2**32 - 1, 2**32, 10**12, r.randint(-999, 99999)]))
    if k < 0.85:
        return r.choice(['1.5', '-2.25', '1e6', '-4E2', '.5', '6.', '0.001', '3.14159265358979', '%.6g' % r.uniform(-1e4, 1e4),
                         '%.17g' % r.uniform(-1, 1), '1e-30'])
    return ''.join(r.choice('abcXYZ 019_') for _ in range(r.randint(1, 12))).strip(' ') or 'w'


def node(r, depth, lists=True):
    k = r.random()
    if depth == 0 or k < 0.4:
        return S(text(r))
    if k < 0.62 and lists:
        return L(*[node(r, depth - 1) for _ in range(r.choice([0, 1, 2, 3, 5]))])
    return doc(r, depth, lists)


def shared(r, n, depth):
    """n with one of its nodes put in a second place too"""
    ns = [x for p, x in nodes(n) if p]
    ms = [x for _, x in nodes(n) if x['k'] == 'm' and x['c']]
    if not ns or not ms:
        return n
    x = r.choice(ns)
    inside = [y for _, y in nodes(x)]
    m = r.choice([y for y in ms if all(y is not z for z in inside)] or [n])
    k = 'same-%d' % r.randint(0, 9)
    if all(k != q for q, _ in m['c']):
        x['a'] = 'n%d' % r.randint(0, 99)
        m['c'].insert(r.randint(0, len(m['c'])), [k, x])
    return n


def doc(r, depth, lists=True, n=None):
    ks = keys(r, n if n is not None else r.choice([0, 1, 2, 3, 4]))
    return M(*[(k, node(r, depth - 1, lists)) for k in ks])


def chain(r, depth):
    """one deep path"""
    n = S(text(r))
    for _ in range(depth):
        c = [(r.choice(KEYS), n)]
        for k in keys(r, r.choice([0, 1, 2])):
            if k != c[0][0]:
                c.append((k, S(text(r))))
        r.shuffle(c)
        n = M(*c)
    return n


def nodes(n, path=(), items=False):
    """(path, node) for every node reached through maps (and items of sequences)"""
    out = [(path, n)]
    if n['k'] == 'm':
        for k, x in n['c']:
            out += nodes(x, path + (k,), items)
    if n['k'] == 'l' and items:
        for x in n['i']:
            out += nodes(x, path, items)
    return out


def merge(a, b):
    """used to choose what to ask for, not to judge"""
    if a['k'] != 'm' or b['k'] != 'm':
        return b
    m = {k: x for k, x in a['c']}
    for k, x in b['c']:
        m[k] = merge(m[k], x) if k in m else x
    return M(*m.items())


def variant(r, d, depth):
    """a document compatible with d: maps where d has maps, others where d has others"""
    c = []
    for k, x in d['c']:
        if r.random() < 0.5:
            if x['k'] in 'sl':
                c.append((k, S(text(r)) if r.random() < (0.8 if x['k'] == 's' else 0.3) else
                          L(*[node(r, max(0, depth - 1)) for _ in range(r.choice([0, 1, 2, 3]))])))
            elif x['k'] == 'm':
                c.append((k, variant(r, x, depth - 1)))
    have = {k for k, _ in d['c']}
    for k in keys(r, r.choice([0, 1, 2])):
        if k not in have:
            c.append((k, node(r, max(0, depth - 1))))
    r.shuffle(c)
    return M(*c)


# --------------------------------------------------------- driver <-> events

def lines(o):
    op = o['op']
    if op in ('load', 'ctor', 'bad', 'ctorbad'):
        return '%s %s' % (op, xs(o['yaml']))
    if op in ('missing', 'ctormissing'):
        return '%s %s' % (op, xs(o['name']))
    if op == 'get':
        return 'get %s %s %d' % (o['type'], xs(o['path']), o['thr'])
    if op == 'hops':
        return 'hops %s %s %s %d' % (o['type'], xs(o['path']), xs(o['rest']), o['thr'])
    if op == 'dump':
        return 'dump %s %s %d' % (xs(o['path']), xs(o['indent']), o['by'])
    return op


def alltexts(n, acc):
    if n['k'] == 's':
        acc.add(n['t'])
    for _, x in n.get('c', []):
        alltexts(x, acc)
    for x in n.get('i', []):
        alltexts(x, acc)


def events(ops, replies):
    acc = set()
    for o in ops:
        if 'doc' in o:
            alltexts(o['doc'], acc)
    keys = set()
    for o in ops:
        if 'doc' in o:
            keys |= set(k for p, _ in nodes(o['doc'], items=True) for k in p)
    ev = [{'op': 'start', 'reals': dict({t: real(t) for t in acc if real(t)}, **{'1': '1'}),
           'order': sorted(keys) if any(o['op'] == 'dump' for o in ops) else []}]
    for o, r in zip(ops, replies):
        if 'fault' in r or 'escaped' in r:
            ev.append({'op': 'fault', 'during': o, 'why': r.get('fault') or 'exception ' + unx(r['escaped'])})
            break
        e = {k: v for k, v in o.items() if k not in ('thr',)}
        if 'thr' in o:
            e['throw'] = o['thr'] == 1
        if 'res' in r:
            e['res'] = r['res']
            e['soda'] = r['soda'] == '1'
            e['what'] = unx(r['what'])
        if 'text' in r:
            e['text'] = unx(r['text'])
            e['same'] = r['same'] == '1'
        if 'val' in r:
            e['val'] = unx(r['val'])
        if 'says' in r:
            e['says'] = [unx('x' + p) for p in r['says'].split('x')[1:]]
        if 'tree' in r:
            e['tree'] = json.loads(unx(r['tree']))
        ev.append(e)
    return ev


MK = (lines, events)
TYPES = ['int', 'unsigned', 'double', 'string']


def conform(ctx, focus, scripts, label):
    ctx.conform('ptree_drv', 'TracePropertyTree', scripts, MK, label, env={'FOCUS': focus})


def ask(r, path, n, thr=None):
    """get and hops operations on a path, with a type whose meaning for this text is clear"""
    types = [t for t in TYPES if n is None or n['k'] != 's' or clean(t, n['t'])]
    t = r.choice(types)
    thr = r.choice([-1, 0, 1]) if thr is None else thr
    p = ':'.join(path)
    if r.random() < 0.6 or not path or '' in path:
        return {'op': 'get', 'type': t, 'path': p, 'thr': thr}
    i = r.randint(0, len(path))
    return {'op': 'hops', 'type': t, 'path': ':'.join(path[:i]), 'rest': ':'.join(path[i:]), 'thr': thr}


def wrong(r, tree):
    """a path that leads nowhere"""
    for _ in range(20):
        path, n = r.choice(nodes(tree))
        path = list(path)
        k = r.random()
        if k < 0.12 and path:
            # a step without a key
            path.insert(r.randrange(len(path)), '')
        elif k < 0.35 or not path:
            path = path + [r.choice(KEYS)]
        elif k < 0.6:
            i = r.randrange(len(path))
            path[i] = r.choice(KEYS + [path[i] + 'x', path[i][:-1] or 'zz', path[i].upper()])
        elif k < 0.75:
            path = path[1:] + [r.choice(KEYS)]
        elif k < 0.85:
            path = path + [path[-1]]
        else:
            path = [r.choice(KEYS)] + path
        if any((p == '' and i == len(path) - 1) or p != ' '.join(p.split(' ')) or p.strip(' ') != p for i, p in enumerate(path)):
            continue
        if tuple(path) not in [p for p, _ in nodes(tree)]:
            return path
    return ['no such key']


def bare(n):
    """without the names of anchors"""
    if n['k'] == 's':
        return S(n['t'])
    if n['k'] == 'l':
        return L(*[bare(x) for x in n['i']])
    return M(*[(k, bare(x)) for k, x in n['c']])


def load(r, d, op='load'):
    return {'op': op, 'doc': bare(d), 'yaml': yaml(r, d)}


CFG = '''SPECIFICATION Spec
CONSTANTS KeySet = {"a", "b"}
 Texts = {"1", "x"}
 Deep = %s
 MaxDocs = %d
 Gen = %s
INVARIANTS P01 P02 P03 P04 P05 P07 %s
CHECK_DEADLOCK FALSE
'''


def mc(ctx, ndocs, deep=False, gen=False):
    return ctx.model_check('MCPropertyTree', CFG % ('TRUE' if deep else 'FALSE', ndocs, 'TRUE' if gen else 'FALSE', 'Emit' if gen else ''),
                           'heap of fillRecurse against Merge, %d documents' % ndocs)


def enumerated(ctx, focus, ndocs, then, limit):
    g = gen_lines(mc(ctx, ndocs, gen=True))
    g.sort(key=str)
    if len(g) > limit:
        g = ctx.rng.sample(g, limit)
    scripts = []
    for ds in g:
        ops, tree = [], M()
        for i, d in enumerate(ds):
            ops.append(load(ctx.rng, d, 'ctor' if i == 0 and ctx.rng.random() < 0.5 else 'load'))
            tree = merge(tree, d)
        scripts.append(ops + then(ctx.rng, tree))
    conform(ctx, focus, scripts, 'enumerated_by_TLC')


RULE = ('documents enumerated by TLC from MCPropertyTree and random ones (maps, sequences and scalars up to depth 7 in block '
        'and flow style), read by the real class from scratch files; ')


def anydoc(r):
    depth = r.randint(2, 7)
    d = chain(r, depth) if r.random() < 0.25 else doc(r, r.randint(1, 4), n=r.randint(1, 5))
    return shared(r, d, depth) if r.random() < 0.15 else d


def huge(r, k):
    """few, but large: deep, wide, long names, long texts, long sequences"""
    if k == 0:
        return chain(r, r.choice([16, 20, 33, 50]))
    name = lambda i: r.choice(['k%d', 'key %d', 'a/%d', 'x' * r.choice([1, 40, 100, 200, 300]) + '%d']) % i
    if k == 1:
        return M(*[(name(i), S(text(r)) if r.random() < 0.8 else node(r, 2)) for i in range(r.choice([20, 70, 150, 300, 300, 700]))])
    if k == 2:
        return M(('first', S('1')), ('list', L(*[S(text(r)) if r.random() < 0.8 else node(r, 2) for _ in range(r.choice([20, 70, 150, 300, 300, 700]))])),
                 ('last', S('2')))
    if k == 3:
        d = S(text(r))
        for i in range(r.choice([2, 4, 8])):
            d = M((name(i), d), ('other', S(text(r))))
        return d
    if k == 4:
        d = L(S(text(r)))
        for i in range(r.choice([6, 12, 20])):
            d = L(d) if r.random() < 0.5 else L(M(('i%d' % i, d)), S('x'))
        return M(('deep', d), ('after', S('1')))
    return M(*[('t%d' % i, S(''.join(r.choice('abc XYZ 019_') for _ in range(r.choice([128, 300, 1100, 5000]))).strip() + '.'))
               for i in range(4)])


def large(ctx, focus, then):
    r = ctx.rng
    scripts = []
    for i in range(ctx.pick(42, 600)):
        d = huge(r, i % 6)
        scripts.append([load(r, d, r.choice(['load', 'ctor']))] + then(r, d))
    ctx.conform('ptree_drv', 'TracePropertyTree', scripts, MK, 'large', env={'FOCUS': focus}, sample=False)


def some(r, l, n):
    return r.sample(l, n) if len(l) > n else l


def p01(ctx):
    ctx.rule = RULE + 'every scalar is asked for with each type, through get and getProp; non-trivial: at least two keys deep'
    mc(ctx, 1, deep=True)

    def then(r, tree):
        return [ask(r, p, n) for p, n in nodes(tree) if n['k'] == 's'] + [{'op': 'walk'}]
    enumerated(ctx, 'vw', 1, then, 4000)
    r = ctx.rng
    scripts, nt = [], 0
    for _ in range(ctx.pick(3500, 50000)):
        d = anydoc(r)
        ops = [load(r, d, r.choice(['load', 'ctor']))]
        for p, n in nodes(d):
            if n['k'] == 's':
                ops += [ask(r, p, n) for _ in range(2)]
                nt += len(p) > 1
        if r.random() < 0.5:
            ops.append({'op': 'walk'})
        scripts.append(ops)
    ctx.notes['distinct_nontrivial'] = nt
    conform(ctx, 'v', scripts, 'random')
    large(ctx, 'v', lambda r, d: [ask(r, p, n) for p, n in some(r, [x for x in nodes(d) if x[1]['k'] == 's'], 60)])


def p02(ctx):
    ctx.rng.nonul = True    # what() is a C string
    ctx.rule = RULE + ('asked for: paths that lead nowhere, nodes of the wrong type and nodes without text, with and without '
                       'exceptions, mixed with paths that do lead somewhere; the tree is compared before and after')
    mc(ctx, 1)

    def then(r, tree):
        out = []
        for p, n in nodes(tree):
            out.append({'op': 'get', 'type': r.choice(TYPES) if n['k'] != 's' else 'int', 'path': ':'.join(p), 'thr': r.choice([-1, 0, 1])})
        return out + [ask(r, wrong(r, tree), None) for _ in range(4)] + [{'op': 'walk'}]
    enumerated(ctx, 'vmw', 1, then, 1500)
    r = ctx.rng
    scripts, nt = [], 0
    for _ in range(ctx.pick(3500, 50000)):
        d = anydoc(r)
        ops = [load(r, d)]
        for _ in range(r.randint(2, 8)):
            if r.random() < 0.5:
                ops.append(ask(r, wrong(r, d), None))
            else:
                p, n = r.choice(nodes(d))
                ops.append(ask(r, p, n))
            nt += 1
        ops.append({'op': 'walk'})
        scripts.append(ops)
    ctx.notes['distinct_nontrivial'] = nt
    conform(ctx, 'vmw', scripts, 'random')
    large(ctx, 'vmw', lambda r, d: [ask(r, wrong(r, d), None) for _ in range(6)] + [ask(r, p, n) for p, n in some(r, nodes(d), 6)]
          + [{'op': 'walk'}])


def p03(ctx):
    ctx.rule = RULE + 'then every node reachable through getKeys, getProp and getList is compared with the document'
    mc(ctx, 1, deep=True)
    enumerated(ctx, 'w', 1, lambda r, t: [{'op': 'walk'}], 4000)
    r = ctx.rng
    scripts = []
    for _ in range(ctx.pick(4000, 60000)):
        d = doc(r, r.randint(2, 5), n=r.randint(1, 5))
        scripts.append([load(r, d, r.choice(['load', 'ctor'])), {'op': 'walk'}])
    ctx.notes['distinct_nontrivial'] = sum('"l"' in json.dumps(s[0]['doc']) for s in scripts)
    conform(ctx, 'w', scripts, 'random')
    large(ctx, 'w', lambda r, d: [{'op': 'walk'}])


def p04(ctx):
    ctx.rule = RULE + 'two to four documents are read into one tree, the later ones overlapping the earlier ones'
    mc(ctx, 2)
    enumerated(ctx, 'vw', 2, lambda r, t: [{'op': 'walk'}] + [ask(r, p, n) for p, n in nodes(t) if n['k'] == 's'][:3],
               ctx.pick(2500, 12000))
    r = ctx.rng
    scripts = []
    for _ in range(ctx.pick(3000, 40000)):
        tree = doc(r, r.randint(1, 4), n=r.randint(1, 4))
        ops = [load(r, tree, r.choice(['load', 'ctor']))]
        for _ in range(r.choice([1, 1, 2, 3])):
            d = variant(r, tree, 3)
            ops.append(load(r, d))
            tree = merge(tree, d)
            if r.random() < 0.4:
                ops.append({'op': 'walk'})
        ops += [ask(r, p, n) for p, n in nodes(tree) if n['k'] == 's'][:6]
        ops.append({'op': 'walk'})
        scripts.append(ops)
    ctx.notes['distinct_nontrivial'] = len(scripts)
    conform(ctx, 'vw', scripts, 'random')

    def more(r, tree):
        ops = []
        for _ in range(r.choice([1, 2, 10])):
            d = variant(r, tree, 3)
            ops.append(load(r, d))
            tree = merge(tree, d)
        return ops + [{'op': 'walk'}] + [ask(r, p, n) for p, n in some(r, [x for x in nodes(tree) if x[1]['k'] == 's'], 20)]
    large(ctx, 'vw', more)


def p05(ctx):
    ctx.rule = RULE + 'getPathName of every node reached through maps is compared and looked up again'
    mc(ctx, 2)
    enumerated(ctx, 'n', 2, lambda r, t: [{'op': 'walk'}], ctx.pick(2500, 12000))
    r = ctx.rng
    scripts = []
    for _ in range(ctx.pick(3500, 50000)):
        d = anydoc(r)
        ops = [load(r, d, r.choice(['load', 'ctor'])), {'op': 'walk'}]
        if r.random() < 0.4:
            ops += [load(r, variant(r, d, 3)), {'op': 'walk'}]
        scripts.append(ops)
    ctx.notes['distinct_nontrivial'] = len(scripts)
    conform(ctx, 'n', scripts, 'random')
    large(ctx, 'n', lambda r, d: [{'op': 'walk'}])


MALFORMED = ['a: [1, 2', 'a: {b: 1', '{', '[', 'a: "unterminated', "a: 'unterminated", 'a: b: c', 'a: 1\n- b',
             'a: *nowhere', 'a:\n\t- b\n', 'a: ]', 'key: }', '"a": "b" "c"', 'a: [1, 2]]', '? [\n', 'a: !<', "{a: 'b}", '%YAML\n---\na: 1',
             'a: "\\q"', '}', ']', '@x: 1', '`x`: 1', 'a: @b', 'a: %b']


def p06(ctx):
    ctx.rule = RULE + ('mixed with files that do not exist and files that are not well formed (a list of hand-written ones and '
                       'flow documents cut short), from the constructor and readFile; afterwards the tree is compared')
    mc(ctx, 1)
    r = ctx.rng
    scripts = []
    for _ in range(ctx.pick(4000, 50000)):
        tree = doc(r, r.randint(1, 3), n=r.randint(0, 3))
        ops = [load(r, tree, r.choice(['load', 'ctor']))] if r.random() < 0.8 else []
        if not ops:
            tree = M()
        for _ in range(r.randint(1, 4)):
            k = r.random()
            if k < 0.35:
                ops.append({'op': r.choice(['missing', 'ctormissing']),
                            'name': r.choice(['no-such-file.yaml', 'no/such/dir/f.yaml', 'missing %d.yml' % r.randint(0, 99), 'x' * 60, '%0', '100%%.yml', 'a%%b%0', 'sp ace/\xe9t\xe9.yaml', '~', '$HOME/nope'])})
            elif k < 0.75:
                if r.random() < 0.5:
                    y = r.choice(MALFORMED)
                else:
                    d = doc(r, 2, n=r.randint(1, 3))
                    y = flow(r, d).rstrip('}')
                    y = y if y.count('{') else '{' + y
                    if r.random() < 0.5:
                        y = 'good: 1\n' + 'bad: ' + y
                ops.append({'op': r.choice(['bad', 'ctorbad']), 'yaml': y})
            else:
                d = variant(r, tree, 2)
                tree = merge(tree, d)
                ops.append(load(r, d))
            if r.random() < 0.3:
                ops.append({'op': 'walk'})
        ops += [ask(r, p, n) for p, n in nodes(tree) if n['k'] == 's'][:3]
        ops.append({'op': 'walk'})
        scripts.append(ops)
    ctx.notes['distinct_nontrivial'] = len(scripts)
    conform(ctx, 'fvw', scripts, 'random')


def dump(r, d):
    if r.random() < 0.5:
        return {'op': 'dump', 'path': '', 'indent': '', 'by': 1}
    p, n = r.choice(nodes(d)) if r.random() < 0.9 else (wrong(r, d), None)
    return {'op': 'dump', 'path': ':'.join(p), 'indent': r.choice(['', ' ', '    ', '> ', '\t']), 'by': 0}


def p07(ctx):
    ctx.rule = RULE + 'the text of dump of whole trees and of nodes in them is compared, and the tree afterwards'
    mc(ctx, 2)
    every = {'op': 'dump', 'path': '', 'indent': '', 'by': 1}
    enumerated(ctx, 'd', 2, lambda r, t: [every, dump(r, t)], ctx.pick(2000, 12000))
    r = ctx.rng
    scripts = []
    for _ in range(ctx.pick(3000, 50000)):
        d = anydoc(r)
        ops = [load(r, d, r.choice(['load', 'ctor'])), dump(r, d)]
        if r.random() < 0.3:
            d2 = variant(r, d, 3)
            d = merge(d, d2)
            ops.append(load(r, d2))
        if r.random() < 0.2:
            ops.append({'op': 'missing', 'name': 'no-such-file.yaml'})
        ops += [dump(r, d), dict(every), {'op': 'walk'}]
        scripts.append(ops)
    ctx.notes['distinct_nontrivial'] = len(scripts)
    conform(ctx, 'dw', scripts, 'random')
    large(ctx, 'dw', lambda r, d: [dict(every), dump(r, d), {'op': 'walk'}])


CHECKS = {'P01': p01, 'P02': p02, 'P03': p03, 'P04': p04, 'P05': p05, 'P06': p06, 'P07': p07}
