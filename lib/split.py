"""squashSpaces, split, splitVec: properties U01, U02."""
from vlib import xs, unx, gen_lines


def lines(o):
    if o['op'] == 'squash':
        return 'squash ' + xs(o['s'])
    return '%s %s %s%s' % (o['op'], xs(o['s']), xs(o['d']), '' if o['n'] is None else ' %d' % o['n'])


def unlist(t):
    return [unx('x' + p) for p in t.split('x')[1:]]


def events(ops, replies):
    ev = []
    for o, r in zip(ops, replies):
        if 'fault' in r or 'escaped' in r:
            ev.append({'op': 'fault', 'during': lines(o), 'why': r.get('fault') or unx(r['escaped'])})
            break
        if o['op'] == 'squash':
            ev.append({'op': 'squash', 's': o['s'], 'out': unx(r['out']), 'again': unx(r['again'])})
        else:
            ev.append({'op': o['op'], 's': o['s'], 'd': o['d'], 'n': bool(o['n']), 'out': unlist(r['list'])})
    return ev


CFG = '''SPECIFICATION Spec
CONSTANT Alphabet = {" ", "a", ",", "	"}
CONSTANT MaxLen = %d
CONSTANT DelimSets = {%s}
CONSTANT Gen = %s
INVARIANTS U01 U02 %s
%s
CHECK_DEADLOCK FALSE
'''
ANY = [chr(c) for c in range(0, 256)]


def mc(ctx, n, delims, gen=False, live=False):
    return ctx.model_check('MCSplit', CFG % (n, ', '.join('"%s"' % d for d in delims), 'TRUE' if gen else 'FALSE',
                                             'Emit' if gen else '', 'PROPERTY Terminates' if live else ''),
                           'loops of Split.cxx, strings up to %d' % n)


def strings(ctx, n):
    r = ctx.rng
    out = []
    for _ in range(n):
        k = r.choice([0, 1, 2, 3, 5, 8, 13, 30, r.randint(0, 120)])
        alpha = r.choice([[' ', 'a'], [' ', ' ', ' ', 'b', ','], [' ', '\t', '\n', 'x'], ANY, [',', ';', ' ', 'q', '='], ['\0', ',', ';', 'z', ' '],
                          [' ']])
        out.append(''.join(r.choice(alpha) for _ in range(k)))
    return out


def large(r, n):
    """long strings, many pieces"""
    out = []
    for _ in range(n):
        k = r.choice([200, 256, 600, 1500, 3000])
        alpha = r.choice([[' ', 'a'], ['a'] * 9 + [' '], [','], [',', ' '], ['a', ','], ['a'] * 30 + [',', ' '], ANY, [' '],
                          ['x', 'y', 'z']])
        out.append(''.join(r.choice(alpha) for _ in range(k)))
    return out


def u01(ctx):
    ctx.rule = ('one squashSpaces call (and a second one on its result) per event: every string over blank, tab, comma '
                'and a letter up to the bound, and random byte strings; non-trivial ones contain a space')
    mc(ctx, ctx.pick(5, 8), [','])
    mc(ctx, 4, [''], live=True)
    g = gen_lines(mc(ctx, ctx.pick(5, 7), [''], gen=True))
    ss = sorted(set(o['s'] for o in g))
    ctx.conform('split_drv', 'TraceSplit', [[{'op': 'squash', 's': s}] for s in ss], (lines, events), 'enumerated_by_TLC')
    rnd = strings(ctx, ctx.pick(15000, 200000)) + large(ctx.rng, ctx.pick(40, 400))
    ctx.notes['distinct_nontrivial'] = len(set(s for s in rnd + ss if ' ' in s))
    ctx.conform('split_drv', 'TraceSplit', [[{'op': 'squash', 's': s} for s in rnd[i:i + 5]] for i in range(0, len(rnd), 5)],
                (lines, events), 'random')


def u02(ctx):
    ctx.rule = ('split and splitVec calls: every string and delimiter set up to the bound and random byte strings; '
                'non-trivial ones contain a delimiter')
    mc(ctx, ctx.pick(4, 6), ['', ',', ', ', ' ', 'a', 'a,'])
    g = gen_lines(mc(ctx, ctx.pick(4, 5), ['', ',', ', ', 'a	,'], gen=True))
    ctx.conform('split_drv', 'TraceSplit',
                [[{'op': 'split', 's': o['s'], 'd': o['d'], 'n': 1 if o['n'] else None},
                  {'op': 'splitVec', 's': o['s'], 'd': o['d'], 'n': int(o['n'])}] for o in g], (lines, events),
                'enumerated_by_TLC')
    r = ctx.rng
    scripts, nt = [], set()
    for s in strings(ctx, ctx.pick(9000, 60000)) + large(r, ctx.pick(60, 600)):
        d = r.choice([''.join(ANY[33:127]), ',', ' ', ', ', ',;', '', 'x', ';,= ', '\0', ',\0', '\0;', ''.join(r.choice(ANY) for _ in range(r.randint(1, 6)))])
        n = r.choice([None, 0, 1])
        if any(c in s for c in d):
            nt.add((s, d, n))
        scripts.append([{'op': 'split', 's': s, 'd': d, 'n': n}, {'op': 'splitVec', 's': s, 'd': d, 'n': n}])
    ctx.notes['distinct_nontrivial'] = len(nt)
    ctx.conform('split_drv', 'TraceSplit', scripts, (lines, events), 'random')


CHECKS = {'U01': u01, 'U02': u02}
