"""Scripts for InvertedIndex, DocumentStore, Pipeline and SearchOptions."""
import itertools
import math

CH = ['a', 'b', 'c', 'é', '日', '😀', 'd', 'f', '"', '\\', '\u0001', ' ', '-', '\u0301']
DOCS = ['1', '2', '10', '', 'a', 'docs', 'df', 'tf', 'é', '😀', '"\\', 'x y']
FREQ = [1, 2, repr(math.sqrt(2)), repr(math.sqrt(3)), 0.5, 1.5, 0, 1e3, 100000.0, repr(math.sqrt(70000)), 3, repr(math.sqrt(14))]


def toks(rng, n, chs=None):
    """Tokens that share prefixes."""
    chs = chs or rng.sample(CH, rng.randint(2, 5))
    out = ['']
    while len(out) < n:
        base = rng.choice(out)
        out.append(base + rng.choice(chs) if rng.random() < .75 else ''.join(rng.choice(chs) for _ in range(rng.randint(1, 6))))
    return list(dict.fromkeys(out))


def around(ts, chs='ab'):
    """Tokens, their prefixes and some neighbours."""
    out = []
    for t in ts:
        out += [t[:i] for i in range(len(t) + 1)] + [t + c for c in chs] + [c + t for c in chs[:1]]
    return list(dict.fromkeys(out))


def inv_random(rng, i, n, obs='both', reload=False, freqs=None):
    ts = toks(rng, rng.randint(3, 10))
    ds = rng.sample(DOCS, rng.randint(1, 5))
    probe = around(ts)[:40]
    ops = []
    for _ in range(n):
        r = rng.random()
        d, t = rng.choice(ds), rng.choice(ts)
        if r < .55:
            ops.append(['add', d, t, rng.choice(freqs or FREQ)])
        elif r < .85:
            ops.append(['rem', d, t if rng.random() < .8 else rng.choice(probe)])
        elif reload and r < .92:
            ops.append(['reload'])
        if obs != 'end' and rng.random() < .5:
            ops.append(['q', rng.sample(probe, min(12, len(probe))), ds + ['?']] if rng.random() < .5 else ['dump'])
    ops += [['q', probe, ds + ['?']], ['dump']]
    if reload:
        ops += [['reload'], ['q', probe, ds + ['?']], ['dump']]
    return {'id': 'i%d' % i, 'kind': 'inv', 'ops': ops}


def inv_far(rng, i, n):
    """Long tokens that go on far below each other; most are removed again."""
    chs = rng.choice(['ab', 'abcdefghij', 'é日😀', CH])
    trunk = ''.join(rng.choice(chs) for _ in range(rng.choice([20, 40, 90, 200])))
    cut = lambda: trunk[:rng.choice([1, 2, 3, 4, 8, 9, 16, 17, 32, 33, 64, len(trunk), rng.randint(1, len(trunk))])]
    ts = list(dict.fromkeys([cut() for _ in range(rng.randint(1, 4))] + [cut() + rng.choice('xé') for _ in range(rng.randint(0, 2))]))
    more = ts + [t + 'z' * k for t in ts for k in (1, 7, 9, 40)] + [trunk, trunk + trunk, trunk + 'a']
    ds = rng.sample(DOCS, rng.randint(1, 3))
    probe = list(dict.fromkeys(ts + [t[:-1] for t in ts] + [t + 'z' for t in ts] + [t[:len(t) // 2] for t in ts] + [trunk, '']))
    ops = []
    for _ in range(n):
        d, t = rng.choice(ds), rng.choice(ts)
        ops.append(['add', d, t, rng.choice(FREQ)] if rng.random() < .4 else ['rem', d, t if rng.random() < .5 else rng.choice(more)])
        if rng.random() < .2:
            ops.append(['q', probe, ds + ['?']])
    return {'id': 'far%d' % i, 'kind': 'inv', 'ops': ops + [['q', probe, ds + ['?']], ['dump']]}


def inv_curated(thorough=False):
    q = lambda ts, ds: ['q', ts, ds]
    out = []
    add, rem = (lambda d, t, f=1: ['add', d, t, f]), (lambda d, t: ['rem', d, t])
    S = lambda i, ops: out.append({'id': i, 'kind': 'inv', 'ops': ops})
    pr = ['', 'a', 'ab', 'abc', 'abcd', 'b', 'ba', 'x']
    S('empty', [q(pr, ['1']), ['dump'], rem('1', ''), rem('1', 'a'), rem('1', 'abc'), ['dump'], q(pr, ['1'])])
    S('emptytoken', [add('1', ''), ['dump'], add('1', 'a'), rem('1', ''), ['dump'], q(pr, ['1'])])
    S('prefixes', [add('1', 'abc', 2), ['dump'], add('1', 'a', 3), ['dump'], add('2', 'ab', 4), ['dump'], rem('1', 'a'), ['dump'], q(pr, ['1', '2']),
                   rem('1', 'ab'), ['dump'], rem('1', 'abcd'), ['dump'], rem('1', 'abc'), ['dump'], q(pr, ['1', '2'])])
    S('twice', [add('1', 'a', 1), add('1', 'a', 2), ['dump'], rem('1', 'a'), ['dump'], rem('1', 'a'), ['dump'], rem('2', 'a'), ['dump'], add('1', 'a', 5), ['dump'], q(pr, ['1', '2'])])
    S('removeother', [add('1', 'ab'), add('2', 'ab'), rem('3', 'ab'), ['dump'], rem('1', 'ab'), ['dump'], rem('1', 'ab'), ['dump'], rem('2', 'ab'), ['dump'], q(pr, ['1', '2', '3'])])
    S('siblings', [x for c in 'zyxcbaé日😀' for x in (add('1', 'a' + c), add('1', c), ['dump'])] + [rem('1', 'ac'), ['dump'], q(['az', 'ac', 'a', 'é', 'aé', 'a😀'], ['1'])])
    S('zero', [add('1', 'a', 0), ['dump'], q(pr, ['1']), rem('1', 'a'), ['dump'], q(pr, ['1'])])
    S('negative', [add('1', 'a', -1.5), add('2', 'a', 1e-3), ['dump'], q(pr, ['1', '2'])])
    many = [add(str(k), 'ab', 1 + k % 5) for k in range(700)]
    S('manydocs', many + [['dump'], q(['ab', 'a'], [str(k) for k in range(0, 705, 5)])] + [rem(str(k), 'ab') for k in range(0, 700, 3)] + [['dump'], q(['ab', 'a'], [str(k) for k in range(0, 705)])])
    S('manychildren', [add('1', 'p' + chr(0x4e00 + k)) for k in range(600)] + [['dump']] + [rem('1', 'p' + chr(0x4e00 + k)) for k in range(0, 600, 2)] + [['dump'], q(['p'] + ['p' + chr(0x4e00 + k) for k in range(0, 605, 7)], ['1'])])
    for n in [70, 255, 256, 257, 300, 600] + ([1000] if thorough else []):
        t = 'a' * n
        S('long%d' % n, [add('1', t, 2), add('2', t[:-1] + 'b', 3), q([t, t[:-1], t + 'a', t[:-2], t[:n // 2], t[:-1] + 'b', 'a'], ['1', '2']), ['dump'],
                         rem('1', t[:-1]), rem('2', t), q([t, t[:-1] + 'b'], ['1', '2']), rem('1', t), ['dump'], q([t, t[:-1], t[:-1] + 'b', ''], ['1', '2'])])
    for n, z in [(1025, 'a'), (1030, 'é')]:
        t, o = z * n, z * (n - 1) + 'x'
        S('verylong%d' % n, [add('1', t, 2), add('2', t, 5), add('2', o, 3), q([t, o, z * (n - 1), t + 'a'], ['1', '2']), rem('2', t), q([t, o], ['1', '2']), add('2', t, 7), rem('1', t), rem('1', o), q([t, o], ['1', '2'])])
    for n in [65534, 65535, 65536, 65537] if thorough else []:
        S('wide%d' % n, [add(str(k), 'a', 1) for k in range(n)] + [q(['a'], ['0', str(n)])])
    return out


def inv_many(reload=False):
    """Tokens listed for very many documents, seen in summary."""
    out = []
    S = lambda i, ops: out.append({'id': i, 'kind': 'inv', 'ops': ops})
    s = ['sum', ['', 'a', 'ab', 'abc', 'b', 'x']]
    re = [['reload'], s] if reload else []
    for n in (127, 129, 255, 256, 300, 33000, 70000):
        S('many%d' % n, [['addmany', 'd', n, 'ab', 1], s] + re + [['add', 'd5', 'ab', 2], ['add', 'e', 'ab', 2], ['addmany', 'f', 3, 'a', 1.5], s] + re
          + [['rem', 'd7', 'ab'], ['rem', 'd7', 'ab'], ['rem', 'zz', 'ab'], ['rem', 'd8', 'a'], s, ['addmany', 'd', 3, 'ab', 5], s] + re)
    return out


def inv_reload_curated():
    out = []
    S = lambda i, ops: out.append({'id': i, 'kind': 'inv', 'ops': ops})
    S('empty', [['reload'], ['dump'], ['add', '1', 'a', 1], ['reload'], ['dump']])
    S('roots', [['add', str(n), 'ab'[n % 2], repr(math.sqrt(n))] for n in list(range(1, 700)) + [65535, 65536, 70001, 2 ** 31, 2 ** 32 + 1]] + [['reload'], ['dump']])
    for n in (60, 110, 115, 119):
        S('deep%d' % n, [['add', '1', 'ab' * (n // 2), 1], ['reload'], ['dump']])
    S('removed', [['add', '1', 'abc', 1], ['rem', '1', 'abc'], ['reload'], ['q', ['a', 'ab', 'abc', 'b'], ['1']], ['dump'], ['add', '1', 'ab', 2], ['dump']])
    S('members', [['add', 'docs', t, 2] for t in ['docs', 'df', 'tf', 'root', 'd', 'do']] + [['add', 'df', 'df', 1], ['reload'], ['dump'], ['rem', 'docs', 'do'], ['reload'], ['dump']])
    S('escapes', [['add', d, t, 1] for d in ['"', '\\', '\n', '\u2028', '😀', '\u0000'] for t in ['"', '\\', '\n', '\u0000x', '😀"', '\u2028\u2029', '\u007f', '/']] + [['reload'], ['dump']])
    S('finding-depth', [['add', '1', 'a' * 130, 1], ['reload'], ['q', ['a' * 130], ['1']]])
    S('finding-float', [['add', '1', 'a', '4.59177202470114e-14'], ['reload']])
    return out


FIELDS = ['title', 'body', '', 'docs', 'id', 'é', 'a b', '"', 'length', 'docInfo', 'doc_info', 'save', ' ', 'Title', 'e\u0301', '\u0000']
TEXTS = ['', 'x', 'some text', 'é\u0301 😀', '"\\\n\t\u0000\u2028', ' lead', 'a' * 300, '<b>&amp;</b>', '\ud7ff\ue000', 'null', 'a\r\nb\rc\n', '\u0000', 'trail ', ' ', '\ufeff', '\ufffd', '\\u0041', '""', '{}', 'true', '0', '\u007f\u0080\u009f', 'b' * 70000]


def store_random(rng, i, n, reload=False, each=True):
    refs = rng.sample(DOCS, rng.randint(1, 5))
    fs = rng.sample(FIELDS, rng.randint(1, 4))
    save = rng.random() < .65
    ops = []
    q = ['q', refs + ['?'], fs + ['??']]
    for _ in range(n):
        r = rng.random()
        if r < .4:
            ops.append(['add', rng.choice(refs), [[f, rng.choice(TEXTS)] for f in rng.sample(fs, rng.randint(0, len(fs)))]])
        elif r < .7:
            ops.append(['len', rng.choice(refs), rng.choice(fs), rng.choice([0, 1, 2, 3, 127, 128, 255, 256, 65535, 65536, 1000000, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 5, 2 ** 53 + 1, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1])])
        elif r < .93 or not reload:
            ops.append(['rem', rng.choice(refs)])
        else:
            ops.append(['reload'])
        if rng.random() < .06:
            ops.append(['copy'])
        if each and rng.random() < .6:
            ops.append(['dump'] if rng.random() < .5 else q)
    ops += [q, ['dump']] + ([['reload'], q, ['dump']] if reload else [])
    return {'id': 's%d' % i, 'kind': 'store', 'save': save, 'hdr': {'save': save}, 'ops': ops}


def store_curated():
    out = []

    def S(i, ops):
        for v in (True, False):
            out.append({'id': '%s-%s' % (i, v), 'kind': 'store', 'save': v, 'hdr': {'save': v}, 'ops': ops})
    q = lambda *rs: ['q', list(rs), ['t', 'u', '?']]
    S('empty', [['dump'], q('1', ''), ['rem', '1'], ['dump'], q('1')])
    S('absent', [['len', '1', 't', 3], ['dump'], q('1'), ['rem', '1'], ['dump'], ['add', '1', [['t', 'x']]], ['dump'], q('1'), ['rem', '2'], ['rem', ''], ['dump']])
    S('readd', [['add', '1', [['t', 'x'], ['u', 'y']]], ['dump'], ['add', '1', [['t', 'z']]], ['dump'], q('1'), ['add', '1', []], ['dump'], ['rem', '1'], ['dump'], ['rem', '1'], ['dump'], ['add', '1', []], ['dump'], q('1')])
    S('lengths', [['add', '1', [['t', 'x']]], ['len', '1', 't', 3], ['len', '1', 't', 4], ['len', '1', 'u', 0], ['dump'], q('1'), ['rem', '1'], ['dump'], ['add', '1', [['t', 'y']]], ['dump'], q('1')])
    S('keeplen', [['add', '1', [['t', 'x']]], ['len', '1', 't', 3], ['add', '1', [['t', 'x']]], ['dump'], q('1'), ['add', '2', [['t', 'x']]], ['len', '2', 't', 5], ['rem', '1'], ['dump'], q('1', '2')])
    S('order', [x for r in ['b', 'a', 'c', '', 'B'] for x in (['add', r, [['t', r]]], ['len', r, 't', len(r)])] + [['dump'], ['rem', 'a'], ['rem', ''], ['dump'], q('a', 'b', '', 'B', 'c')])
    S('many', [['add', str(k), [['t', 'x%d' % k]]] for k in range(400)] + [['dump']] + [['rem', str(k)] for k in range(0, 400, 3)] + [['dump'], q(*[str(k) for k in range(0, 402)])])
    return out


# ------------------------------------------------------------------ pipelines
FNS = ['id', 'drop', 'app:x', 'app:yz', 'pre:a', 'pre:', 'dropif:a', 'dropif:', 'only:a', 'only:ax', 'empty', 'dropempty', 'tail', 'wrap:dropx', 'wrap:app']
PTOKS = ['', 'a', 'ax', 'x', 'é', '😀x', 'a a', 'aa', 'xx']


def pipes(rng, depth, rand):
    out, runs = [], [[], ['a'], [''], ['a', 'x', ''], ['a', 'a'], ['ax', 'x', 'a', 'xx', 'é', '😀x'], ['x', 'a', 'x', 'a']]
    short = ['id', 'drop', 'app:x', 'dropif:a', 'only:ax', 'empty', 'dropempty', 'tail', 'wrap:dropx']
    for k in range(depth + 1):
        for fs in itertools.product(short, repeat=k):
            out.append({'id': 'p' + '/'.join(fs), 'kind': 'pipe', 'fns': list(fs), 'runs': runs})
    for i in range(rand):
        out.append({'id': 'pr%d' % i, 'kind': 'pipe', 'fns': [rng.choice(FNS) for _ in range(rng.randint(0, 7))],
                    'runs': [[rng.choice(PTOKS) for _ in range(rng.choice([0, 1, 3, 8, 30]))] for _ in range(3)]})
    out.append({'id': 'long', 'kind': 'pipe', 'fns': ['app:x', 'dropif:ax', 'id'], 'runs': [['a', 'b', '', 'c'] * 300, ['b'] * 700]})
    out.append({'id': 'deep', 'kind': 'pipe', 'fns': ['app:x'] * 40 + ['tail'] * 40 + ['only:a'], 'runs': [['a', 'b']]})
    # many functions, with empty tokens, tokens dropped late, and the same tokens again
    for k in (9, 17, 33, 65, 129, 257, 300):
        out.append({'id': 'many%d' % k, 'kind': 'pipe', 'fns': ['id'] * (k - 1) + ['dropif:a'], 'runs': [['', 'a', 'b'], ['a'], ['', ''], ['b', 'a']]})
        out.append({'id': 'end%d' % k, 'kind': 'pipe', 'fns': ['dropempty'] + ['id'] * (k - 2) + ['empty'], 'runs': [['', 'a', 'b']]})
        out.append({'id': 'spread%d' % k, 'kind': 'pipe', 'fns': [['id', 'pre:', 'dropif:a', 'only:a', 'tail', 'app:x'][i % 3] for i in range(k)], 'runs': [['', 'b', 'a', 'ab'], ['', 'b', 'a', 'ab']]})
    # many tokens dropped, all of them different or all the same; runs remember nothing of each other
    for k in (9, 33, 129, 255, 256, 257, 300, 520):
        out.append({'id': 'drops%d' % k, 'kind': 'pipe', 'fns': ['dropif:a', 'tail', 'dropempty'], 'runs': [['a'] * k + ['bb'], ['b'] * k + ['bb'], ['bb'] + ['a'] * k + ['bc', 'a']]})
        out.append({'id': 'differ%d' % k, 'kind': 'pipe', 'fns': ['only:k5', 'app:x'], 'runs': [['k%d' % j for j in range(k)], ['k5'] * 3 + ['k%d' % (k - 1), 'k5']]})
        out.append({'id': 'same%d' % k, 'kind': 'pipe', 'fns': ['app:x', 'drop'], 'runs': [['k%d' % j for j in range(k)] + ['k1', 'k2', 'k1']]})
    again = ['x', 'a', 'x', '', 'ax', 'aa', 'a']
    for fs in (['dropif:a', 'app:x'], ['app:x', 'dropif:ax'], ['only:a', 'app:x'], ['tail', 'dropempty', 'dropif:x'], ['wrap:dropx', 'app:z']):
        out.append({'id': 'again-' + '/'.join(fs), 'kind': 'pipe', 'fns': fs, 'runs': [again, again, again[::-1], [], again * 40, ['a'], again]})
    out.append({'id': 'very-many', 'kind': 'pipe', 'fns': ['dropif:a', 'app:x'], 'runs': [['a', 'b', '', 'bc'] * 700, ['b'] * 2500 + ['a'], ['k%d' % j for j in range(2600)], ['a'] * 2600]})
    # very many
    for k in (2 ** 13 + 1, 10007, 20001, 2 ** 16 - 1, 2 ** 16 + 1, 99991, 2 ** 18 + 3, 1000003):
        for j, fs in enumerate(([], ['id'], ['dropif:a', 'app:x'], ['tail', 'dropempty'])):
            if j < 2 or k < 300000:
                out.append({'id': 'tens%d-%d' % (k, j), 'kind': 'pipe', 'fns': fs, 'runs': [{'rle': [['b', k - 1], ['c', 1]]}, {'rle': [['ab', 2], ['a', k // 2], ['', 3], ['bc', k // 3], ['ab', 5], ['', 1]]}]})
    # long tokens
    out.append({'id': 'longtokens', 'kind': 'pipe', 'fns': ['app:x', 'pre:y', 'tail', 'dropempty'], 'runs': [[c * n for c in 'aé日😀' for n in (15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257)], ['a' * 3000, 'b' * 3000]]})
    return out


# ------------------------------------------------------------------ search options
def cfgs(rng, n):
    names = FIELDS + ['bool', 'expand', 'fields', 'boost', '😀', '\u0000', '\\']
    out = [{'id': 'boosts', 'kind': 'cfg', 'ops': [[None, None, [['f', k, None, None]]] for k in range(256)]},
           {'id': 'many', 'kind': 'cfg', 'ops': [['and', True, [['f%d' % k, k % 256, 'or', False] for k in range(300)]]]}]
    for i, bool in enumerate((None, 'or', 'and')):
        out.append({'id': 'product%d' % i, 'kind': 'cfg', 'ops': [[bool, x, [['f%d-%s-%s' % (k, b, e), k if k >= 0 else None, b, e] for k in range(-1, 256) for b in (None, 'or', 'and') for e in (None, True, False)]] for x in (None, True, False)]})
    for i in range(n):
        ops = []
        for _ in range(4):
            fs = rng.sample(names, rng.choice([0, 1, 2, 5, 9]))
            ops.append([rng.choice([None, 'or', 'and']), rng.choice([None, True, False]),
                        [[f, rng.choice([None, None, 0, 1, 10, 255]), rng.choice([None, 'or', 'and']), rng.choice([None, True, False])] for f in fs]])
        out.append({'id': 'c%d' % i, 'kind': 'cfg', 'ops': ops})
    return out


ROOTS = [repr(math.sqrt(n)) for n in (1, 2, 3, 5, 7, 10, 11, 14, 82, 85, 100, 255, 256, 65535, 70001)] + ['0.0', '1e-300', '0.1', '123456789.125']


def store_curated_reload():
    out = []
    for s in store_curated():
        ops = []
        for o in s['ops']:
            ops.append(o)
            if o[0] == 'dump':
                ops.append(['reload'])
        out.append(dict(s, ops=ops + [['reload'], ['dump']]))
    out.append({'id': 'texts', 'kind': 'store', 'save': True, 'hdr': {'save': True},
                'ops': [x for k, t in enumerate(TEXTS) for x in (['add', t[:20], [['t', t], [t[:9], 'v']]], ['len', t[:20], t[:9], k])] + [['dump'], ['reload'], ['dump']]})
    return out
