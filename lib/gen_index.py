"""Scripts for IndexBuilder and Index."""

NAMES = ['title', 'body', 'docs', 'root', 'id', 'tf', 'df', '', 'a', 'é', '字段', 'f g', '"q"', 'index', 'x\\y', 'ref', 'Title', 'body2',
         'docInfo', 'length', 'b\u0000c', '😀', 'toString']
REFS = ['1', '10', '2', '01', '', 'a', 'doc', 'é', '😀', '\n', 'docs', 'df', '1 ', 'A', 'tf', '\u2028', '"', '100', '-', 'e\u0301']
WORDS = ['a', 'ab', 'abc', 'b', 'ba', 'aé', 'é', '日本', '日', '😀', '😀x', 'x', 'xa', '~', '+', 'a+', 'docs', 'df', '"', '\\', 'tf', 'ß', 'e\u0301',
         'A', 'Ab', 'abcd', 'abd', 'bab', '\t', '\n', '\u0001', '\u2028', '/', 'a,b', ',', 'qa', 'éa', '\u007f', '\ufeff', 'aaaa', '𝒳', '0', '-1', '\r', '\r\n', '\u0000', '\ufffd', '&amp;', '<b>', 'a\r\nb', '\u0000a', 'a\u0000']
TKS = [None, None, None, 'comma', 'whole', 'none', 'pre:q', 'pre:x', 'pre:é']


def text(rng, words, most=8):
    k = rng.randint(0, most)
    if k == 0:
        return rng.choice(['', ' ', '  '])
    ws = [rng.choice(words) for _ in range(k)]
    if rng.random() < .5:
        ws += [rng.choice(ws) for _ in range(rng.randint(0, 5))]
        rng.shuffle(ws)
    return ''.join(w + (' ' if rng.random() < .9 else '  ') for w in ws)[:-1 if rng.random() < .8 else None]


def declare(rng, names, tks=True, ref=None):
    """Builder operations for the given fields in this order."""
    ops, i = [], 0
    while i < len(names):
        k = rng.random()
        if k < .35:
            j = min(len(names), i + rng.randint(0, 3))
            ops.append(['fields', names[i:j]])
            i = j
        else:
            ops.append(['field', names[i], rng.choice(TKS) if tks else None])
            i += 1
        if rng.random() < .15:
            ops.append(['save', rng.random() < .5])
        if rng.random() < .15:
            ops.append(['ref', rng.choice(NAMES)])
    if rng.random() < .5:
        ops.insert(rng.randint(0, len(ops)), ['save', rng.random() < .6])
    if ref is not None:
        ops.append(['ref', ref])
    elif rng.random() < .3:
        ops.insert(rng.randint(0, len(ops)), ['ref', rng.choice(NAMES)])
    return ops + [['build']]


def history(rng, n, nf, refs, words, obs='dump', each=True, most=8):
    ops = []
    for _ in range(n):
        k = nf if rng.random() < .7 else rng.randint(0, nf)
        ops.append(['add', rng.choice(refs), [text(rng, words, most) for _ in range(k)]])
        if each or rng.random() < .3:
            ops.append([obs])
    if not each:
        ops.append([obs])
    return ops


def scenario(rng, i, obs='dump', tks=True, docs=6, nf=None, langs=('rw', 'rw', 'tg'), each=True, via=True, words=None, refs=None):
    names = rng.sample(NAMES, nf if nf is not None else rng.choice([0, 1, 1, 2, 2, 3, 4]))
    lang = rng.choice(langs)
    words = words or rng.sample(WORDS, rng.randint(3, 12))
    refs = refs or rng.sample(REFS, rng.randint(1, 5))
    if via and rng.random() < .2:
        ops = [['new', lang, names]]
    else:
        ops = declare(rng, names, tks)
    return {'id': 'r%d' % i, 'kind': 'index', 'lang': lang,
            'ops': ops + ([[obs]] if rng.random() < .5 else []) + history(rng, rng.randint(1, docs), len(names), refs, words, obs, each)}


def randoms(rng, n, **kw):
    return [scenario(rng, i, **kw) for i in range(n)]


def S(i, ops, lang='rw', **kw):
    return dict({'id': i, 'kind': 'index', 'lang': lang, 'ops': ops}, **kw)


def runs(*ps):
    return {'runs': [list(p) for p in ps]}


def big(obs='dump', thorough=False):
    """Counts and sizes beyond the widths of small integers."""
    b = []
    f1 = [['fields', ['body']], ['build']]
    b.append(S('counts', f1 + [['add', '1', [runs(('a', 70000), ('b', 1), ('c', 2), ('d', 255), ('e', 256), ('f', 257), ('g', 3), ('h', 65535), ('i', 65536), ('j', 5))]], [obs],
                               ['add', '2', [runs(('a', 1), ('b', 70000), ('k', 127), ('l', 128), ('m', 129))]], [obs],
                               ['add', '1', [runs(('a', 2), ('z', 32768))]], [obs]]))
    b.append(S('million', f1 + [['add', '1', [runs(('a', 1200000), ('b', 2 ** 20 + 1), ('c', 2 ** 20))]], [obs], ['add', '2', [runs(('b', 2), ('a', 2 ** 21))]], [obs]]))
    b.append(S('roots', f1 + [['add', str(n), [runs(*[('t%d' % k, n * 40 + k) for k in range(1, 41)])]] for n in range(0, 6)] + [[obs]]))
    b.append(S('interleaved', f1 + [['add', '1', [' '.join(['a', 'b', 'ab', 'a', 'b', 'c'] * 7)]], [obs], ['add', '1', [' '.join(['b', 'a'] * 9)]], [obs]]))
    b.append(S('manyfields', [['fields', ['f%d' % i for i in range(300)]], ['build'], ['add', '1', ['w%d x%d' % (i % 7, i) for i in range(300)]], [obs]]))
    b.append(S('manyrefs', f1 + [x for i in range(300) for x in [['add', str(i), ['a b%d' % (i % 13)]]]] + [[obs]] + [['add', str(i), ['a a c']] for i in range(0, 300, 7)] + [[obs]]))
    b.append(S('longtoken', f1 + [['add', '1', ['a' * 300 + ' ' + 'a' * 256 + ' ' + 'a' * 255 + ' ' + 'é' * 130]], [obs], ['add', '2', ['a' * 299 + 'b ' + 'b' * 70]], [obs]]))
    b.append(S('manytokens', f1 + [['add', '1', [runs(*[('k%dq' % i, 1 + i % 4) for i in range(1500)])]], [obs]]))
    b.append(S('manychildren', f1 + [['add', '1', [' '.join(chr(0x4e00 + i) for i in range(700))]], ['add', '2', [' '.join(chr(0x4e00 + i) for i in range(300, 600))]], [obs]]))
    b.append(S('manyequal', f1 + [['addmany', 'd', 1200, ['a a b']], [obs], ['add', 'd7', ['b b']], [obs]]))
    if thorough:
        b.append(S('verylongtoken', f1 + [['add', '1', ['a' * 1100]], ['add', '2', ['a' * 1024 + ' ' + 'b' * 600]], [obs]]))
        b.append(S('manyfields2', [['fields', ['f%d' % i for i in range(1200)]], ['build'], ['add', '1', ['x%d' % i for i in range(1200)]], [obs]]))
        b.append(S('manytokens2', f1 + [['add', '1', [runs(*[('k%dq' % i, 1) for i in range(6000)])]], [obs]]))
    return b


def huge():
    """Observed only in summary."""
    f1 = [['fields', ['body']], ['build']]
    return [S('hugedf', f1 + [['addmany', 'd', 70000, ['a']], ['sum']]),
            S('hugedf2', f1 + [['addmany', 'x', 33000, ['ab a a']], ['addmany', 'y', 300, ['a b']], ['sum'], ['add', 'x5', ['b ab']], ['sum']]),
            S('hugetokens', f1 + [['add', '1', [{'uniq': ['k', 70000]}]], ['extent'], ['add', '2', [{'uniq': ['k', 5000]}]], ['add', '1', ['k3 k3 q']], ['extent']]),
            S('hugetokens2', [['fields', ['title', 'body']], ['build'], ['add', '1', [{'uniq': ['é', 4200]}, {'uniq': ['ab', 33000]}]], ['extent'], ['add', '2', ['a', {'uniq': ['ab', 300]}]], ['extent']], 'tg')]


def side_by_side(rng, i, obs='dump', langs=('rw', 'rw', 'tg', 'm2', 'm5', 'm7')):
    """Several indexes worked on in turn."""
    words = rng.sample(WORDS[:24], 5)
    refs = rng.sample(REFS, 3)
    n = rng.randint(2, 4)
    lg = [rng.choice(langs) for _ in range(n)]
    names = rng.sample(NAMES[:10], 3)
    todo = []
    for k in range(n):
        fs = rng.sample(names, rng.randint(1, 3))
        ops = declare(rng, fs)
        if rng.random() < .15:
            ops = [['new', lg[k], fs]]
        for _ in range(rng.randint(1, 4)):
            ops += [['add', rng.choice(refs), [text(rng, words, 5) for _ in fs]], [obs]]
        todo.append(ops + [[obs]])
    out, at = [], 0
    while any(todo):
        k = rng.choice([k for k in range(n) if todo[k]])
        if k != at:
            out.append(['use', k, lg[k]])
            at = k
        for _ in range(min(len(todo[k]), rng.randint(1, 3))):
            out.append(todo[k].pop(0))
    return S('sb%d' % i, out, lg[0])


FAMILIES = [('tg', 't2', 't3'), ('t2', 'tg'), ('t3', 't2', 'tg'), ('m1', 't4'), ('t4', 'm1'), ('rw', 'tg'), ('t4', 't2'), ('m5', 'm7', 't4'), ('m4', 't4', 'm1')]


def broken(rng, i, obs='dump', langs=('rw', 'tg', 'en', 'm4', 't5')):
    """One of several indexes ends in a panic, the others go on."""
    names = rng.sample(NAMES[:10], 2)
    lg = [rng.choice(langs) for _ in range(3)]
    words = ['x', 'a', 'ab', 'b', '~', 'running', 'the']
    tx = lambda: ' '.join(rng.choice(words) for _ in range(rng.randint(0, 4)))
    decls = [declare(rng, names, False) for _ in lg]
    out, at, gone = [], 0, set()
    bad = rng.sample(range(3), rng.randint(1, 2))
    how = {k: rng.choice(['many', 'boom', 'twice', 'boom2']) for k in bad}
    for k in bad:
        if how[k] == 'boom':
            decls[k] = [['field', 'f', rng.choice(['boom', 'inner'])], ['field', 'g', 'boom'], ['build']]
        elif how[k] == 'boom2':
            decls[k] = [['field', 'f', None], ['field', 'g', 'boom'], ['build']]
    for k in range(3):
        out += ([['use', k, lg[k]]] if k else []) + decls[k]
    at = 2
    for n in range(rng.randint(3, 7)):
        k = rng.choice([k for k in range(3) if k not in gone])
        if k != at:
            out.append(['use', k, lg[k]])
            at = k
        r = rng.choice(REFS[:4])
        if k in bad and n and rng.random() < .7:
            if how[k] == 'twice':
                # a new builder in its place
                out += [['begin', lg[k]], ['fields', ['f', 'g', 'f']]] if rng.random() < .5 else [['begin', lg[k]], ['field', 'f', None], ['field', 'f', None]]
            elif how[k] == 'many':
                out.append(['add', r, [tx() for _ in range(3)]])
            else:
                out.append(['add', r, [tx(), tx()]])
            gone.add(k)
            if len(gone) == 3:
                break
            k = rng.choice([k for k in range(3) if k not in gone])
            out.append(['use', k, lg[k]])
            at = k
        vs = [tx() for _ in names]
        if k in bad and how[k] in ('boom', 'boom2'):
            vs = vs[:0 if how[k] == 'boom' else 1]
        out += [['add', r, vs], [obs]]
    return S('broken%d' % i, out, lg[0])


def nested(rng, i, obs='dump'):
    """Other indexes are used by the tokenizer, by a stage of the pipeline."""
    names = rng.sample(NAMES[:10], rng.randint(1, 3))
    lg = rng.choice(['t5', 't5', 'rw', 'tg', 'en'])
    ops = [['field', n, rng.choice(['inner', None, 'inner', 'comma'])] for n in names] + [['build']]
    if rng.random() < .3:
        ops.insert(0, ['save', False])
    return S('nested%d' % i, ops + history(rng, rng.randint(1, 4), len(names), REFS[:3], ['a', 'ab', 'xa', 'x', '~', 'b', 'é', 'running'], obs, True, 4), lg)


def alike_in_turn(rng, i, obs='dump', families=FAMILIES):
    """Indexes alike in nearly everything, given the same in turn."""
    lg = rng.choice(families)
    names = rng.sample(NAMES[:10], rng.randint(1, 3))
    ws = ['x', 'y', 'xa', 'ya', 'a', '~', 'b,a', ',', 'y,x', 'x,y', 'ab', 'q', 'a']
    same, own = rng.random() < .6, rng.random() < .4
    decls = [declare(rng, names, own) for _ in lg]
    if same:
        decls = [decls[0]] * len(lg)
    out = []
    for k, d in enumerate(decls):
        out += ([['use', k, lg[k]]] if k else []) + d
    at = len(lg) - 1
    for _ in range(rng.randint(1, 4)):
        r, vs = rng.choice(REFS[:6]), [' '.join(rng.choice(ws) for _ in range(rng.randint(1, 4))) for _ in names]
        for k in rng.sample(range(len(lg)), len(lg)):
            if k != at:
                out.append(['use', k, lg[k]])
                at = k
            out += [['add', r, vs], [obs]]
    return S('alike%d' % i, out, lg[0])


def curated(obs='dump'):
    """Situations worth naming."""
    two = [['fields', ['title', 'body']], ['build']]
    one = [['field', 'body', None], ['build']]
    A = lambda r, *v: ['add', r, list(v)]
    D = [obs]
    out = [
        S('empty', two + [D]),
        S('nofields', [['build'], D, A('1'), D]),
        S('readd-less', one + [A('1', 'a a b'), D, A('1', 'a'), D, A('1', ''), D, A('1', 'b b b b'), D]),
        S('readd-same', one + [A('1', 'a b'), D, A('1', 'a b'), D, A('2', 'a b'), D, A('1', 'a b'), D]),
        S('prefixes', one + [A('1', 'a ab abc abcd'), D, A('2', 'abcd abc'), D, A('3', 'ab'), D, A('1', 'abcde'), D]),
        S('refs', one + [x for r in ['', '1', '10', '100', 'docs', 'df', 'tf', 'é', '😀', '"', '\n', 'a b'] for x in (A(r, 'a'), D)]),
        S('fewer', two + [A('1', 'a'), D, A('1'), D, A('1', 'b', 'c'), D, A('1', 'd'), D, A('2'), D, A('2', '', 'z'), D]),
        S('leak', two + [A('1', 'a a a', 'a'), D, A('2', 'a', 'a a a'), D, A('3', '', 'a'), D, A('4', 'a', ''), D, A('5', 'a b', 'c d'), D]),
        S('emptytokens', two + [A('1', '', ' '), D, A('2', '   ', 'a   b '), D, A('3', ' a', 'a '), D]),
        S('escapes', one + [A('"\\\n\t\r\u0008\u000c\u0001\u001f\u007f\u2028\u2029/', '" \\ \n \t \r \u0008 \u000c \u0001 \u001f \u007f \u2028 \u2029 / \ufffe \ufeff \ud7ff 😀')] + [D]),
        S('tagging', two + [A('1', 'xa b xx', 'x'), D, A('2', '~ a ~', '~'), D, A('1', 'b b', '~ ~'), D], lang='tg'),
        S('manyadds', one + [x for i in range(40) for x in [A(str(i % 9), ' '.join(['a', 'b', 'ab', 'c'][j % 4] for j in range(i % 7)))]] + [D]),
        S('nosave', [['save', False]] + two + [A('1', 'a b', 'c'), D, A('2', 'a'), D, A('1', 'z', 'z z'), D]),
        S('savetwice', [['save', False], ['save', True]] + two + [A('1', 'a b', 'c'), D]),
        S('same-length', two + [A('1', 'a b a', 'x y z'), D, A('1', 'b b a', 'x y w'), D, A('1', 'a a b', 'z y x'), D] + [x for t in ('abc ', 'bca ', 'cab ', 'acb ') for x in (A('2', t * 20, t * 300), D)]
          + [x for t in ('x', 'y', 'z') for x in (A('3', 'a ' * 700 + t, t + ' a' * 40), D)]),
        S('newlines', two + [A('1', 'a\r\nb', '\r\n'), D, A('2', 'a\rb\n', '\u0000'), D, A('\r\n', '\u0000a b\u0000', 'a\tb'), D]),
        S('long-alike', two + [x for n in (60, 300) for c in 'abc' for x in (A('r' * n + c, 'a ' + c, 'w' * n + c), A(c + 'r' * n, c, c + 'w' * n), D)]),
        S('refs-in-order', one + [A(r, 'x') for r in ['b', 'a', 'c', 'B', 'A']] + [D]),
        S('case', one + [A('1', 'A a Ab aB AB ab'), D]),
        S('normal', one + [A('1', 'é e\u0301 ﬁ fi ² 2'), D]),
    ]
    for ref in ['title', 'body', 'id', '']:
        for pos in range(3):
            names = ['p', 'q']
            names.insert(pos, ref)
            out.append(S('reffield-%s-%d' % (ref, pos), [['fields', names], ['ref', ref], ['build'],
                                                         A('1', 'a b', 'a c', 'b b'), D, A('2', 'x', 'y'), D, A('1', 'n', 'm', 'o'), D, A('3', '', '', ''), D]))
    return out


def declarations():
    """Declaration sequences worth naming."""
    out = []
    A = ['add', '1', ['v1', 'v2', 'v3', 'v4']]
    k = 0
    for ops in [
        [['fields', []], ['fields', ['a', 'b']], ['field', 'c', None], ['fields', []], ['field', 'd', 'comma']],
        [['field', 'd', None], ['fields', ['c', 'b']], ['field', 'a', None]],
        [['field', 'b', 'whole'], ['field', 'B', None], ['field', 'b ', None], ['field', '', None]],
        [['fields', ['z', 'y', 'x', 'w']]],
        [['fields', ['a', 'aa', 'aaa', 'é']]],
        [['fields', ['e\u0301', 'é', 'E', 'e']]],
        [['save', False], ['fields', ['a', 'b', 'c', 'd']], ['save', True], ['ref', 'q'], ['ref', 'c']],
        [['ref', 'q'], ['fields', ['a', 'b', 'c', 'd']], ['ref', 'id'], ['save', True], ['save', False]],
        [['fields', ['a', 'b', 'c', 'd']], ['ref', ''], ['save', False], ['save', False]],
        [['fields', ['id', 'ref', 'docs', 'index']], ['ref', 'zz']],
    ]:
        k += 1
        out.append(S('decl%d' % k, ops + [['build'], ['dump'], A, ['dump'], ['add', '2', ['w1', 'w2']], ['dump']]))
    for fs in [[], ['a'], ['b', 'a'], ['a', 'b', 'a'], ['', ''], ['é', 'e\u0301'], ['a', 'A'], list('qwertyuiopasdfghjklzxcvbnm')]:
        k += 1
        out.append(S('new%d' % k, [['new', 'rw', fs], ['dump'], ['add', '1', ['w%d' % i for i in range(len(set(fs)))]], ['dump']]))
    # the same name twice, by every combination of methods
    ways = [lambda n: ['field', n, None], lambda n: ['field', n, 'comma'], lambda n: ['fields', [n]], lambda n: ['fields', ['p' + n, n]], lambda n: ['fields', [n, 'q' + n]]]
    for n in ['a', '', 'id', 'é']:
        for i, x in enumerate(ways):
            for j, y in enumerate(ways):
                b = y(n)
                if b[0] == 'fields':
                    b = ['fields', [z + ('' if z == n else '2') for z in b[1]]]
                for mid in ([], [['field', 'other', None], ['ref', 'zz'], ['save', False]]):
                    k += 1
                    out.append(S('twice%d' % k, [x(n)] + mid + [b, ['build'], ['dump']]))
        k += 1
        out.append(S('twice%d' % k, [['fields', [n, 'x', n]], ['build'], ['dump']]))
        out.append(S('twicef%d' % k, [['field', 'x', None], ['fields', ['y', n]], ['fields', ['z', 'x']], ['build'], ['dump']]))
    # with many others in between
    for gap in (7, 15, 16, 31, 33, 40, 63, 64, 70, 130, 257, 300):
        others = ['o%d' % i for i in range(gap)]
        for i, (x, y) in enumerate([(ways[0], ways[2]), (ways[2], ways[0]), (ways[1], ways[1]), (ways[3], ways[4])]):
            for pre in ([], [['fields', ['before%d' % i for i in range(5)]]]):
                k += 1
                b = y('dup')
                if b[0] == 'fields':
                    b = ['fields', [z + ('' if z == 'dup' else '2') for z in b[1]]]
                out.append(S('far%d' % k, pre + [x('dup'), ['fields', others], b, ['build'], ['dump']]))
        k += 1
        out.append(S('far%d' % k, [['fields', ['dup'] + others + ['dup']], ['build'], ['dump']]))
        out.append(S('farn%d' % k, [['new', 'rw', ['dup'] + others + ['dup']], ['dump']]))
        out.append(S('farl%d' % k, [['fields', others], ['field', 'dup', None], ['field', 'dup', 'comma'], ['build'], ['dump']]))
        out.append(S('farx%d' % k, [['fields', others], ['field', others[gap // 2], None], ['build'], ['dump']]))
    for n in range(0, 4):
        out.append(S('toolong%d' % n, [['fields', ['f%d' % i for i in range(n)]], ['build'], ['add', '1', ['a'] * n], ['dump'], ['add', '2', ['a'] * (n + 1)]]))
    return out


def panics(rng, n):
    """Random declarations with repeated names."""
    out = []
    for i in range(n):
        names = rng.sample(NAMES, 4)
        seq = [rng.choice(names) for _ in range(rng.randint(1, 6))] if rng.random() < .6 else rng.sample(NAMES, rng.randint(1, 8))
        out.append(S('dup%d' % i, declare(rng, seq) + [['dump']]))
    return out


def twins(rng, i):
    """The same documents among different neighbours: several indexes in one history, in which fields share words."""
    names = rng.sample(NAMES[:12], rng.choice([1, 2, 2, 3]))
    lang = rng.choice(['rw', 'rw', 'tg'])
    words = rng.sample(WORDS, rng.randint(2, 6))
    refs = rng.sample(REFS, rng.randint(2, 5))
    decl = declare(rng, names)
    docs = {r: [text(rng, words) for _ in names] for r in refs}
    ops = []
    for rnd in range(3):
        some = list(refs) if rnd else refs[:1]
        rng.shuffle(some)
        ops += ([['begin', lang]] if rnd else []) + decl
        for r in some:
            v = list(docs[r])
            # the text of one field stays while the others change
            if rnd and rng.random() < .5:
                k = rng.randrange(len(v))
                v = [x if j == k else text(rng, words) for j, x in enumerate(v)]
            ops += [['add', r, v], ['dump']]
    return S('tw%d' % i, ops, lang)


def twins_scaled(rng, m):
    """A few documents alone, and after or before many others."""
    out = []
    for i, n in enumerate([20, 70, 140, 300] * m):
        names = ['title', 'body']
        lang = rng.choice(['rw', 'tg'])
        words = rng.sample(WORDS[:20], 5)
        lab = rng.choice(['k', 'k' * 40, 'é' * 260])
        few = [(lab + '%d' % k, [text(rng, words) for _ in names]) for k in range(4)]
        rest = [('n%d' % k, [text(rng, words, 3) for _ in names]) for k in range(n)]
        ops = []
        for k in range(3):
            ops += ([['begin', lang]] if k else []) + [['fields', names], ['build']]
            rng.shuffle(few)
            ops += [['add', r, v] for r, v in ([], rest)[k == 1]] + [['add', r, v] for r, v in few] + [['add', r, v] for r, v in ([], rest)[k == 2]] + [['dump']]
        out.append(S('tws%d-%d' % (n, i), ops, lang))
    # many fields
    for i in range(4 * m):
        names = ['f%02d' % k for k in range(40)]
        few = [text(rng, WORDS[:20], 3) for _ in names]
        ops = []
        for k in range(3):
            other = [v if rng.random() < .5 else text(rng, WORDS[:20], 3) for v in few]
            ops += ([['begin', 'rw']] if k else []) + [['fields', names], ['build'], ['add', '1', other if k else few], ['dump']]
        out.append(S('twf%d' % i, ops))
    return out


def save_twins(rng, i):
    """One history twice, with saving on and off."""
    names = rng.sample(NAMES, rng.choice([0, 1, 2, 3]))
    lang = rng.choice(['rw', 'tg'])
    words = rng.sample(WORDS, rng.randint(2, 8))
    refs = rng.sample(REFS, rng.randint(1, 4))
    ref = rng.choice([[], [['ref', rng.choice(NAMES)]], [['ref', rng.choice(names or ['q'])]]])
    h = history(rng, rng.randint(1, 6), len(names), refs, words)
    ops = []
    order = [True, False]
    rng.shuffle(order)
    for k, v in enumerate(order):
        ops += ([['begin', lang]] if k else []) + rng.choice([[], [['save', not v]]]) + [['fields', names]] + ref + [['save', v], ['build']] + h
    return [S('sv%d' % i, ops, lang)]


def same_texts(rng, n, obs='ser'):
    """Documents with the same texts, the reference field supplied or not, in different orders."""
    out = []
    for i in range(n):
        names = rng.sample(['f', 'g', 'id', 'title'], rng.choice([1, 2, 2, 3]))
        ref = rng.choice(names + [None, None]) if 'id' not in names else rng.choice(['id', None] + names)
        lang = rng.choice(['rw', 'tg'])
        pool = [[rng.choice(['', 'same', 'a', 'b a', 'x']) for _ in names] for _ in range(rng.choice([1, 1, 2, 3]))]
        refs = rng.sample(REFS, min(len(REFS), rng.choice([2, 3, 4, 6, 9])))
        docs = [(r, rng.choice(pool)) for r in refs]
        if rng.random() < .3:
            docs = [(r, v[:rng.choice([len(v), len(v) - 1])]) for r, v in docs]
        decl = [['fields', names]] + ([['ref', ref]] if ref is not None else []) + [['build']]
        ops = []
        for k in range(4):
            rng.shuffle(docs)
            ops += ([['begin', lang]] if k else []) + decl
            for j, (r, v) in enumerate(docs):
                ops.append(['add', r, v])
                if rng.random() < .2:
                    # by way of another one's text
                    ops[-1:] = [['add', r, rng.choice(pool)], [obs], ['add', r, v]]
            ops += [[obs]]
            r, v = rng.choice(docs)
            ops += [['add', r, v], [obs]]
        out.append(S('twins%d' % i, ops, lang))
    return out


def orders(rng, n):
    """The same documents in different orders, with repetitions and detours."""
    out = []
    for i in range(n):
        names = rng.sample(NAMES, rng.choice([1, 2, 3]))
        lang = rng.choice(['rw', 'tg'])
        words = rng.sample(WORDS, rng.randint(2, 9))
        refs = rng.sample(REFS, rng.randint(1, 6))
        decl = declare(rng, names)
        docs = [(r, [text(rng, words) for _ in names[:rng.choice([len(names), len(names), rng.randint(0, len(names))])]]) for r in refs]
        ops = []
        for k in range(4):
            rng.shuffle(docs)
            ops += ([['begin', lang]] if k else []) + decl
            for r, v in docs:
                ops.append(['add', r, v])
                if rng.random() < .3:
                    ops.append(rng.choice([['ser'], ['add', r, v]]))
            ops += [['ser'], ['ser']]
            r, v = rng.choice(docs)
            ops += [['add', r, v], ['ser']]
        out.append(S('or%d' % i, ops, lang))
    # two fields or documents that hash collections would order differently
    for i in range(4):
        docs = [('d%d' % k, ['w%d x%d y' % (k % 7, k), 'z%d' % k]) for k in range(60)]
        ops = []
        for k in range(3):
            rng.shuffle(docs)
            ops += ([['begin', 'rw']] if k else []) + [['fields', ['title', 'body']], ['build']] + [['add', r, v] for r, v in docs] + [['ser']]
        out.append(S('ord%d' % i, ops))
    # beyond small sizes, with texts that change at the end
    for i, n in enumerate((20, 40, 70, 140, 300)):
        docs = [('d%d' % k, ['w%d x%d y' % (k % 7, k), 'z%d' % (k % 50)]) for k in range(n)]
        again = rng.sample(docs, 6)
        news = [(r, ['new %d' % rng.randrange(9), 'a']) for r, _ in again[:4]] + [(r, ['old']) for r, _ in again[4:]]
        ops = []
        for k in range(3):
            rng.shuffle(docs)
            rng.shuffle(news)
            old = dict(docs)
            ops += ([['begin', 'rw']] if k else []) + [['fields', ['title', 'body']]] + ([['ref', 'body']] if i % 2 else []) + [['build']]
            # the change comes last, or at once, or early
            if k == 1:
                ops += [['add', r, old[r]] for r, _ in news] + [['add', r, v] for r, v in news]
                ops += [['add', r, v] for r, v in docs if r not in {x for x, _ in news}] + [['ser']]
            else:
                ops += [['add', r, v] for r, v in docs] + [['ser']] + [['add', r, v] for r, v in news] + [['ser']]
            ops += [['add', r, v] for r, v in rng.sample(news, 2)] + [['ser']]
        out.append(S('ors%d' % n, ops))
    return out


def tokenizers(rng, n):
    out = []
    for i in range(n):
        names = rng.sample(NAMES, rng.randint(1, 5))
        lang = rng.choice(['rw', 'tg'])
        ops = []
        for f in names:
            ops.append(rng.choice([['field', f, None], ['fields', [f]], ['field', f, 'comma'], ['field', f, 'whole'], ['field', f, 'none'], ['field', f, 'pre:q'], ['field', f, 'pre:x'], ['field', f, 'pre:é']]))
        if rng.random() < .3:
            ops.insert(rng.randint(0, len(ops)), ['fields', []])
        if rng.random() < .3:
            ops.append(['ref', rng.choice(names)])
        words = rng.sample(WORDS, 5) + ['a,b', ',a', 'x,~', '~,a,a', 'b,']
        t = text(rng, words)
        ops += [['build']]
        for r in ['1', '2']:
            v = [t if rng.random() < .6 else text(rng, words) for _ in names[:rng.choice([len(names), rng.randint(0, len(names))])]]
            ops += [['add', r, v], ['dump']]
        out.append(S('tk%d' % i, ops, lang))
    return out


def refs_and_blanks(rng, n):
    out = []
    blank = ['', ' ', '  ', '~', 'x', 'a', '~ ~', ' a', 'b  b']
    for i in range(n):
        names = rng.sample(NAMES, rng.randint(1, 4))
        ref = rng.choice(names) if rng.random() < .7 else rng.choice(NAMES)
        lang = rng.choice(['rw', 'tg'])
        ops = declare(rng, names, ref=ref)
        for _ in range(rng.randint(1, 4)):
            k = rng.choice([len(names), len(names), rng.randint(0, len(names))])
            ops += [['add', rng.choice(REFS[:6]), [rng.choice(blank) if rng.random() < .6 else text(rng, WORDS[:12]) for _ in range(k)]], ['dump']]
        out.append(S('rb%d' % i, ops, lang))
    return out


def near_ref(rng, n):
    """Fields whose names are almost that of the reference field."""
    out = []
    for i in range(n):
        ref = rng.choice(['id', 'é', 'Ref', 'a b', '', 'docs', 'ß', '\u00e5', 'İd', 'key_1'])
        near = [ref.upper(), ref.lower(), ref.capitalize(), ref + ' ', ' ' + ref, ref + 's', ref[:-1], ref[1:], ref * 2, ref + '\u0000', '_' + ref, ref + '_',
                ref.replace('_', '-'), 'e\u0301', 'SS', 'ss', 'a\u030a', '\u212b', ref.swapcase(), ref[::-1], ref + '.' + ref, '#' + ref, '"' + ref + '"', '']
        names = [x for x in dict.fromkeys(near) if x != ref]
        names = rng.sample(names, rng.randint(1, 4))
        if rng.random() < .6:
            names.insert(rng.randint(0, len(names)), ref)
        ops = declare(rng, names, ref=ref)
        for r in rng.sample(REFS[:6] + [ref], 2):
            ops += [['add', r, [text(rng, WORDS[:12] + [ref.lower(), 'id']) for _ in names[:rng.choice([len(names), len(names), rng.randint(0, len(names))])]]], ['dump']]
        out.append(S('nr%d' % i, ops, rng.choice(['rw', 'tg'])))
    return out


def mimics(rng, n, obs='dump', langs=('m1', 'm2', 'm3', 'm4', 'm5', 'm6', 'm7', 'm8', 'm9')):
    """Languages of a user that look like others."""
    return [dict(x, id='mi' + x['id']) for x in randoms(rng, n, obs=obs, langs=langs)] + [
        S('mimic-%s' % m, [['fields', ['a', 'b']], ['field', 'c', 'comma'], ['build'], [obs], ['add', '1', ['running the Runs. xa ~', 'die und Häuser der', 'the,a,running']], [obs],
                           ['new', m, ['f']], ['add', '1', ['the Running x']], [obs]] + [o for k, t in enumerate(['', 'a', 'xa', '~', 'ab', 'abc', 'é', 'x', 'a b', 'ab cd', 'a a a', ' ', 'a ', '日', 'abcdefghi', 'The'] * 2) for o in
                           (([['new', m, ['f']]] if k < 16 else [['new', m, ['f', 'g']]]) + [['add', '1', [t]], [obs]] + ([['add', '1', [t]], [obs]] if k % 4 == 1 else []))], m) for m in langs]


def long_texts(langs, sample):
    """Texts with very many tokens in languages that come with the library."""
    out = []
    for x in langs:
        w, v = sample(x)
        out.append(S('long-' + x, [['fields', ['f', 'g']], ['build'], ['add', '1', [runs((w, 70000), (v, 1), ('zq', 3)), v]], ['dump'], ['add', '2', [runs((v, 257), (w, 256)), runs((w, 300))]], ['dump']], x))
    return out


def deep_reload():
    one = [['fields', ['body']], ['build']]
    return [S('depth%d' % n, one + [['add', '1', ['ab' * (n // 2)]], ['reload']]) for n in (50, 100, 116, 130)]


def in_lang(s, lang):
    """The same script in another language."""
    return dict(s, id=lang + s['id'], lang=lang, ops=[[o[0], lang] + o[2:] if o[0] in ('begin', 'new') else o for o in s['ops']])


# ------------------------------------------------------------------ beyond small sizes
def many_fields(rng, i, nf, obs='dump', lang='rw', tks=True):
    """Fields far behind the first few, each with its own way to be declared."""
    names = ['f%02d' % k for k in range(nf)]
    names[rng.randrange(nf)] = 'é'
    if rng.random() < .5:
        rng.shuffle(names)
    late = names[rng.randrange(nf // 2, nf)]
    ref = rng.choice([None, late, names[-1], names[0], 'zz'])
    words = rng.sample(WORDS, 8) + ['a,b', 'x,~', 'c,c']
    ops = declare(rng, names, tks, ref)
    for r in ['1', '2', '1', '3'][:rng.randint(2, 4)]:
        k = rng.choice([nf, nf, nf - 1, nf // 2 + 1])
        ops += [['add', r, [text(rng, words, 3) for _ in range(k)]]]
        if rng.random() < .5:
            ops.append([obs])
    return S('mf%d-%d' % (nf, i), ops + [[obs]], lang)


def many_docs(rng, i, n, obs='dump', lang='rw', tks=False):
    """Documents added again, with other texts and fewer fields, when there are many."""
    words = rng.sample(WORDS[:18], 5)
    names = rng.sample(NAMES[:8], 2)
    ops = declare(rng, names, tks, rng.choice([None, None, None, names[1]]))
    refs = ['%s%d' % (rng.choice(['', 'd', 'é']), k) for k in range(n)]
    rng.shuffle(refs)
    for k, r in enumerate(refs):
        ops.append(['add', r, [text(rng, words, 3) for _ in range(rng.choice([2, 2, 2, 1, 0]))]])
        if rng.random() < .06 and k > 2:
            ops.append(['add', rng.choice(refs[:k]), [text(rng, words, 3) for _ in range(rng.choice([2, 1, 1, 0]))]])
    ops.append([obs])
    for _ in range(2):
        for r in rng.sample(refs, min(n, 6)) + [refs[0], refs[-1]]:
            ops.append(['add', r, [text(rng, words + ['new'], 3) for _ in range(rng.choice([2, 1, 1, 0]))]])
        ops.append([obs])
    return S('md%d-%d' % (n, i), ops, lang)


def long_things(rng, i, obs='dump', lang='rw'):
    """Long references, names and texts."""
    n = rng.choice([127, 128, 255, 256, 257, 300, 1000, 4096, 5000])
    ch = rng.choice(['a', 'é', '日', '😀'])
    r = ch * n
    f = rng.choice([ch * n, 'f' * 300, 'body'])
    ops = [['fields', ['x', f]]] + rng.choice([[], [['ref', 'r' * 300]], [['ref', f]]]) + [['build']]
    w = ' '.join(rng.choice(['a', 'b', 'ab', ch]) for _ in range(rng.choice([200, 256, 300, 1000, 1025])))
    ops += [['add', r, ['a', w]], [obs], ['add', r[:-1], ['a b']], ['add', r, [w]], ['add', r + 'x', [w, '']], [obs]]
    return S('lt%d' % i, ops, lang)


def same_again(rng, i, n, obs='dump', lang='rw'):
    """One document again and again."""
    words = rng.sample(WORDS, 4)
    ops = [['fields', ['f', 'g']]] + rng.choice([[], [['save', False]]]) + [['build']]
    for k in range(n):
        ops.append(['add', rng.choice(['1', '1', '1', '2']), [text(rng, words, 4) for _ in range(rng.choice([2, 2, 1]))]])
        if k in (n // 2, n - 1):
            ops.append([obs])
    return S('sa%d-%d' % (n, i), ops, lang)


def scaled(rng, obs='dump', thorough=False, langs=('rw', 'rw', 'tg'), tks=True):
    out = []
    for k in range(8 if thorough else 1):
        for i, nf in enumerate((5, 9, 10, 17, 33, 40, 65, 70)):
            out.append(many_fields(rng, k * 100 + i, nf, obs, rng.choice(langs), tks))
        for i, n in enumerate((17, 33, 65, 66, 70, 101, 129, 150, 257, 300)):
            out.append(many_docs(rng, k * 100 + i, n, obs, rng.choice(langs), tks))
        for i in range(6):
            out.append(long_things(rng, k * 100 + i, obs, rng.choice(langs)))
        for i, n in enumerate((20, 70, 130, 270)):
            out.append(same_again(rng, k * 100 + i, n, obs, rng.choice(langs)))
    return out


def all_different(rng, n):
    """Indexes that have nothing in common."""
    out = []
    for i in range(n):
        w = lambda: ''.join(rng.choice('abcdeghijk') for _ in range(4)) + '%d' % i
        x = rng.choice(['rw', 'tg', 'rw', 'm5', 'en'])
        a, b, r, s, t = w(), w(), w(), w(), w()
        out.append(S('d%d' % i, [['save', i % 2 == 0], ['fields', [a, b] if i % 3 else [a]], ['ref', w()], ['build'], ['add', r, [t + ' ' + s + ' ' + t] + ([s] if i % 3 else [])], ['dump']], x))
    return out
