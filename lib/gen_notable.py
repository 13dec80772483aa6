"""Strings that mean something elsewhere, strings that are almost the same, and one word again and again."""
import functools
import unicodedata

from gen_index import S, runs
from gen_lang import KINDS, SPACES, settled, settled_only

NOTABLE = ['<!--', '-->', '<!-- a -->', '<script>', '</script>', '<script>alert(1)</script>', '<b>', '</b>', '<br/>', '&amp;', '&lt;', '&gt;', '&quot;', '&#39;', '&#x27;', '&nbsp;', '<![CDATA[', ']]>', '<?php', '?>',
           '%20', '%00', '%2F', '%', '%s', '%d', '%n', '%5', '{}', '{0}', '{{x}}', '{%x%}', '${x}', '$x', '$1', '$0', '$', '\\', '\\\\', '\\n', '\\u0000', '\\u{1}', '\\x41', '\\"', "\\'", '\\/', '/', '//', '/*', '*/', '--', ';', "';--", '" or ""="', "' or 1=1",
           '__proto__', 'constructor', 'prototype', 'hasOwnProperty', 'toString', 'valueOf', 'length', 'null', 'undefined', 'NaN', 'Infinity', '-Infinity', 'true', 'false', 'None', 'nil', '0', '-0', '+0', '00', '0.0', '1e3', '1E400', '0x10', '1_000', '1,000', '.5', '5.', '-1', '٣',
           'docs', 'df', 'tf', 'root', 'docInfo', 'save', 'index', 'fields', 'pipeline', 'ref', 'version', 'lang', 'documentStore', 'id', 'bool', 'boost', 'expand', 'and', 'or', 'not', 'AND', 'OR', 'NOT',
           '../', '..', '.', './a', '../../etc/passwd', 'C:\\x', '~', '~user', '/', 'a/', 'a/b', '/a', 'a//b', 'a/./b', 'a/index.html', 'index.html', 'http://a', 'https://a', 'https://a/', 'http://a?b=c&d=e#f', '#', '#a', 'a#', '?', '?a', 'a?', '@', 'a@b.c', 'mailto:a', 'a:b', ':', '::', 'a::b',
           '*', 'a*', '**', '?*', '[', ']', '[]', '[a]', '[[', '(', ')', '()', '(a', '{', '}', '"', '""', "'", "''", '`', '``', '|', '||', '&', '&&', '!', '!=', '=', '==', '=>', '->', '<', '>', '<=', '<<', '>>', '^', '^a', 'a^2', '~1', 'a~', '_', '__', '___', '+', '++', '-', '---', ',', ',,', '...', '…',
           'a,b', 'a;b', 'a|b', 'a&b', 'a=b', 'a+b', 'a.b', 'a_b', "a'b", "a's", 'a"b', 'C++', 'c#', '.net', 'R&D', 'AT&T', 'e.g.', 'U.S.A.', "rock'n'roll", "o'neil", 'x86', '3d', '1st', '2.0', 'v1.2.3', '192.168.0.1', '::1', '2020-01-01', '12:30', '$5', '5%', '#1', '@me',
           '\ufeff', '\ufeffa', 'a\ufeff', '\u200b', 'a\u200bb', '\u200d', '\u00ad', 'a\u00adb', '\u0000', 'a\u0000', '\u0000a', '\u0001', '\u001b[0m', '\u007f', '\u0080', '\u0085', '\u2028', '\u2029', '\r', '\r\n', '\n\r', '\t', '\v', '\f', '\u00a0', 'a\u00a0b', '\u3000', '\u202e', 'a\u202eb', '\ufffd', '\uffff', '\U0010ffff', '\ue000',
           'é', 'e\u0301', '\u0301', 'Å', '\u212b', 'ß', 'ẞ', 'SS', 'ﬁ', 'İ', 'ı', 'K', '\u212a', 'ſ', 'Σ', 'ς', 'σ', '가', '\u1100\u1161', 'が', 'か\u3099', '￥', 'Ａ', '１', '①', '²', '½', 'Ⅷ', '👍🏽', '👨‍👩‍👧', '🇩🇪', '😀', '𝒳', '🏴\U000e0067', 'a' + '\u0301' * 30]


def alike(x):
    """Strings that something might take for x, each once."""
    q = ''.join('%%%02X' % b for b in x.encode())
    full = ''.join(chr(ord(c) + 0xfee0) if '!' <= c <= '~' else c for c in x)
    out = [x, x + '/', '/' + x, x + '//', x + '/x', './' + x, x + '/index.html', x + '.html', x + '#', x + '#x', '#' + x, x + '?', x + '?x', x + '.', '.' + x, x + '.0', x + ',', x + ';', x + ':', x + '!', x + '-', '-' + x, x + '_', '_' + x,
           x + ' ', ' ' + x, x + '  ', x + '\n', x + '\r\n', '\n' + x, x + '\t', x + '\u00a0', x + '\u3000', x + '\u0000', '\u0000' + x, '\ufeff' + x, x + '\u200b', '\u00ad' + x, x + '\u0301', x + '\u200d',
           x.upper(), x.lower(), x.title(), x.swapcase(), x.casefold(), '0' + x, '00' + x, x + '0', '+' + x, x + '+', '"' + x + '"', "'" + x + "'", '(' + x + ')', '[' + x + ']', '<' + x + '>', '{' + x + '}', '*' + x, x + '*', '~' + x, '$' + x, '@' + x, '&' + x, '%' + x, '^' + x, '\\' + x, x + '\\',
           'http://' + x, 'https://' + x, 'file://' + x, q, full, x + x, x[::-1], x[:-1], x[1:], x + 'x', 'x' + x, x + ' ' + x, unicodedata.normalize('NFD', x), unicodedata.normalize('NFC', x), unicodedata.normalize('NFKC', x), x + 's', x + "'s", '']
    return list(dict.fromkeys(out))


def debruijn(cs, n):
    """A text in which every n of the characters follow each other somewhere."""
    k, a, out = len(cs), [0] * (len(cs) * n), []
    # iterative form of the standard construction
    def db(t, p):
        if t > n:
            if n % p == 0:
                out.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return ''.join(cs[i] for i in out + out[:n - 1])


PUNCT = '!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~'
ODD = PUNCT + 'aA0é\n\t\r\u0000\u0001\u001f\u007f\u2028\ufeff\u0301😀'


def meanings(rng, obs='dump', lang='rw'):
    """Notable strings as references, as stored texts, as tokens and as names of fields."""
    out = []
    for k in range(0, len(NOTABLE), 25):
        some = NOTABLE[k:k + 25]
        ops = [['fields', ['f']], ['field', 'w', 'whole'], ['field', 'id', None], ['build']]
        for x in some:
            ops.append(['add', x, [rng.choice(['', 'b ']) + x + rng.choice(['', ' b']), x, rng.choice(['', 'see '])+ x + rng.choice(['', ' there'])]])
        out.append(S('means%d' % k, ops + [[obs]], lang))
        ops = [['fields', some], ['ref', rng.choice(some)], ['build']] + [['add', str(i), [rng.choice(some) for _ in some]] for i in range(3)]
        out.append(S('named%d' % k, ops + [[obs]], lang))
    # inside and around texts, every three of many characters in a row
    t = debruijn(ODD, 3)
    ops = [['fields', ['f']], ['field', 'w', 'whole'], ['ref', 'w'], ['build']]
    for i, k in enumerate(range(0, len(t), 4000)):
        ops.append(['add', str(i), ['', {'stored': t[k:k + 4003]}]])
    out.append(S('odd3', ops + [[obs]], lang))
    u = debruijn(PUNCT, 4)
    out.append(S('odd4', [['fields', ['w']], ['ref', 'w'], ['build'], ['add', '1', [{'stored': u}]], [obs]], lang))
    # as tokens, in references and names: every two
    t = debruijn(ODD, 2)
    bits = [t[k:k + 41] for k in range(0, len(t), 40)]
    out.append(S('odd2', [['field', 'f', None], ['field', 'w', 'whole'], ['build']] + [['add', x, [x, x]] for x in bits] + [[obs]], lang))
    out.append(S('odd2n', [['fields', bits[:20]], ['ref', bits[7]], ['build'], ['add', '1', bits[:20]], [obs]], lang))
    return out


def near_alike(rng, obs='dump', langs=('rw', 'tg'), n=1):
    """References and fields that are almost the same, side by side in one index."""
    out = []
    for k in range(n):
        for i, x in enumerate(['id', '1', 'a/b', 'é', 'Doc-1', 'a b', '10', 'straße', 'docs', 'x.y', '日本', 'İx', '']):
            like = alike(x)
            refs = list(like)
            rng.shuffle(refs)
            word = lambda j: 'w%d ' % j * (1 + j % 3) + rng.choice(['', 'a', 'b c'])
            ops = [['fields', ['f', 'g']], ['build']] + [['add', r, [word(j), 'n%d' % j]] for j, r in enumerate(refs)] + [[obs]]
            again = rng.sample(refs, min(8, len(refs)))
            ops += [['add', r, [word(j + 90)]] for j, r in enumerate(again)] + [[obs]]
            # one alone
            ops += [['begin', 'rw'], ['fields', ['f', 'g']], ['build'], ['add', refs[0], [word(0), 'n0']], [obs]]
            out.append(S('alike%d-%d' % (k, i), ops, 'rw'))
            names = list(like)
            rng.shuffle(names)
            ref = rng.choice([None, x, names[3 % len(names)]])
            ops = [['fields', names[:len(names) // 2]]] + [['field', f, None] for f in names[len(names) // 2:]] + ([['ref', ref]] if ref is not None else []) + [['build']]
            ops += [['add', r, ['v%d u' % (j + d) for j, _ in enumerate(names)]] for d, r in enumerate(rng.sample(like, min(2, len(like))))] + [[obs]]
            out.append(S('alikef%d-%d' % (k, i), ops, rng.choice(langs)))
            # tokens
            out.append(S('aliket%d-%d' % (k, i), [['field', 'f', 'whole'], ['field', 'g', None], ['build']] + [['add', 'd%d' % j, [t, t + ' ' + rng.choice(like)]] for j, t in enumerate(like)] + [[obs]], rng.choice(langs)))
    return out


def apart(rng, n, wide=False):
    """Strings of one length which differ in one place, or have the same characters in another order, and the one they are made from."""
    cs = 'abcdefghijklmnopqrstuvwxyz' + ('éжß' if wide else '')
    base = [rng.choice(cs) for _ in range(n)]
    if rng.random() < .3:
        base = [rng.choice(cs)] * n
    out = [''.join(base)]
    for p in sorted({0, 1, n // 4, n // 3, n // 2, n * 2 // 3, n - 2, n - 1, rng.randrange(n)} & set(range(n))):
        d = list(base)
        d[p] = rng.choice([c for c in cs[:26] if c != base[p]])
        out.append(''.join(d))
        if p + 1 < n:
            e = list(base)
            e[p], e[p + 1] = e[p + 1], e[p]
            out.append(''.join(e))
            # neighbours changed against each other: same sum
            e = list(base)
            e[p], e[p + 1] = chr(ord('b') + (ord(e[p]) - 98) % 24), chr(ord('b') + (ord(e[p + 1]) - 98) % 24)
            f = list(e)
            f[p], f[p + 1] = chr(ord(e[p]) + 1), chr(ord(e[p + 1]) - 1)
            out += [''.join(e), ''.join(f)]
    out.append(''.join(reversed(base)))
    return list(dict.fromkeys(out))


LENGTHS = (2, 3, 5, 8, 9, 16, 17, 24, 33, 48, 60, 64, 65, 100, 128, 129, 200, 257, 300, 520)


def one_apart(rng, obs='dump', langs=('rw', 'tg'), thorough=False):
    """Texts, references, names and tokens of one length that differ in a single place only."""
    out = []
    for n in LENGTHS + ((1030, 2050, 4100) if thorough else (1030,)):
        xs = apart(rng, n, n % 2 == 0)
        rng.shuffle(xs)
        lang = rng.choice(langs)
        cut = lambda x: ' '.join(x[k:k + 11] for k in range(0, n, 11)) if n > 40 else x
        ref = lambda k: 'd%02d' % (k if n % 2 else 99 - k)
        ops = [['fields', ['f', 'id', 'w']], ['build']]
        for k, x in enumerate(xs):
            ops.append(['add', ref(k), [cut(x), x, cut(x) if k % 2 else cut(x)[n // 3:]]])
        ops.append([obs])
        for k in rng.sample(range(len(xs)), min(4, len(xs))):
            ops.append(['add', ref(k), [cut(xs[0]), xs[0], 'y']])
        # the last one supplied with everything equal but one place in one field
        ops += [['begin', lang], ['fields', ['id', 'f']], ['build']] + [o for k, x in enumerate(xs[:8]) for o in (['add', ref(k), [xs[0], cut(x)]], ['add', 'z', [x, cut(x)]])] + [[obs]]
        out.append(S('apart%d' % n, ops + [[obs]], lang))
        if n <= 300:
            ops = [['fields', ['f', 'g']], ['build']] + [['add', x, ['a%d' % k, 'b b']] for k, x in enumerate(xs)] + [[obs]] + [['add', x, ['c%d' % k]] for k, x in enumerate(rng.sample(xs, min(5, len(xs))))] + [[obs]]
            out.append(S('apartr%d' % n, ops, lang))
            half = len(xs) // 2
            out.append(S('apartf%d' % n, [['fields', xs[:half]]] + [['field', x, None] for x in xs[half:]] + [['ref', rng.choice(xs)], ['build'], ['add', xs[0], ['v%d' % k for k, _ in enumerate(xs)]], [obs]], lang))
    return out


def extended(rng, obs='dump', langs=('rw', 'tg')):
    """Names and references of any length which are the beginning or the end of others."""
    out = []
    for n in (1, 2, 8, 16, 25, 31, 33, 64, 100, 127, 129, 255, 300):
        base = ''.join(rng.choice('abcdefgh') for _ in range(n)) if n % 2 else 'é' + 'a' * (n - 1)
        fam = sorted({base, base + 'b', base + 'bc', base + ' ', base + '.b', 'b' + base, base[:-1], base[1:], base * 2, base + base[-1], base.upper(), base + '1', base + '10'})
        rng.shuffle(fam)
        same = ['w u%d' % (j % 2) for j, _ in enumerate(fam)]
        ops = [['fields', fam]] + ([['ref', rng.choice([base, 'id', base + 'b'])]] if rng.random() < .4 else []) + [['build'], ['add', 'd', same]]
        # one field at a time is given something else
        for j, _ in enumerate(fam):
            vs = list(same)
            vs[j] = rng.choice(['', 'c%d d' % j, 'w w'])
            ops.append(['add', 'd%d' % j, vs])
        out.append(S('extf%d' % n, ops + [[obs], ['add', 'd', [''] * len(fam)], [obs]], rng.choice(langs)))
        ops = [['fields', ['f', 'g']], ['build']] + [['add', r, ['v%d w' % j, 'w']] for j, r in enumerate(fam)] + [[obs]]
        for r in rng.sample(fam, 4):
            ops += [['add', r, [rng.choice(['', 'w x', 'y'])]], [obs]]
        out.append(S('extr%d' % n, ops, rng.choice(langs)))
    return out


COUNTS = (1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 300, 400, 499, 500, 501, 511, 512, 513, 600, 750, 800, 999, 1000, 1001,
          1023, 1024, 1025, 1500, 2000, 2001, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000, 5001, 8191, 8192, 8193, 9999, 10000, 10001, 16383, 16384, 16385, 20000, 32767, 32768, 32769, 50000, 65534, 65535, 65536, 65537, 99999, 100000, 100001)


def repeats(rng, obs='dump', langs=('rw', 'tg')):
    """Texts that repeat one word, or one and a little else, or end with it, any number of times."""
    out = []
    for j, (w, v) in enumerate((('a', 'b'), ('é', 'a'), ('wörd', 'x1'))):
        ops = [['fields', ['f', 'g']], ['build']]
        for i, n in enumerate(COUNTS):
            t = [runs((w, n)), runs((w, n), (v, 1)), runs((v, 1), (w, n)), runs((w, n), (v, n)), runs((v, 2), (w, n), (v, 3)), runs((w, n), (w + 'x', 2))]
            a = t[0] if rng.random() < .5 else rng.choice(t)
            ops.append(['add', '%d' % n, [a, rng.choice(t)] if n < 20000 else [a]])
        out.append(S('repeats%d' % j, ops + [[obs]], langs[j % len(langs)]))
        # as the only document, added again with another count
        for n in rng.sample(COUNTS[:70], 4):
            out.append(S('repeats%d-%d' % (j, n), [['fields', ['f']], ['build'], ['add', '1', [runs((w, n))]], [obs], ['add', '1', [runs((w, n + 1))]], [obs], ['add', '1', [runs((w, n + 2), (v, 1))]], [obs]], langs[j % len(langs)]))
    return out


# ------------------------------------------------------------------ the lower layers
LIKE = ['id', '1', 'a/b', 'é', 'Doc-1', 'a b', 'docs', '日本', '']


def inverted(rng, reload=False):
    """Documents and tokens that mean something or are almost the same, side by side and removed one by one."""
    out = []
    packs = [alike(x) for x in LIKE] + [NOTABLE[k:k + 60] for k in range(0, len(NOTABLE), 60)] + [[t[k:k + 21] for k in range(0, len(t), 20)] for t in [debruijn(ODD, 2)]] + [apart(rng, n, True) for n in (2, 5, 9, 20, 40, 65, 99)]
    re = [['reload']] if reload else []
    for i, p in enumerate(packs):
        p = [x for x in p if len(x) < 100]
        docs, toks = rng.sample(p, min(len(p), 70)), rng.sample(p, min(len(p), 50))
        ops = [['add', d, 'tok', 1 + j % 5] for j, d in enumerate(docs)] + [['add', 'd', t, 2 + j % 3] for j, t in enumerate(toks)] + [['add', d, rng.choice(toks), 1.5] for d in docs[:20]]
        q = [['q', rng.sample(toks, min(15, len(toks))) + ['tok'], rng.sample(docs, min(15, len(docs)))], ['dump']]
        ops += q + re + q
        for d in rng.sample(docs, min(12, len(docs))):
            ops.append(['rem', d, 'tok'])
        for t in rng.sample(toks, min(12, len(toks))):
            ops.append(['rem', 'd', t])
        out.append({'id': 'like%d' % i, 'kind': 'inv', 'ops': ops + q + re + q})
    return out


def store(rng, reload=False):
    """References, fields and texts that mean something or are almost the same."""
    out = []
    packs = [alike(x) for x in LIKE] + [NOTABLE[k:k + 60] for k in range(0, len(NOTABLE), 60)] + [apart(rng, n, True) for n in LENGTHS]
    re = [['reload']] if reload else []
    for i, p in enumerate(packs):
        for v in (True, False):
            refs, fs = rng.sample(p, min(len(p), 60)), rng.sample(p, min(len(p), 30))
            ops = []
            for j, r in enumerate(refs):
                ops.append(['add', r, [['t', 'x%d' % j]] + [[rng.choice(fs), rng.choice(p)]]])
                ops.append(['len', r, rng.choice(fs), j])
            ops.append(['add', 'all', [[f, 'y%d' % j] for j, f in enumerate(fs)]])
            ops += [['len', 'all', f, j] for j, f in enumerate(fs)]
            q = [['q', rng.sample(refs, min(12, len(refs))) + ['all'], rng.sample(fs, min(12, len(fs))) + ['t']], ['dump']]
            ops += q + re + q + [['rem', r] for r in rng.sample(refs, len(refs) // 3)] + q
            out.append({'id': 'like%d-%s' % (i, v), 'kind': 'store', 'save': v, 'hdr': {'save': v}, 'ops': ops})
    if reload:
        t = debruijn(PUNCT, 3) + debruijn(ODD, 2)
        out.append({'id': 'odd', 'kind': 'store', 'save': True, 'hdr': {'save': True}, 'ops': [['add', '1', [['t', t], [t[:300], t[300:3000]]]], ['add', t[3000:3200], [['t', 'x']]], ['len', '1', t[:300], 3], ['dump'], ['reload'], ['dump']]})
    return out


def options(rng):
    packs = [alike(x) for x in LIKE] + [NOTABLE[k:k + 60] for k in range(0, len(NOTABLE), 60)] + [[t[k:k + 21] for k in range(0, len(t), 20)] for t in [debruijn(ODD, 2), debruijn(PUNCT, 3)]] + [apart(rng, n, True) for n in LENGTHS]
    return [{'id': 'like%d' % i, 'kind': 'cfg', 'ops': [[rng.choice([None, 'or', 'and']), rng.choice([None, True, False]),
             [[f, rng.choice([None, 0, 1, 7, 255]), rng.choice([None, 'or', 'and']), rng.choice([None, True, False])] for f in p]]]} for i, p in enumerate(packs)]


def pipes(rng, fns):
    packs = [alike(x) for x in LIKE] + [NOTABLE[k:k + 60] for k in range(0, len(NOTABLE), 60)] + [apart(rng, n, True) for n in LENGTHS[:14]]
    return [{'id': 'like%d' % i, 'kind': 'pipe', 'fns': [rng.choice(fns) for _ in range(rng.randint(0, 3))], 'runs': [p, p[::-1], p[:3] * 20]} for i, p in enumerate(packs * 2)]


# ------------------------------------------------------------------ languages
@functools.lru_cache(None)
def _tokens():
    out = NOTABLE + [y for x in ('don\'t', 'c', 'U.S', '12', 'naïve') for y in alike(x)] + [d * n for d in '109' for n in (2, 3, 4, 5, 9, 10, 11, 17, 19, 20, 21, 39, 40)]
    return tuple(dict.fromkeys(x for x in settled_only(out) if len(x) < 60))


def language_tokens():
    return list(_tokens())


def language_texts():
    """Texts with what means something elsewhere, alone and in a row."""
    ts = language_tokens()
    return ts + [' '.join(ts[k:k + 40]) for k in range(0, len(ts), 40)] + [''.join(ts[k:k + 40]) for k in range(0, len(ts), 40)] + ['a%sb %s. (%s)' % (x, x, x) for x in ts]


def odd_texts():
    """Every two of all kinds of characters in a row, every three of many."""
    two = debruijn(''.join(c for c in dict.fromkeys(KINDS + SPACES) if settled(c)), 2)
    three = debruijn(''.join(c for c in ODD if settled(c)), 3)
    return [t[k:k + 1002] for t in (two, three) for k in range(0, len(t), 1000)]


def in_languages(rng, langs):
    """What means something elsewhere, indexed in every language."""
    out = []
    ts = language_tokens()
    for x in langs:
        mine = list(ts)
        rng.shuffle(mine)
        ops = [['fields', ['f']], ['field', 'w', 'whole'], ['build']]
        for i, k in enumerate(range(0, len(mine), 12)):
            some = mine[k:k + 12]
            ops.append(['add', str(i), [rng.choice([' ', ', ', '; ', '\n', ' - ']).join(some), some[0]]])
        out.append(S('means-' + x, ops + [['dump']], x))
    return out
