"""Scripts repeated for every character, in every role a character can have."""

P = '\ue000'


def chars(thorough):
    """Every character, or every one of the basic plane and some of each block of the others."""
    if thorough:
        return [[0, 0xd7ff], [0xe000, 0x10ffff]]
    out = [[0, 0xd7ff], [0xe000, 0xffff]]
    for a in range(0x10000, 0x110000, 0x100):
        dense = a < 0x20000 or a in (0x20000, 0x2a600, 0x2f800, 0xe0000, 0xe0100, 0xf0000, 0x100000) or a & 0xff00 in (0, 0xff00)
        if dense:
            out += [[a, a + 3], [a + 0x41, a + 0x42], [a + 0x7f, a + 0x80], [a + 0xfe, a + 0xff]]
        else:
            out.append([a + (a >> 8) % 256, a + (a >> 8) % 256])
    return out


def split(rs, n):
    """Ranges dealt out to n scripts."""
    pieces = []
    for a, b in rs:
        while a <= b:
            # the first ones differ most
            e = min(b, a + (6 if a < 0x400 else 511))
            pieces.append([a, e])
            a = e + 1
    return [p for p in (pieces[k::n] for k in range(n)) if p]


def each(name, inner, thorough=False, parts=8):
    parts = 64 if thorough else parts
    return [dict({'id': 'each-%s-%d' % (name, k), 'kind': 'each', 'inner': dict(inner, id='inner'), 'chars': rs}, **({'hdr': inner['hdr']} if 'hdr' in inner else {}))
            for k, rs in enumerate(split(chars(thorough), parts))]


def count(scs):
    return sum(b - a + 1 for s in scs for a, b in s['chars'])


def index(obs, thorough, lang='rw'):
    """In tokens, texts, references and names of fields."""
    ops = [['fields', ['f', P + 'g']], ['field', 'h' + P, 'whole'], ['fields', ['g', 'h']], ['build'],
           ['add', 'r' + P, ['b' + P + ' ' + P + ' c b' + P, 'd ' + P + 'd', 'e' + P + P]], ['add', 'r', ['m n', 'o', 'p', 'q']], [obs],
           ['add', P, [P + 'k' + P, ' ' + P + ' ', P, P + 'c']], ['add', P + 'r', ['c', '', 'm', 'n', 'o']], ['add', 'r' + P + 'r', ['m']], ['add', 'r' + P, ['c', P]], [obs]]
    return each('index' + lang, {'kind': 'index', 'lang': lang, 'ops': ops}, thorough)


def reference(obs, thorough):
    """In the name of the reference field, among similar fields."""
    ops = [['fields', ['f' + P, P, P + P]], ['ref', P], ['build'], ['add', P + '1', ['b', P + ' c', P + 'd e']], [obs]]
    return each('ref', {'kind': 'index', 'lang': 'rw', 'ops': ops}, thorough)


def inverted(thorough, reload=False):
    q = [['q', ['b', 'b' + P, P, P + P, 'b' + P + P, 'c'], ['r' + P, P, 'r']], ['dump']]
    ops = [['add', 'r' + P, 'b' + P, 2], ['add', P, P, 3], ['add', P, 'b' + P + 'c', 4]] + q + ([['reload']] + q if reload else []) + [
        ['rem', P, 'b' + P + 'c'], ['rem', P, 'b' + P], ['rem', 'r' + P, P], ['rem', 'r' + P, 'b' + P]] + q
    return each('inv', {'kind': 'inv', 'ops': ops}, thorough)


def store(thorough, reload=False):
    q = [['q', ['r' + P, P, 'r'], ['f', P, 'f' + P]], ['dump']]
    ops = [['add', 'r' + P, [['f', 't' + P], ['f' + P, P]]], ['add', P, [[P, P + P]]], ['len', P, P, 3], ['len', 'r' + P, 'f' + P, 4]] + q + (
        [['reload']] + q if reload else []) + [['rem', 'r' + P]] + q
    return each('store', {'kind': 'store', 'save': True, 'hdr': {'save': True}, 'ops': ops}, thorough)


def options(thorough):
    return each('cfg', {'kind': 'cfg', 'ops': [['and', True, [[P, 3, 'or', False], ['f' + P, None, None, True]]]]}, thorough)
