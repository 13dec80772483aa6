"""Transitions that TLC emitted, replayed on the library: the state which the specification reaches
must be the state which the library shows."""


def chars(t):
    return ''.join(t)


def sets(x):
    """Lists as order-free values."""
    return frozenset(sets(y) for y in x) if isinstance(x, list) else x


# ------------------------------------------------------------------ index
def index_script(i, t, extra=()):
    ops = []
    for h in t['ops']:
        if h[0] == 'field':
            ops.append(['field', h[1], None if h[2] == 'lang' else h[2]])
        elif h[0] == 'add':
            ops.append(['add', h[1], [chars(v) for v in h[2]]])
        else:
            ops.append(h)
    if t['stage'] == 'ready':
        ops.append(['dump'])
    return {'id': 't%d' % i, 'kind': 'index', 'lang': t['lang'], 'ops': ops}


def postings(index):
    return {f: {(chars(n[0]), d, k) for n in nodes for d, k in n[2]} for f, nodes in index}


def index_seen(ev):
    return {'fields': ev['fields'], 'get': ev['get'], 'ref': ev['ref'], 'save': ev['store']['save'],
            'post': postings(ev['index']), 'nfields': len(ev['index']),
            'df': all(n[1] == len(n[2]) for _, nodes in ev['index'] for n in nodes),
            'docs': {r: dict(map(tuple, d)) for r, d in ev['store']['docs']},
            'info': {r: dict(map(tuple, d)) for r, d in ev['store']['info']},
            'len': ev['store']['len'], 'refs': sorted(r for r, _ in ev['store']['docs'])}


def index_want(t):
    docs = {r: dict((n, x if isinstance(x, str) else chars(x)) for n, x in d) for r, d in t['docs']}
    return {'fields': t['fields'], 'get': t['fields'], 'ref': t['ref'], 'save': t['save'],
            'post': {f: {(chars(k), d, n) for k, ds in ps for d, n in ds} for f, ps in t['post']}, 'nfields': len(t['post']),
            'df': True, 'docs': docs, 'info': {r: dict(map(tuple, d)) for r, d in t['info']},
            'len': len(docs), 'refs': sorted(docs)}


def index_tests(c, binary, name, tests, keys):
    scs = [index_script(i, t) for i, t in enumerate(tests)]
    for sc, t, o in zip(scs, tests, c.run(binary, scs)):
        last = o['events'][-1]
        if t['stage'] == 'panic':
            c.require(last['e'] == 'panic' and len(o['events']) == len(sc['ops']) + 1,
                      '%s: the specification has a panic here' % name, script=sc, want='panic', seen=last)
            continue
        c.require(last['e'] == 'dump' and len(o['events']) == len(sc['ops']) + 1,
                  '%s: the specification has no failure here' % name, script=sc, want=t, seen=last)
        s, w = index_seen(last), index_want(t)
        for k in keys:
            c.require(s[k] == w[k], '%s: %s differs from the specification' % (name, k), script=sc, want=w[k], seen=s[k])
    c.count_tests(name, len(tests))


def json_tests(c, binary, name, tests):
    scs = [dict(index_script(i, t), enc='str') for i, t in enumerate(tests)]
    for s in scs:
        s['ops'][-1] = ['json']
    for sc, t, o in zip(scs, tests, c.run(binary, scs)):
        last = o['events'][-1]
        c.require(last['e'] == 'json' and last['same'] and last['valid'] and last['via'], '%s: not one valid value' % name, script=sc, seen=last)
        seen, want = [(tuple(p), k, v) for p, k, v in last['leaves']], {(tuple(p), k, v) for p, k, v in t['leaves']}
        c.require(set(seen) == want and len(seen) == len(want), '%s: the serialized index differs from the specification' % name, script=sc,
                  want=sorted(want - set(seen)), seen=sorted(set(seen) - want))
    c.count_tests(name, len(tests))


# ------------------------------------------------------------------ inverted index
def inv_tests(c, binary, name, tests, prop, probes, docs):
    scs = []
    for i, t in enumerate(tests):
        ops = [[h[0], h[1], chars(h[2])] + ([h[3]] if h[0] == 'add' else []) for h in t['ops']]
        scs.append({'id': 't%d' % i, 'kind': 'inv', 'ops': ops + [['q', probes, docs], ['dump']]})
    for sc, t, o in zip(scs, tests, c.run(binary, scs)):
        c.require(len(o['events']) == len(sc['ops']), '%s: failure' % name, script=sc, seen=o['events'][-1])
        want = {chars(n[0]): {d: k for d, k in n[1]} for n in t['nodes']}
        q, d = o['events'][-2]['r'], o['events'][-1]['nodes']
        nodes = {''.join(map(chr, n[0])): (n[1], {x: float(y) for x, y in n[2]}) for n in d}
        if prop == 'C02':
            for p, (df, listed) in nodes.items():
                c.require(df == len(want.get(p, {})), '%s: df of %r' % (name, p), script=sc, want=want, seen=d)
            for x in q:
                p = ''.join(map(chr, x['t']))
                c.require(x['df'] == len(want.get(p, {})), '%s: get_doc_frequency of %r' % (name, p), script=sc, want=want, seen=x)
            continue
        c.require({p: v[1] for p, v in nodes.items()} == want, '%s: nodes' % name, script=sc, want=want, seen=d)
        for x in q:
            p = ''.join(map(chr, x['t']))
            w = want.get(p, {})
            c.require(x['has'] == (p in want) and x['some'] == (p in want), '%s: has_token %r' % (name, p), script=sc, want=want, seen=x)
            c.require({a: float(b) for a, b in x['docs']} == w, '%s: get_docs of %r' % (name, p), script=sc, want=w, seen=x)
            c.require(all(float(f) == w.get(dd, 0) for dd, f in x['tfs']), '%s: get_term_frequency of %r' % (name, p), script=sc, want=w, seen=x)
    c.count_tests(name, len(tests))


# ------------------------------------------------------------------ document store
def store_tests(c, binary, name, tests, refs, fields, docs=True, counts=True):
    scs = [{'id': 't%d' % i, 'kind': 'store', 'save': t['save'], 'hdr': {'save': t['save']},
            'ops': t['ops'] + [['q', refs, fields], ['dump']]} for i, t in enumerate(tests)]
    for sc, t, o in zip(scs, tests, c.run(binary, scs)):
        c.require(len(o['events']) == len(sc['ops']), '%s: failure' % name, script=sc, seen=o['events'][-1])
        q, v = o['events'][-2], o['events'][-1]['v']
        wd = {r: dict(map(tuple, x)) for r, x in t['docs']}
        wi = {r: {f: str(n) for f, n in x} for r, x in t['info']}
        c.require((q['len'], q['flen'], v['len'], q['empty']) == (t['length'],) * 3 + (t['length'] == 0,),
                  '%s: count' % name, script=sc, want=t, seen=[q, v])
        c.require({r: dict(map(tuple, x)) for r, x in v['docs']} == wd, '%s: documents' % name, script=sc, want=t, seen=v)
        c.require({r: dict(map(tuple, x)) for r, x in v['info']} == wi, '%s: field lengths' % name, script=sc, want=t, seen=v)
        for x in q['r']:
            r = x['r']
            c.require(x['has'] == (r in wd) == x['some'] and dict(map(tuple, x['doc'])) == wd.get(r, {}),
                      '%s: has_doc and get_doc' % name, script=sc, want=t, seen=x)
            c.require(all(n == (wi.get(r, {}).get(f, '0') if r in wd else '0') for f, n in x['lens']),
                      '%s: get_field_length' % name, script=sc, want=t, seen=x)
    c.count_tests(name, len(tests))
