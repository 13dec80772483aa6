"""One function per property."""
import json
import os

import itertools
import subprocess

import gen_each as ge
import gen_index as gi
import gen_lang as gla
import gen_low as gl
import gen_notable as gn
import replay
from common import ToolError

CHECKS = {}


def check(pid):
    def d(f):
        CHECKS[pid] = f
        return f
    return d


TESTS = 'CHECK_DEADLOCK FALSE\nVIEW NoHist\nACTION_CONSTRAINT EmitTest\n'


def constants(c):
    return 'CONSTANTS\n' + ''.join(' %s %s %s\n' % (k, '<-' if str(v).startswith(('Texts', 'Tokens', 'Records', 'Names')) else '=', v) for k, v in c.items())


def cfg_index(inv='PostingsExact RecordExact DeclarationsExact PanicExact LengthsPay', props='OtherDocsKept NothingForgotten SettingsFixed', **kw):
    k = dict(FieldNames='{"f", "g"}', RefNames='{"id", "g"}', Tks='{"lang"}', Texts='TextsSmall', Refs='{"1", "2"}', Langs='{"rw"}',
             MaxFields=2, MaxDocs=2, Emit='TRUE')
    k.update(kw)
    return 'SPECIFICATION Spec\n' + TESTS + constants(k) + 'INVARIANTS DesignHolds %s\nPROPERTIES %s\n' % (inv, props)


def index_model(c, b, name, keys, **kw):
    """Every transition of a small instance of the specification, replayed on the library."""
    tests = c.model(name, 'MCElasticlunr', cfg_index(**kw), expect_tests=True)
    c.sample(tests[len(tests) // 2])
    replay.index_tests(c, b, name, tests, keys)


def index_traces(c, b, scs, name='index', module='IndexTrace', **kw):
    outs = c.run(b, scs)
    for k in (len(scs) // 5, len(scs) // 2):
        c.sample(scs[k])
    c.validate(name, module, outs, scs, cfg=HOLDS, **kw)


HOLDS = 'SPECIFICATION Spec\nINVARIANT DesignHolds\n'


def each(c, b, module, *lists, cfg=HOLDS):
    """The same history with every character."""
    scs = [s for x in lists for s in x]
    outs = c.run(b, scs)
    n = sum(e.get('n', 0) for o in outs for e in o['events'] if e['e'] == 'group')
    if n != ge.count(scs):
        raise ToolError('histories for %d characters instead of %d' % (n, ge.count(scs)))
    c.sample(scs[0]['inner'])
    c.count_tests('characters', n)
    c.validate('every character', module, outs, scs, cfg=cfg)


def names_and_counts(c, obs='dump', langs=('rw', 'tg'), counts=True):
    """Strings that mean something elsewhere, strings almost the same, one word any number of times."""
    return gn.meanings(c.rng, obs, langs[0]) + gn.near_alike(c.rng, obs, langs, c.pick(1, 8)) + gn.one_apart(c.rng, obs, langs, c.thorough) + gn.extended(c.rng, obs, langs) + (gn.repeats(c.rng, obs, langs) if counts else [])


# ------------------------------------------------------------------ postings
@check('C01')
def c01(c):
    b = c.build()
    index_model(c, b, 'two fields, two documents', ['post', 'nfields', 'df'], MaxDocs=c.pick(2, 3), Texts='TextsMid', RefNames='{"id"}')
    index_traces(c, b, [gi.side_by_side(c.rng, i) for i in range(c.pick(100, 1000))] + [gi.alike_in_turn(c.rng, i) for i in range(c.pick(60, 600))] + gi.curated() + gi.big(thorough=c.thorough) + gi.huge() + gi.scaled(c.rng, thorough=c.thorough) + gi.randoms(c.rng, c.pick(400, 4000)) + names_and_counts(c))
    each(c, b, 'IndexTrace', ge.index('dump', c.thorough))


INV = 'INVARIANTS PrefixClosed PostingsHaveNodes NoEmptyPostings %s\nPROPERTIES KnownStaysKnown Frame\n'


def inv_models(c, b, prop):
    base = dict(Docs='{"1", "2"}', Tokens='TokensSmall', Freqs='{1, 2}', MaxOps=c.pick(4, 5), Emit='FALSE')
    c.model('inverted index, all histories', 'MCInvertedIndex', 'SPECIFICATION MSpec\nCHECK_DEADLOCK FALSE\n' + INV % 'MapSemantics Known DfSemantics' + constants(base), timeout=800)
    c.model('trie refines it', 'MCTrie', 'SPECIFICATION TSpec\nINVARIANTS DfExact RootEmpty Closed\nPROPERTIES Refines Terminates\n'
            + constants(dict(Docs='{"1", "2"}', Tokens='TokensSmall', Freqs='{1, 2}')))
    for name, kw in [('two documents', {}), ('deep tokens', dict(Docs='{"1"}', Tokens='TokensDeep')), ('chain', dict(Docs='{"1", "2"}', Tokens='TokensChain', Freqs='{1}'))]:
        k = dict(base, MaxOps=99, Emit='TRUE', **{})
        k.update(kw)
        tests = c.model('inverted index, ' + name, 'MCInvertedIndex', 'SPECIFICATION MSpec\n' + INV % '' + TESTS + constants(k), expect_tests=True)
        c.sample(tests[-1])
        replay.inv_tests(c, b, name, tests, prop, ['', 'a', 'b', 'ab', 'aba', 'abc', 'aa', 'c', 'ba'], ['1', '2', '3'])


def inv_traces(c, b, scs, name='inverted index'):
    c.sample(scs[-1])
    c.validate(name, 'InvTrace', c.run(b, scs), scs, cfg=HOLDS)


@check('C02')
def c02(c):
    b = c.build()
    inv_models(c, b, 'C02')
    inv_traces(c, b, gl.inv_curated(c.thorough) + gl.inv_many() + [gl.inv_random(c.rng, i, c.rng.choice([5, 15, 40])) for i in range(c.pick(400, 4000))] + [gl.inv_far(c.rng, i, 12) for i in range(c.pick(100, 1500))] + gn.inverted(c.rng))
    index_traces(c, b, gi.curated() + gi.big(thorough=c.thorough) + gi.huge() + gi.scaled(c.rng, thorough=c.thorough) + gi.randoms(c.rng, c.pick(150, 1500)) + names_and_counts(c))
    each(c, b, 'InvTrace', ge.inverted(c.thorough))


@check('C03')
def c03(c):
    b = c.build()
    inv_models(c, b, 'C03')
    inv_traces(c, b, gl.inv_curated(c.thorough) + gl.inv_many() + [gl.inv_random(c.rng, i, c.rng.choice([5, 15, 40])) for i in range(c.pick(600, 6000))]
               + [gl.inv_far(c.rng, i, c.rng.choice([4, 8, 20])) for i in range(c.pick(300, 4000))] + gn.inverted(c.rng))
    each(c, b, 'InvTrace', ge.inverted(c.thorough))


@check('C04')
def c04(c):
    b = c.build()
    index_model(c, b, 'two documents', ['post', 'docs', 'info'], Texts='TextsMid', RefNames='{"id"}')
    scs = [x for x in gi.curated() if x['id'] not in ('normal', 'case')] + gi.twins_scaled(c.rng, c.pick(1, 6))
    for i in range(c.pick(500, 4000)):
        scs.append(gi.twins(c.rng, i))
    scs += [gi.side_by_side(c.rng, i) for i in range(c.pick(100, 1000))] + names_and_counts(c, counts=False)
    index_traces(c, b, scs)
    each(c, b, 'IndexTrace', ge.index('dump', c.thorough))


@check('C05')
def c05(c):
    b = c.build()
    index_model(c, b, 'saving', ['docs', 'save', 'post', 'info', 'len'], FieldNames='{"f"}', RefNames='{"id", "f", "r"}', Texts='TextsMid', MaxFields=1,
                inv='RecordExact DeclarationsExact SaveOnlyTexts')
    index_model(c, b, 'two fields', ['docs', 'save', 'post', 'info', 'len'], RefNames='{"id", "g"}', MaxDocs=c.pick(1, 2), inv='RecordExact SaveOnlyTexts')
    scs = gi.curated() + gi.big()[:2] + gi.scaled(c.rng, thorough=c.thorough) + [x for i in range(c.pick(200, 2000)) for x in gi.save_twins(c.rng, i)] + names_and_counts(c)
    index_traces(c, b, scs)
    st = [gl.store_random(c.rng, i, c.rng.choice([4, 12])) for i in range(c.pick(60, 1000))] + gn.store(c.rng)
    c.validate('store', 'StoreTrace', c.run(b, st), st, cfg=HOLDS)
    each(c, b, 'IndexTrace', ge.index('dump', c.thorough), ge.reference('dump', c.thorough))


@check('C06')
def c06(c):
    b = c.build()
    index_model(c, b, 'lengths', ['info'], RefNames='{"id", "g"}', Tks='{"lang"}', Langs='{"tg"}', Texts='TextsMid')
    index_traces(c, b, [gi.side_by_side(c.rng, i) for i in range(c.pick(60, 600))] + gi.curated() + gi.big(thorough=c.thorough) + gi.scaled(c.rng, thorough=c.thorough) + gi.randoms(c.rng, c.pick(500, 4000)) + names_and_counts(c))
    each(c, b, 'IndexTrace', ge.index('dump', c.thorough, 'tg'))


@check('C07')
def c07(c):
    b = c.build()
    st = 'INVARIANTS LengthExact NothingSaved %s\nPROPERTIES Frame Forgets SaveConstant\n'
    k = dict(Refs='{"1", "2"}', Records='RecordsTwo', Fields='{"t"}', Lengths='{0, 3}', Saves='{TRUE, FALSE}', MaxOps=c.pick(5, 6), Emit='FALSE')
    c.model('store, all histories', 'MCDocumentStore', 'SPECIFICATION MSpec\nCHECK_DEADLOCK FALSE\n' + st % 'PresentExact LengthsForgotten' + constants(k), timeout=800)
    k.update(Fields='{"t", "u"}', MaxOps=99, Emit='TRUE')
    if c.thorough:
        k.update(Records='RecordsThree', Lengths='{0, 3, 4}')
    tests = c.model('store, every transition', 'MCDocumentStore', 'SPECIFICATION MSpec\n' + st % '' + TESTS + constants(k), expect_tests=True)
    c.sample(tests[-1])
    replay.store_tests(c, b, 'store', tests, ['1', '2', '3'], ['t', 'u', 'v'])
    scs = gl.store_curated() + [gl.store_random(c.rng, i, c.rng.choice([4, 12, 40])) for i in range(c.pick(600, 6000))] + gn.store(c.rng)
    c.sample(scs[-1])
    c.validate('store', 'StoreTrace', c.run(b, scs), scs, cfg=HOLDS)
    index_traces(c, b, gi.curated() + gi.big(thorough=c.thorough)[4:5] + gi.huge() + gi.scaled(c.rng, thorough=c.thorough) + gi.randoms(c.rng, c.pick(200, 2000)) + names_and_counts(c))
    each(c, b, 'StoreTrace', ge.store(c.thorough))


@check('C08')
def c08(c):
    b = c.build()
    index_model(c, b, 'declarations', ['fields', 'get', 'ref', 'save', 'post', 'nfields', 'docs', 'info'], FieldNames='{"f", "g", "h"}', RefNames='{"id", "r"}',
                Tks='{"lang", "comma"}', MaxFields=3, MaxDocs=0, Refs='{"1"}', Texts='TextsOne', inv='DeclarationsExact PanicExact')
    index_model(c, b, 'declarations and a document', ['fields', 'get', 'ref', 'save', 'post', 'nfields', 'docs', 'info'], FieldNames='{"f", "g", "h"}', RefNames='{"id"}',
                MaxFields=3, MaxDocs=1, Refs='{"1"}', Texts='TextsTwo', inv='DeclarationsExact PanicExact RecordExact PostingsExact')
    index_traces(c, b, gi.curated() + gi.declarations() + gi.big()[3:4] + gi.scaled(c.rng, thorough=c.thorough) + gi.randoms(c.rng, c.pick(500, 4000), docs=2) + gi.panics(c.rng, c.pick(150, 1000)) + names_and_counts(c, counts=False))
    each(c, b, 'IndexTrace', ge.index('dump', c.thorough), ge.reference('dump', c.thorough))


@check('C09')
def c09(c):
    b = c.build()
    for name, kw in (('layout', dict(FieldNames='{"f", "docs"}', RefNames='{"id", "docs", "df"}', Refs='{"1", "tf"}', Texts='TextsMid', MaxDocs=1)),
                     ('layout, two documents', dict(FieldNames='{"f"}', RefNames='{"r"}', Refs='{"docs", "df"}', Texts='TextsSmall', Langs='{"tg", "rw"}', MaxFields=1, MaxDocs=c.pick(2, 3)))):
        cfg = cfg_index(inv='LayoutHolds', **kw).replace('EmitTest', 'EmitJson')
        tests = c.model(name, 'MCJson', cfg, expect_tests=True)
        c.sample(tests[len(tests) // 2])
        replay.json_tests(c, b, name, tests)
    index_traces(c, b, gi.curated('json') + gi.big('json', thorough=c.thorough) + gi.mimics(c.rng, 30, 'json') + gi.scaled(c.rng, 'json', thorough=c.thorough) + gi.randoms(c.rng, c.pick(250, 2500), obs='json', words=None) + names_and_counts(c, 'json'))
    each(c, b, 'IndexTrace', ge.index('json', c.thorough), ge.reference('json', c.thorough))


@check('C10')
def c10(c):
    b = c.build()
    c.model('commutation and idempotence', 'MCElasticlunr', cfg_index(RefNames='{"id"}', Texts='TextsTwo', Emit='FALSE', MaxDocs=c.pick(1, 2), inv='Idempotent Commute').replace('ACTION_CONSTRAINT EmitTest\n', ''))
    index_traces_ser(c, b)


def index_traces_ser(c, b):
    scs = gi.orders(c.rng, c.pick(250, 2000)) + gi.same_texts(c.rng, c.pick(150, 1500)) + gi.curated('ser') + gi.scaled(c.rng, 'ser') + names_and_counts(c, 'ser')
    one = c.run(b, scs)
    two = c.run(b, scs)
    for s, x, y in zip(scs, one, two):
        c.require(x == y, 'two processes disagree', script=s, first=x, second=y)
    c.validate('index', 'IndexTrace', one, scs, cfg=HOLDS)


@check('C22')
def c22(c):
    b = c.build()
    index_model(c, b, 'own tokenizers', ['post', 'info', 'fields'], Tks='{"lang", "comma", "whole"}', Langs='{"tg"}', RefNames='{"id"}', Texts='TextsComma',
                Refs='{"1"}', MaxDocs=1, inv='PostingsExact RecordExact DeclarationsExact')
    index_traces(c, b, [gi.side_by_side(c.rng, i) for i in range(c.pick(100, 1000))] + [gi.alike_in_turn(c.rng, i) for i in range(c.pick(60, 600))] + [gi.nested(c.rng, i) for i in range(c.pick(40, 400))] + gi.tokenizers(c.rng, c.pick(500, 4000)) + gi.curated() + gi.scaled(c.rng, thorough=c.thorough, langs=('rw', 'tg', 'm4', 'm5', 'm7')) + gi.mimics(c.rng, 30) + names_and_counts(c, langs=('tg', 'rw')))
    each(c, b, 'IndexTrace', ge.index('dump', c.thorough, 'tg'))


@check('C25')
def c25(c):
    b = c.build()
    index_model(c, b, 'reference fields', ['post', 'info'], FieldNames='{"f", "id"}', RefNames='{"id", "f"}', Texts='TextsBlank')
    index_traces(c, b, gi.curated() + gi.refs_and_blanks(c.rng, c.pick(600, 4000)) + gi.same_texts(c.rng, c.pick(100, 1000), 'dump') + gi.near_ref(c.rng, c.pick(300, 3000)) + gi.scaled(c.rng, thorough=c.thorough) + names_and_counts(c))
    each(c, b, 'IndexTrace', ge.index('dump', c.thorough, 'tg'), ge.reference('dump', c.thorough))


# ------------------------------------------------------------------ reloading
@check('C11')
def c11(c):
    b = c.build()
    inv = gl.inv_reload_curated() + gl.inv_many(True) + [gl.inv_random(c.rng, i, c.rng.choice([5, 15, 40]), reload=True, freqs=gl.ROOTS) for i in range(c.pick(400, 4000))] + gn.inverted(c.rng, True)
    inv_traces(c, b, inv)
    st = gl.store_curated_reload() + [gl.store_random(c.rng, i, c.rng.choice([4, 12, 40]), reload=True) for i in range(c.pick(400, 4000))] + gn.store(c.rng, True)
    c.validate('store', 'StoreTrace', c.run(b, st), st, cfg=HOLDS)
    cfg_traces(c, b)
    scs = gi.curated('reload') + gi.big('reload')[:3] + gi.randoms(c.rng, c.pick(150, 1500), obs='reload') + gi.deep_reload()
    scs += [dict(x, id='en' + x['id']) for x in gi.randoms(c.rng, c.pick(100, 1000), obs='reload', langs=('en',), tks=False)]
    # an index without pipeline stages can be loaded
    scs += [dict(x, id='m1' + x['id']) for x in gi.randoms(c.rng, c.pick(150, 1500), obs='reload', langs=('m1',)) + gi.scaled(c.rng, 'reload', langs=('m1',))]
    scs += [dict(x, id='m1' + x['id'], lang='m1') for x in gi.curated('reload') + gi.big('reload')]
    scs += [gi.in_lang(x, 'm1') for x in names_and_counts(c, 'reload', ('m1',))]
    index_traces(c, b, scs)
    each(c, b, 'IndexTrace', ge.index('reload', c.thorough, 'm1'))
    each(c, b, 'InvTrace', ge.inverted(c.thorough, True))
    each(c, b, 'StoreTrace', ge.store(c.thorough, True))


# ------------------------------------------------------------------ pipelines
@check('C12')
def c12(c):
    b = c.build()
    inv = 'INVARIANTS OutputExact CallsExact NoCallAfterDrop EmptyIsIdentity\nPROPERTIES Ends\nCHECK_DEADLOCK FALSE\n'
    c.model('interleavings', 'MCPipeline', 'SPECIFICATION PSpec\n' + inv + 'CONSTANTS Emit = FALSE Queues <- %s Inputs <- %s\n' % c.pick(('QueuesFew', 'InputsTwo'), ('QueuesFew', 'InputsAll')), timeout=800)
    tests = c.model('results', 'MCPipeline', 'INIT PInit\nNEXT Stay\nCHECK_DEADLOCK FALSE\nINVARIANTS OutputExact EmitState\nCONSTANTS Emit = TRUE Queues <- QueuesAll Inputs <- InputsOne\n', expect_tests=True)
    scs = []
    for i, t in enumerate(tests):
        scs.append({'id': 't%d' % i, 'kind': 'pipe', 'fns': [f[0] + (':' + ''.join(f[1]) if f[0] in ('app', 'dropif', 'only') else '') for f in t['fns']],
                    'runs': [[''.join(x) for x in t['input']]]})
    for s, t, o in zip(scs, tests, c.run(b, scs)):
        e = o['events'][-1]
        c.require(e['e'] == 'run' and e['out'] == t['out'], 'the result differs from the specification', script=s, want=t['out'], seen=e)
    c.count_tests('pipelines', len(tests))
    c.sample(tests[-1])
    scs = gl.pipes(c.rng, c.pick(2, 3), c.pick(600, 6000)) + gn.pipes(c.rng, gl.FNS)
    c.sample(scs[-3])
    c.validate('pipelines', 'PipelineTrace', c.run(b, scs), scs)


def cfg_traces(c, b):
    scs = gl.cfgs(c.rng, c.pick(300, 3000)) + gn.options(c.rng)
    c.sample(scs[-1])
    c.validate('search options', 'CfgTrace', c.run(b, scs), scs)
    each(c, b, 'CfgTrace', ge.options(c.thorough), cfg='SPECIFICATION Spec\n')


@check('C23')
def c23(c):
    b = c.build()
    tests = c.model('options', 'MCSearchConfig', 'SPECIFICATION CSpec\nCHECK_DEADLOCK FALSE\nINVARIANTS Lossless OneLeafPerPath EmitState\nCONSTANTS FieldNames = {"title", "b"} Boosts = %s\n'
                    % c.pick('{0, 255}', '{0, 1, 255}'), expect_tests=True)
    none = lambda x: None if x in ('none', -1) else x == 'true' if x in ('true', 'false') else x
    scs = [{'id': 't%d' % i, 'kind': 'cfg', 'ops': [[none(t['b']), none(t['x']), [[f[0]] + [none(y) for y in f[1:]] for f in t['fs']]]]} for i, t in enumerate(tests)]
    for s, t, o in zip(scs, tests, c.run(b, scs)):
        e = o['events'][-1]
        c.require(e['e'] == 'cfg' and replay.sets(e['leaves']) == replay.sets(t['leaves']) and len(e['leaves']) == len(t['leaves']),
                  'the JSON differs from the specification', script=s, want=t['leaves'], seen=e)
        c.require(e['same'] and e['back'], 'the options are not read back', script=s, seen=e)
    c.count_tests('options', len(tests))
    cfg_traces(c, b)


# ------------------------------------------------------------------ languages
def lang_traces(c, b, name, scs, chunk=None, **kw):
    if not scs:
        return
    outs = c.run(b, scs)
    for k in (0, len(scs) // 2):
        s = {x: y for x, y in scs[k].items() if x != 'skip'}
        c.sample(s)
    c.validate(name, 'LangTrace', outs, scs, chunk=chunk, **kw)


@check('C13')
def c13(c):
    rng = c.rng
    mod = 'SPECIFICATION TkSpec\nCHECK_DEADLOCK FALSE\nINVARIANTS MachineExact NoEmptyToken NoSeparatorInside NothingLost AsManyAsRuns Stable EmitTokens\nPROPERTIES EndsAlways\nCONSTANTS Letters <- %s MaxText = %d Emit = TRUE\n'
    tests = c.model('tokenizer', 'MCTokenizer', mod % c.pick(('LettersQuick', 4), ('LettersMore', 4)), expect_tests=True, timeout=800)
    b = c.build('all')
    lt = gla.texts(rng, 0) + gn.language_texts()
    want = {}
    for t, out in tests:
        want[''.join(map(chr, t))] = out
    scs = gla.tok('ws', list(want), per=500, tag='-model') + gla.tok('ru', list(want), per=500, tag='-model')
    for s, o in zip(scs, c.run(b, scs)):
        for e in o['events']:
            c.require(e['e'] == 'tok', 'tokenizing fails', script=s, event=e)
            for t, r in e['r']:
                c.require(want[''.join(map(chr, t))] == r, 'the tokens differ from the specification', script=s, input=t, want=want[''.join(map(chr, t))], seen=r)
    c.count_tests('texts of the model', len(scs and want) * 2)
    lang_traces(c, b, 'every code point', [gla.sweep('tok', x) for x in ['ws'] + gla.SPACED])
    lang_traces(c, b, 'very many texts', [gla.tok_grids(rng, x, c.thorough) for x in ['ws'] + gla.SPACED])
    scs = gla.tok('ws', gla.texts(rng, c.pick(1200, 15000)) + gn.language_texts() + gn.odd_texts(), per=60)
    for x in gla.SPACED:
        scs += gla.tok(x, lt + gla.settled_only(rng.sample(gla.sentences(x), min(len(gla.sentences(x)), 30))) + [gla.text(rng, x) for _ in range(c.pick(150, 1500))] + [gla.sample(x)[:3000]])
        for w in gla.ways(x)[1:]:
            scs += gla.tok(w, rng.sample([t for t in lt if len(t) < 3000], 20) + [gla.text(rng, x) for _ in range(c.pick(20, 200))])
    lang_traces(c, b, 'texts', scs)
    scs = gla.tok('ws', gla.long_texts('en', c.thorough), per=1, tag='-long')
    for x in gla.SPACED:
        ts = gla.long_texts(x, c.thorough)
        scs += gla.tok(x, ts if c.thorough else rng.sample([t for t in ts if len(t) < 9000], 2) + rng.sample([t for t in ts if len(t) > 9000], 1), per=1, tag='-long')
    lang_traces(c, b, 'long texts', scs)


def english_model(c, b):
    """Every text over a few letters, each a document of an index."""
    tests = c.model('English texts', 'MCEnglish', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS NoEmptyToken NoSeparator NoCapital StartsWithWord NotMore Additive CaseBlind EmitText\nPROPERTIES EarlierKept\n'
                    'CONSTANTS Letters <- %s MaxText = %d Emit = TRUE\n' % c.pick(('LettersQuick', 5), ('LettersMore', 5)), expect_tests=True, timeout=800)
    tests = [(''.join(map(chr, t)), [''.join(map(chr, x)) for x in out]) for t, out in tests]
    tests.sort()
    scs, parts = [], gla.batches(tests, 400)
    for i, part in enumerate(parts):
        scs.append({'id': 'english%d' % i, 'kind': 'index', 'lang': [None, 'en', 'en@new', 'en@default', 'en@clone'][i % 5], 'ops': [['fields', ['f']], ['build']] + [['add', str(k), [t]] for k, (t, _) in enumerate(part)] + [['dump']]})
    for s, part, o in zip(scs, parts, c.run(b, scs)):
        e = o['events'][-1]
        c.require(e['e'] == 'dump', 'indexing fails', script=s, seen=e)
        seen = {}
        for tok, d, n in replay.postings(e['index'])['f']:
            seen.setdefault(d, []).extend([tok] * n)
        info = {r: dict(map(tuple, d)) for r, d in e['store']['info']}
        for k, (t, out) in enumerate(part):
            c.require(sorted(seen.get(str(k), [])) == sorted(out) and info[str(k)]['f'] == len(out), 'the tokens of a text differ from the specification',
                      given=t, want=out, seen=[seen.get(str(k), []), info.get(str(k))])
    c.count_tests('texts of the model', len(tests))


@check('C14')
def c14(c):
    b = c.build()
    rng = c.rng
    english_model(c, b)
    tests = trim_model(c, 5)
    for w, v, p, q in ('a_.é', 'Z9-\'', '0k日😀', 'q8\n\r', 'bC \u2028'):
        trim_tests(c, b, 'en', tests, lambda ts: gla.stage('en', 'trimmer', ts, per=5000, tag='-model'), {'w': w, 'v': v, 'p': p, 'q': q})
    lang_traces(c, b, 'every code point', [gla.sweep('trim', 'en', stage='trimmer', word=w) for w in ('a', '_', '9Z', 'a.b')]
                + [gla.sweep('map', 'en', stage='stopWordFilter', word='qx')])
    short = [''.join(t) for k in range(c.pick(5, 6)) for t in itertools.product('a_.é\'Z', repeat=k)] + gn.language_tokens()
    lang_traces(c, b, 'sequences', gla.trim_grids(rng, 'en', ['a', 'Z_9'], c.thorough) + [gla.stop_grids('en', c.thorough)])
    rnd = [gla.token(rng, 'en') for _ in range(c.pick(3000, 30000))]
    scs = gla.stage('en', 'trimmer', short + rnd + gla.stops('en'))
    longs = gla.long_runs('a', ".é'") + gla.long_runs('Z9_a', ['.-', '日']) + gla.long_runs('é.', ['a_']) + gla.long_words('a.b') + gla.long_words('é')
    for w in gla.ways('en'):
        scs += gla.stage(w, 'trimmer', (longs if c.thorough else [t for t in longs if len(t) < 700] + rng.sample(longs, 20)) if w == 'en' else rng.sample(longs, 40) + rng.sample(rnd, 100), per=100, tag='-long')
        scs += gla.stage(w, 'stopWordFilter', gla.stops('en') + rng.sample(rnd, 100), tag='-way')
    near = [n for w in gla.stops('en') for n in [w] + gla.near(w) + gla.lookalikes(w)]
    others = [w for x in gla.STOPPED for w in gla.stops(x)]
    scs += gla.stage('en', 'stopWordFilter', list(dict.fromkeys(near + others + rnd[:1000] + ['', ' '] + list(gla.words('en')))))
    lang_traces(c, b, 'stages', scs)
    # around the stop words, after trimming and before stemming
    wrapped = [p + w + s for w in gla.stops('en') for p, s in (('', ''), ('"', '"'), ('', '.'), ('(', ''), ('', "'s"), ('', 's'), ('é', ''), ('', 'ing'), ('', 'ed'), ('', 'e'), ('_', ''), ('', 'y'))]
    runs = gla.batches(wrapped + gla.lower_only(rnd[:2000] + gn.language_tokens()) + ['', '.', '...', '\'', '-', 'é', 'ons', 'hases', 'its', 'says'], 60)
    runs = gla.langrun('en', runs) + gla.langrun('en', [gla.lower_only(x) for x in gla.batches([t for t in longs if len(t) < c.pick(140, 1100)] + rng.sample(longs, 10), 40)], '-long')
    lang_traces(c, b, 'pipeline', runs)


@check('C15')
def c15(c):
    rng = c.rng
    mod = 'SPECIFICATION PMSpec\nCHECK_DEADLOCK FALSE\nCONSTANTS Letters <- %s MaxBase = %d Endings <- %s Emit = %s\nINVARIANTS AfterPlural AfterPast AfterY Agrees Remains NotLonger EmitStem\n%s'
    tests = c.model('counting stemmer, all suffixes', 'MCStemmer', mod % ('LettersFew', 2, 'AllEndings', 'TRUE', 'PROPERTIES Stops'), expect_tests=True)
    c.model('counting stemmer, two letters', 'MCStemmer', mod % ('LettersTwo', c.pick(9, 12), 'NoEndings', 'FALSE', ''), timeout=800)
    c.model('counting stemmer, all short words', 'MCStemmer', mod % (c.pick('LettersFew', 'LettersMore'), c.pick(4, 5), 'NoEndings', 'FALSE', ''), timeout=800)
    if c.thorough:
        c.model('counting stemmer, longer', 'MCStemmer', mod % ('LettersFew', 3, 'AllEndings', 'FALSE', ''), timeout=800)
    b = c.build()
    want = {''.join(map(chr, w)): s for w, s in tests}
    scs = gla.stage('en', 'stemmer', list(want), per=500, tag='-model', enc='u16')
    for s, o in zip(scs, c.run(b, scs)):
        for e in o['events']:
            c.require(e['e'] == 'stage', 'stemming fails', script=s, event=e)
            for t, r in e['r']:
                k = ''.join(map(chr, t))
                c.require(r == [want[k]], 'the stem differs from the specification', script=s, word=k, want=''.join(map(chr, want[k])), seen=r)
    c.count_tests('stems of the model', len(want))
    ws = gla.stem_words(rng, c.pick(3, 4)) + gla.stem_random(rng, c.pick(25000, 400000)) + list(gla.words('en')) + [w for x in gla.SPACED for w in gla.words(x)]
    ws += [''.join(t) for k in range(3) for t in itertools.product('abeisyéd1_\'😀', repeat=k)]
    ws += [w + s for w in gla.words('en') for s in ('', 's', 'ed', 'ing', 'ly', 'ness', 'ation')] + gla.stops('en')
    ws += ['y' * k for k in range(1, 40)] + ['ab' * 500 + 'ational', 'é' * 300 + 'ing', 'a' * 2000, 'y' * 400 + 'ing', 'b' * 1000 + 'ed', 'x' * 70000 + 'ies']
    en = gla.vocabulary('en')
    ws += (en if c.thorough else rng.sample(en, 6000)) + [rng.choice(gla.vocabulary(rng.choice(gla.SPACED))) for _ in range(c.pick(1500, 20000))]
    ws += gn.language_tokens() + [w + s for w in rng.sample(gn.language_tokens(), 60) for s in ('s', 'ing', 'ed')]
    ws = list(dict.fromkeys(w.lower() for w in ws))
    some = rng.sample(en, 40)
    ws += [w + x for w in some for x in gla.CLITICS_BACK] + [x + w for w in some for x in gla.CLITICS_FRONT]
    lang_traces(c, b, 'words without a suffix', gla.stem_grids(rng, c.thorough))
    lang_traces(c, b, 'words', gla.stage('en', 'stemmer', ws, per=300, enc='u16'), chunk=600, timeout=800)


@check('C16')
def c16(c):
    b = c.build('all')
    rng = c.rng
    fixed = gla.MIXES + gla.SIGMAS + gla.CASES + gla.texts(rng, 30) + ['a' * 2000, 'я' * 2000, 'x' * 500 + 'ational', '😀' * 300, '\u0301' * 300, "'" * 500, '的' * 500, 'ـ' * 500, 'y' * 3000, 'а́' * 300, '가' * 500, 'ー' * 500]
    fixed += [a * n + z for a in ('a', 'é', 'я', '日', ' ', '.', '\u0301', 'が', '😀') for n in (255, 256, 4096) for z in ('', 'ing')] + gla.FILLERS
    giant = ['b ' * 66000, 'aé.' * 25000, '. ' * 40000, 'а\u0301б' * 14000, '-' * 70000, 'b' * 40000 + '\u0301' * 30000]
    fixed += [a + z + a for z in gla.KINDS for a in ('', 'a')] + gla.SUFFIXES + gn.language_tokens() + gn.language_texts() + [' '.join(d * n + z for n in list(range(1, 45)) + [310, 400] for z in ('', '.5', 'e9', 'x')) for d in '10９٣'] + gn.odd_texts()
    # lengths in bytes and in characters, with wide characters at every place
    def wide(x):
        own = sorted({ch for w in gla.words(x) for ch in w if ord(ch) > 127 and gla.settled(ch)}) or ['é']
        cs = rng.sample(own, min(3, len(own))) + ['é', '日', '😀']
        return [' '.join('a' * k + ch * n + z for k in range(4) for n in (9, 17, 33, 65, 130, 260, 350, 520, 700, 1030, 2100) for z in ('', 'ing.')) for ch in cs]
    scs = []
    for x in gla.LANGS:
        n = c.pick(10000, 300000) if x not in ('zh', 'ja') else c.pick(5000, 80000)
        parts = 4
        fx = list(dict.fromkeys(fixed + (wide(x) if x not in ('zh', 'ja') else []) + list(gla.words(x))[:600] + [gla.text(rng, x) for _ in range(60)]))
        for k in range(parts):
            scs.append({'id': 'fuzz-%s-%d' % (x, k), 'kind': 'fuzz', 'lang': x, 'n': n // parts, 'seed': rng.randrange(1, 2 ** 31),
                        'samples': [gla.sample(x), gla.sample('en'), gla.KINDS, gla.sample(rng.choice(gla.LANGS)), ' '.join(gla.stops(x)) or gla.sample(x), ' '.join(gla.SUFFIXES)],
                        'fixed': fx[k::parts] + (giant if k == 0 and x not in ('zh', 'ja') else ['aé.' * 2000, '. ' * 3000, '日本語と中文' * 1000] if k == 0 else [])})
    rng.shuffle(scs)
    lang_traces(c, b, 'any text', scs)
    # the pipeline never yields an empty token, token by token
    scs = []
    for x in gla.LANGS:
        scs += gla.langrun(x, gla.batches(['', ' ', '.', 'a.', "'", '\u0301', 'ـ', 'ーー', '0', '_', '__'] + [gla.token(rng, x) for _ in range(c.pick(100, 1500))], 50))
    for s, o in zip(scs, c.run(b, scs)):
        for e in o['events']:
            c.require(e['e'] == 'lr' and [] not in e['out'], 'a pipeline fails or yields an empty token', script=s, event=e)
    c.count_tests('pipelines without empty tokens', len(scs))
    native(c, b)


def native(c, b):
    """A very long token on an ordinary stack."""
    for lang, ch, n in (('en', 'a', 3000), ('en', 'y', 3000), ('ru', 'я', 3000), ('en', 'a', 150000)):
        p = c.path('native.json')
        word = ch * n
        json.dump({'id': 'native', 'kind': 'index', 'lang': lang, 'enc': 'cp', 'ops': [['fields', ['f']], ['build'], ['add', '1', [word]], ['bytes']]}, open(p, 'w'))
        r = subprocess.run([b, '--native', p], capture_output=True, text=True, errors='replace', timeout=300)
        ok = r.returncode == 0 and '"e":"bytes"' in r.stdout and '"ok":true' in r.stdout
        if not ok and n > 50000 and r.returncode < 0 and 'overflowed its stack' in r.stderr:
            c.known.setdefault('C16-stack', set()).add(lang)
            continue
        c.require(ok, 'indexing a token of %d characters fails' % n, lang=lang, char=ch, code=r.returncode, err=r.stderr[-400:], out=r.stdout[-400:])
        c.count_tests('long tokens on an ordinary stack', 1)


WORDS_IN = {'ru': ['я', 'яѣя'], 'ja': ['日', 'aか'], 'zh': ['日', 'é.日'], 'ko': ['가', 'aㄱ']}


@check('C17')
def c17(c):
    b = c.build('all')
    rng = c.rng
    tests = trim_model(c, c.pick(5, 6))
    for x in gla.TRIMMED:
        w, v = WORDS_IN.get(x, ['a', 'é'])[0], {'ru': 'ѣ', 'ja': 'か', 'zh': '国', 'ko': 'ㄱ'}.get(x, 'ÿ')
        trim_tests(c, b, x, tests, lambda ts: gla.stage(x, gla.trimmer(x), ts, per=5000, tag='-model'), {'w': w, 'v': v, 'p': '.', 'q': 'a' if x == 'ru' else 'ж'})
        trim_tests(c, b, x, tests, lambda ts: gla.stage(x, gla.trimmer(x), ts, per=5000, tag='-modelnl'), {'w': w, 'v': v, 'p': '\n', 'q': rng.choice('\r -\u2028\u0085')})
    lang_traces(c, b, 'every code point', [gla.sweep('trim', x, stage=gla.trimmer(x), word=w) for x in gla.TRIMMED for w in WORDS_IN.get(x, ['a', 'é\'Z'])])
    lang_traces(c, b, 'sequences', [s for x in gla.TRIMMED for s in gla.trim_grids(rng, x, WORDS_IN.get(x, ['a', 'é\'Z']), c.thorough)])
    scs = []
    for x in gla.TRIMMED:
        w = WORDS_IN.get(x, ['a'])[0]
        short = [''.join(t) for k in range(c.pick(5, 6)) for t in itertools.product([w, '.', '1', 'ж' if x != 'ru' else 'a', '😀'], repeat=k)]
        scs += gla.stage(x, gla.trimmer(x), short + gn.language_tokens() + [gla.token(rng, x) for _ in range(c.pick(400, 5000))] + [w * 300 + '.' * 300, '.' * 300, '.' * 300 + w])
        f = ['.', '1', 'ж' if x != 'ru' else 'a']
        longs = gla.long_runs(w, f) + gla.long_words(w + '.') + gla.long_runs('.', [w])
        for i, y in enumerate(gla.ways(x)):
            scs += gla.stage(y, gla.trimmer(x), longs if c.thorough else rng.sample([t for t in longs if len(t) < 1200], 60 if i == 0 else 10) + rng.sample(longs, 8), per=100, tag='-long')
    lang_traces(c, b, 'tokens', scs)


@check('C18')
def c18(c):
    b = c.build('all')
    rng = c.rng
    every = list(dict.fromkeys(w for x in gla.STOPPED for w in gla.stops(x)))
    scs = []
    for x in gla.STOPPED:
        near = [n for w in gla.stops(x) for n in gla.near(w)]
        like = [n for w in gla.stops(x) for n in gla.lookalikes(w)]
        if not c.thorough:
            near = rng.sample(near, min(len(near), 1200)) + rng.sample(like, min(len(like), 2500))
        else:
            near += like
        for w in gla.ways(x)[1:] if x not in ('zh', 'ja') else [x + '@new', x + '@clone']:
            scs += gla.stage(w, gla.stopper(x), gla.stops(x) + rng.sample(near, min(len(near), 50)), per=500, tag='-way')
        scs += gla.stage(x, gla.stopper(x), list(dict.fromkeys(every + near + list(gla.words(x)) + ['', ' ', '.', '的', '了', '的了'] + gn.language_tokens() + [gla.token(rng, x) for _ in range(c.pick(100, 2000))])), per=500)
    lang_traces(c, b, 'words of all lists', scs)
    lang_traces(c, b, 'every character', [gla.sweep('map', x, stage=gla.stopper(x), word='qx') for x in gla.STOPPED])
    lang_traces(c, b, 'vocabularies', gla.many_words(c, [(x, gla.stopper(x)) for x in gla.STOPPED]) + [gla.stop_grids(x, c.thorough) for x in gla.STOPPED])


@check('C19')
def c19(c):
    b = c.build('all')
    rng = c.rng
    lang_traces(c, b, 'every code point', [gla.sweep('map', 'ar', stage='stemmer-ar', word=w) for w in ('ب', 'اب', 'a')])
    ts = gla.arabic(rng, c.pick(4000, 60000), c.pick(4, 6)) + gn.language_tokens() + gla.settled_only(gla.vocabulary('ar')[::c.pick(4, 1)])
    lang_traces(c, b, 'very many tokens', gla.arabic_grids(rng, c.thorough))
    longs = [w for n in gla.RUNS for w in ('َ' * n + 'ب', 'ب' + 'ـ' * n, 'بَ' * n, 'ب' * n, 'ب' * n + 'ى', 'أ' + 'ّ' * n, 'ـ' * n + 'آ' + 'ـ' * n, 'ب' * n + 'َ' + 'ب' * 3, 'a' * n + 'ـ')]
    lang_traces(c, b, 'tokens', gla.stage('ar', 'stemmer-ar', ts + (longs if c.thorough else [w for w in longs if len(w) < 2500]), per=250)
                + [s for w in gla.ways('ar')[1:] for s in gla.stage(w, 'stemmer-ar', rng.sample(ts, 200), per=250, tag='-way')])
    lang_traces(c, b, 'pipeline', gla.langrun('ar', gla.batches(ts[::c.pick(7, 3)], 80)))


@check('C20')
def c20(c):
    rng = c.rng
    scs, outs = [], []

    def go(binary, enabled):
        s = gla.registry(enabled)
        scs.append(s)
        outs.extend(c.run(binary, [s]))
    go(c.build(alike=True), ['en'])
    opt = gla.LANGS[1:]
    # subsets of the languages that tell any two apart, then each by itself
    subsets = [[x for i, x in enumerate(opt) if i >> k & 1] for k in range(5)]
    if c.thorough:
        subsets += [[x] for x in opt] + [[y for y in opt if y != x] for x in opt]
    for s in subsets:
        go(c.build(repo_features=s), ['en'] + s)
    b = c.build('all')
    go(b, gla.LANGS)
    c.sample({k: v for k, v in scs[-1].items() if k != 'names'})
    c.validate('registry', 'RegistryTrace', outs, scs)
    # what an index in each language serializes, whatever was done to it
    ix = []
    for x in gla.LANGS:
        ix.append(gi.S('lang-' + x, [['fields', ['f']], ['build'], ['dump'], ['add', '1', [gla.sample(x)[:60]]], ['dump'], ['new', x, ['f', 'g']], ['dump']], x))
    ix += gi.mimics(rng, 10)
    c.validate('serialized names', 'IndexTrace', c.run(b, ix), ix)


@check('C21')
def c21(c):
    b = c.build('all')
    rng = c.rng
    scs = []
    for x in ('zh', 'ja'):
        for i, t in enumerate(gla.batches(list(dict.fromkeys(gla.seg_texts(rng, x, c.pick(1200, 20000)) + (gla.sentences(x) if c.thorough else rng.sample(gla.sentences(x), 600)) + gn.language_texts())), 40)):
            scs.append({'id': 'seg-%s-%d' % (x, i), 'kind': 'seg', 'lang': x, 'texts': t})
        for w in gla.ways(x)[1:]:
            if x == 'zh' and w != 'zh@name' and not c.thorough:
                continue
            scs.append({'id': 'seg-%s' % w, 'kind': 'seg', 'lang': w, 'texts': gla.FILLERS + rng.sample(gla.MIXES, 20) + [gla.sample(x)[:500]]})
    for x in ('zh', 'ja'):
        for i, t in enumerate(gla.batches(gla.seg_long(x), 6)):
            scs.append({'id': 'seg-%s-long%d' % (x, i), 'kind': 'seg', 'lang': x, 'texts': t})
    for x in ('zh', 'ja'):
        for i, t in enumerate(gla.batches(gla.class_texts(rng, x), 60)):
            scs.append({'id': 'seg-%s-class%d' % (x, i), 'kind': 'seg', 'lang': x, 'texts': t})
    scs.sort(key=lambda s: s['lang'])
    lang_traces(c, b, 'texts', scs)


@check('C24')
def c24(c):
    b = c.build('all')
    rng = c.rng
    scs = []
    for x in gla.LANGS:
        ws = list(gla.words(x))
        ws += gla.stops(x) + [p + w + s for w in gla.stops(x) for p, s in (rng.choice([('.', ''), ('', '.'), ('«', '»'), ('1', ''), ('', '\'s')]),)]
        ws += [rng.choice(ws) + rng.choice(['', '.', 'en', 's', 'ами', 'er', 'heden', 'issimo', 'ção', 'lar', 'ности', 'ungen', 'ette']) for _ in range(c.pick(400, 4000))]
        ws += [gla.token(rng, x) for _ in range(c.pick(300, 5000))]
        ws += [rng.choice(gla.words(o)) for o in gla.LANGS for _ in range(4)]
        v = gla.settled_only(gla.vocabulary(x) + gla.classes(x))
        ws += v if c.thorough else rng.sample(v, 350)
        ws += [rng.choice(gla.vocabulary(rng.choice(gla.SPACED))) for _ in range(c.pick(40, 1500))]
        ws += gn.language_tokens()
        if x == 'en':
            ws = gla.lower_only(ws)
        rng.shuffle(ws)
        u = [w for w in gla.words(x) if len(w) > 2]
        longs = [w * k + v for k in (3, 8, 16, 30, 64) for w, v in [(rng.choice(u), rng.choice(u)) for _ in range(6)]]
        longs += gla.long_words(u[0], gla.RUNS[:14]) + [u[1] + u[0] * n for n in (4, 9, 20)] + [''.join(rng.sample(u, 12)) for _ in range(20)]
        lists = gla.batches(ws, 60) + [[], [''], ['', 'a', ''], ws[:5] * 4] + gla.batches(longs, 20)
        scs += gla.langrun(x, lists)
        for w in gla.ways(x)[1:] if x not in ('zh', 'ja') else [x + '@new', x + '@clone']:
            scs += gla.langrun(w, [ws[:60], ws[60:120], ws[:60]])
    # the languages in turn, in one process
    for i in range(c.pick(60, 500)):
        x = rng.choice([x for x in gla.LANGS if x not in ('zh', 'ja')])
        scs += gla.langrun(x, [gla.lower_only([rng.choice(gla.words(rng.choice(gla.SPACED))) for _ in range(40)])], '-turn%d' % i)
    head, tail = scs[:8], scs[8:]
    rng.shuffle(tail)
    scs = head + tail
    lang_traces(c, b, 'pipelines', scs)
    lang_traces(c, b, 'very many tokens', [gla.run_grids(rng, x, c.thorough) for x in gla.TRIMMED])


LIKE = {'m1': 'en', 'm2': 'de', 'm3': 'en', 'm4': 'en', 'm5': 'en', 'm6': 'en', 'm7': 'ja', 'm8': 'ja', 'm9': 'zh', 'tg': 'en', 'rw': 'en'}


def lang_index(rng, i, lang, docs, obs='dump', enc=None, tks=True, default=False):
    names = rng.sample(gi.NAMES[:8], rng.choice([1, 1, 2, 3]))
    refs = rng.sample(gi.REFS, rng.randint(1, 4))
    ops = gi.declare(rng, names, tks)
    if rng.random() < .2:
        ops = [['new', None if default else lang, names]]
    for _ in range(docs):
        v = []
        for _ in names[:rng.choice([len(names), len(names), rng.randint(0, len(names))])]:
            like = LIKE.get(lang, lang)
            s = gla.sample(like)
            k = rng.randrange(len(s))
            v.append(rng.choice([s[k:k + rng.randint(0, 60)], gla.text(rng, like, 6), ' '.join(rng.choice(gla.words(like)) for _ in range(rng.randint(0, 12))) * rng.randint(1, 3)]))
        ops += [['add', rng.choice(refs), v], [obs]]
    s = gi.S('li-%s%d' % (lang, i), ops, None if default else lang)
    if enc:
        s['enc'] = enc
    return s


@check('C26')
def c26(c):
    b = c.build('all')
    rng = c.rng
    english_model(c, b)
    scs = []
    n = c.pick(14, 150)
    for x in gla.LANGS:
        for i in range(n):
            scs.append(lang_index(rng, i, x, rng.randint(1, 4)))
    for x in gla.LANGS:
        for w in gla.ways(x)[1:] if x not in ('zh', 'ja') or c.thorough else [x + '@new', x + '@default', x + '@clone']:
            for i in range(c.pick(2, 20)):
                s = lang_index(rng, i, x, 2)
                s['lang'] = w
                s['ops'] = [[o[0], w, o[2]] if o[0] == 'new' else o for o in s['ops']]
                scs.append(dict(s, id='way-%s-%d' % (w, i)))
    for i in range(c.pick(60, 600)):
        scs.append(dict(lang_index(rng, i, 'en', 2, enc='cp', tks=False, default=True), id='viadefault%d' % i, via='default'))
        scs.append(dict(lang_index(rng, i, 'en', 2, enc='cp', tks=False), id='full%d' % i))
        scs.append(dict(lang_index(rng, i, 'en', 2, enc='cp', tks=False, default=True), id='default%d' % i))
    scs += gi.randoms(rng, c.pick(150, 1500)) + gi.curated() + gi.mimics(rng, c.pick(60, 600)) + gi.scaled(rng, thorough=c.thorough, langs=('rw', 'tg', 'm1', 'm2', 'm5', 'm7'))
    scs += [gi.alike_in_turn(rng, i) for i in range(c.pick(60, 600))] + [gi.nested(rng, i) for i in range(c.pick(40, 400))]
    scs += gi.long_texts([x for x in gla.LANGS if x not in ('zh', 'ja')] if c.thorough else ['en', 'de', 'ru', 'ar', 'ko'], lambda x: gla.words(x)[:2])
    scs += names_and_counts(c) + gn.in_languages(rng, gla.LANGS)
    for s in scs:
        if s['id'] == 'case':
            c.sample(s)
    index_traces(c, b, scs)


# ------------------------------------------------------------------ building blocks
def trim_model(c, n):
    return c.model('trimming machine', 'MCTrimming', 'SPECIFICATION TrSpec\nCHECK_DEADLOCK FALSE\nINVARIANTS Exact WordsKept InsideKept Stable Additive EmitTrim\nPROPERTIES EndsAlways\n'
                   'CONSTANTS WordLetters = {"w", "v"} ForeignLetters = {"p", "q"} MaxText = %d Emit = TRUE\n' % n, expect_tests=True)


def trim_tests(c, b, name, tests, script, letters):
    """All texts of the model, with the letters of the model written as given."""
    tr = str.maketrans(letters)
    want = {''.join(t['t']).translate(tr): ''.join(t['r']).translate(tr) for t in tests}
    scs = script(list(want))
    n = 0
    for s, o in zip(scs, c.run(b, scs)):
        for e in o['events']:
            c.require(e['e'] in ('stage', 'trimblock'), 'trimming fails', script=s, event=e)
            for t, r in e['r']:
                t = ''.join(map(chr, t))
                got = [''.join(map(chr, x)) for x in r]
                n += 1
                c.require(got == [want[t]] or (want[t] == '' and got == []), '%s: trimming differs from the specification' % name, script=s, input=t, want=want[t], seen=got)
    c.require(n == len(want) * len(scs), '%s: trimming fails' % name, script=scs[0])
    c.count_tests('trimmed texts', n)


@check('C27')
def c27(c):
    b = c.build('all')
    rng = c.rng
    tests = trim_model(c, c.pick(5, 6))
    for cl, cs in gla.CLASSES:
        f = [x for x in gla.OTHERS + 'bß' if x not in cs]
        if len(cs) > 1 and len(f) > 1:
            trim_tests(c, b, 'class ' + cl, tests, lambda ts: [{'id': 'model', 'kind': 'blocks', 'ops': [{'block': 'trim', 'name': 'n', 'class': cl, 'ranges': [], 'toks': ts}]}],
                       {'w': cs[0], 'v': cs[-1], 'p': f[0], 'q': f[1]})
    scs = gla.blocks(rng, c.pick(110, 1500), c.pick(60, 1500)) + gla.siblings(rng) + gla.chains(rng, c.pick(300, 4000))
    rng.shuffle(scs)
    lang_traces(c, b, 'blocks', scs, chunk=1500)


# ------------------------------------------------------------------ independence
def several_tests(c, b, tests):
    """Two indexes of one process after any interleaving of their histories."""
    scs = []
    for i, t in enumerate(tests):
        ops, at, made = [], 1, {1}
        begin = {1: [['fields', ['f']], ['build']], 2: [['save', False], ['ref', 'g'], ['fields', ['f', 'g']], ['build']]}
        lg = {1: 'rw', 2: 'tg'}
        ops += begin[1]
        for k, r, v in t['done'] + [[1, None, None], [2, None, None]]:
            if k != at:
                ops.append(['use', k - 1, lg[k]])
                at = k
            if k not in made:
                made.add(k)
                ops += begin[k]
            ops.append(['dump'] if r is None else ['add', r, [''.join(x) for x in v]])
        scs.append(gi.S('t%d' % i, ops, 'rw'))
    for s, t, o in zip(scs, tests, c.run(b, scs)):
        dumps = [e for e in o['events'] if e['e'] == 'dump']
        c.require(len(dumps) == 2, 'failure', script=s, seen=o['events'][-1])
        for e, w in zip(dumps, t['end']):
            x, y = replay.index_seen(e), replay.index_want(w)
            for k in x:
                c.require(x[k] == y[k], '%s differs from the specification' % k, script=s, want=y[k], seen=x[k])
    c.count_tests('interleavings', len(tests))


def threads(i, inner, n=4, rep=1):
    return {'id': 'threads-%s' % i, 'kind': 'threads', 'n': n, 'rep': rep, 'inner': [dict(x, id='inner') for x in inner], **({'hdr': inner[0]['hdr']} if 'hdr' in inner[0] else {})}


def in_threads(scs, per, n=4, rep=1):
    return [threads(i, x, n, rep) for i, x in enumerate(gla.batches(scs, per))]


def thread_words(c, langs):
    """Words of all lengths, each thread with others at a time, again and again."""
    rng = c.rng
    out = []
    for x in langs:
        pool = list(gla.words(x))
        def some(n):
            ws = [''.join(rng.choice(pool) for _ in range(4000))[:rng.choice([n, n + 1, 2 * n])] for _ in range(6)]
            return gla.lower_only(ws) if x == 'en' else ws
        # every script of a batch has words of one length, so that the threads meet there
        for n in (2, 6, 12, 25, 61, 90, 130, 257, 600) if c.thorough else sorted(rng.sample((2, 6, 12, 25, 61, 90, 130, 257, 600), 5)):
            out.append(threads('long-%s-%d' % (x, n), [s for k in range(4) for s in gla.langrun(x, [some(n)], '-%d' % k)], 4, c.pick(12, 200)))
        out.append(threads('longt-%s' % x, gla.tok(x, [' '.join(some(n)) for n in (5, 70, 300, 1100)], per=1, tag='-l'), 4, c.pick(12, 200)))
    return out


@check('C28')
def c28(c):
    b = c.build('all')
    rng = c.rng
    tests = c.model('two indexes', 'MCSeveral', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Independent EmitState\nPROPERTIES OneAtATime\nCONSTANTS Refs = {"1", "g"} Values <- ValuesTwo MaxEach = 2 Emit = TRUE\n', expect_tests=True)
    c.sample(tests[len(tests) // 2])
    several_tests(c, b, tests)
    quick = [x for x in gla.LANGS if x not in ('zh', 'ja')]
    ix = [gi.side_by_side(rng, i) for i in range(c.pick(150, 1500))] + [gi.alike_in_turn(rng, i) for i in range(c.pick(120, 1200))] + [f(rng, i) for f in (gi.broken, gi.nested) for i in range(c.pick(80, 800))]
    # with the languages that come with the library: one after the other, in turn, in threads
    for i in range(c.pick(120, 1200)):
        two = rng.sample(quick, 3) if i % 3 else rng.choice([['en', 'm1', 'm4'], ['de', 'm2', 'da'], ['m1', 'en', 'm3'], ['m2', 'de', 'tg'], ['m4', 'en', 'rw'], ['en', 'en', 'en'], ['m5', 'm7', 'tg'], ['m6', 'en', 'm9']])
        parts = [lang_index(rng, i, x, 3)['ops'] for x in two]
        ops, at = [], 0
        todo = [list(p) for p in parts]
        while any(todo):
            k = rng.choice([k for k in range(3) if todo[k]])
            if k != at:
                ops.append(['use', k, two[k]])
                at = k
            ops.append(todo[k].pop(0))
        ix.append(gi.S('turn%d' % i, ops, two[0]))
    inner = gi.scaled(rng)[::3] + gn.near_alike(rng)[::3] + [lang_index(rng, i, x, 2) for i in range(c.pick(3, 20)) for x in quick] + gi.randoms(rng, c.pick(60, 600), docs=3) + [gi.side_by_side(rng, i) for i in range(c.pick(30, 300))] + [gi.alike_in_turn(rng, i) for i in range(c.pick(30, 300))] + [f(rng, i) for f in (gi.broken, gi.nested) for i in range(c.pick(30, 300))]
    rng.shuffle(inner)
    # thousands of the same, one after the other
    many = [gi.S('m', [['save', v], ['fields', ['f', 'g']], ['ref', 'g'], ['build'], ['add', '1', ['a b a', 'x']], ['dump']], x) for v in (True, False) for x in ('rw', 'tg', 'm5', 'en')]
    many += [gi.S('m', [['new', x, ['f']], ['dump'], ['add', 'x', ['b']], ['add', 'x', ['a']], ['dump']], x) for x in ('rw', 'm7', 'en')]
    scs = ix + in_threads(inner, 12) + [threads('many-%d' % i, [x], 1, c.pick(3000, 70000)) for i, x in enumerate(many)]
    scs += [threads('differ-%d' % i, gi.all_different(rng, c.pick(600, 5000)), 1) for i in range(4)]
    outs = c.run(b, scs, jobs=3)
    c.sample(scs[-1]['inner'][0])
    c.validate('indexes', 'IndexTrace', outs, scs, cfg=HOLDS)
    inner = []
    for x in quick:
        ws = lambda: gla.lower_only([gla.token(rng, x) for _ in range(15)] + [rng.choice(gla.words(x)) for _ in range(15)])
        inner += gla.langrun(x, [ws(), ws()]) + gla.tok(x, [gla.text(rng, x) for _ in range(6)], tag='-t')
        if x in gla.STOPPED:
            inner += gla.stage(x, gla.stopper(x), rng.sample(gla.stops(x), min(15, len(gla.stops(x)))) + [rng.choice(gla.words(rng.choice(quick))) for _ in range(15)], tag='-s')
        if x in gla.TRIMMED:
            inner += gla.stage(x, gla.trimmer(x), [gla.token(rng, x) for _ in range(20)], tag='-r')
    inner += gla.blocks(rng, 30, 10) + gla.chains(rng, 20)
    rng.shuffle(inner)
    scs = in_threads(inner, 14) + thread_words(c, quick) + [threads('many-%d' % i, x, 1, c.pick(400, 20000)) for i, x in enumerate(gla.batches(gla.blocks(rng, 6, 3) + [s for x in quick for s in gla.langrun(x, [gla.lower_only(rng.sample(gla.words(x), 5))], '-m')], 6))]
    scs += gla.siblings(rng)
    c.validate('languages', 'LangTrace', c.run(b, scs, jobs=3), scs)
    scs = in_threads([x for x in gl.pipes(rng, 1, c.pick(80, 800)) if len(x['fns']) < 60 and len(str(x)) < 4000], 10)
    scs += [threads('many-%d' % i, [x], 1, c.pick(3000, 70000)) for i, x in enumerate([x for x in gl.pipes(rng, 1, 20) if len(str(x)) < 400][:8])]
    c.validate('pipelines', 'PipelineTrace', c.run(b, scs, jobs=3), scs)
    scs = in_threads([gl.inv_random(rng, i, 10) for i in range(c.pick(100, 1000))], 10) + [threads('many-%d' % i, [gl.inv_random(rng, i, 4)], 1, c.pick(1500, 70000)) for i in range(8)]
    c.validate('inverted indexes', 'InvTrace', c.run(b, scs, jobs=3), scs, cfg=HOLDS)
    st = [gl.store_random(rng, i, 10) for i in range(c.pick(100, 1000))]
    scs = [dict(t, id='%s-%s' % (t['id'], v)) for v in (True, False) for t in in_threads([x for x in st if x['save'] == v], 10)]
    scs += [threads('many-%d' % i, [gl.store_random(rng, i, 4)], 1, c.pick(5000, 70000)) for i in range(8)]
    c.validate('stores', 'StoreTrace', c.run(b, scs, jobs=3), scs, cfg=HOLDS)
