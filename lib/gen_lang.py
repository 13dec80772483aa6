"""Scripts for the built-in languages."""
import functools
import gzip
import itertools
import json
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))
DATA = os.path.join(os.path.dirname(HERE), 'spec', 'data')
LANGS = ['en', 'ar', 'zh', 'da', 'du', 'fi', 'fr', 'de', 'hu', 'it', 'ja', 'ko', 'no', 'pt', 'ro', 'ru', 'es', 'sv', 'tr']
NAMES = {'en': 'English', 'ar': 'Arabic', 'zh': 'Chinese', 'da': 'Danish', 'du': 'Dutch', 'fi': 'Finnish', 'fr': 'French', 'de': 'German', 'hu': 'Hungarian',
         'it': 'Italian', 'ja': 'Japanese', 'ko': 'Korean', 'no': 'Norwegian', 'pt': 'Portuguese', 'ro': 'Romanian', 'ru': 'Russian', 'es': 'Spanish',
         'sv': 'Swedish', 'tr': 'Turkish'}
SPACED = [x for x in LANGS if x not in ('zh', 'ja')]
TRIMMED = [x for x in LANGS if x not in ('en', 'ar')]
STOPPED = [x for x in LANGS if x not in ('ar', 'ja')]
SMALL = ['da', 'de', 'du', 'es', 'fi', 'fr', 'hu', 'it', 'ko', 'no', 'pt', 'ro', 'ru', 'sv', 'tr', 'ar']   # quick to build


@functools.lru_cache(None)
def data(name):
    return json.load(open(os.path.join(DATA, name + '.json'), encoding='utf-8'))


@functools.lru_cache(None)
def sample(lang):
    return open(os.path.join(HERE, 'texts', lang + '.txt'), encoding='utf-8').read()


@functools.lru_cache(None)
def words(lang):
    if lang in ('zh', 'ja'):
        t = ''.join(sample(lang).split())
        return tuple(dict.fromkeys(t[i:i + n] for i in range(0, len(t) - 4) for n in (1, 2, 3)))
    return tuple(dict.fromkeys(sample(lang).replace('-', ' ').lower().split()))


@functools.lru_cache(None)
def _vocabulary():
    return json.loads(gzip.open(os.path.join(HERE, 'words.json.gz')).read())


def vocabulary(lang):
    """Very many words of a language (tools/vocabulary.py), in lower case."""
    return _vocabulary()['words'].get(lang, [])


def sentences(lang):
    return _vocabulary()['texts'].get(lang, [])


def classes(lang):
    """Words of every class of the dictionary of a segmenter."""
    return _vocabulary()['classes'].get(lang, [])


def class_texts(rng, lang):
    """Each of these words alone and among others."""
    ws = settled_only(classes(lang))
    around = [('東京', '日本'), ('本を', 'と言う'), ('', 'です'), ('食べ', '。'), ('3', '人')] if lang == 'ja' else [('北京', '中国'), ('我们', '了'), ('', '的人'), ('吃', '。'), ('3', '个')]
    out = list(ws)
    for w in ws:
        a, b = rng.choice(around)
        out.append(a + w + b)
    for _ in range(len(ws) // 3):
        out.append(''.join(rng.sample(ws, rng.choice([2, 3, 5]))))
    return out


def settled_only(xs):
    return [x for x in xs if all(map(settled, x))]


def stops(lang):
    return data('stopwords').get(lang, [])


@functools.lru_cache(None)
def skipped():
    return [tuple(x) for x in data('chars')['skip']]


@functools.lru_cache(None)
def settled(c):
    x = ord(c) if isinstance(c, str) else c
    return not any(a <= x <= b for a, b in skipped()) and not 0xd800 <= x < 0xe000


def ways(lang):
    """Ways to get a language."""
    return [lang + w for w in ('', '@CODE', '@name', '@list', '@new', '@default', '@clone')] + (['ja@config'] if lang == 'ja' else [])


RUNS = (15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 400, 511, 513, 1023, 1025, 5000)


def long_runs(word, foreign, lengths=RUNS):
    """Long runs of what does not belong to the word, at either end, at both, in the middle and alone."""
    out = []
    for n in lengths:
        for f in foreign:
            out += [f * n + word, word + f * n, f * n + word + f * n, f * n, word + f * n + word]
    return out


def long_words(word, lengths=RUNS):
    return [word * n for n in lengths if n * len(word) < 6000]


def batches(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


# characters of all kinds, settled in every version of Unicode in use
KINDS = ('abzAZ019_' 'éÉßñøÅœŒ' 'ıİſKÅ' 'ΣσςΑά' 'юЮёЁѣ' '가힣ㄱᄀ' '日的了々〆' 'ひゝーカｶﾞヲ' 'بأإآٱىـًٌَُْٓٛاء' '\u0301\u0308\u0345\u00ad\u200d\u200c\u2060'
         '.,;:!?\'"()[]{}<>/\\@#$%^&*+=|~`' '·’‘“”«»…—–‐‑' '٠١२３Ⅷ①½' 'ﬁﬀǅǄʰªº' '😀𝒳𐐀𠀀' '\u0000\u0001\u007f\u0080' '\ufeff\ufffd\ue000')
SPACES = ' \t\n\u000b\u000c\r\u0085\u00a0\u1680\u2000\u2003\u2007\u2009\u200a\u2028\u2029\u202f\u205f\u3000-'
NOSPACES = '\u200b\u180e\u2060\ufeff\u001c\u001d\u001e\u001f\u00ad\u2010\u2011\u2013\u2212_'


def anychar(rng):
    while True:
        c = rng.choice([lambda: rng.randrange(0x250), lambda: rng.randrange(0x250, 0x3000), lambda: rng.randrange(0x3000, 0x10000), lambda: rng.randrange(0x10000, 0x30000)])()
        if settled(c):
            return chr(c)


def kind(rng):
    """A character of some kind, now and then one that separates tokens."""
    return rng.choice(KINDS) if rng.random() < .95 else rng.choice(SPACES)


def token(rng, lang, most=10):
    """A token for a language: a word with things around and inside it, or characters of all kinds."""
    k = rng.random()
    if k < .5:
        w = rng.choice(words(lang)) if rng.random() < .6 or not stops(lang) else rng.choice(stops(lang))
        if rng.random() < .3:
            i = rng.randint(0, len(w))
            w = w[:i] + kind(rng) + w[i:]
        if rng.random() < .7:
            w = ''.join(kind(rng) for _ in range(rng.randint(0, 3))) + w + ''.join(kind(rng) for _ in range(rng.randint(0, 3)))
        return w
    if k < .6:
        o = rng.choice(LANGS)
        return rng.choice(words(o))
    return ''.join(kind(rng) if rng.random() < .8 else anychar(rng) for _ in range(rng.randint(0, most)))


def text(rng, lang, most=12):
    out = []
    for _ in range(rng.randint(0, most)):
        t = token(rng, lang, 6)
        if rng.random() < .3:
            t = t.upper() if rng.random() < .5 else t.title()
        out.append(''.join(x for x in t if settled(x)))
        out.append(''.join(rng.choice(SPACES) if rng.random() < .7 else rng.choice(NOSPACES) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))))
    return ''.join(out)


# ------------------------------------------------------------------ scripts
def sweep(what, lang, **kw):
    return dict({'id': '-'.join(['sweep', what, lang] + [str(x) for x in kw.values()]), 'kind': 'sweep', 'what': what, 'lang': lang, 'skip': skipped()}, **kw)


# what stands before and behind words in a number of languages
CLITICS_FRONT = ("l' l\u2019 d' d\u2019 qu' qu\u2019 j' j\u2019 n' s' c' t' m' un' dell' all' o' o\u2019 mc 't \u2019t 'n \u2019n @ # $ \u20ac \u00a3 \u00a7 \u00b6 \u00bf \u00a1 \u00ab \u201e \u201c \u2018 \u2039 ( [ { < * _ ~ + = \u2022 \u2026 . .. ... www. http:// "
                 "https:// ftp:// mailto: re: un ge al \u0627\u0644 \u0648\u0627\u0644 \ufeff \u200b \u200f \u00ad \u0301 ' \u2019 \" ` \u00b4 no. 1. a) (1) [1] 0x #1 @a +1 \u22121 v1.").split(' ')
CLITICS_BACK = ("'s \u2019s \u02bcs \uff07s `s \u00b4s s' s\u2019 n't n\u2019t 'll \u2019ll 're \u2019re 've \u2019ve 'd \u2019d 'm \u2019m 'em 'n' o'clock in' 'a 'e 'y 'da \u2019da 'de 'in 'nin \u2019n \u2019un :n :s :\u00e4 :aa :ksi , ; : . .. ... \u2026 ! ? !? ?! ) ] } > \u00bb \u201d \u2019 \u203a "
                "\" ' `` '' ** * _ __ ~ % \u2030 \u00b0 \u00b0c \u20ac $ \u2122 \u00ae \u00a9 \u00b2 \u00b3 \u00b9 \u00aa \u00ba (s) [1] [sic] .com .org .html .txt .rs :// /s :) :( ;) &amp; &nbsp; &#39; \\n \\ / // @x #x +x =x 1 2 12 2024 3rd st nd th ing ed ly er est ness "
                "\u200b \ufeff \u200d \u00ad \u0301 \u0308 \u0e4d \u3002 \u3001 \uff01 \u0964 \u061f \u060c \u0640 \u064b \u05f3 \u05f4 \u2032 \u2033 \u00b7 \u2022 \u2020").split(' ')
CLITICS_FRONT = [x for x in dict.fromkeys(CLITICS_FRONT) if x]
CLITICS_BACK = [x for x in dict.fromkeys(CLITICS_BACK) if x]
PUNCT = '!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~'


def trim_grids(rng, lang, words, thorough=False):
    """Every two of all kinds of characters, every three of ASCII punctuation and a few others."""
    two = ''.join(c for c in dict.fromkeys(KINDS + SPACES + NOSPACES) if settled(c))
    three = PUNCT + 'a1é \n' + ('Zя日가か\u0301😀' if thorough else rng.choice('Zя日가か\u0301😀'))
    cl = [x for x in dict.fromkeys(CLITICS_FRONT + CLITICS_BACK) if all(map(settled, x))]
    pairs = [a + b for a in rng.sample(cl, 60) for b in rng.sample(cl, 60)]
    return [{'id': 'grid%d-%s' % (n, lang), 'kind': 'sweep', 'what': 'trimgrid', 'lang': lang, 'stage': trimmer(lang), 'words': words[:k], 'letters': ls, 'depth': n, 'strings': []} for n, ls, k in ((2, two, 2), (3, three, 1))] + [
        {'id': 'grid0-%s' % lang, 'kind': 'sweep', 'what': 'trimgrid', 'lang': lang, 'stage': trimmer(lang), 'words': words, 'letters': ''.join(sorted(set(''.join(cl)))), 'depth': 0, 'strings': cl + pairs}]


def stop_grids(lang, thorough=False):
    """Every short token of some letters."""
    own = ''.join(dict.fromkeys(c for w in stops(lang) for c in w))
    g = [[''.join(map(chr, range(128))), 2], ['0123456789', 3], ['0123456789', 4], [own[:120], 2], [(own if len(own) < 48 else own[:48]), 3], ["abcdefghijklmnopqrstuvwxyz'", 3]]
    if thorough:
        g += [['abcdefghijklmnopqrstuvwxyz', 4], ['0123456789', 5]]
    # around stop words, and stop words in a row
    ws = stops(lang)
    g += [[PUNCT + own[:60], 1, ws, ['', 's']], [PUNCT + own[:60], 1, ['', 'l'], ws], [own[:14 if not thorough else 40], 2, ws, None], [own[:14 if not thorough else 40], 2, None, ws], ['', 0, ws, ws],
          ['', 0, ws, CLITICS_BACK], ['', 0, CLITICS_FRONT, ws], ['', 0, CLITICS_FRONT, [w + x for w in ws[::max(1, len(ws) // 25)] for x in CLITICS_BACK]],
          ['', 0, ws, [sep + w for sep in " -_'’.,/" for w in ws[:40]]], ['', 0, [w * k for w in ws for k in (2, 3, 4, 5)], ['']]]
    return {'id': 'grid-%s' % lang, 'kind': 'sweep', 'what': 'grid', 'lang': lang, 'stage': stopper(lang), 'grids': g}


def tok_grids(rng, lang, thorough=False):
    """Texts without separators and capitals, with anything before and behind a word."""
    v = lower_only(settled_only(vocabulary('en' if lang == 'ws' else lang))) or ['word']
    v = [w for w in v if not any(x in w for x in SPACES)]
    some = rng.sample(v, min(len(v), 8000 if thorough else 800))
    cores = [min(w, key=len) for w in [[x for x in v if len(x) == n] or ['a' * n] for n in (1, 2, 3, 4, 5, 6, 8, 11, 14)]]
    own = ''.join(dict.fromkeys(c for w in some for c in w))[:40]
    marks = ''.join(c for c in dict.fromkeys(PUNCT + '\u2019\u2018\u02bc\u201c\u201d\u00ab\u00bb\u2026\u00b7\u00b4\u2032\uff07\u2013\u2014\u2010\u2011\u2212\u200b\u200d\u00ad\u0301\ufeff_') if c != '-')
    g = [['', 0, v, ['']], ['', 0, some, CLITICS_BACK], ['', 0, CLITICS_FRONT, some], ['', 0, CLITICS_FRONT, [a + b for a in cores for b in CLITICS_BACK]],
         [marks, 1, some, ['', 's', 'a', 't']], [marks, 1, ['', 'l', 'd', 'o'], some], [marks + own, 2, cores, None], [marks + own, 2, None, cores], [own, 3], [marks, 2, cores, cores[:3]], ['0123456789.,:/', 4]]
    if thorough:
        g += [[marks + own, 3, [cores[4]], None], [marks + own, 3, None, [cores[4]]], [own, 4]]
    return {'id': 'tokgrid-%s' % lang, 'kind': 'sweep', 'what': 'tokgrid', 'lang': lang, 'grids': g, 'seps': [' ', '-', '\n', '\t', '\u00a0', '\u3000', ' - ', '--', '\r\n', '\u2028', '  ', '\u0085']}


def stem_grids(rng, thorough=False):
    """Words with no English suffix at the end."""
    v = [w for w in vocabulary('en') if w == w.lower()]
    some = rng.sample(v, 12000 if thorough else 2500)
    ends = list('kwxzupfvjqbao0159') + ['.', '_', 'é', 'ß', '日', '😀', 'ka', 'ch', 'th', 'ck', 'sh', 'ph', 'gh', 'ow', 'ew', 'ook', 'oo', 'ee\u0301', "'", '\u2019', '(', ')', '1', '2', '\u0301', '\u00ad', '\u200b', 'sk', 'sp', 'um', 'ium', 'edo', 'ingo', 'eso', 'esx', 'o', 'so', 'iesa', 'tionk']
    abc = 'abcdefghijklmnopqrstuvwxyz'
    g = [['', 0, some, ends], ['', 0, v, ['o', 'x', '1', '\u2019']], [abc, 3, ['', 'a', 'st', 'y'], ['k', 'o']], [abc, 2, ['', 'hap', 'connect', 'y', 'ay', 'yy', 'organ'], ends], ['0123456789', 4], [PUNCT + abc, 2, ['', 'run', 'ties', 'e', 'y'], ['', 'w']],
         ['', 0, [c * k for c in abc for k in range(1, 60)], ['', 'w']], ['', 0, [a * k for a in ('ab', 'ba', 'bab', 'aab', 'y', 'ya', 'ay') for k in range(1, 40)], ends], ['', 0, some[:400], CLITICS_BACK], ['', 0, CLITICS_FRONT, [w + 'o' for w in some[:400]]]]
    if thorough:
        g += [[abc, 4, ['', 'b'], ['k']]]
    return [{'id': 'grid%d-en-stem' % i, 'kind': 'sweep', 'what': 'grid', 'lang': 'en', 'stage': 'stemmer', 'grids': [x]} for i, x in enumerate(g)]


PLAIN_ARABIC = 'بتثجحخدذرزسشصضطظعغفقكلمنهويءئؤةاپچگکیہ'


def arabic_grids(rng, thorough=False):
    """Tokens of which nothing is to be changed, with anything at their ends."""
    few = 'اللوبكفسمنتيهةونأ'.replace('أ', '')
    few = ''.join(dict.fromkeys(few))
    cores = ['', 'ب', 'بيت', 'كتاب', 'مدرسة', 'ب' * 7, 'ب' * 10, 'ب' * 14, 'ب' * 30, 'لال', 'a', '1', 'كتب ']
    plain = [w for w in settled_only(vocabulary('ar')) if not re.search('[\u0640\u064b-\u065b\u0622\u0623\u0625\u0671\u0649]', w)]
    g = [[PLAIN_ARABIC, 3, None, ['', 'ب' * 5]], [PLAIN_ARABIC, 2, cores, None], [PLAIN_ARABIC, 2, None, cores], [few, 3, cores, None], [few, 3, None, cores], [few, 2, ['ال', 'وال', 'بال', 'لل'], ['بيت' * k for k in range(1, 7)]],
         ['', 0, ['', 'ال', 'وال', 'بال', 'كال', 'فال', 'لل', 'و', 'ب', 'ل', 'ف', 'س', 'ي', 'ن', 'ت', 'م'], plain if thorough else rng.sample(plain, 4000)],
         ['', 0, plain if thorough else rng.sample(plain, 4000), ['ها', 'ان', 'ات', 'ون', 'ين', 'يه', 'ية', 'ه', 'ة', 'ي', 'ك', 'كم', 'هم', 'نا', 'تم', 'وا', 'ا', 'اء', 'ائي', '١', '٢٣', '1', '.', '،']],
         ['٠١٢٣٤٥٦٧٨٩', 3], [PUNCT + '،؛؟٪«»', 2, ['', 'بيت'], ['', 'بيت']], [few, 4]] + ([[few, 5], [PLAIN_ARABIC, 4]] if thorough else [])
    return [{'id': 'grid-ar', 'kind': 'sweep', 'what': 'grid', 'lang': 'ar', 'stage': 'stemmer-ar', 'grids': g}]


@functools.lru_cache(None)
def endings(lang, n=40):
    """The most frequent endings of the words of a language."""
    count = {}
    for w in vocabulary(lang):
        for k in (1, 2, 3, 4):
            if len(w) > k:
                count[w[-k:]] = count.get(w[-k:], 0) + k
    return sorted(settled_only(count), key=lambda e: (-count[e], e))[:n]


def run_grids(rng, lang, thorough=False):
    """Very many tokens of a language through its pipeline."""
    v = settled_only(vocabulary(lang))
    own = ''.join(sorted(settled_only({c for w in words(lang) for c in w.lower()} | set('aeisrt')), key=lambda c: (-sum(c in w for w in words(lang)), c))[:24])
    some = rng.sample(v, min(len(v), 13000 if thorough else 1300))
    cores = rng.sample(v, min(len(v), 25))
    ends = endings(lang)
    g = [['', 0, v, ['', '.', "'s"]], ['', 0, some, ends], ['', 0, rng.sample(some, min(len(some), 150)), [a + b for a in ends[:25] for b in ends[:25]]], [own, 3, None, ['', ends[-1]]], [own, 2, cores, None], [own, 2, None, cores], [PUNCT + own, 1, cores * 2, ['', '.']],
         ['', 0, [c * k for c in own for k in range(1, 41)], ends[:8]], ['0123456789', 3, ['', 'a'], ['', own[0], 's']], ['', 0, stops(lang), ends],
         ['', 0, some[:800], CLITICS_BACK], ['', 0, CLITICS_FRONT, some[:800]], ['', 0, CLITICS_FRONT, [a + b for a in cores for b in CLITICS_BACK]]]
    if thorough:
        g += [[own, 4], [own, 3, cores, None], [own, 3, None, cores]]
    return {'id': 'runs-%s' % lang, 'kind': 'sweep', 'what': 'lrgrid', 'lang': lang, 'grids': g}


def trimmer(lang):
    return 'trimmer' if lang == 'en' else 'trimmer-' + lang


def stopper(lang):
    return 'stopWordFilter' if lang == 'en' else 'stopWordFilter-' + lang


def stage(lang, name, toks, per=200, tag='', enc='cp'):
    return [{'id': '%s%s-%d' % (name, tag, i), 'kind': 'stage', 'lang': lang, 'stage': name, 'enc': enc, 'toks': [b]} for i, b in enumerate(batches(toks, per))]


def tok(lang, texts, per=100, tag=''):
    return [{'id': 'tok-%s%s-%d' % (lang, tag, i), 'kind': 'tok', 'lang': lang, 'texts': [b]} for i, b in enumerate(batches(texts, per))]


def langrun(lang, lists, tag=''):
    return [{'id': 'run-%s%s-%d' % (lang, tag, i), 'kind': 'langrun', 'lang': lang, 'toks': [x]} for i, x in enumerate(lists)]


SIGMAS = ['Σ', 'ΑΣ', 'ΣΑ', 'ΑΣΑ', 'ΑΣ.', 'Α.Σ', 'ΑΣ\'', 'ΑΣ\'Α', '.Σ', 'Σ.Α', 'ΑΣΣ', 'ΑΣ Σ', 'Α-Σ', 'ΟΔΥΣΣΕΥΣ', 'ΑΣ\u0301', 'Α\u0301Σ', '\u0301Σ', 'AΣ', 'aΣ1', '1Σ', 'ªΣ', 'ͅΣ', 'ΑΣ\u00ad', 'ΑΣ:Α', 'ΣΣΣ', 'x ΑΣ y', 'ʰΣʰ']
CASES = ['İstanbul', 'IĞDIR', 'ẞ', 'ﬀ', 'ǅ', 'KÅΩ', 'Ⅷ', 'Ⓐ', 'ÀÉÎÕÜ', 'ЮНИКОД', 'ꙀꚘ', '𐐀𞤀', 'Ա', 'ᏸᏣ', 'ႠႡ', 'ᲐᲑ', 'ϴ', 'ͿϿ', 'Ⅰ', 'ＡＺ', 'Ꭰꭰ', 'Ȿ', 'ɫ', 'Ɫ', 'Ɜ', 'Ỻ', 'ŉ', 'ǰ', 'ΐ', 'ᾈᾳᾼ']


def texts(rng, n, lang='en'):
    base = ['', ' ', '-', '--', ' - ', 'a', 'a b', ' a', 'a ', 'a-b', '-a', 'a-', 'a--b', 'a - b', 'A', 'a\u00a0b', 'a\u3000b', 'a\u200bb', 'a\u00adb', 'a_b', 'a\u2010b', 'a\u2011b', 'a\u2013b',
            'a\u2212b', 'a\u0085b', 'a\u001cb', 'a\u180eb', 'a\ufeffb', '\ufeffa', 'a\u0000b', 'a.b', "it's", 'a,b', '1-2', 'a\r\nb', '\t\ta\t', 'a' * 3000, 'a ' * 500, ('Ab-' * 300), 'é-É', '日-本 語'] + SIGMAS + CASES
    return base + [text(rng, lang) for _ in range(n)]


SUFFIXES = ('sses ies ss s eed ed ing at bl iz y e ll ational tional enci anci izer bli alli entli eli ousli ization ation ator alism iveness fulness ousness aliti iviti biliti logi '
            'icate ative alize iciti ical ful ness al ance ence er ic able ible ant ement ment ent sion tion ion ou ism ate iti ous ive ize').split()


def stem_words(rng, n, letters='aeybltsw'):
    """Every word of up to n letters with every suffix."""
    out = []
    for k in range(n + 1):
        for t in itertools.product(letters, repeat=k):
            out += [''.join(t) + s for s in [''] + SUFFIXES]
    return list(dict.fromkeys(out))


def stem_random(rng, n):
    out = []
    cons, vow = 'bcdfghjklmnpqrstvwxz', 'aeiouy'
    odd = "0123456789_'.é日😀ñß\u0301ыαy\u00ad𝒳ー"
    for _ in range(n):
        k = rng.random()
        w = ''
        for _ in range(rng.choice([0, 1, 2, 2, 3, 4, 6])):
            w += rng.choice(cons) if rng.random() < .5 else rng.choice(vow)
            if k > .6 and rng.random() < .3:
                w += rng.choice(odd)
            if rng.random() < .15 and w:
                w += w[-1]
        for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
            w += rng.choice(SUFFIXES)
            if k > .8 and rng.random() < .2:
                w += rng.choice(odd)
        if rng.random() < .1:
            w = 'y' + w
        out.append(w)
    return out


def lower_only(ws):
    return [w for w in ws if w == w.lower()]


LOOKALIKE = {"'": '\u2019\u2018\u02bc\uff07`\u00b4', 'ё': 'е', 'е': 'ё', 'ı': 'i', 'i': 'ı\u0456', 'ß': 's', 'a': 'а\u0251ª', 'e': 'е', 'o': 'оº', 'c': 'с', 'я': 'ѧ', 'o\u0308': 'ö', '的': '旳', 'ø': 'o', 'æ': 'a',
             'ő': 'öõ', 'ű': 'üũ', 'ş': 'ș', 'ș': 'şs', 'ț': 'ţt', 'ţ': 'ț', 'ă': 'ãa', 'й': 'и', 'и': 'й', 'ь': 'ъ', 'å': '\u212b', 'k': '\u212a', 's': 'ſ', '한': '\u1112', '\u00e0': 'a', 'u': 'ü', 'n': 'ñ'}


def lookalikes(w):
    """Words that look like the word or are equal to it under some notion of equality."""
    import unicodedata as u
    out = [u.normalize(f, w) for f in ('NFC', 'NFD', 'NFKC', 'NFKD')]
    out.append(''.join(c for c in u.normalize('NFD', w) if not u.combining(c)))
    out += [w.upper(), w.title(), w.swapcase(), w.casefold(), w.upper().lower(), w.replace('ß', 'ss'), w.replace('i', 'İ'), w.replace('i', 'ı'), w.replace('ı', 'i'), w.replace("'", '')]
    out += [''.join(chr(ord(c) + 0xfee0) if '!' <= c <= '~' else c for c in w)]
    for z in '\u200b\u200c\u200d\u00ad\u2060\ufeff\u0301\u0000\n .-_':
        out += [w + z, z + w, w[:1] + z + w[1:]]
    for i, c in enumerate(w):
        out += [w[:i] + d + w[i + 1:] for d in LOOKALIKE.get(c, '')]
    return [x for x in dict.fromkeys(out) if x != w and all(map(settled, x))]


def many_words(c, stages):
    """Every word of all vocabularies through stages [(language, stage)]."""
    ws = list(dict.fromkeys(w for x in LANGS for w in vocabulary(x)))
    ws = [w for w in ws if len(w.splitlines()) == 1 and all(map(settled, w))]
    p = c.path('words.txt')
    open(p, 'w', encoding='utf-8').write(''.join(w + '\n' for w in ws))
    return [{'id': 'words-%s-%s' % (x, st), 'kind': 'words', 'lang': x, 'stage': st, 'file': p, 'given': len(ws)} for x, st in stages]


def near(w, rng=None, alphabet='aes'):
    """What is almost the word."""
    out = [w + c for c in alphabet] + [c + w for c in alphabet] + [w[:-1], w[1:], w + w, w + ' ', ' ' + w, w.upper(), w.title(), w + '\u0301', w + '.', w[::-1]]
    for i in range(len(w)):
        out.append(w[:i] + w[i + 1:])
        out.append(w[:i] + 'q' + w[i + 1:])
        if i:
            out.append(w[:i - 1] + w[i] + w[i - 1] + w[i + 1:])
    return out


ARABIC = ['ـ', 'َ', 'ٛ', 'أ', 'ى', 'ا', 'ب']


def arabic(rng, n, depth):
    out = [''.join(t) for k in range(depth + 1) for t in itertools.product(ARABIC, repeat=k)]
    out += list(words('ar')) + ['\u0640' * 50, 'ًٌٍَُِّْ' * 5, 'آأإٱى', 'ٜ', '\u064a', '\u065c', '\u0670', 'abc', '', 'ءئؤة', '\u0653\u0654', 'بـبـ', 'الرَّحْمَٰنِ', 'أَ', 'ىٰ']
    pool = 'ـًٌٍَُِّْٓٔٛٚٙ' + 'آأإٱى' + 'ابتثجحخءئؤةي' + 'aé1\u065c\u0670\u0671\u0672\u0648\u0649\u064a'
    for _ in range(n):
        out.append(''.join(rng.choice(pool) for _ in range(rng.choice([1, 2, 3, 5, 8, 13, 40]))))
    return out


MIXES = ['', ' ', '。', '\n\n', 'a', 'abc def', '我来到北京清华大学', '小明硕士毕业于中国科学院计算所，后在日本京都大学深造', '的', '了', '他说的确实在理', '中文English混排', 'ABC123', '１２３ＡＢＣ', '😀', '中😀文', '㐀㐁', '𠀀𠀁',
         'すもももももももものうち', '関西国際空港限定トートバッグ', '東京スカイツリーの最寄り駅はとうきょうスカイツリー駅です', 'ﾊﾝｶｸ ｶﾅ', 'バイト仲間で、ものすごく気の合うメンバーがいた。', 'アイウエオabcアイウエオ', '한국어 텍스트', 'русский текст',
         'e\u0301\u0301', '\u0000', '\ufeff日本', '日本\u200d語', '々々々', 'ーーー', '〆切', 'が゛', 'は\u3099', '、。「」', '2018年4月', '3.14', 'http://example.com/?a=1&b=2', 'user@example.com', "it's", 'ｗｗｗ', 'あ' * 60, '日' * 60, '国' * 30, 'ア' * 60,
         '南京市长江大桥', '研究生命起源', '吉林省长春药店', '手机 电脑', '龘龘', '﨎﨏', '\u3000日\u3000本', '今日は良い天気ですね。', '食べられなかったでしょう', 'です', 'の', '、', 'Tokyo東京', 'ＡＩ人工知能', '中国科学技术大学', '的的的', '了不起', '云计算 分布式']


FILLERS = ('えー、今日は。 えーと、あのー、そのー。 うーん。 まあ、あの人は。 へえ！ ああ！ おい！ はい、そうです。 いいえ、違います。 ありがとうございます。 おはよう！ さようなら。 あっ、しまった。 ねえ、聞いて。 '
           '「ええ」 何と！ やあ、こんにちは。 きゃー！ わあ、すごい。 もしもし。 ごめんなさい。 こら！ 非常に新しい東京駅。 プロ野球。 お茶、ご飯。 非公開。 再発見。 東京都知事。 三人、二冊、第一回。 笑い話。 そして、しかし、または。 食べて、ます。 のに、ので。 。、・「」（）！？…ー～ ABC abc ＡＢＣ 123 １２３ αβγ Ж ♪★').split()


def seg_long(lang):
    """Texts of any length, with and without punctuation, and with what is longest in the middle."""
    s = ''.join(sample(lang).split())
    plain = ''.join(x for x in s if x.isalpha())
    out = []
    for n in (500, 1023, 1025, 2047, 2049, 4095, 4097, 8200, 10001, 16400):
        out += [(plain * (n // len(plain) + 1))[:n], (s * (n // len(s) + 1))[:n]]
    for n in (1990, 4000):
        out += ['a' * n + s[:40], s[:40] + ' ' * n + s[:40], '。' * n + s[:20], s[:30] + '\n' * n + s[30:60], ('東京' if lang == 'ja' else '北京') * (n // 2), '1' * n + s[:20]]
    return out


def seg_texts(rng, lang, n):
    out = [x for x in MIXES] + FILLERS + [''.join(FILLERS), ' '.join(FILLERS)]
    for f in FILLERS:
        out += [f + '東京', '東京' + f, f * 3]
    for i in range(0, len(sample(lang)), 7):
        out.append(sample(lang)[i:i + 60].replace('\n', ' '))
    for z in ' \u3000\t\n\r\u00a0\u200b\u2028-・':
        out += [z, z * 2, '日' + z + '本', '東京' + z + '大学', z + '日本', '日本' + z, 'a' + z + 'b', '北京' + z * 3 + '大学', 'Ａ' + z + 'Ｂ']
    s = sample(lang)
    out += [x for x in s.replace('。', '。\n').splitlines() if x]
    pools = [s, sample('zh'), sample('ja'), ''.join(MIXES), sample('ko'), sample('en')]
    for _ in range(n):
        t = ''
        for _ in range(rng.randint(1, 8)):
            p = s if rng.random() < .6 else rng.choice(pools)
            i = rng.randrange(len(p))
            t += p[i:i + rng.randint(1, 8)]
            if rng.random() < .15:
                t += rng.choice(KINDS + SPACES)
        out.append(t)
    return out


def long_texts(lang, thorough=False):
    """Long texts and long tokens: capitals, spaces and hyphens of all kinds far from the start."""
    w = sample(lang)
    out = []
    for n in (1000, 4090, 8190, 16380, 32760) + ((65530, 131070) if thorough else (65530,)):
        for f in ('a', 'é') if n < 40000 else ('a',):
            t = f * n
            out += [t + x for x in (' b', '-É Ü\u00a0Ω-я', 'ΑΣ Σ', '\u3000日')] if n < 20000 else [t + ' ' + 'É-Ü\u00a0ΑΣ']
        t = (w * (n // len(w) + 1))[:n // 4]
        out += [t + ' ' + 'É-Ü\u00a0ΑΣ b'] if n < 40000 else []
    return out


@functools.lru_cache(None)
def parts():
    """Words that something might put before or after the name of a language: those written in the repository, and others."""
    here = set()
    for top in ('README.md', 'CHANGELOG.md', 'Cargo.toml', 'src', 'js', 'examples', 'benches'):
        top = os.path.join('/repo', top)
        files = [top] if os.path.isfile(top) else [os.path.join(d, f) for d, _, fs in os.walk(top) for f in fs]
        for f in files:
            if f.endswith(('.rs', '.md', '.toml', '.js', '.py')):
                with open(f, encoding='utf8', errors='replace') as h:
                    here |= set(re.findall(r'[A-Za-z0-9_]{1,24}', h.read()))
    here = {x for x in here if re.search('[A-Za-z]', x)}
    base = LANGS + list(NAMES.values()) + 'nl eng jp cn kr lunr elasticlunr js stemmer trimmer stopWordFilter lang language code iso locale utf8 UTF-8 utf-8 utf POSIX C US GB UK DE FR CA BR PT CH AT AR EG CN TW HK JP KR DK SE NO NB NN FI HU IT RO RU ES MX TR NL BE Latn Cyrl Hans Hant Arab Jpan Kore Latin private x u t i a b 1 0 2 3 v1 v2 1.0 '\
        'default auto all any none null undefined true false other simplified traditional formal euro us gb uk de fr ca br pt ch at min full base std standard new old test beta dev json rs py txt html lng lc LC_ALL LANG ext extended snowball porter porter2 rust mdbook mdBook lib core en-US en_US de-DE zh-Hans x-lunr x-private lunr-languages lunr_languages'.split()
    base += OTHER_NAMES
    return sorted(here | set(base))


# what languages are called and how they are written elsewhere
OTHER_NAMES = """Castilian Castellano Flemish Moldavian Moldovan Mandarin Cantonese Bokmal Bokmål Nynorsk Norsk Deutsch Français Francais Español Espanol Português Portugues Italiano Nederlands Dansk
Svenska Suomi Magyar Română Romana Русский Türkçe Turkce العربية 日本語 中文 汉语 漢語 한국어 조선말 Hangul Brazilian American British Porter Lovins Norwegian_Bokmal Nihongo Zhongwen Hangugeo Russkij Russkiy
Farsi Persian Hebrew Hindi Thai Vietnamese Greek Tamil Armenian Tagalog Polish Czech Slovak Slovene Slovenian Croatian Serbian Bosnian Bulgarian Ukrainian Belarusian Latvian Lithuanian Estonian Icelandic Irish
Welsh Basque Catalan Galician Afrikaans Albanian Georgian Azerbaijani Kazakh Uzbek Bengali Urdu Punjabi Telugu Kannada Malayalam Marathi Gujarati Nepali Sanskrit Sinhala Burmese Khmer Lao Mongolian Tibetan
Indonesian Malay Javanese Swahili Yiddish Esperanto Latin Maltese Luxembourgish Frisian Faroese Breton Corsican Scots Gaelic Chinese_Simplified Chinese_Traditional Egyptian Austrian Swiss Belgian Canadian
Mexican Taiwanese Valencian Portuguese_Brazil Simplified Traditional Hans Hant Hungarian_Magyar Anglais Allemand Englisch Französisch Spanisch Inglés Alemán Engels Duits Frans engelsk tysk fransk Englishman
Danske Finn Finns Swede Swedes Dane Danes Turk Turks Arab Arabs Russ Russians German_DE Germanic Italien Japan Korea China France Germany Spain Italy Netherlands Holland Sweden Norway Denmark Finland Hungary
Portugal Romania Russia Turkey Egypt England English2 Porter2 Snowball spa por ita nld dut ger deu fra fre eng rus jpn kor zho chi cmn yue hun fin dan swe nor nob nno ron rum mol tur ara arb""".split()


def registry(enabled, names=True):
    more = ['english', 'ENGLISH', 'En', 'nl', 'eng', 'en-US', 'en_US', 'e', 'jp', 'zh-CN', 'cn', 'kr', 'se', 'dk', 'ar-EG', 'nb', 'nn', 'pt-BR', 'Deutsch', '', ' ', 'en ', ' en', 'en\u0000', 'ЕN', 'ｅｎ', 'ｄｅ', 'dе',
            'Dutch ', 'Nederlands', 'Swedish\n', 'All', 'languages', 'None', 'default', 'tr\u0131', 'Korean\u0000', 'lang', 'en,de'] + ['n', 'En glish', 'English,German']
    return {'id': 'registry-' + ('+'.join(enabled) if len(enabled) < 19 else 'all'), 'kind': 'reg', 'hdr': {'enabled': enabled}, 'codes': LANGS, 'names': [NAMES[x] for x in LANGS], 'more': more, 'parts': parts(), 'every': len(enabled) == len(LANGS)}


# ------------------------------------------------------------------ building blocks
ALGOS = 'Arabic Danish Dutch English Finnish French German Greek Hungarian Italian Norwegian Portuguese Romanian Russian Spanish Swedish Tamil Turkish'.split()
ALGO_LANG = {NAMES[x]: x for x in LANGS}
GREEK = 'λόγος λόγου ανθρώπων άνθρωπος καλύτερος τρέχοντας παιδιά θάλασσα θάλασσες μεγαλύτερη ΚΑΛΗΜΕΡΑ και το'.split()
TAMIL = 'மரங்கள் மரத்தில் வந்தான் வருகிறேன் படித்தவர்கள் நூல்களை வீட்டிற்கு தமிழ் பேசினார்கள்'.split()
# a class as it is written between brackets, and the characters it means
CLASSES = [('a-c', 'abc'), ('A-Za-z', ''.join(map(chr, list(range(65, 91)) + list(range(97, 123))))), ('xyz', 'xyz'), ('é', 'é'), ('α-ω', ''.join(map(chr, range(0x3b1, 0x3ca)))), ('0-9', '0123456789'),
           ('\\.', '.'), ('日本', '日本'), ('a-zé-ü', ''.join(map(chr, list(range(97, 123)) + list(range(0xe9, 0xfd))))), ('_', '_'), (' ', ' '), ('\\x{1F600}', '😀'), ('#', '#'), ("'", "'"), ('a', 'a'), ('\\\\', '\\'),
           ('\\n', '\n'), ('"', '"'), ('a-b-', 'ab-'), ('k', 'k'), ('s', 's'), ('ß', 'ß'), ('İ', 'İ'), ('\\u0301a', '\u0301a'), ('а-я', ''.join(map(chr, range(0x430, 0x450))))]
# classes as the regular expressions know them, and those of the characters used here that they mean
EXACT = list(CLASSES)
OTHERS = '.,x1aZé日😀 -\u0301\n$^[]\\'
# (one that starts with ^ is left out: whether it stands for the others is for the library to say)
CLASSES += [('[:digit:]', '0123456789'), ('[:alpha:]_', '_' + ''.join(map(chr, list(range(65, 91)) + list(range(97, 123))))), ('\\d', '0123456789٣९'), ('\\w', 'x1aZé日\u0301_bßω'),
            ('a-z&&[^aeiou]', 'bcdfghjklmnpqrstvwxyz'), ('a-z--x', 'abcdefghijklmnopqrstuvwyz'), ('\\p{Greek}', 'αβγωΩ'), ('\\PL', '.,1 -\u0301😀\n$^[]\\'), ('\\]', ']'), ('\\[\\]', '[]'), ('&', '&'), ('~', '~'), ('-', '-'), ('-a', '-a'), ('a-', 'a-'), ('!-/', ''.join(map(chr, range(0x21, 0x30)))),
            ('\\-x', '-x'), (',-.', ',-.'), ('\\x41-\\x43', 'ABC'), ('\\t\\r', '\t\r'), ('\\s', ' \n\t\u3000\u00a0'), ('[a-c][x-z]', 'abcxyz'), ('[^a]', OTHERS.replace('a', '') + 'bß'), ('\\p{Lu}', 'ZQÉΣ'), ('a-cx-z1-3', 'abcxyz123'), ('zyx', 'xyz'), ('aaa', 'a'), ('$', '$'), ('(', '('), ('|', '|'), ('*+?', '*+?'), ('{0}', '{0}'), ('{', '{'), ('}', '}')]
BLOCK_NAMES = ['trimmer', 'stop', 'stopWordFilter-xx', 'stemmer', '', 'é "\\', 'n' * 300, 'stopWordFilter', 'trimmer-en', 'same', '\n']


def ranges(cs):
    out = []
    for x in sorted(set(map(ord, cs))):
        if out and out[-1][1] + 1 == x:
            out[-1][1] = x
        else:
            out.append([x, x])
    return out


def algo_words(rng, algo, n):
    pool = GREEK if algo == 'Greek' else TAMIL if algo == 'Tamil' else list(words(ALGO_LANG[algo]))
    u = list(pool)
    out = [rng.choice(pool) + rng.choice(['', '', 's', 'en', 'ing', 'ами', 'ές', 'கள்', 'lar', '.']) for _ in range(n)] + ['', 'a', '.', '日', '😀'] + [w.upper() for w in u[:3]]
    return out + [rng.choice(u) * k for k in (5, 13, 20, 40)]


def block_words(rng):
    pool = ['a', 'b', 'ab', 'the', 'The', 'x', 'é', 'e\u0301', '', ' ', 'ß', 'ss', '日', '日本', '😀', 'docs', 'a b', 'İ', 'i', 'I', 'ı', 'ſ', 's', 'word', '\u0000', 'a\u0000', 'x' * 300, 'ｗ', 'w', 'ﬁ', 'fi', 'Å', 'Å', '\n', "it's", 'it’s', '1']
    ws = rng.sample(pool, rng.choice([0, 1, 2, 5, 12, len(pool)]))
    if ws and rng.random() < .4:
        ws += [rng.choice(ws) for _ in range(rng.choice([1, 3]))]
    if rng.random() < .3:
        ws += ['w%d' % i for i in range(rng.choice([5, 63, 64, 65, 127, 128, 256, 300, 300, 1100]))]
    toks = pool + ['w%d' % i for i in range(0, 1200, 37)] + ['w0', 'w63', 'w64', 'w127', 'w128', 'w255', 'w256', 'w299', 'w300', 'w1099', 'w1100', 'W0', 'w'] + [x for w in ws[:12] if len(w) < 20 for x in near(w) if all(map(settled, x))]
    return ws, list(dict.fromkeys(toks))


def block_texts(rng, cs, n, most=7):
    other = [c for c in OTHERS if c not in cs]
    pick = lambda: rng.choice(cs) if rng.random() < .5 else rng.choice(other)
    out = [''.join(pick() for _ in range(rng.randint(0, most))) for _ in range(n)]
    return out + long_runs(cs[0], other[:2], (16, 64, 130, 300)) + ['', cs, cs[::-1]]


def blocks(rng, n, stems):
    out = []
    for i in range(n):
        name = rng.choice(BLOCK_NAMES)
        ws, toks = block_words(rng)
        out.append({'block': 'stop', 'name': name, 'words': ws, 'toks': toks})
    for i in range(n):
        cl, cs = CLASSES[i % len(CLASSES)]
        out.append({'block': 'trim', 'name': rng.choice(BLOCK_NAMES), 'class': cl, 'ranges': ranges(cs), 'toks': block_texts(rng, cs, 40)})
    for a in ALGOS:
        out.append({'block': 'stem', 'name': rng.choice(BLOCK_NAMES), 'algo': a, 'toks': algo_words(rng, a, stems)})
    rng.shuffle(out)
    return [{'id': 'blocks%d' % i, 'kind': 'blocks', 'ops': b} for i, b in enumerate(batches(out, 7))]


def siblings(rng):
    """Blocks of one name, one after the other, that have much in common."""
    lists = [['a'], ['b'], ['A'], ['a', 'b'], ['a', 'c'], ['b', 'a'], ['b', 'c'], ['c', 'd'], ['a', 'a'], ['b', 'b'], ['a', ''], ['', 'b'], [], [''], ['ab'], ['ba'], ['a b'], ['a', 'b', 'c'], ['a', 'x', 'c'], ['c', 'b', 'a'], ['the', 'of', 'and'], ['the', 'of', 'und'],
             ['the', 'or', 'and'], ['de', 'ofa', 'nd'], ['theo', 'f', 'and'], ['é'], ['e\u0301'], ['è'], ['日'], ['本'], ['word', 'x'], ['ward', 'x'], ['word', 'y']]
    long = ['w%d' % i for i in range(300)]
    lists += [long, long[:150] + ['other'] + long[151:], long[:-1] + ['last'], ['first'] + long[1:], long[::-1], ['v%d' % i for i in range(300)]]
    toks = list(dict.fromkeys([w for l in lists for w in l[:5] + l[-3:]] + ['w150', 'other', 'v150', 'none']))
    out = []
    for k, name in enumerate(['stop', '', 'stopWordFilter', 'stopWordFilter-de']):
        some = lists if k < 2 else rng.sample(lists, 20)
        ops = [{'block': 'stop', 'name': name, 'words': ws, 'toks': toks} for ws in rng.sample(some, len(some)) + rng.sample(some, 5)]
        out.append({'id': 'siblings-stop%d' % k, 'kind': 'blocks', 'ops': ops})
    for k, name in enumerate(['trimmer', '', 'trimmer-de']):
        ops = []
        for cl, cs in rng.sample(CLASSES, len(CLASSES)) + rng.sample(CLASSES, 5):
            ops.append({'block': 'trim', 'name': name, 'class': cl, 'ranges': ranges(cs), 'toks': (['.a.', '1b1', 'zAz', '_é_', '(α)', '日x日', 'xyz', '.', ''] if (cl, cs) in EXACT else ['']) + block_texts(rng, cs, 4)})
        out.append({'id': 'siblings-trim%d' % k, 'kind': 'blocks', 'ops': ops})
    common = ['running', 'nationale', 'häuser', 'libertades', 'mejores', 'generations', 'ing', 'working', 'possibility', 'amento', 'olarak', 'kissa', 'domestic', 'ates']
    for k, name in enumerate(['stemmer', '']):
        ops = [{'block': 'stem', 'name': name, 'algo': a, 'toks': common + algo_words(rng, a, 4)} for a in rng.sample(ALGOS, len(ALGOS)) + rng.sample(ALGOS, 6)]
        out.append({'id': 'siblings-stem%d' % k, 'kind': 'blocks', 'ops': ops})
    return out


def chains(rng, n):
    out = []
    for i in range(n):
        stages, toks = [], []
        k = rng.choice([0, 1, 2, 3, 3, 4, 6, 12])
        algo = None
        for _ in range(k):
            t = rng.choice(['stop', 'trim', 'stem', 'fn'])
            name = rng.choice(BLOCK_NAMES)
            if t == 'stop':
                ws, tk = block_words(rng)
                toks += rng.sample(tk, 6)
                stages.append({'k': t, 'name': name, 'words': ws, 'ranges': []})
            elif t == 'trim':
                cl, cs = rng.choice(EXACT)
                if rng.random() < .5:
                    cl, cs = CLASSES[1]
                toks += rng.sample(block_texts(rng, cs, 8), 6)
                stages.append({'k': t, 'name': name, 'words': [], 'class': cl, 'ranges': ranges(cs)})
            elif t == 'stem':
                algo = rng.choice(ALGOS)
                toks += rng.sample(algo_words(rng, algo, 6), 6)
                stages.append({'k': t, 'name': name, 'words': [], 'algo': algo, 'ranges': []})
            else:
                stages.append({'k': t, 'name': name, 'words': [], 'ranges': []})
        toks += ['x', 'ax', 'a', '', 'the', 'running', 'a']
        rng.shuffle(toks)
        plain = [t for t in toks if ' ' not in t]
        out.append({'block': 'chain', 'name': '', 'toks': [], 'stages': stages, 'lists': [plain, toks, [], toks[:3] * 3, ['']], 'text': ' '.join(plain)})
    return [{'id': 'chains%d' % i, 'kind': 'blocks', 'ops': b} for i, b in enumerate(batches(out, 5))]
