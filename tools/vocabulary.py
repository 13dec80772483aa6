#!/usr/bin/env python3
"""Writes lib/words.json.gz: words and sentences of many languages, as inputs for the checks.

Sources: the vocabularies of Snowball in the rust-stemmers crate (BSD), the messages of the TypeScript
compiler (Apache 2), names of regions, languages and currencies of node's ICU (Unicode licence), COMMON, and words
of every class of the dictionaries that lindera (mecab-ipadic) and jieba-rs (MIT) bring along.
"""
import csv
import glob
import gzip
import json
import os
import re
import subprocess

from frequent import MORE

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VOC = glob.glob('/root/.cargo/registry/src/*/rust-stemmers-1.2.0/test_data')[0]
TS = '/opt/veriftools/node/node_modules/typescript/lib'
SNOWBALL = {'ar': 'ar', 'en': 'en', 'es': 'es', 'fi': 'fi', 'fr': 'fr', 'de': 'ger', 'it': 'it', 'no': 'no', 'pt': 'pt', 'ro': 'ro', 'ru': 'ru'}
TSLANG = {'de': 'de', 'es': 'es', 'fr': 'fr', 'it': 'it', 'ja': 'ja', 'ko': 'ko', 'pt': 'pt-br', 'ru': 'ru', 'tr': 'tr', 'zh': 'zh-cn'}
ICU = {'ar': 'ar', 'zh': 'zh', 'da': 'da', 'du': 'nl', 'fi': 'fi', 'fr': 'fr', 'de': 'de', 'hu': 'hu', 'it': 'it', 'ja': 'ja', 'ko': 'ko', 'no': 'nb', 'pt': 'pt', 'ro': 'ro', 'ru': 'ru', 'es': 'es', 'sv': 'sv', 'tr': 'tr', 'en': 'en'}
COMMON = {
    'da': 'år dag tid mand kvinde barn hus by land vand mad bog skole arbejde penge vej bil hånd øje liv verden sige gå komme se vide tage give finde tro synes stor lille god ny gammel ung lang kort høj lav første sidste mange få alle ingen altid aldrig nu her der hvor hvordan hvorfor hvad hvem hvilken fordi men også kun meget mere mest lidt igen under over efter før mellem uden gennem mod hos ved op ned ind ud hjem væk tak ja nej måske næsten både enten eller hverken selvom mens indtil siden foran bag',
    'sv': 'år dag tid man kvinna barn hus stad land vatten mat bok skola arbete pengar väg bil hand öga liv värld säga gå komma se veta ta ge finna tro tycka stor liten god ny gammal ung lång kort hög låg första sista många få alla ingen alltid aldrig nu här där var hur varför vad vem vilken därför men också bara mycket mer mest lite igen under över efter före mellan utan genom mot hos vid upp ner in ut hem bort tack ja nej kanske nästan både antingen eller varken fast medan tills sedan framför bakom kunna skulle måste',
    'du': 'jaar dag tijd man vrouw kind huis stad land water eten boek school werk geld weg auto hand oog leven wereld zeggen gaan komen zien weten nemen geven vinden geloven denken groot klein goed nieuw oud jong lang kort hoog laag eerste laatste veel weinig alle geen altijd nooit nu hier daar waar hoe waarom wat wie welke omdat maar ook alleen zeer meer meest beetje weer onder over na voor tussen zonder door tegen bij op neer in uit thuis weg dank ja nee misschien bijna zowel of noch hoewel terwijl totdat sinds achter kunnen zullen moeten',
    'hu': 'év nap idő ember nő gyerek ház város ország víz étel könyv iskola munka pénz út autó kéz szem élet világ mond megy jön lát tud vesz ad talál hisz gondol nagy kicsi jó új régi fiatal hosszú rövid magas alacsony első utolsó sok kevés minden semmi mindig soha most itt ott hol hogyan miért mi ki melyik mert de is csak nagyon több legtöbb kissé újra alatt felett után előtt között nélkül keresztül ellen mellett fel le be ki haza el köszönöm igen nem talán majdnem vagy sem bár amíg óta mögött lehet kell fog',
    'tr': 'yıl gün zaman adam kadın çocuk ev şehir ülke su yemek kitap okul iş para yol araba el göz hayat dünya söylemek gitmek gelmek görmek bilmek almak vermek bulmak inanmak düşünmek büyük küçük iyi yeni eski genç uzun kısa yüksek alçak ilk son birçok az hiçbir daima asla şimdi burada orada nerede nasıl neden hangi ama sadece tekrar altında üstünde sonra önce arasında olmadan doğru karşı yanında yukarı aşağı içeri dışarı teşekkür evet hayır belki neredeyse rağmen iken kadar beri arkasında ışık ığdır ısı',
    'ko': '년 날 시간 남자 여자 아이 집 도시 나라 물 음식 책 학교 일 돈 길 자동차 손 눈 인생 세계 말하다 가다 오다 보다 알다 받다 주다 찾다 믿다 생각하다 큰 작은 좋은 새로운 오래된 젊은 긴 짧은 높은 낮은 처음 마지막 많은 적은 모든 항상 절대 지금 여기 저기 어디 어떻게 왜 무엇 누구 그러나 또한 오직 매우 더 가장 조금 다시 아래 위 후 전 사이 없이 통해 반대 옆 감사 네 아니요 아마 거의',
}
JS = '''const l = process.argv[1], s = new Set(), A = "ABCDEFGHIJKLMNOPQRSTUVWXYZ";
const add = x => x && s.add(x);
for (const t of ["region", "currency", "language"]) { const d = new Intl.DisplayNames([l], {type: t, fallback: "none"});
 for (const a of A) for (const b of A) for (const c of t == "currency" ? A : [""]) { try { add(d.of(t == "language" ? (a + b).toLowerCase() : a + b + c)); } catch (e) {} } }
for (let m = 0; m < 12; m++) add(new Date(2020, m, 1 + m).toLocaleDateString(l, {weekday: "long", month: "long", year: "numeric"}));
console.log(JSON.stringify([...s]));'''


def split(t):
    return [w for w in re.split(r'[\s\-]+', t.lower()) if w]


def classes():
    """Words of every class of the dictionaries of the segmenters, the frequent ones first."""
    by = {}
    for f in sorted(glob.glob(glob.glob(os.path.join(VERIF, 'target/debug/build/lindera-ipadic-*/out/mecab-ipadic*'))[0] + '/*.csv')):
        for r in csv.reader(open(f, encoding='euc_jp')):
            for key, most in ((tuple(r[4:8]), 25), (tuple(r[4:10]), 2)):
                by.setdefault((most, key), []).append((int(r[3]), r[0]))
    ja = [w for (most, _), ws in sorted(by.items()) for _, w in sorted(ws)[:most]]
    by = {}
    for line in open(glob.glob('/root/.cargo/registry/src/*/jieba-rs-0.6.*/src/data/dict.txt')[0], encoding='utf-8'):
        w, n, tag = line.split()
        by.setdefault((40, tag), []).append((-int(n), w))
        by.setdefault((40, len(w)), []).append((-int(n), w))
    zh = [w for (most, _), ws in sorted(by.items(), key=str) for _, w in sorted(ws)[:most]]
    return {'ja': list(dict.fromkeys(ja)), 'zh': list(dict.fromkeys(zh))}


def main():
    words, texts = {}, {}
    for x, icu in ICU.items():
        ws = []
        if x in SNOWBALL:
            v = [w.strip().lower() for w in open(os.path.join(VOC, 'voc_%s.txt' % SNOWBALL[x]), encoding='utf-8')]
            most = 30000 if x == 'en' else 10000
            k = len(v) / most if len(v) > most else 1
            ws += [v[int(i * k)] for i in range(min(most, len(v)))]
        if x in TSLANG:
            ms = list(json.load(open(os.path.join(TS, TSLANG[x], 'diagnosticMessages.generated.json'), encoding='utf-8')).values())
            texts[x] = ms[::2] if x in ('ja', 'zh') else ms[::8]
            if x not in ('ja', 'zh'):
                ws += [w for m in ms for w in split(m)]
        names = json.loads(subprocess.run(['node', '-e', JS, icu], capture_output=True, text=True, check=True).stdout)
        if x in ('ja', 'zh'):
            texts[x] += names
        ws += [w for n in names for w in split(n)] + COMMON.get(x, '').split() + MORE.get(x, '').split()
        words[x] = list(dict.fromkeys(w for w in ws if w))
    cl = classes()
    out = json.dumps({'words': words, 'texts': texts, 'classes': cl}, ensure_ascii=False, separators=(',', ':')).encode()
    with open(os.path.join(VERIF, 'lib', 'words.json.gz'), 'wb') as f:
        f.write(gzip.compress(out, 9, mtime=0))
    print(len(out), {x: len(w) for x, w in words.items()}, {x: len(t) for x, t in texts.items()}, {x: len(t) for x, t in cl.items()})


main()
