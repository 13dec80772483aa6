// Writes spec/data/chars.json: character classes by Unicode, from the ICU of node, as code point
// ranges. Independent of the tables of Rust's standard library and regex crate.
const fs = require('fs');
function ranges(re) {
  const v = [];
  for (let c = 0; c < 0x110000; c++) {
    if (c >= 0xd800 && c < 0xe000) continue;
    if (re.test(String.fromCodePoint(c))) {
      const l = v[v.length - 1];
      if (l && (l[1] + 1 === c || (l[1] === 0xd7ff && c === 0xe000))) l[1] = c; else v.push([c, c]);
    }
  }
  return v;
}
const lower = [];
for (let c = 0; c < 0x110000; c++) {
  if (c >= 0xd800 && c < 0xe000) continue;
  const s = String.fromCodePoint(c), t = s.toLowerCase();
  if (s !== t) lower.push([c, Array.from(t).map(x => x.codePointAt(0))]);
}
const out = {
  unicode: process.versions.unicode,
  white: ranges(/\p{White_Space}/u),
  lower,
  cased: ranges(/\p{Cased}/u),
  ignorable: ranges(/\p{Case_Ignorable}/u),
  latin: ranges(/\p{Script=Latin}/u),
  cyrillic: ranges(/\p{Script=Cyrillic}/u),
  hangul: ranges(/\p{Script=Hangul}/u),
  hiragana: ranges(/\p{Script=Hiragana}/u),
  katakana: ranges(/\p{Script=Katakana}/u),
  ideographs: ranges(/\p{Unified_Ideograph}/u),
};
fs.writeFileSync(process.argv[2], JSON.stringify(out));
