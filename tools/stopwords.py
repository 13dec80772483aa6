#!/usr/bin/env python3
"""Wrote spec/data/stopwords.json once, from the sources of the pinned commit. The lists are part of
the specification from then on; the file is not regenerated by any check."""
import json, re, sys
out = {}
for c in 'en da de du es fi fr hu it ko no pt ro ru sv tr'.split():
    s = open(f'{sys.argv[1]}/src/lang/{c}.rs', encoding='utf-8').read()
    m = re.search(r'const (?:STOP_)?WORDS: &\[&str\] = &\[(.*?)\];', s, re.S)
    words = [json.loads('"' + w + '"') for w in re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(1))]
    out[c] = words
out['zh'] = ['的', '了']
json.dump(out, open(sys.argv[2], 'w', encoding='utf-8'), ensure_ascii=False, indent=0)
print({k: (len(v), len(set(v)), max(map(len, v)), [w for w in v if ' ' in w or w != w.lower() or '-' in w][:5]) for k, v in out.items()})
