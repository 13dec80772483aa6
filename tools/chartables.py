#!/usr/bin/env python3
"""Writes spec/data/chars.json from node's Unicode tables (tools/charclasses.js) and Python's.

Code points that Python's Unicode (15.0) has not assigned, and the private use planes, are "skipped":
the versions of Unicode in use here may differ on them. All ranges are over the code points that are
not skipped, in the sense that a range goes on across skipped ones."""
import json, subprocess, sys, unicodedata, os
here = os.path.dirname(os.path.abspath(__file__))
tmp = sys.argv[1] if len(sys.argv) > 1 else '/tmp/chars.raw.json'
subprocess.check_call(['node', os.path.join(here, 'charclasses.js'), tmp])
raw = json.load(open(tmp))
allc = [c for c in range(0x110000) if not 0xd800 <= c < 0xe000]
skipped = {c for c in allc if unicodedata.category(chr(c)) == 'Cn' or c >= 0xf0000 or 0xe100 <= c < 0xf800}
settled = [c for c in allc if c not in skipped]

def ranges(s, over):
    v, open_ = [], False
    for c in over:
        if c in s:
            if open_:
                v[-1][1] = c
            else:
                v.append([c, c])
            open_ = True
        else:
            open_ = False
    return v

def members(rs):
    return {c for a, b in rs for c in range(a, b + 1)}

out = {'skip': ranges(skipped, allc), 'settled': len(settled)}
for k in ['white', 'cased', 'ignorable', 'latin', 'cyrillic', 'hangul', 'hiragana', 'katakana', 'ideographs']:
    out[k] = ranges(members(raw[k]), settled)
out['lower'] = [x for x in raw['lower'] if x[0] not in skipped]
# word characters of each trimmer
asc = members([[48, 57], [65, 90], [97, 122]])
M = {k: members(raw[k]) for k in raw if isinstance(raw[k], list) and k != 'lower'}
classes = {'en': asc | {95}, 'ru': M['cyrillic'], 'ko': M['latin'] | M['hangul'],
           'zh': M['ideographs'] | M['latin'], 'ja': asc | M['hiragana'] | M['katakana'] | M['ideographs'],
           'latin': M['latin']}
out['word'] = {k: ranges(v, settled) for k, v in classes.items()}
out['separators'] = ranges(members(raw['white']) | {45}, settled)
json.dump(out, open(os.path.join(here, '../spec/data/chars.json'), 'w'), separators=(',', ':'))
print({k: len(v) for k, v in out.items() if hasattr(v, '__len__')}, out['settled'])
