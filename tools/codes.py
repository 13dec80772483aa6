#!/usr/bin/env python3
"""spec/data/stopcodes.json: the stop word lists as code points, for TLC."""
import json, os
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), '../spec/data/')
w = json.load(open(d + 'stopwords.json', encoding='utf-8'))
json.dump({k: [[ord(c) for c in x] for x in dict.fromkeys(v)] for k, v in w.items()}, open(d + 'stopcodes.json', 'w'), separators=(',', ':'))
