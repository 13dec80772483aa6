#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
T = 'TLA+ specification checked with TLC; '
M = 'every transition of bounded model instances replayed on the code; '
R = 'recorded traces of the code checked against the specification'
NOTE = 'TLC explores the stated instances exhaustively; the binding to the code is by replay of all transitions TLC emits and by validation of curated and seeded random traces, so behaviours outside both are not covered. '
rows = {
 'C01': (T + M + R, NOTE + 'Counts are compared as tf squared, so tf must be the correctly rounded square root of a whole number.'),
 'C02': (T + 'refinement of an abstract map by the trie; ' + M + R, NOTE),
 'C03': (T + 'refinement of an abstract map by the trie; ' + M + R, NOTE),
 'C04': (T + M + R, NOTE + 'Non-interference is decided on traces as: what is held for a document and field is a function of the texts given to it.'),
 'C05': (T + M + R, NOTE + 'The comparison of saving and not saving is made on histories run under both settings.'),
 'C06': (T + M + R, NOTE),
 'C07': (T + M + R, NOTE),
 'C08': (T + M + R, NOTE),
 'C09': (T + 'the JSON layout as a function of the state; ' + R, NOTE + 'The JSON is read by a strict reader of the harness, independent of serde_json.'),
 'C10': (T + 'commutation and idempotence as invariants; ' + R, NOTE + 'Bytes are compared by a 128-bit hash, in two processes.'),
 'C11': (T + R, NOTE + 'Listed findings: a complete index of a language with a pipeline does not load; tokens over about 120 characters; a last digit of arbitrary frequencies.'),
 'C12': (T + 'all interleavings of a pipeline machine; every small pipeline replayed on the code; ' + R, NOTE),
 'C13': (T + 'tokenizer machine; every text of the model replayed on the code; every code point; ' + R, NOTE + 'Character tables come from the ICU of node; code points unassigned in Unicode 15 are left out.'),
 'C14': (T + 'every code point at the ends of words; ' + R, NOTE + 'The stop word list is part of the specification.'),
 'C15': (T + 'a counting stemmer shown equal to the regular expression stemmer on all words of the model; its stems replayed on the code; ' + R, NOTE + 'The oracle is a TLA+ transcription of the elasticlunr.js stemmer.'),
 'C16': (T + R + ' (panics, aborts, hangs and empty tokens are events the specification does not allow)', NOTE + 'Texts are random, seeded; one listed finding (stack overflow at tokens of about 60000 characters).'),
 'C17': (T + 'every code point at the ends of words in 17 languages; ' + R, NOTE + 'Character tables come from the ICU of node; code points unassigned in Unicode 15 are left out.'),
 'C18': (T + 'every word of every list in every language; ' + R, NOTE + 'The stop word lists are part of the specification, taken from the pinned commit.'),
 'C19': (T + 'every code point; ' + R, NOTE + 'Listed finding: only the first alef variant is replaced.'),
 'C20': (T + 'registry answers for all probes under several sets of features; ' + R, NOTE),
 'C21': (T + R, NOTE + 'The segmenters called directly are the reference; the specification says what becomes of their words.'),
 'C22': (T + M + R, NOTE),
 'C23': (T + 'every state of bounded options replayed on the code; ' + R, NOTE),
 'C24': (T + R, NOTE + 'The Snowball algorithms are given functions: rust-stemmers called directly.'),
 'C25': (T + M + R, NOTE),
 'C26': (T + R, NOTE + 'English is specified completely, from text to postings; for the other languages the tokens are those that tokenizer and pipeline yield when called directly (C13 to C24 judge these).'),
 'C27': (T + 'trimming machine in which the characters go in any order, its texts replayed on the code with many classes; ' + R, NOTE + 'The Snowball algorithms are given functions; what reaches them is specified.'),
 'C28': (T + 'all interleavings of the histories of two indexes replayed on the code; ' + R + ', recorded with several objects in turn and in several threads', NOTE + 'Schedules of threads are those that occur; threads share no object, as indexes are not Sync.'),
}
props = [json.loads(x) for x in open(os.path.join(root, 'properties.jsonl'), encoding='utf-8')]
m = {'version': 1, 'setup_cmd': './check.py --setup',
     'checks': [{'property': p['id'], 'quick_cmd': './check.py ' + p['id'], 'thorough_cmd': './check.py %s --thorough' % p['id'],
                 'technique': rows[p['id']][0], 'level': 'model_checking', 'level_note': rows[p['id']][1].strip()} for p in props if p['id'] in rows],
     'not_applicable': [], 'notes': 'No hooks: everything is observed through the public API and the serialized JSON.'}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), [p['id'] for p in props if p['id'] not in rows])
