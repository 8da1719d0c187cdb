#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
os.chdir(os.path.join(os.path.dirname(__file__), '..'))
props=[json.loads(l)['id'] for l in open('properties.jsonl') if l.strip()]
STATELESS='stateless model checking of the real code: '
T={
'C01':('every text up to a length over an alphabet of boundary-relevant characters, bytes and long runs, times every way of consuming; oracle: the input','bounded: up to 5 atoms of a 30-odd atom alphabet, every 1- and 2-byte string, every Unicode character in context, sizes around the internal buffers'),
'C02':('every text up to a length times every division into reads (empty reads, end with or after the data); oracle: UAX #29 segmentation of the whole text','bounded: all divisions of every text up to the bound, plus divisions of long texts at every position'),
'C03':('every point of failure of every source under every filter and chain and every way of consuming; oracle: prefix of the failure-free run, and the error','bounded: fault enumeration at every read / token position of every bounded input'),
'C04':('every Unicode character, every string up to a length over one representative per class, every creation history up to a depth; oracle: unicode tables','every single code point and all ordered pairs of classes; histories to a bounded depth'),
'C05':('every sequence of iterator operations up to a depth on every source; oracle: explicit model of a forward-only iterator, replayed step by step against the code','bounded: all operation sequences up to the depth'),
'C06':('every token sequence up to a length times every chain of selection operators and way of consuming; oracle: list definitions','bounded sequences and chains; long sequences by size'),
'C07':('every stream up to a length times every point and kind of failure of the destination (short writes too); oracle: model of an accepting writer','bounded: fault enumeration at every byte / call of the destination'),
'C08':('every bounded dictionary times every bounded token sequence; oracle: independent implementation of the greedy longest-match rule','bounded: all dictionaries over a small vocabulary times all token sequences up to the bound'),
'C09':('every bounded token sequence (incl. lemma tokens) through every bundled filter; oracle: alignment of output with the input','bounded sequences over an alphabet that triggers every filter'),
'C10':('every position of every bounded pipeline: what has been read when each token is delivered; oracle: lookahead bounds','bounded pipelines and inputs, plus unbounded generators with measured reads and heap'),
'C11':('all schedules with a bounded number of preemptions of goroutines sharing a filter, run one at a time under a controlled scheduler in instrumented copies of the code, with happens-before race detection in every schedule; oracle: the output alone','preemption bound 2 for two threads, 1 for three (one more when thorough)'),
'C12':('every contraction in every mixture of case and apostrophe, near misses, and bounded token sequences around them; oracle: table derived independently','complete over the contractions and cases; bounded contexts'),
'C13':('every Unicode character and bounded strings of them; oracle: the Lucene table','complete over single characters; bounded over strings'),
'C14':('every Unicode character, pairs of interacting characters, bounded strings; oracle: x/text on the whole string and the Unicode definition','complete over single characters; bounded over strings'),
'C15':('every word up to a length over each language\'s alphabet and token sequences; oracle: the Snowball library per word','bounded words, all languages'),
'C16':('every bounded list of stop words times every bounded token sequence; oracle: set membership','bounded lists and sequences'),
'C17':('every token sequence up to a length over sigils, names and separators; oracle: independent state machine','bounded sequences; every character as a name; all lengths around the limit'),
'C18':('every document up to a length over an alphabet of markup fragments, times divisions into reads; oracle: the input','bounded: fragments and bytes'),
'C19':('every document up to a length over an alphabet of elements; oracle: plain-text tokens and kinds by construction','bounded documents'),
'C20':('explicit-state exploration of every sequence of queue operations; oracle: model of FIFO lists, every model trace replayed against the code','bounded depth over several queues'),
'C21':('every combination and order of flags and forms, inputs and sizes, run with the real program; oracle: the library','bounded combinations'),
'C22':('every failure the environment can produce at every bounded point, times option combinations, run with the real program; oracle: exit status, message, complete output','bounded fault enumeration'),
'C23':('every bounded request (path, method, body, point of failure) and all bounded interleavings of two requests against the real server; oracle: markup recomputed from the library','bounded requests; race-enabled build'),
'C24':('every term of the dictionaries in every variant and context; oracle: the dictionaries','complete over the terms; bounded contexts'),
'C25':('every interleaving of advances over streams sharing a filter, with every point of abandonment or failure; oracle: the stream alone','bounded streams and interleavings'),
'C26':('every bounded term index times every bounded query; oracle: independent definition of the longest match','bounded indexes and queries'),
'C27':('every bounded configuration and every sequence of uses of the filter; oracle: the error expected of the configuration','bounded'),
'C28':('every bounded list of mapping functions times every token sequence; oracle: composition on lists','bounded'),
'C31':('every bounded token sequence, text, reader and configuration, through every filter, with every token given or obtained compared with a copy after every later step, and every argument after every use; oracle: the copies','bounded sequences, texts, lists and histories'),
'C30':('every bounded mapping in every order of insertion, every bundled filter and pair of filters, the programs and the servers, run in processes that start the iteration over maps at each of the 8 places (a runtime built for it), in different environments and orders of cases; oracle: all agree','complete over the iteration orders of maps of up to 8 entries; bounded mappings and texts; eight orders of the larger maps'),
'C32':('every bounded sequence of tags, pages, players and rosters, and every kind of failure at every bounded request, played by a service to the real programs; oracle: the terms supplied, or a failure that leaves the file alone','bounded contents; fault enumeration at every request up to 3, and the last of 20'),
'C33':('every bounded pattern of tokens, atoms or fragments, through every filter, pair of filters and consumer, repeated 256 and 1024 times (and further, if four times the input costs more than proportionally): statements executed, bytes allocated and processor time; oracle: proportion','bounded patterns; growth between sizes up to 2 MB'),
'C29':('every bounded chain of filters times every token sequence; oracle: stages run one after the other','bounded'),
}
checks=[{'property':p,'quick_cmd':f'bash check.sh {p}','thorough_cmd':f'VERIF_TIER=thorough bash check.sh {p}','technique':STATELESS+T[p][0] if p!='C20' else T[p][0],'level':'model_checking','level_note':T[p][1]+'; details in DESIGN.md'} for p in props]
m={'version':1,'setup_cmd':'bash check.sh build','checks':checks,'not_applicable':[]}
json.dump(m,open('MANIFEST.json','w'),indent=1,ensure_ascii=False); open('MANIFEST.json','a').write('\n')
