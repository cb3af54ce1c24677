#!/usr/bin/env python3
"""The properties, and what MANIFEST.json says about each. Running this file rewrites properties.jsonl and MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
DH, UT = 'include/diva.hpp', 'include/util.hpp'
W = 'include/wormhole/'


def M(*pairs):
    return [dict(name=n, where=w) for n, w in pairs]


DOM_INT = 'every strictly increasing key set to load (1 to tens of thousands of keys), every fingerprint width from 1 to 40 bits, every later history'
T_SMALL = 'The tests build a handful of fixed or uniformly random filters with one fingerprint width, and check them after a few hundred operations; '
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None, state=None):
    a = dict(files=files, mechanism=mech)
    if observe: a['observe_at'] = observe
    if state: a['state'] = state
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a), technique, note))


MON = 'runtime monitor: the real filter driven next to a reference set under seeded hostile histories'
NOTE = ('Shows the property on every execution observed (tens of thousands of seeded histories per quick run), not on all histories; trusts the reference '
        'model in the harness. Domain: see the assumptions in the evidence file.')

prop('C01', 'No false negatives: point queries on integer keys',
     'After any sequence of bulk loading, inserts, deletes, fingerprint shrinking and serialization round trips, a point query for a 64-bit integer key that is currently stored answers yes. '
     'This holds for every key distribution, however dense, skewed or clustered, and for every fingerprint width.',
     ['inputs', 'histories', 'configurations'], 'every set of integer keys, every history of inserts of new keys and deletes of present keys, fingerprints of 1 to 40 bits',
     T_SMALL + 'deletes of boundary keys, repeated splits and merges of the same place, clustered keys and odd widths are not reached.',
     [DH, UT, W + 'wh_int.c'], M(('fingerprint extraction between neighbouring boundary keys', DH), ('insertion, splitting and merging of stores', DH), ('predecessor and successor search in the tree', W + 'wh_int.c')),
     MON, NOTE, ['Diva<true>::PointQuery'])
prop('C02', 'No false negatives: point queries on byte-string keys',
     'After any sequence of bulk loading, inserts, deletes, fingerprint shrinking and serialization round trips, a point query for a byte-string key that is currently stored answers yes. '
     'This holds for variable-length and fixed-length keys, keys that are prefixes of one another, long shared prefixes and arbitrary bytes (keys that differ only in trailing zero bytes count as the same key).',
     ['inputs', 'histories', 'configurations'], 'every set of byte strings that differ in more than trailing zero bytes, every history, fingerprints of 1 to 40 bits',
     T_SMALL + 'string keys are only loaded from a few random sets; prefixes of keys, embedded zero bytes, long shared prefixes and deletes of them are not reached.',
     [DH, UT, W + 'wh.c', W + 'kv.c'], M(('fingerprint extraction between neighbouring boundary keys', DH), ('insertion, splitting and merging of stores', DH), ('predecessor and successor search in the tree', W + 'wh.c')),
     MON, NOTE, ['Diva<false>::PointQuery'])
prop('C03', 'No false negatives: range queries on integer keys',
     'After any history, a range query [l, r] over 64-bit integers answers yes whenever some currently stored key lies in l..r, both ends included. '
     'This holds for single-key ranges, ranges that end exactly at a stored key, and ranges that span many or all stores.',
     ['inputs', 'histories', 'configurations'], 'every integer key set, history and fingerprint width, and every range with l <= r that holds a stored key',
     T_SMALL + 'ranges are sampled around random keys; ranges whose ends coincide with boundary keys, neighbours or truncation points are rarely hit.',
     [DH, UT, W + 'wh_int.c'], M(('range query over one or several stores', DH), ('range query inside one store', DH), ('iterator over the boundary keys', W + 'wh_int.c')),
     MON, NOTE, ['Diva<true>::RangeQuery'])
prop('C04', 'No false negatives: range queries on byte-string keys',
     'After any history, a range query [l, r] over byte strings answers yes whenever some currently stored key lies between l and r in byte order, both ends included. '
     'The ends may be shorter or longer than the stored keys, prefixes of them, or absent from the set.',
     ['inputs', 'histories', 'configurations'], 'every set of byte strings, history and fingerprint width, and every range with l <= r that holds a stored key',
     T_SMALL + 'range ends that are prefixes or extensions of stored keys, and variable lengths around boundary keys, are hardly sampled.',
     [DH, UT, W + 'wh.c'], M(('range query over one or several stores', DH), ('range query inside one store', DH), ('iterator over the boundary keys', W + 'wh.c')),
     MON, NOTE, ['Diva<false>::RangeQuery'])
prop('C05', 'Answers are consistent: wider ranges never turn yes into no',
     'On one and the same filter, a point query and the range query of that single key give the same answer, and a range query answers yes whenever any point or narrower range inside it does, stored keys and false positives alike.',
     ['inputs', 'histories'], 'every filter state and every pair of nested queries strictly between the extreme keys',
     'No test compares the answers of different queries; false positives are never cross-checked.',
     [DH], M(('point query', DH), ('range query', DH), ('range and point query inside one store', DH)),
     'runtime monitor: metamorphic oracle over pairs of real queries on monitored histories', NOTE)
prop('C06', 'Deleting a key removes exactly that key',
     'A delete of a stored key never makes a query for a key that stays stored answer no, in whatever order keys, including boundary keys and the smallest and largest ones, are deleted. '
     'After loading a set, deleting every one of its keys leaves a filter that answers no to every point and range query and that can be filled again.',
     ['inputs', 'histories', 'configurations'], 'every loaded set, every order of deletes and every mix of deletes with inserts',
     T_SMALL + 'the delete tests remove a fixed fraction in one order and never empty a filter.',
     [DH], M(('deletion of a fingerprint', DH), ('merge of neighbouring stores when a boundary key goes', DH), ('longest matching fingerprint', DH)),
     'runtime monitor: reference set plus conservation count of fingerprints under delete-heavy histories', NOTE)
prop('C07', 'Shrinking fingerprints only ever coarsens answers',
     'Reducing the fingerprint width of a filter keeps every stored key findable, never turns a yes into a no, keeps the number of entries, never grows the filter, and leaves a filter that inserts, deletes and answers as before. '
     'Shrinking to the current width changes no answer.',
     ['inputs', 'histories', 'configurations'], 'every filter state and every decreasing sequence of widths down to 1 bit',
     'One test shrinks one filter once; sequences of shrinks, shrinks after growth or deletes, and later updates are not covered.',
     [DH], M(('re-encoding of one store with fewer bits', DH), ('walk over all stores', DH)),
     'runtime monitor: before/after comparison of real answers, counts and sizes', NOTE)
prop('C08', 'Serialization round trip preserves the filter',
     'Serializing a filter writes exactly the announced number of bytes and nothing outside them, and a filter read back from those bytes answers every query as the original, reports the same size, serializes to the same bytes, and keeps working under inserts, deletes and shrinking. '
     'The copy is independent of the buffer it was read from and of the original.',
     ['inputs', 'histories', 'configurations'], 'every filter state, buffer alignment and later history of either copy',
     'One test round-trips one filter and compares stores once; updates after reading back, reuse of the buffer and repeated round trips are not reached.',
     [DH], M(('serialization of metadata and stores', DH), ('reading back', DH), ('size computation', DH)),
     'runtime monitor: round-trip oracle with canaries and poisoned source buffers', NOTE)
prop('C09', 'Every way of bulk loading stores every key',
     'Loading a strictly increasing sequence of n keys stores all of them for every n, whether through the constructor from any kind of forward iterator or one by one through the streaming interface, and the caller may reuse its key buffers right after each call. '
     'For the same keys, width and seed the ways of loading give filters with equal answers.',
     ['inputs', 'configurations'], 'every n from 1 to several thousands, with all residues around multiples of the store size, key types and iterator kinds',
     'The tests load two or three sizes; sizes that end exactly at a boundary key, or leave one key over, are not among them.',
     [DH], M(('bulk load from iterators', DH), ('streaming bulk load', DH)),
     'runtime monitor: membership oracle and cross-comparison of load paths over enumerated sizes', NOTE)
prop('C10', 'Filters are deterministic and queries do not change them',
     'The same sequence of operations with the same width and seed gives filters that serialize to identical bytes, within and across objects in one process. '
     'Queries, size computation and serialization never change a filter.',
     ['inputs', 'histories'], 'every history, run twice with and without interleaved queries',
     'No test builds the same filter twice or compares the state around queries.',
     [DH, W + 'wh.c', W + 'wh_int.c'], M(('no global state, queries are const', DH), ('tree iterators used by queries and serialization', W + 'wh.c')),
     'runtime monitor: byte comparison of twin executions', NOTE)
prop('C11', 'All overloads of an operation agree',
     'Inserting, deleting, loading and querying through the string-view and the pointer-and-length overloads of the interface have the same effect and give the same answers for keys of any length, and for 8-byte keys the integer overloads do too, and streaming gives the same filter as the constructor.',
     ['inputs', 'histories'], 'every set of keys and every history, each step applied through all overloads that take the key',
     'The tests use one overload per test and never compare them.',
     [DH], M(('overloads and byte-order conversion', DH)),
     'runtime monitor: lock-step differential execution of the overloads', NOTE)
prop('C12', 'Integer-optimised and general filter agree on 8-byte keys',
     'Given the same 8-byte keys, width, seed and history, the integer-optimised filter and the general filter answer every point and range query identically.',
     ['inputs', 'histories', 'configurations'], 'every integer key set, history and query',
     'Each variant is tested alone, on different data.',
     [DH, W + 'wh.c', W + 'wh_int.c'], M(('compile-time switch between the two trees', DH), ('the two tree implementations', W)),
     'runtime monitor: lock-step differential execution of the two variants', NOTE)
prop('C13', 'The filter never touches memory it does not own',
     'No sequence of filter operations on valid keys reads or writes outside live allocations, uses freed memory, shifts by more than the word width, overflows signed arithmetic, indexes out of bounds, or crashes.',
     ['inputs', 'histories', 'configurations'], 'every history over the key domain, with buffers of exactly the documented sizes',
     'The tests run without sanitizers and on friendly data.',
     [DH, UT, W], M(('word-level slot and bitmap access', DH), ('bit utilities', UT), ('ownership of stores by tree values', DH), ('tree leaves', W)),
     'AddressSanitizer + UndefinedBehaviorSanitizer on all monitored filter workloads',
     NOTE + ' Misaligned access and null arguments of zero-length copies, which the code relies on, are not monitored.')
prop('C14', 'Destroying a filter releases everything it allocated',
     'Once a filter is destroyed, all memory that its loading, inserts, splits, deletes, merges, shrinking and deserialization allocated has been released, exactly once.',
     ['inputs', 'histories'], 'every history of filters over keys strictly between the extreme keys',
     'No test checks for leaks or double frees.',
     [DH, W + 'wh.c', W + 'wh_int.c'], M(('destructor', DH), ('replacement of stores on split, merge, resize and shrink', DH), ('tree destruction', W)),
     'LeakSanitizer + AddressSanitizer on monitored filter workloads', NOTE)
prop('C15', 'A fingerprint store holds exactly what was put into it',
     'The compact store between two boundary keys behaves like a sorted multiset of fingerprints: after any loads, insertions, deletions, growth, contraction and re-encoding it lists and counts exactly the fingerprints put in and not removed, in order, and answers point, range and longest-match requests exactly as that multiset does, with neither missed nor invented matches.',
     ['inputs', 'histories', 'configurations'], 'every multiset of full and shortened fingerprints, every width from 1 to 40 bits, every number of addressable runs, every history',
     'The tests replay a few hand-written layouts with 5-bit fingerprints.',
     [DH, UT], M(('insertion with shifting', DH), ('deletion with shifting', DH), ('rank and select over the bitmaps', UT), ('resize and re-encoding', DH)),
     'runtime monitor: multiset reference model of the real store, plain and under AddressSanitizer', NOTE)
prop('C16', 'False positives stay within the resolution of the fingerprints',
     'When a filter loaded with integers (and then only grown, only thinned out, or shrunk) answers yes to a query that holds no stored key, some stored key lies within the resolution of the fingerprints: about 4 times the distance of the neighbouring boundary keys, divided by 1024 times two to the power of the fingerprint width. '
     'On uniformly random keys and empty queries the share of yes answers is at most about 10 divided by two to the power of the width.',
     ['inputs', 'histories', 'configurations'], 'every integer key distribution for the resolution, uniformly random keys and queries for the rate',
     'No test looks at answers for keys that are not stored, so a filter that always says yes passes them.',
     [DH], M(('fingerprint extraction', DH), ('range and point query inside one store', DH), ('splitting keeps the precision of fingerprints', DH)),
     'runtime monitor: distance oracle for every false positive, statistical bound on the rate', NOTE)
prop('C17', 'Space follows the stored keys and is reported exactly',
     'The reported size of a filter is exactly the number of bytes its serialization takes, and it stays proportional to the number of stored keys times the fingerprint width plus a fixed cost per boundary key: it grows with inserts, and falls again after deletes and after shrinking the fingerprints.',
     ['inputs', 'histories', 'configurations'], 'every history over integer keys',
     'No test bounds the size of a filter.',
     [DH], M(('size grades of stores', DH), ('growth and contraction thresholds', DH), ('size computation', DH)),
     'runtime monitor: size accounting oracle on the real filter', NOTE)

NOT_APPLICABLE = []
exec(open(os.path.join(HERE, 'spec_tree.py')).read()) if os.path.exists(os.path.join(HERE, 'spec_tree.py')) else None

if __name__ == '__main__':
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p, _, _ in P:
            f.write(json.dumps(p) + '\n')
    m = dict(version=1, setup_cmd='python3 check.py --build',
             checks=[dict(property=p['id'], quick_cmd='python3 check.py ' + p['id'], thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
                          technique=t, level='exploration', level_note=n) for p, t, n in P],
             not_applicable=NOT_APPLICABLE,
             notes='No hooks in /repo: the monitors reach private state only through the friend classes the repository declares for its own tests.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
