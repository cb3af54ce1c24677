"""Which monitors decide which property, and how much of each a tier runs."""
import os
SHIM = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness', 'fault_shim.h')
FLAVOURS = {
    'plain': dict(flags=['-O2']),
    'asan': dict(flags=['-O1', '-fno-omit-frame-pointer', '-fsanitize=address,shift,signed-integer-overflow,bounds,object-size,'
                        'integer-divide-by-zero,unreachable,bool,enum,float-cast-overflow', '-fno-sanitize-recover=all']),
    # the same, with the pages that the library takes from mmap taken from the heap instead (the library's own build option)
    'heap': dict(flags=['-O1', '-DHEAPCHECKING', '-fno-omit-frame-pointer', '-fsanitize=address,shift,signed-integer-overflow,bounds,object-size,'
                        'integer-divide-by-zero,unreachable,bool,enum,float-cast-overflow', '-fno-sanitize-recover=all']),
    # the same, with the library's requests for memory answered by the monitor, which can refuse one
    'fault': dict(flags=['-O1', '-DHEAPCHECKING', '-include', SHIM, '-fno-omit-frame-pointer', '-fsanitize=address,shift,signed-integer-overflow,bounds,object-size,'
                        'integer-divide-by-zero,unreachable,bool,enum,float-cast-overflow', '-fno-sanitize-recover=all']),
    'tsan': dict(flags=['-O1', '-fno-omit-frame-pointer', '-fsanitize=thread']),
}
WRAP = ['rwlock_lock_read', 'rwlock_lock_write', 'spinlock_lock', 'rwlock_unlock_read', 'rwlock_unlock_write', 'spinlock_unlock', 'rwlock_trylock_read',
        'rwlock_trylock_write', 'rwlock_trylock_read_nr', 'rwlock_trylock_write_nr', 'qsbr_wait', 'qsbr_update', 'qsbr_register', 'qsbr_unregister', 'qsbr_park', 'qsbr_resume']
BINARIES = {
    'diva': dict(src=['diva.cpp']),
    'store': dict(src=['store.cpp']),
    'tree': dict(src=['tree.cpp']),
    'conc': dict(src=['conc.cpp'], libs=['-Wl' + ''.join(',--wrap=' + f for f in WRAP)]),
    'oom': dict(src=['oom.cpp'], libs=['-Wl,--wrap=slab_reserve_unsafe,--wrap=slab_alloc_safe,--wrap=slab_alloc_unsafe']),
    'low': dict(src=['low.cpp']),
    'sync': dict(src=['sync.cpp']),
    'co': dict(src=['co.cpp'], libs=['-Wl,--wrap=posix_memalign,--wrap=free,--wrap=pthread_create']),
}


def R(bin, mode, flavour, quick, thorough, chunk, **kw):
    return dict(bin=bin, mode=mode, flavour=flavour, cases=(quick, thorough), chunk=chunk, **kw)


HIST = ['inserts', 'deletes', 'inserts_forced_split']
DOM = ['keys lie between the smallest and the largest boundary key, are inserted once and deleted only while present',
       'no two keys differ only in trailing zero bytes', 'load factor 0.95, fingerprints of 1 to 40 bits', 'one thread per filter']
HRULE = ('a case is a seeded random history (load by constructor or stream, inserts, forced splits, deletes of random, neighbouring and boundary keys, '
         'bursts, shrinking, round trips) over one of 10 key distributions; it counts as non-trivial when the history changed the filter after loading; '
         'distinct by configuration and observed event counts')
D = 'diva'
T = 'tree'
TDOM = ['one user of the map at a time', 'integer-map keys have 1 to 8 bytes in 8-byte buffers, values 16 bytes', 'byte-map keys up to 600 bytes, values up to 3000 bytes']
TRULE = ('a case is a seeded random history (puts, deletes, lookups, in-place accesses, merges, range deletes, iterators, sorted batches, cleans, drains, re-references) on one interface of one map over one of '
         '13 byte-string or 9 integer key distributions (some with thousands of long anchors); distinct by interface, distribution and observed event counts')
CDOM = ['each thread has its own reference to the map; scans go forward only', 'no concurrent iterators on the integer map', 'no thread holds an iterator while it writes']
CRULE = ('a case is 2 to 6 threads running seeded operations on one map over one of the key distributions, filling and emptying its leaves, with delays around locks, grace periods and callbacks; non-trivial when leaves were split or merged, '
         'a lock was refused or operations on one key overlapped in time; distinct by configuration and observed event counts')
LRULE = 'a case is a seeded batch of hostile inputs to the functions; distinct by observed event counts'
CHECKS = {
    'C01': dict(runs=[R(D, 'pt_int', 'plain', 12000, 400000, 100)], nontrivial=HIST, rule=HRULE, assumptions=DOM),
    'C02': dict(runs=[R(D, 'pt_str', 'plain', 12000, 400000, 100)], nontrivial=HIST, rule=HRULE, assumptions=DOM),
    'C03': dict(runs=[R(D, 'rg_int', 'plain', 9000, 300000, 100)], nontrivial=HIST, rule=HRULE, assumptions=DOM),
    'C04': dict(runs=[R(D, 'rg_str', 'plain', 8000, 300000, 100)], nontrivial=HIST, rule=HRULE, assumptions=DOM),
    'C05': dict(runs=[R(D, 'mono_int', 'plain', 5000, 150000, 50), R(D, 'mono_str', 'plain', 5000, 150000, 50)], nontrivial=['monotone_checks'], rule=HRULE, assumptions=DOM),
    'C06': dict(runs=[R(D, 'del', 'plain', 4000, 100000, 50), R(D, 'forget', 'plain', 4000, 100000, 50)], nontrivial=['drained', 'emptied'], rule=HRULE, assumptions=DOM),
    'C07': dict(runs=[R(D, 'shrink', 'plain', 5000, 150000, 50)], nontrivial=['shrinks'], rule=HRULE, assumptions=DOM),
    'C08': dict(runs=[R(D, 'ser', 'plain', 5000, 150000, 50)], nontrivial=['roundtrips'], rule=HRULE, assumptions=DOM),
    'C09': dict(runs=[R(D, 'load', 'plain', 5000, 150000, 50)], nontrivial=['loads'], rule=HRULE, assumptions=DOM),
    'C10': dict(runs=[R(D, 'det', 'plain', 4000, 100000, 50)], nontrivial=['history_comparisons'], rule=HRULE, assumptions=DOM),
    'C11': dict(runs=[R(D, 'api', 'plain', 4000, 100000, 50)], nontrivial=['filters_compared'], rule=HRULE, assumptions=DOM),
    'C12': dict(runs=[R(D, 'diff', 'plain', 6000, 150000, 50)], nontrivial=['compared_answers'], rule=HRULE, assumptions=DOM),
    'C13': dict(runs=[R(D, 'mix', 'heap', 2400, 100000, 20, timeout=300)], nontrivial=['loads'], rule=HRULE, assumptions=DOM),
    'C14': dict(runs=[R(D, 'leak', 'heap', 1200, 60000, 20, timeout=300, leaks=True)], nontrivial=['loads'], rule=HRULE, assumptions=DOM),
    'C15': dict(runs=[R('store', 'store', 'plain', 8000, 300000, 50), R('store', 'store', 'asan', 600, 30000, 20)], nontrivial=['inserts', 'deletes'],
                rule='a case is a seeded random history of one store', assumptions=[]),
    'C16': dict(runs=[R(D, 'acc', 'plain', 4000, 100000, 50), R(D, 'fpr', 'plain', 700, 20000, 20)], nontrivial=['yes', 'empty_queries'], rule=HRULE, assumptions=DOM),
    'C17': dict(runs=[R(D, 'space', 'plain', 6000, 100000, 50)], nontrivial=['size_checks'], rule=HRULE, assumptions=DOM),

    'C18': dict(runs=[R(T, 'map', 'plain', 8000, 300000, 50), R(T, 'big', 'plain', 96, 6000, 4, timeout=300), R(T, 'kv64', 'plain', 2000, 60000, 50)], nontrivial=['insertions', 'deleted_present'], rule=TRULE, assumptions=TDOM),
    'C19': dict(runs=[R(T, 'int', 'plain', 5000, 200000, 50), R(T, 'int_iter', 'plain', 3000, 100000, 50), R(T, 'int_delr', 'plain', 3000, 100000, 50), R(T, 'big_int', 'plain', 40, 4000, 2, timeout=300)], nontrivial=['insertions', 'deleted_present'], rule=TRULE, assumptions=TDOM),
    'C20': dict(runs=[R(T, 'iter', 'plain', 6000, 200000, 50)], nontrivial=['iterator_positions'], rule=TRULE, assumptions=TDOM),
    'C21': dict(runs=[R(T, 'delr', 'plain', 8000, 300000, 50)], nontrivial=['range_deletes'], rule=TRULE, assumptions=TDOM),
    'C22': dict(runs=[R(T, m, 'heap', 480, 20000, 15, timeout=300, leaks=True) for m in ('map', 'iter', 'delr', 'int', 'int_iter', 'int_delr')]
            + [R(T, m, 'heap', q, t, c, timeout=400, leaks=True) for m, q, t, c in (('users', 160, 8000, 10), ('users_int', 160, 8000, 10), ('big', 8, 600, 1), ('big_int', 4, 400, 1))], nontrivial=['insertions', 'deleted_present'], rule=TRULE, assumptions=TDOM),

    'C23': dict(runs=[R('conc', m, 'plain', q, t, 10, timeout=300) for m, q, t in (('hist', 1000, 30000), ('own', 240, 10000), ('hist_int', 600, 20000), ('own_int', 140, 8000))]
            + [R(T, 'users', 'plain', 1200, 40000, 25), R(T, 'users_int', 'plain', 800, 30000, 25)],
                nontrivial=['structure_changes', 'refused_locks', 'overlapping_same_key_ops'], rule=CRULE, assumptions=CDOM),
    'C24': dict(runs=[R('conc', m, 'heap', q, t, 10, timeout=400, leaks=True) for m, q, t in (('hist', 280, 10000), ('own', 120, 5000), ('hist_int', 160, 8000), ('own_int', 80, 4000))],
                nontrivial=['structure_changes', 'refused_locks'], rule=CRULE, assumptions=CDOM),
    'C25': dict(runs=[R('sync', 'lock', 'plain', 1500, 50000, 25, timeout=300), R('sync', 'lock', 'tsan', 800, 20000, 25, timeout=300, setarch=True)],
                nontrivial=['refusals', 'single_user_answers'], rule='a case is a seeded set of 2 to 6 threads taking one lock in a random mix of ways, or one user checking exact answers', assumptions=['a holder does not take the same lock again']),
    'C26': dict(runs=[R('sync', 'qsbr', 'plain', 1200, 40000, 20, timeout=300), R('sync', 'qsbr', 'asan', 200, 8000, 20, timeout=300)],
                nontrivial=['grace_periods', 'held_waits', 'waits_during_arrivals'], rule='a case is a seeded set of readers that announce, park, resume, register and leave while a writer waits for grace periods', assumptions=['one waiter at a time']),
    'C27': dict(runs=[R('low', 'kv', 'plain', 3000, 100000, 50), R('low', 'kv', 'asan', 600, 20000, 20)], nontrivial=['record_pairs'], rule=LRULE, assumptions=[]),
    'C28': dict(runs=[R('low', 'bits', 'plain', 3000, 100000, 50), R('low', 'bits', 'asan', 600, 20000, 20)], nontrivial=['words'], rule=LRULE, assumptions=['ranges and landing places lie inside the bitmap']),
    'C29': dict(runs=[R('low', 'slab', 'plain', 2000, 60000, 25), R('low', 'slab', 'heap', 500, 20000, 20, leaks=True)], nontrivial=['allocations'], rule=LRULE, assumptions=[]),
    'C30': dict(runs=[R('low', 'codec', 'plain', 3000, 100000, 50), R('low', 'codec', 'asan', 600, 20000, 20)], nontrivial=['values'], rule=LRULE, assumptions=[]),
    'C31': dict(runs=[R('oom', 'oom', 'fault', 3500, 200000, 25, timeout=300, leaks=True), R('oom', 'oom_int', 'fault', 2500, 160000, 25, timeout=300, leaks=True), R('oom', 'oom_util', 'fault', 400, 8000, 20, leaks=True)],
                nontrivial=['operations_refused', 'creations_refused', 'calls_refused'],
                rule='a case is a seeded random history on one interface of one map in which the 1st, 2nd, ... request for memory of an operation is refused, alone or with all that follow; distinct by interface, distribution and observed event counts',
                assumptions=TDOM + ['cleaning a map finds memory (it has no way to report a failure)', 'growing the table of anchors waits until there is memory, as the library documents']),
    'C32': dict(runs=[R('co', 'co', 'plain', 4000, 200000, 50)], nontrivial=['switches', 'yields'],
                rule='a case is 1 to 4 threads, each with four seeded groups of coroutines that switch, go back, fork, recurse, exit, are used again, or yield around a ring they are linked into; distinct by configuration and observed event counts',
                assumptions=['stacks of at least 16 kB', 'a coroutine stays on the thread that entered it', 'coroutines that switch to each other have the same host']),
    'C33': dict(runs=[R('co', 'fork', 'plain', 1500, 60000, 25, timeout=300), R('co', 'fork', 'tsan', 300, 10000, 10, timeout=300, setarch=True)], nontrivial=['fork_joins'],
                rule='a case is six fork-joins of seeded sizes from a seeded set of processors, a third of them with threads refused, next to placed threads and the functions that place them; distinct by observed event counts', assumptions=['Linux']),
}
