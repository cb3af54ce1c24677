# Properties of the ordered maps and of the libraries below them; executed by spec.py.
T_TREE = 'No test of the repository exercises the maps on their own; they are only used with the few keys that the filter puts there. '
MONM = 'runtime monitor: the real map driven next to std::map under seeded hostile histories'
MNOTE = ('Shows the property on every execution observed (thousands of seeded histories per quick run), not on all histories; trusts the reference '
         'model in the harness. Domain: see the assumptions in the evidence file.')
WHC, WIC, KVC, LIB = W + 'wh.c', W + 'wh_int.c', W + 'kv.c', W + 'lib.c'

prop('C18', 'The byte-key map is an exact map',
     'The ordered map over byte strings (wormhole) behaves, for a single user, exactly like a map from byte strings to values through each of its interfaces (plain buffers, thread-safe, quiescent-state and unsafe): '
     'a put stores or replaces, a get or probe finds exactly the present keys and returns the value stored last, a delete reports whether the key was present, in-place reads and writes see the current pair once, and a merge stores what its callback returns. '
     'Keys may have any length, hold any bytes, be prefixes of one another or be empty.',
     ['inputs', 'histories'], 'every history of puts, gets, probes, in-place accesses, merges and deletes over every set of byte strings, through every interface',
     T_TREE, [WHC, KVC], M(('hash search in the trie of anchors', WHC), ('leaf search', WHC), ('leaf split and merge', WHC), ('kvmap wrappers', KVC)), MONM, MNOTE, ['wh_put', 'wh_get', 'wh_probe', 'wh_del', 'wh_merge', 'kvmap_api_*'])
prop('C19', 'The integer-key map is an exact ordered map',
     'The ordered map over keys of one to eight bytes (the integer variant of the tree) behaves, for a single user, exactly like a sorted map from keys to 16-byte values: puts, probes, gets and deletes answer exactly, '
     'a seek stands at the smallest key not below the one asked for, steps forwards and backwards visit every key once in byte order, and a range delete removes exactly the keys of its half-open range.',
     ['inputs', 'histories'], 'every history over keys of up to 8 bytes, including dense, clustered and extreme integers, through every interface',
     T_TREE, [WIC], M(('hash search in the trie of anchors', WIC), ('leaf sort and search with an unsorted tail', WIC), ('leaf split and merge', WIC), ('iterator', WIC), ('range delete', WIC)), MONM, MNOTE,
     ['wh_int_put', 'wh_int_probe', 'wh_int_del', 'wh_int_delr', 'wh_int_iter_*', 'wormhole_int_*', 'whsafe_int_*'])
prop('C20', 'Iterators visit exactly the present keys in order',
     'On the byte-key map, with no concurrent writer, seeking to any key (present, absent, empty or a prefix) places the iterator at the smallest present key that is not smaller; stepping or skipping forwards or backwards visits every key exactly once in byte order and ends exactly at either end; '
     'what is read at each position is the pair stored there, and writes through the iterator change exactly that pair.',
     ['inputs', 'histories'], 'every key set and history, every sequence of seeks, steps, skips and in-place writes',
     T_TREE + 'The filter only ever seeks to its boundary keys and takes single steps.', [WHC, KVC], M(('seek', WHC), ('leaf sort on first ordered access', WHC), ('move to the next and previous leaf', WHC), ('skip', WHC)), MONM, MNOTE, ['wh_iter_*', 'wormhole_iter_*', 'whsafe_iter_*', 'whunsafe_iter_*'])
prop('C21', 'Range deletes remove exactly the range',
     'On the byte-key map a range delete from a start key to an end key removes exactly the present keys that are not below the start and below the end (or all from the start on, when there is no end), reports how many those were, and leaves every other pair, and the map itself, intact and usable; an empty or inverted range removes nothing.',
     ['inputs', 'histories'], 'every key set, every history, every pair of range ends, ranges inside one leaf, across many leaves and over the whole map',
     T_TREE + 'Range deletes are never called.', [WHC, KVC], M(('range delete with its leaf merges', WHC), ('cut inside a leaf', WHC)), MONM, MNOTE, ['wh_delr', 'wormhole_delr', 'whsafe_delr', 'whunsafe_delr'])
prop('C22', 'The maps own their memory correctly',
     'No sequence of single-user operations on either map reads or writes outside live allocations or uses freed memory; every pair handed to a map is released exactly once, at its replacement, deletion, cleaning or at the destruction of the map, and destruction leaves nothing allocated.',
     ['inputs', 'histories'], 'every history over both maps and all their interfaces, with key and value buffers of exactly their size',
     'The tests run without sanitizers and never look at the allocator.', [WHC, WIC, KVC, LIB], M(('slab and page allocation', LIB), ('pair ownership through the memory hooks', WHC), ('release on replacement, deletion and destruction', WHC), ('anchor and hash table growth', WHC)),
     'AddressSanitizer + UBSan + LeakSanitizer on the map workloads, and an allocation-tracking memory hook', MNOTE + ' Leaf and trie pages come from mmap, whose bounds AddressSanitizer does not see.', None)

T_CONC = 'No test of the repository uses a map from more than one thread. '
CNOTE = ('Shows the property on every interleaving observed (thousands of recorded histories per quick run, with delays injected around the locks, grace periods and callbacks), not on all schedules; trusts the history checker in the harness. '
         'ThreadSanitizer is not used on the maps: their readers race with the writers of the hash tables by design and re-check versions afterwards.')
prop('C23', 'Concurrent users of a map see one consistent map',
     'When several threads use one map at once, each through its own reference, their operations (puts, gets, probes, deletes, in-place accesses, merges, on the byte-key map also forward scans) take effect on each key one at a time, at some moment between call and return: '
     'no stored pair is lost or brought back, no value is torn or invented, a key that one thread alone writes always shows that thread its own last write, and a range delete removes exactly the keys of its range that no one else touches. '
     'Scans see keys in order, never pass over a key that was there all the time and never show one that was not. This holds across splits and merges of leaves caused by other threads. A user that has parked its reference, or that is between two operations of the thread-safe interface, never holds the others up.',
     ['schedules', 'histories', 'inputs'], 'every interleaving of any number of threads, every key set, for the byte-key map (thread-safe and quiescent-state interfaces) and for the point and range-delete operations of the integer-key map',
     T_CONC, [WHC, WIC, LIB], M(('leaf lookup with a version check after locking', WHC), ('leaf split and merge under leaf and meta locks', WHC), ('two copies of the anchor table, switched after a grace period', WHC), ('hand-over-hand locking of scans', WHC), ('the same for the integer map', WIC)),
     'runtime monitor: recorded concurrent histories checked offline for per-key linearizability, and thread-owned keys checked online, with injected delays', CNOTE, ['wormhole_*', 'whsafe_*', 'wormhole_int_*', 'whsafe_int_*'])
prop('C24', 'Concurrent use of a map is memory safe',
     'While threads put, delete, merge, scan and range-delete on one map, no thread reads or writes memory that another one has released; every pair handed to the map is released exactly once, never while a reader may still look at it, and after the threads have left and the map is destroyed nothing stays allocated.',
     ['schedules', 'histories', 'inputs'], 'every interleaving of any number of threads on either map',
     T_CONC, [WHC, WIC, LIB], M(('release of a replaced or deleted pair after unlocking its leaf', WHC), ('release of leaves and anchor nodes after a grace period', WHC), ('slab allocation under concurrent use', LIB)),
     'AddressSanitizer + LeakSanitizer on the concurrent workloads, with a memory hook that poisons released pairs and counts releases', CNOTE + ' Leaves and trie nodes are carved out of slabs, where AddressSanitizer sees only the slab; misuse inside a slab shows in the oracles of the histories.', None)
prop('C25', 'Locks exclude',
     'While a thread holds the spinlock, the mutex or the reader-writer lock for writing, no other thread is inside; any number of readers may share the reader-writer lock but never together with a writer; turning a write lock into a read lock lets no writer in between; what was written under a lock is visible to the next holder. '
     'With no one else active, every attempt to take a free lock succeeds, every attempt to take a held one fails, and after the last holder has left the lock is free.',
     ['schedules', 'histories'], 'every interleaving of any number of threads and every mix of blocking, bounded, high- and low-priority acquisitions',
     T_CONC + 'The locks are only ever taken without contention.', [LIB], M(('reader-writer lock', LIB), ('spinlock and mutex', LIB)),
     'runtime monitor of who is inside, and ThreadSanitizer on the data the locks protect', 'Shows the property on every interleaving observed, not on all schedules.', ['rwlock_*', 'spinlock_*', 'mutex_*'])
prop('C26', 'A grace period waits for every reader',
     'A wait for a version ends only after every registered reader has announced that version, has parked or has unregistered; so what was replaced before the wait is not looked at any more after it, by readers that stay, come back from parking, register or leave at any moment. '
     'The wait does end once they have, and registering, parking and leaving never crash a waiter.',
     ['schedules', 'histories'], 'every interleaving of readers that announce, park, resume, register and unregister with a waiting writer',
     T_CONC, [LIB], M(('wait over the shards of readers', LIB), ('register and unregister', LIB), ('park and resume', LIB)),
     'runtime monitor: readers watch for changes to data they are still entitled to, a held-back reader must hold back the wait', 'Shows the property on every interleaving observed, not on all schedules.', ['qsbr_wait', 'qsbr_register', 'qsbr_unregister', 'qsbr_park', 'qsbr_resume', 'qsbr_update'])
LNOTE = 'Shows the property on every execution observed, not on all inputs; trusts the byte-by-byte reference definitions in the harness.'
MONL = 'runtime monitor: the real functions next to byte-by-byte reference definitions on seeded hostile inputs, plain and under AddressSanitizer/UBSan'
prop('C27', 'Key-value records keep and order their bytes',
     'A record holds exactly the key and value bytes it was made from, and its hash, size and copies agree with them; comparing, matching, prefix and common-prefix functions on records, references and 128-bit keys agree with byte-wise lexicographic comparison (shorter first), and sorting a batch orders it accordingly and keeps every record. A printed record shows its hash, lengths and bytes in the notation asked for.',
     ['inputs'], 'every pair of byte strings, of any length, with shared prefixes, zero and 0xFF bytes and equal keys',
     'No test looks at the records on their own.', [KVC], M(('comparison and matching', KVC), ('duplication and update', KVC), ('longest common prefix', KVC), ('sorting', KVC)), MONL, LNOTE, ['kv_*', 'kref_*', 'kvref_*', 'kv128_*'])
prop('C28', 'Bit utilities agree with their definitions',
     'Select, rank, lowest and highest set bit, masks, byte order and range reduction give, for every word, the result of counting bit by bit; setting, clearing and shifting ranges of a bitmap left or right changes exactly the bits of the range and its landing place and nothing outside.',
     ['inputs'], 'every word, every position, every range and shift distance inside every bitmap',
     'The tests use a few fixed words and short shifts.', [UT], M(('select and rank', UT), ('bitmap shifts', UT)), MONL, LNOTE, ['_select64', 'bit_select', 'bit_rank', 'shift_bitmap_right', 'shift_bitmap_left', 'fast_reduce', 'to_big_endian_order'])
prop('C29', 'The slab allocator hands out distinct live objects',
     'Objects taken from a slab never overlap, have the promised size and alignment, keep their content until they are given back, and may then be handed out again; counts of free and used objects are exact; reservations are honoured; several threads may allocate and free at once without losing or doubling an object.',
     ['schedules', 'histories', 'configurations'], 'every object and block size, every history of allocations, frees and reservations, any number of threads',
     'No test uses a slab on its own.', [LIB], M(('slab', LIB)), MONL, LNOTE, ['slab_*'])
prop('C30', 'Codecs and helpers are exact',
     'Variable-length integers decode to what was encoded, use the length announced and never read past their end; decimal and hexadecimal formatting and parsing agree with the C library; the CRC is CRC-32C for every length and split; bit reversal, rotation, rounding and common divisors agree with their definitions; splitting a text at delimiters gives exactly its tokens; dumps show every byte; fresh pages are clear and as large as announced; the registry of map types leads each name to what was registered under it; the random generators stay in their ranges.',
     ['inputs'], 'every integer, byte string and length',
     'No test calls them.', [LIB], M(('variable-length integers', LIB), ('text conversion', LIB), ('CRC-32C', LIB), ('tokenizer', LIB)), MONL, LNOTE, ['vi128_*', 'strdec_*', 'strhex_*', 'a2*', 'crc32c_*', 'bits_*', 'strtoks', 'gcd64'])
prop('C31', 'A failed allocation changes nothing',
     'When memory runs out inside an operation of an ordered map, the operation either does without or reports failure; a reported failure leaves the map exactly as it was, leaks nothing and leaves no lock held or released wrongly, so that the same and every other operation, through every interface of the map, works as soon as there is memory again. '
     'Deletes succeed without memory. Creating a map, a reference, an iterator, a record, a slab or a list of tokens without memory yields nothing, and does not crash.',
     ['inputs', 'histories', 'fault_sequences'], 'every operation in every state of the map, and every request for memory inside it that may be refused',
     'The tests never run out of memory.', [WHC, WIC, LIB, KVC], M(('splits that are undone', WHC), ('splits of the integer map', WIC), ('creation', WHC), ('allocation helpers', LIB)),
     'runtime monitor: std::map model next to the real map, the requests of the library for memory refused one by one, under AddressSanitizer, UBSan and LeakSanitizer',
     'Shows the property for every refusal observed (each request of an operation in turn), not for all histories.', ['slab_reserve_unsafe', 'slab_alloc_safe', 'malloc', 'posix_memalign'])

prop('C32', 'Coroutines switch exactly',
     'A switch to a coroutine, back to the host, or on to the next of a ring continues exactly that one where it left off, hands over exactly the value given, and leaves its stack and saved registers as they were; a coroutine starts once per (re)use, with its own private pointer and an aligned stack; whoever runs is the one that co_self and co_priv name. '
     'An exit, by call or by return, gives the host the exit value (a ring: gives way to the next, and to the host after the last), and from then on the coroutine is not valid until it is used again. A ring is visited in the order of its links, also when members join and leave while it runs. '
     'No memory outside the coroutine is touched, destroying one releases it, and threads with coroutines of their own do not disturb each other.',
     ['programs', 'histories', 'schedules'], 'every program of coroutines that create, fork, enter, switch, go back, yield, link, exit and are used again, on any number of threads',
     'No test uses a coroutine.', [LIB], M(('stack switch', LIB), ('creation and exit', LIB), ('ring of coroutines', LIB)),
     'runtime monitor: every arrival is compared with the switch that caused it, stacks between inaccessible pages and guard bytes', 'Shows the property for every program observed, not for all; x86-64 only.', ['co_*', 'corr_*'])
prop('C33', 'Fork-join runs every task once',
     'A fork-join runs every task exactly once, with its own argument when arguments are separate, each on one of the processors of the caller in turn, and returns only after all of them have ended and what they wrote can be seen; when threads cannot be had, exactly the number of tasks left out is reported. '
     'The caller finds its processors and its name as they were. Lists and counts of processors are those of the system and are never written past the room given; a thread created or pinned at a processor runs there and nowhere else; clocks and usage agree with the system.',
     ['inputs', 'schedules', 'configurations', 'fault_sequences'], 'every number of tasks, every set of processors, every pattern of refused threads',
     'No test uses these functions.', [LIB], M(('tree of forks and joins', LIB), ('placement of threads', LIB), ('clocks', LIB)),
     'runtime monitor: tasks record where and how often they ran, thread creation is refused at random, ThreadSanitizer on what tasks write', 'Shows the property for every execution observed, not for all schedules.', ['thread_fork_join', 'thread_create_at', 'thread_pin', 'process_getaffinity_list'])
