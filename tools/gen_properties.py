#!/usr/bin/env python3
"""Single source for properties.jsonl (run by hand when a property changes)."""
import json, os
H='containers/cliffMap/hashMap.hpp'; P='include/persistence.hpp'
props=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),obs=()):
    props.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
            mechanism=[dict(name=a,where=b) for a,b in mech],
            observe_at=list(obs),hook_needed=None)))

prop('C01','Conditional map operations act exactly on their condition and report it',
 "Each map update (put, insert-if-absent, remove, remove-if-equal, replace-if-equal) changes the binding of exactly the key it was given, changes it exactly when the binding it observed satisfies the operation's condition, and stores exactly the value it was given (or removes the binding). The result it returns describes the binding it observed at that instant: the previous value, or 'absent' if there was none. A lookup returns the bound value unchanged, or 'absent'.",
 ['inputs','schedules','histories'],'every key and value outside the reserved encodings, every prior state of the key, every interleaving of other operations between two accesses of the operation',
 'The stable tests never check a return value and only sample a few interleavings; a wrong result in one branch (tombstone, freshly claimed key, lost race, value already present) is invisible to them.',
 [H],[('putIfMatch condition and CAS loop',H+': putIfMatch'),('API wrappers',H+': put/putIfAbsent/remove/replace/get/containsKey')],
 [('KVpair','key and value words of a slot',H)],['return value of each public operation'])

prop('C02','Read-modify-write updates apply their function once, atomically, resize or not',
 "An update that carries a function (increment in particular) stores exactly the value that function computes from the value it atomically replaces, also when the operation meets a table that is being resized and has to be carried out in the successor table. An increment stores the old value plus one, or one if the key was absent, and returns the value it replaced.",
 ['inputs','schedules','histories'],'every prior value, every interleaving with other updates and with a resize at any point of the operation',
 'The degree test calls increment but never looks at a counter; a resize met in the middle of an increment depends on timing.',
 [H,'containers/ucfMap.hpp'],[('update/increment',H+': update, Table::increment'),('retry in successor table',H+': putIfMatch recursion')])

prop('C03','Shared slots change only by compare-and-swap along the allowed life cycle',
 "In a table other threads can reach, a slot's key is written at most once and never changes afterwards, a slot whose value has been handed over to a newer table never changes again except to record that the hand-over is finished, and a slot never returns to the empty state. Every such change replaces precisely the content the changing thread had observed, never blindly overwriting what another thread stored meanwhile.",
 ['schedules','histories'],'every interleaving of any number of threads over every slot of every published table',
 'A blind or backward transition only loses data when another thread acts inside a window of a few instructions.',
 [H,P],[('CASkey/CASvalue/pcas',H+' and '+P),('migration marking',H+': CHM::copySlot')],
 [('MigrationFlag','value frozen, hand-over in progress','include/marking.hpp'),('TOMBPRIME','hand-over finished',H)])

prop('C04','A resize neither loses, duplicates nor resurrects a binding',
 "Every binding present in a table being replaced is placed in the successor table (unless the successor already holds something for that key) before its old slot is retired. Each retired slot is counted exactly once, and the successor replaces the old table only when every slot of the old table has been retired. An operation that moves on to the successor first makes sure that its own key's old slot has been handed over.",
 ['schedules','histories'],'every interleaving of helpers, writers and readers over every slot of the old table, for every table size',
 'Tests resize under load but never compare the contents before and after; a lost or doubly counted slot needs two helpers meeting in one slot.',
 [H],[('copySlot',H+': CHM::copySlot'),('copyCheckAndPromote',H),('copySlotAndCheck',H),('helpCopyImpl',H)],
 [('copyDone','number of retired slots',H),('copyIdx','next chunk to migrate',H),('newTable','successor table',H)])

prop('C05','A lookup searches every place where an insert may have put the key',
 "A lookup visits the candidate slots of a table in the same order as an insert does, skips none, and stops only where an insert of that key would have stopped. It answers 'absent' only after it has found an empty or value-less slot on the way or has exhausted the same candidates without a successor table existing; otherwise it continues in the successor table.",
 ['inputs','schedules','histories'],'every key, hash value, table size and occupancy pattern, with or without a resize in progress',
 'Random tests almost never fill a probe window; they do not check that an inserted key is found.',
 [H],[('getImpl',H),('putIfMatch probe loop',H),('reprobeLimit',H)])

prop('C06','No result depends on a value that could still be lost in a crash',
 "Before an operation returns a result derived from a slot's content, or changes a slot on the strength of it, that content has been written back to persistent memory and fenced if it was not known to be durable. The mark telling other threads that a word may not be durable is set whenever a word is changed and removed only after that word has been written back and fenced.",
 ['crash_points','schedules'],'a crash after any instruction, any interleaving of readers and writers',
 'No test crashes the process, let alone the machine; a cache line that was never written back looks the same as one that was.',
 [P,H],[('pcas_read/persist/pcas',P),('Table::key/value/CASkey/CASvalue/increment',H)],[('DirtyFlag','word may not be durable','include/marking.hpp')])

prop('C07','A completed update is durable, and a binding never leaves persistent memory',
 "When an update reports its effect to the caller, the words it changed have been written back and fenced. During a resize the copy in the successor table is durable before the old slot is retired, so a crash at any point leaves at least one durable copy of every binding.",
 ['crash_points','schedules','fault_sequences'],'a crash after any instruction of any operation, including in the middle of a resize',
 'No test crashes the machine; what is missing is a write-back instruction, which no functional test can observe.',
 [P,H],[('pcas',P),('copySlot order copy then retire',H)])

prop('C08','The write-back primitives cover every cache line of the range',
 "Persisting an address range writes back every cache line that overlaps it, for every start address, alignment and length, and orders the write-backs before anything that follows.",
 ['inputs','crash_points'],'every start address, alignment and length of the range',
 'Missing the first or last line of a range is unobservable without power loss.',
 [P],[('PERSIST, PERSIST_FLUSH_ONLY, PERSIST_BARRIER_ONLY, persist',P)])

prop('C09','A new table is completely initialised and durable before anyone can use it',
 "Before a newly created table becomes reachable, from other threads or from a later recovery, each of its slots has been set to the empty state and the whole table has been written back and fenced; the mapped memory covers exactly the slots the table claims to have. A table file that was not completely initialised is never taken for a table.",
 ['crash_points','schedules','inputs'],'every capacity, a crash after any instruction of the creation',
 'Tests see a table only after creation has finished and never recover one.',
 [H,P],[('mmapTable',H)])

prop('C10','A full table gets exactly one successor, which is strictly larger',
 "Of any number of threads that try to replace a table, exactly one installs a successor and all continue with that one; an installed successor is never replaced or withdrawn, and a thread that lost the race releases only the table it allocated itself. The successor's capacity is the old capacity times a power of two greater than one.",
 ['schedules','inputs'],'every interleaving of resizers, every fill level',
 'Two threads must allocate at the same moment; the tests never look at which table survives.',
 [H],[('resize, CASNewTable, munmapTable',H)],[('newTable','successor',H)])

prop('C11','Recovery keeps every surviving binding and never reuses a table file',
 "Opening an existing set of table files maps them as they are and changes nothing in them, discards only tables that hold no binding, links the remaining ones from oldest to newest, and lets an interrupted resize finish. Table files created after recovery get names different from all those found.",
 ['crash_points','histories','configurations'],'every set of table files a crash can leave behind, including several tables in the middle of a resize',
 'The stable tests run with recovery switched off.',
 [H],[('recovering constructor',H+': ConcurrentHashMap(fileDir,...)'),('mmapTable existing branch',H),('numFromName',H)])

prop('C12','The element count follows the bindings',
 "Each operation that gives a key without a binding a value adds one to the element count, each that removes a binding subtracts one, and every other operation, including moving bindings to a larger table, leaves it unchanged; a new table starts with the count of the one it replaces.",
 ['inputs','schedules','histories'],'every operation in every prior state of its key; updates concurrent with a resize are excluded',
 'No stable test compares the count with the number of elements.',
 [H],[('chm.size updates in putIfMatch',H),('size inheritance in resize',H)])

prop('C13','Reserved encodings never collide with each other, with flags or with user data',
 "The internal encodings (empty, deleted, retired, wildcards) are pairwise distinct where they can be confused, carry no flag bits except the retired one which carries the hand-over flag, and the public predicates report exactly the reserved ones as reserved. Setting, clearing and testing a flag affects that flag only.",
 ['inputs'],'every 64-bit key and value',
 'Tests use a handful of small values.',
 [H,'include/marking.hpp'],[('sentinel definitions',H),('isKeyReserved/isValueReserved',H),('setMark/clearMark/isMarked','include/marking.hpp')])

prop('C14','All container adapters report faithfully what the container underneath did',
 "For each of the four container adapters and every key whose top three bits are zero (and whose encoding is not a reserved one): insert binds the key to itself if the key is absent and returns true exactly in that case; erase returns true exactly when it removed the binding of the key; contains returns true exactly when the key is bound; get returns exactly the bound value, bit for bit; contains and get change nothing. Each answer follows from one atomic answer of the container underneath, so it stays right when other threads use the container at the same time. count returns what the container reports as its size.",
 ['inputs','schedules'],'every key, every answer of the container underneath, each of the four containers',
 'The harness only counts results; it never compares them with a model.',
 ['containers/ucfMap.hpp','containers/stlMap.hpp','containers/pmemMap.hpp','containers/levelMap.hpp'],[('insert/erase/contains/get of each container_type','containers/*.hpp')])

prop('C15','The lock-based reference container serialises every access',
 "Every operation of the lock-based reference container reads and writes the underlying map only while holding the container's lock, and the lock is released on every way out of the operation.",
 ['schedules'],'every interleaving of any number of threads calling any operations',
 'A data race on a red-black tree rarely corrupts it in a short run.',
 ['containers/stlMap.hpp'],[('global_lock guard','containers/stlMap.hpp')])

prop('C16','Failures of operating-system calls are never silently ignored',
 "When opening, sizing, extending, mapping or publishing a table file fails, the operation reports an error and never goes on to use the result of the failed call; no file descriptor stays open on any way out. Unmapping a table unmaps exactly the memory that was mapped for it and reports success as success.",
 ['fault_sequences'],'every combination of failing system calls',
 'The tests never make a system call fail.',
 [H],[('mmapTable, munmapTable',H)])

prop('C17','Every slot an operation touches lies inside its table',
 "Every read, write, compare-and-swap and write-back of a slot, by any operation and by the hand-over to a larger table, is at an index below the capacity of the table it is made in. This holds for every hash value, probe length and hand-over range, including when hand-over ranges wrap around.",
 ['inputs','schedules'],'every 64-bit key, hash value and table capacity, every distribution of hand-over ranges over threads',
 'Tests use capacities and keys whose indexes stay in range; a one-off index touches a neighbouring page only sometimes.',
 [H],[('probe index computation',H+': putIfMatch, getImpl'),('hand-over range',H+': helpCopyImpl, copySlot')])

prop('C18','The hash of a key depends on the key alone',
 "Hashing equal keys gives equal hashes in every thread, at any time and after every restart: the hash functions (the one the map uses by default, and the xxhash and identity functions offered in its place) compute their result from all the bytes of the key and from nothing else, in particular from no variable, address, uninitialised or adjacent memory, and change nothing. The slot at which an operation starts searching a table is a function of this hash and of the table's capacity only.",
 ['inputs','histories','crash_points'],'every key of every supported size, every thread and every number of restarts',
 'A test hashes a key within one process run and never opens a table that another run has filled.',
 ['hashing/hash.hpp','hashing/xxhash.hpp',H],[('xxhash, NaiveHash','hashing/hash.hpp'),('default Hash parameter; Hash{}(key)',H)])

CV='include/libpmemobj++/experimental/clevel_hash.hpp'
prop('C19','Clevel: shared words change only by compare-and-swap, and every change is made durable in time',
 "In insert, erase and search of the clevel container, in expand, and in the rehashing loop: a slot, a link between levels and the root are only ever changed by a compare-and-swap (the rehashing loop alone may empty a slot of the level being dropped with a plain store, once the entry is durable in its new slot). A new level or root object is published only when its whole content is durable. Every word an operation changed is durable before the operation returns, before the entry taken out of a slot is freed, and before the rehashing cursor moves on; a link is durable before a root names the level it leads to.",
 ['schedules','crash_points'],'every path of these operations, any number of levels, buckets and retries, any interference by other threads at every load',
 'The tests never crash the process in the middle of an operation and never look at what has reached the memory.',
 [CV],[('generic_insert, erase, search, expand, resize',CV)])

prop('C20','Clevel: an operation on a key touches entries of that key only, looks everywhere it has to, and reports what it did',
 "An entry is removed only by erase, only after its key compared equal to the given key, and only if the slot still holds exactly the word that was read from it; insert puts into a slot only the entry it made from the given key and value, marked with the tag of the key, and only into a slot it saw empty. Insert, erase, search and rehashing use the same two buckets per level, determined by the hash of the key and the capacity of the level alone. Erase, and a search that reports absence, have looked at all slots of both buckets on every level from the last to the first and then found the root unchanged. erase returns true exactly if it removed an entry, search only if it saw the key, insert reports a new entry only if it added one. An operation frees only an entry it has taken out, or an object of its own that no other thread has seen, and each only once; it follows no empty pointer and reads no slot outside of its bucket.",
 ['inputs','schedules'],'every path of these operations, any number of levels and retries, any interference by other threads at every load',
 'Which slot changes between two reads depends on the schedule; tests see only a few.',
 [CV],[('generic_insert, find, find_empty_slot, erase, search',CV),('first_index, second_index, get_partial',CV)])

prop('C21','Clevel: growing and rehashing lose no entry and keep the levels in order',
 "A level is linked only to a level whose link was empty, has twice its capacity and exactly as many buckets as its capacity says, and is linked only once complete. A root is replaced only by a compare-and-swap against the root that was read; it names as first level the old one or the level linked to it, as last level the old one or, only in the rehashing loop and only when the cursor has passed all its buckets, the level linked to it, and says that no entries are being moved only if two levels are left. Rehashing copies the whole word of an entry, from the last level, into a slot seen empty of the first level, in a bucket that belongs to the key of the entry, before it empties the old slot; it goes on to the next bucket only when every slot of this one was seen empty or has been emptied, and starts every level at its first bucket.",
 ['inputs','schedules','histories'],'every path of expand and of the rehashing loop, any number of levels and buckets',
 'The tests rarely reach more than one resize and do not compare contents before and after it.',
 [CV],[('expand, resize',CV)])

with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for p in props: f.write(json.dumps(p)+'\n')
print(len(props))
