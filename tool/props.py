#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the statements live here, one entry each)."""
import json, os
R = []


def p(pid, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (pid, len(title))
    d = {'id': pid, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': ['src/common/' + f for f in files], 'mechanism': [{'name': a, 'where': 'src/common/' + b} for a, b in mech]}}
    if state:
        d['anchors']['state'] = [{'name': a, 'meaning': b, 'where': 'src/common/' + c} for a, b, c in state]
    if observe:
        d['anchors']['observe_at'] = observe
    R.append(d)


p('C01', 'A result container always holds exactly the alternative it reports',
  'For every sequence of constructions, assignments (same or other element types, copy or move, self included), accesses and destructions of the two-alternative result containers, the container reports exactly the alternative that is alive in it, the alternative it gives up is destroyed once before another is created in its place, and nothing is destroyed or read that is not alive. '
  'Asking for the alternative that is not held terminates with a check failure (for the value of a status-or, a debug check) instead of reading dead storage. Moving out of a container leaves it in the documented empty state. '
  'This includes assigning a reference into the very value being replaced, and copies that throw.',
  ['programs', 'histories'], 'every sequence of operations, for every pair of element types including ones whose constructors are not trivial',
  'Tests exercise a few element types and a few transitions; double destruction and reading a dead alternative need specific sequences and often go unnoticed at run time.',
  ['base/EitherOr.h', 'base/ErrorOr.h', 'base/StatusOr.h'], [('state tag next to a union of alternatives', 'base/EitherOr.h'), ('status/value variant with a state tag', 'base/StatusOr.h')])
p('C02', 'A dynamic value owns exactly the payload its type tag names',
  'Whatever sequence of constructions, copies, moves, assignments, setters, clears and destructions is applied to a dynamically typed value, its type tag names the one payload that is alive; changing the value destroys that payload exactly once before another is created, and every typed accessor refuses to read a payload other than the tagged one. '
  'Copying or moving yields a value of the same type with a payload taken from the corresponding payload of the source.',
  ['programs', 'histories'], 'every operation sequence over all value types',
  'There are 15 payload types and dozens of overloads; tests touch each a few times in fixed orders, and a tag/payload mismatch often shows only as memory corruption later.',
  ['datatypes/Value.h', 'datatypes/Value.cpp'], [('type tag + union storage', 'datatypes/Value.h'), ('clear/copy/move switch over the tag', 'datatypes/Value.cpp')])
p('C03', 'Integer arithmetic on dynamic values never overflows or traps',
  'For all operand values, adding, subtracting, multiplying, negating, dividing or taking the remainder of two integer values yields the exact mathematical result (quotients truncated towards zero) when it fits in 64 bits and the overflow error value otherwise; no operand pair executes an overflowing native operation or a trapping division. Dividing an integer or floating-point value by the integer zero, or taking that remainder, yields the division-by-zero error value.',
  ['inputs'], 'all pairs of 64-bit integers', 'Tests sample small operands and a few limits; the failing pairs are isolated points of a 2^128 space.',
  ['datatypes/Value.cpp'], [('overflow tests in front of native operators', 'datatypes/Value.cpp')])
p('C04', 'Orderings of data types are coherent and agree with equality',
  'Dates, times, date-times, host addresses and key-value pairs compare by a strict total order over their components in the declared significance (date: year, month, day; time: hour to microsecond; date-time: date then time); '
  'steps, paths and lists compare lexicographically; an edge is less by source, destination, type, ranking, then number of properties; a vertex by id, then number of tags. Equality of each of these holds exactly when every component is equal (an edge also equals its reverse view), '
  'every derived comparison (!=, >, <=, >=) is the one < and == determine, and the hash of an object depends only on what equality compares, so objects that compare equal hash equally.',
  ['inputs'], 'all pairs and triples of component values', 'Comparators are wrong only for particular sign patterns across several components; tests compare a handful of pairs.',
  ['datatypes/Date.h', 'datatypes/HostAddr.h', 'datatypes/Edge.cpp', 'datatypes/Vertex.cpp', 'datatypes/Path.h', 'datatypes/Vertex.h', 'datatypes/Edge.h', 'datatypes/KeyValue.h'],
  [('hand-written comparison operators', 'datatypes/Date.h'), ('hash specialisations', 'datatypes/Date.h')])
p('C05', 'Response equality and clearing cover every field',
  'Two query responses (and each of their parts: authentication results, plan descriptions, plan nodes, branch info, profiling statistics, key/value pairs) compare equal exactly when all their fields are equal, optional parts by presence and content. '
  'Clearing a response resets every field to its default, so that nothing of an earlier answer survives into the next one that is decoded into the same object.',
  ['inputs', 'histories'], 'all field contents and all combinations of present and absent parts', 'A forgotten or self-compared field is only visible for inputs that differ in just that field; tests compare a few full objects.',
  ['graph/Response.h', 'graph/Response.cpp'], [('hand-written equality and clear members', 'graph/Response.h')])
p('C06', 'Hand-written wire codecs agree with the interface definition',
  'For every type serialised by hand, writer, size estimator and reader agree with the interface definition on field ids, wire types and field order rules: each declared field is written with its own id and type from its own member, is accepted on reading under the same id and type into the same member, and an unknown or mistyped field is skipped. '
  'Every structure begun is ended on every path, and absent optional fields are neither written nor left stale on reading.',
  ['inputs', 'programs'], 'all types, all field presence combinations, all peers following the interface definition', 'Round-trip tests use the same (possibly wrong) ids on both ends and cannot see divergence from the interface definition used by other peers.',
  ['datatypes', 'graph', 'interface/common.thrift', 'interface/graph.thrift'], [('protocol adapter specialisations', 'datatypes/DateOps.inl'), ('protocol adapter specialisations', 'graph/ExecutionResponseOps.inl')])
p('C07', 'Every expression kind is encoded, decoded, copied and compared completely',
  'Every kind of expression that is stored or sent can be decoded again: the reader consumes exactly the items the writer emits, in order and by type, for every combination of optional parts and any number of list members, and builds an expression of the same class, kind and parts. (Kinds that live within one query only are not encoded: input and variable properties, versioned variables, label attributes, text search; plain variables only when inner.) '
  'A copy has the class, kind and all parts of the original, sub-expressions being copies of their own. Two expressions are equal exactly when kind, shape and all parts are (remembered source texts, and whether a variable is inner, do not count). Every kind has the class and reports the kind its maker names, and visiting an expression calls the handler of its class.',
  ['inputs', 'programs'], 'all expression kinds and all combinations of optional sub-expressions', 'Tests cover a few shapes per kind; a part that is forgotten in copying or comparing stays invisible until a query differs only there.',
  ['expression'], [('writeTo/resetFrom pairs', 'expression/CaseExpression.cpp'), ('decode factory', 'expression/Expression.cpp')])
p('C08', 'Built-in functions answer for every argument list and keep their signatures',
  'For every built-in function and every argument list whose length its declared arity admits, the implementation reads only argument positions that exist, reads each argument only through the accessor of a type it has established for that argument, reads only elements and pieces that are there, and comes to an end, so a call yields a value or an error value and never terminates the process. '
  'A function declared pure does not consult clocks or random sources. Looking a function up by name, in any case of its letters, and number of arguments succeeds exactly when it is defined and takes that many, and gives its implementation and its purity. '
  'Every declared signature fits a defined function, which given arguments of these types returns the declared type or null; the return type reported for argument types is the declared one, the first null or empty one among them otherwise, and an error else.',
  ['inputs', 'programs'], 'all functions, all admitted argument counts, all argument types', 'There are some 90 functions and 15 argument types per position; tests call each function with a few well-typed lists.',
  ['function/FunctionManager.cpp'], [('arity table and type tests', 'function/FunctionManager.cpp')])
p('C09', 'Error codes and statuses keep one meaning everywhere',
  'The error codes of the client-facing response type and those of the interface definition are the same names with the same numbers, no number has two meanings, and the text of each code is its own name. Every status code has its own predicate and factories; a status built by a factory, and every copy of it, moved or assigned, is recognised by that kind\'s predicate only, keeps its code and the message it was given (up to 65535 characters, cut there), and prints the name of its kind followed by the message (a general error the message alone); two statuses are equal exactly when their codes are; nothing is read or written outside of the state of a status.',
  ['inputs', 'programs'], 'all error and status codes', 'Two tables maintained by hand in different languages; tests look at a few entries.',
  ['graph/Response.h', 'interface/common.thrift', 'base/Status.h', 'base/Status.cpp'], [('error code list', 'graph/Response.h'), ('status factories and text table', 'base/Status.cpp')])
p('C10', 'Count-down latch releases all waiters exactly when the count reaches zero',
  'A latch built for n participants makes every waiter block until n count-downs have happened and no longer: no waiter returns earlier, none stays asleep once the count is zero, and readiness is reported exactly then. '
  'Each count-down removes exactly one; building a latch for zero participants or counting down past zero raises an error and changes nothing. All of this holds for concurrent callers without data races.',
  ['schedules'], 'all interleavings of any number of threads', 'Lost wake-ups, early returns and races need particular interleavings that tests do not force.',
  ['concurrent/Latch.cpp', 'concurrent/Latch.h'], [('counter under mutex, condition variable', 'concurrent/Latch.cpp')])
p('C11', 'Barrier releases a round only when all parties have arrived, round after round',
  'A barrier for n parties blocks each arrival until n have arrived in that round, then runs the completion callback exactly once before any of them proceeds, releases all of them, and is ready for the next round with the full count. '
  'A party of one round is never released by another round or by a spurious wake-up, and a zero-party barrier is rejected. All of this holds for concurrent callers without data races.',
  ['schedules'], 'all interleavings, any number of rounds, spurious wake-ups included', 'Round mix-ups and lost wake-ups need a fast thread to re-enter while others are still waking up.',
  ['concurrent/Barrier.cpp', 'concurrent/Barrier.h'], [('remaining count, round number, condition variable', 'concurrent/Barrier.cpp')])
p('C12', 'Background workers run every accepted task once and shut down cleanly',
  'Every task added to a started worker is run once, in the order of addition and without the internal lock, also when it is added or when timers are added and purged by other threads or by tasks while the worker is busy; the future it returned is fulfilled once, with the result when the task returns and with the exception when it throws. '
  'A timer task runs after its delay, once or repeatedly as asked; its id is unique for the worker, and once purged it is disarmed, even when it was only just added; a one-shot timer disarms itself, and no timer is used after it is freed. '
  'The queues of tasks, timers and purges and the id counter are only accessed under the lock, and every addition wakes the worker. '
  'A worker starts one thread at most; stop sets its flag before it wakes the thread, wait joins the thread once, and destruction joins it before it frees timers, event, event base and descriptor, each once. '
  'A pool hands each task to one of its own workers, a purge to the worker that made the id, and starts, stops and waits for all of its workers.',
  ['schedules', 'histories'], 'all interleavings of submission, purge, stop and destruction', 'The races and use-after-free paths depend on the moment of stop relative to pending work.',
  ['thread/GenericWorker.cpp', 'thread/GenericWorker.h', 'thread/GenericThreadPool.cpp', 'thread/GenericThreadPool.h'], [('lock-protected queues swapped out before running', 'thread/GenericWorker.cpp')])
p('C13', 'The concurrent LRU cache stays consistent and within capacity',
  'In every bucket of the cache the lookup table and the recency list always describe the same entries, and the number of entries never exceeds the capacity, which the buckets divide up with room for at least one entry each. A full bucket that takes in a new key loses exactly its least recently used entry, and no other insertion loses any. Getting, inserting or overwriting a key makes it the most recently used one, insert-if-absent never replaces and returns the value found, evicting removes exactly the requested key, clearing removes everything; every operation with the same key and hint uses the same bucket, and does so in one critical section of that bucket\'s lock, without which no bucket state, statistics included, is accessed.',
  ['schedules', 'histories'], 'all operation histories and interleavings', 'Tests run short single-threaded histories; list/map divergence needs particular sequences of updates and evictions.',
  ['base/ConcurrentLRUCache.h', 'base/LruCache.h'] if os.path.exists('/repo/src/common/base/LruCache.h') else ['base/ConcurrentLRUCache.h'], [('per-bucket lock, map of iterators into a list', 'base/ConcurrentLRUCache.h')])
p('C14', 'An object pool destroys every object it made exactly once',
  'Every object created through or added to the pool is returned to the caller and stays alive until the pool is cleared or destroyed; adding one object neither drops nor destroys another. It is then destroyed exactly once, as the type it was added with, and the pool keeps no pointer to it; a pool cannot be copied. '
  'Outside construction and destruction the pool state is accessed only under its lock, which no operation leaves held, and empty() tells whether the pool holds objects.',
  ['schedules', 'histories'], 'all histories of adding and clearing from several threads', 'A leak, double destruction or wrong-type destruction is not visible to functional tests.',
  ['base/ObjectPool.h'], [('typed deleter per object, lock-protected list', 'base/ObjectPool.h')])
p('C15', 'Rope buffers keep every byte written, in order, within their blocks',
  'Appending any bytes, numbers, strings or other ropes to a rope buffer, in any amounts relative to its block size, never writes or reads outside a block, and the length reported equals the number of bytes appended. '
  'Visiting or copying the content yields each full block and the partial last block exactly once in order, and clearing releases every block exactly once and leaves a usable empty rope.',
  ['inputs', 'histories'], 'all append sizes, block sizes and histories', 'Errors sit at block boundaries (exactly full, empty, one byte over) and in combinations of ropes with different block sizes.',
  ['base/Cord.cpp', 'base/Cord.h', 'base/ICord.h'], [('linked blocks with the next pointer stored behind the payload', 'base/Cord.cpp')])
p('C16', 'Temporary files and directories are unique, and gone afterwards',
  'Creating a temporary file or directory yields a path made by the system\'s unique-name facility from a private copy of the pattern; if creation succeeded the object removes exactly that path when it is destroyed (unless it was told to keep it) and releases descriptor and name buffer on every path. '
  'If creation failed nothing is removed.',
  ['histories', 'fault_sequences'], 'all outcomes of the system calls and both deletion modes', 'Failure paths of system calls and resource leaks are not exercised by tests.',
  ['fs/TempFile.cpp', 'fs/TempFile.h', 'fs/TempDir.cpp', 'fs/TempDir.h'], [('create in constructor, remove in destructor', 'fs/TempFile.cpp')])
p('C17', 'A named thread names itself and runs exactly the given work',
  'A thread created with a name runs the given function with the given arguments exactly once, after setting its own kernel and logging name to the given name, and restores nothing of its creator. The reported thread id is the kernel id of the calling thread, obtained by that thread itself, and a temporary thread name is undone at the end of its scope.',
  ['schedules', 'inputs'], 'all names, functions and call orders', 'Thread identity caching and hook ordering are invisible to tests that start one thread.',
  ['thread/NamedThread.h', 'thread/NamedThread.cpp'], [('thread entry hook', 'thread/NamedThread.h')])
p('C18', 'A stopwatch counts running time only, and its units agree',
  'A stopwatch reports the accumulated time of its running periods: pausing adds the current period once and freezes the reading, resuming starts a new period without adding time, pausing or resuming twice has no further effect, and resetting discards everything. '
  'The readings in seconds, milliseconds and microseconds are the same reading expressed in those units.',
  ['histories'], 'all histories of reset, pause, resume and reading', 'Time-based tests tolerate slack that hides double counting and unit slips.',
  ['time/Duration.cpp', 'time/Duration.h'], [('accumulated ticks and start tick', 'time/Duration.cpp')])
p('C19', 'Wall clocks report the same instant in every unit',
  'The slow wall clock readings in seconds, milliseconds and microseconds are the system real-time clock truncated to the named unit. The fast readings are the start time in that unit plus the ticks elapsed since the same first tick, converted by factors that come from one calibration (elapsed monotone time over elapsed ticks) and stand in the exact ratio of the units; start time, first tick and factors are in place before the first reading.',
  ['inputs', 'schedules'], 'all clock values', 'Tests compare readings taken at different moments with tolerance.',
  ['time/WallClock.cpp', 'time/WallClock.h', 'time/detail/TscHelper.cpp', 'time/detail/TscHelper.h'], [('unit conversions', 'time/WallClock.cpp'), ('calibrated tick conversion', 'time/detail/TscHelper.cpp')])
p('C20', 'Calendar conversion yields valid fields and reads its tables in bounds',
  'Converting any number of seconds whose year is representable to a date-time yields month 1-12, a day that exists in that month, hour 0-23, minute and second 0-59, and exactly the fields that denote this second in the proleptic Gregorian calendar; the conversion always ends and reads only existing table entries. '
  'The difference of two date-times, and their conversion back to seconds, is exact for every year including negative ones. Shifting by a time-zone offset adds exactly that offset and keeps the microseconds.',
  ['inputs'], 'all second counts and all calendar fields in their domains', 'Boundary days, leap years and negative times are isolated points among 2^63 inputs.',
  ['time/TimeConversion.cpp', 'time/TimeConversion.h'], [('day tables and searches', 'time/TimeConversion.cpp')])
p('C21', 'Slow-operation tracking compares and reports the same elapsed time',
  'An operation is judged slow exactly when the milliseconds elapsed since the construction of the tracker (never negative) exceed the threshold passed, or the configured one when none is passed; the report carries the caller\'s prefix and message and that same elapsed time.',
  ['inputs', 'configurations'], 'all thresholds and elapsed times', 'Depends on real time; tests cannot place the elapsed time at the threshold.',
  ['base/SlowOpTracker.cpp', 'base/SlowOpTracker.h'], [('threshold flag', 'base/SlowOpTracker.cpp')])
p('C22', 'Metrics registry lookups and updates stay within registered metrics',
  'Registering a counter or histogram under a new name appends one metric with ranges of 5, 60, 600 and 3600 seconds and returns the id that leads to it for good; registering a known name returns its id and replaces only the selection of reported readings. '
  'An update or reading with a registered id touches that metric alone, in bounds, under its own lock, at the current second, and returns the reading asked for; an invalid id or unknown name is refused. '
  'Reading by a text "name.method.range" gives the reading these words name ("p" and up to six digits being the percentile with two digits before the point), and the report of all values lists exactly the selected readings under such texts. '
  'The table of names is accessed under its lock (the report of all values and registration are documented not to run concurrently). An id is assigned once and only from a valid one.',
  ['schedules', 'inputs'], 'all registries, ids, texts and readings', 'An index that is off by one, a range read at the wrong level or a lock of another metric shows only for particular mixes of counters, histograms and times.',
  ['stats/StatsManager.cpp', 'stats/StatsManager.h', 'stats/StatsManager.inl'], [('name to index map, per-metric locks', 'stats/StatsManager.cpp'), ('range and method texts', 'stats/StatsManager.cpp')])
p('C23', 'The metadata client reads and replaces its cache consistently',
  'Every reader of the cached cluster metadata holds the cache lock (shared at least) for the whole access, every replacement of cached state happens under the exclusive lock, and a failed refresh leaves the previous cache in place. '
  'The refresh installs all parts of a snapshot in one critical section.',
  ['schedules', 'fault_sequences'], 'all interleavings of readers and refreshes, all failure points of a refresh', 'Races between refresh and readers and partial refreshes do not show in single-threaded tests against a healthy service.',
  ['clients/meta/MetaClient.cpp', 'clients/meta/MetaClient.h'], [('read/write spin locks', 'clients/meta/MetaClient.cpp')])
p('C24', 'Remote calls fulfil their promise exactly once on every path',
  'Each request to a remote service completes its future exactly once, whether the call succeeds, fails, throws, is redirected to another leader or runs out of retries; partial failures are attributed to the partitions of the failed host and a reported new leader is remembered.',
  ['fault_sequences', 'schedules'], 'all outcomes of the remote call, including exceptions and redirects', 'Needs fault injection in the transport at each step.',
  ['clients/meta/MetaClient.cpp', 'clients/storage/StorageClientBase.inl', 'clients/storage/GeneralStorageClient.cpp'], [('promise passed along the retry chain', 'clients/meta/MetaClient.cpp')])
p('C25', 'Every admin web request is answered exactly once, with the status it earned',
  'Each handler of the admin web service sends exactly one complete reply for every request, once the request has been received: 404 for an unknown path, 405 for a method it does not support, 400 for settings that are not a JSON object with entries, 200 otherwise. '
  'No request - whatever its method, known or not, its parameters and its body, missing, no JSON, or JSON of any shape - makes an exception leave the handler or the router, or makes them use a part of the request that was never received. '
  'A handler is released exactly once, when its request is complete or has failed, and not touched afterwards. A request goes to the first route that matches it. A setting that is asked for is shown once, each entry shown of it being its own, whether or not it exists.',
  ['inputs', 'fault_sequences'], 'all methods, headers, bodies and error events', 'Error branches, unusual methods and malformed bodies are not exercised by tests.',
  ['webservice'], [('request/EOM/error callbacks', 'webservice/GetFlagsHandler.cpp'), ('choice of the route', 'webservice/Router.cpp')])
p('C26', 'Configuration fetches return a value only of the requested kind',
  'Fetching a configuration item as a given type succeeds exactly when the item exists and has that type, and then stores exactly that item; in every other case an error is returned and the output is left alone. '
  'An array fetch succeeds exactly when the item is an array of which every element converts to the type, and then appends the converted elements in order. An update of a text item succeeds exactly when the item is missing or a text and changes no other item; iteration hands over every item once, in order, until the processor fails. '
  'A configuration always holds an object, so no operation throws; a parse that fails leaves it as it was, and a file is parsed only after it has been read completely, within the buffer.',
  ['inputs'], 'all keys, all documents', 'Type confusion needs documents whose items have unexpected types for each accessor.',
  ['conf/Configuration.cpp', 'conf/Configuration.h'], [('type tests in front of conversions', 'conf/Configuration.cpp')])
p('C27', 'Operating-system resources are released exactly once on every path',
  'Every descriptor, directory stream, file or process stream, buffer of the C library, address list, library handle and event-loop object the code obtains is released exactly once on every path, every error path and early return included, by the call that belongs to it, or is returned to the caller or kept by an object; it is not used after its release nor where obtaining it failed. A class that keeps such a handle does not overwrite one it still holds, whatever sequence of its public functions is called, and its destructor releases what it holds exactly once.',
  ['fault_sequences', 'histories'], 'all outcomes of every system call, all sequences of public calls of the classes that keep handles', 'Leaks on error paths do not fail functional tests.',
  ['fs/FileUtils.cpp', 'fs/TempFile.cpp', 'network/NetworkUtils.cpp', 'process/ProcessUtils.cpp', 'conf/Configuration.cpp', 'clients/meta/FileBasedClusterIdMan.cpp', 'thread/GenericWorker.cpp'], [('matching open/close calls', 'fs/FileUtils.cpp'), ('release of what a previous run left', 'thread/GenericWorker.cpp')])
p('C28', 'A fallible result is used as a value only after it is known to be one',
  'Wherever a fallible result is produced, its value is read only on paths on which it has been found to be a success, and its error only on paths on which it is a failure; a result handed out holds a value or an error, and a success status is never handed on as the error of a failed result. A wrong order would terminate the process exactly when something else has already failed.',
  ['fault_sequences', 'programs'], 'all call sites, all failure points', 'The failing branch is the one tests do not take.',
  ['clients/meta/MetaClient.cpp', 'clients/storage', 'function/FunctionManager.cpp', 'meta', 'webservice', 'plugin'], [('ok() tests in front of value()', 'clients/meta/MetaClient.cpp')])
p('C29', 'Schema lookups never read a field that does not exist',
  'Looking up a schema field, its name, type or position returns exactly the field added at the position asked for, or the first one added under the name asked for, or reports absence (no field, no name, type UNKNOWN, a negative position); no position, negative ones included, reads outside the field list. '
  'A new field goes behind the existing ones with the properties given and the width of its type, follows the previous field without gap or overlap, and takes the next null flag when it is nullable; the number of fields, the number of nullable fields and the size are those of the fields added. An iterator visits the fields in order, by the steps asked for, and then equals the end.',
  ['inputs', 'histories'], 'all positions, names and sequences of added fields', 'Out-of-range and negative positions are not tested for every accessor, nor repeated names or nullable fields in every place.',
  ['meta/NebulaSchemaProvider.cpp', 'meta/NebulaSchemaProvider.h', 'meta/SchemaProviderIf.h'], [('bounds tests in accessors', 'meta/NebulaSchemaProvider.cpp')])
p('C30', 'A signal reaches exactly the handler registered for it',
  'Once a signal is registered with the system its handler is in place, so every delivery of it, from that moment on, calls exactly the handler installed for it, exactly once, with the number, sender and user of that delivery; installing for one signal, or for a list of them, changes nothing for any other; success is reported exactly when the system accepted. Numbers outside 1 to 64, SIGKILL and SIGSTOP are refused. SIGPIPE and SIGHUP are ignored before the first installation and not touched by later ones. After the handler of a fatal signal (SEGV, ABRT, ILL, FPE, BUS) returns, the signal is raised again with the default action; no other signal is.',
  ['inputs', 'schedules'], 'all signals and delivery moments', 'Delivery between registration steps and double invocation are not visible to tests with idempotent handlers.',
  ['base/SignalHandler.cpp', 'base/SignalHandler.h'], [('handler table indexed by signal', 'base/SignalHandler.cpp')])
p('C31', 'Character-set and collation answers are mutually consistent',
  'A pair is accepted exactly when the collation belongs to the character set; every supported collation belongs to one supported character set and no unsupported name belongs to any; every supported character set, and no other name, has a default collation, which is supported and belongs to it; the descriptions handed out list exactly the supported sets with these collations; no query fails, or changes the tables.',
  ['inputs'], 'all names', 'The tables are small but edited by hand; tests sample the existing entries.',
  ['charset/Charset.cpp', 'charset/Charset.h'], [('tables and membership tests', 'charset/Charset.cpp')])
p('C32', 'Admin web status codes map to their numbers and standard texts',
  'Every status code the admin web service can reply with has its standard number and reason text; the text lookup is defined for every code and never returns another code\'s text.',
  ['inputs'], 'all codes', 'Only codes that tests trigger are ever looked up.',
  ['webservice/Common.cpp', 'webservice/Common.h'], [('status text table', 'webservice/Common.cpp')])
p('C33', 'Hashing reads exactly the bytes it is given',
  'The MurmurHash2 byte hash of a buffer of any length reads every byte of it and no byte outside it, every byte enters the result, and the same bytes give the same hash irrespective of how they are passed '
  '(pointer and length of char, signed char or unsigned char, string, C string, literal without its terminator). A raw, shared or unique pointer is hashed as the address it holds.',
  ['inputs'], 'all buffers and lengths', 'Out-of-bounds tail reads need lengths of each residue and guarded memory; sign extension needs bytes above 0x7f in the tail.',
  ['base/MurmurHash2.h'], [('block loop and tail switch', 'base/MurmurHash2.h')])
p('C34', 'Reservoir sampling keeps the reservoir full, bounded and in range',
  'Feeding any number of items into a sampler of capacity k keeps the first k items in order. Every later item is kept with a chance of k in the number of items seen so far including it: one index is drawn over all of them, and the item replaces exactly that slot when it is one of the reservoir and nothing otherwise. '
  'The reservoir never grows beyond k, every item is counted exactly once, the return value tells whether the item was kept, and the result handed out is the reservoir.',
  ['inputs', 'histories'], 'all stream lengths and random draws', 'Random draws at the limits are not reproducible in tests, and a biased draw passes every range check.',
  ['algorithm/ReservoirSampling.h'], [('index draw against the item count', 'algorithm/ReservoirSampling.h')])
p('C35', 'Aggregates fold every input by one rule and never mix types silently',
  'For every sequence of inputs an aggregate function gives what its name promises for the inputs that are neither null nor empty: COUNT their number, SUM the sum, AVG the mean, MIN and MAX the least and greatest, STD the population standard deviation, BIT_AND, BIT_OR and BIT_XOR the bitwise combination, COLLECT the list in order, COLLECT_SET the set; the nameless one gives the last input. '
  'Without such an input the result is null, except the number 0, an empty list or an empty set where these are promised. An input that is no number (no integer, for the bitwise ones) makes the result BAD_TYPE, for good. '
  'A name finds its function whatever the case of its letters, and no other name finds one. An aggregate expression feeds its function every value of its argument once, or, when distinct, every value it has not fed before.',
  ['inputs', 'histories'], 'all input sequences', 'Tests feed a few short homogeneous sequences.',
  ['function/AggFunctionManager.cpp', 'function/AggFunctionManager.h', 'expression/AggregateExpression.cpp'], [('per-function update lambdas', 'function/AggFunctionManager.cpp'), ('distinct values remembered', 'expression/AggregateExpression.cpp')])
p('C36', 'Civil time, time-zone shifts and built times are right for every instant',
  'Seconds since 1970 and civil times (proleptic Gregorian calendar, years -32768 to 32767) are converted into each other exactly. Converting a local time to UTC and a UTC time to local shift it by minus and plus the configured offset, keep the sub-second part, and so are inverse; the local clock readings are the UTC ones shifted the same way. '
  'A date or time built from a map or parsed from a text takes each component from the entry or text field of that name, the others are the defaults, and it is refused exactly when an entry is no integer, has a foreign name, is out of range, or names a day that month of that year does not have. '
  'Component access returns the component named, whatever the case of the name. A timestamp is made of an integer or a text naming a whole second, in 0..9223372036, and of nothing else.',
  ['inputs', 'configurations'], 'all instants, offsets, maps and texts', 'Tests run with a zero or fixed offset and a few dates.',
  ['time/TimeUtils.h', 'time/TimeUtils.cpp', 'time/TimezoneInfo.h', 'time/TimeConversion.h', 'time/TimeConversion.cpp'], [('offset arithmetic', 'time/TimeUtils.h'), ('calendar arithmetic', 'time/TimeConversion.cpp')])
p('C37', 'A value survives encoding and decoding',
  'Decoding the serialised form of any value, row set or expression yields an equal object.',
  ['inputs'], 'all values', 'Infinite input space.',
  ['datatypes', 'expression'], [('protocol adapters', 'datatypes/ValueOps.inl')])
p('C38', 'Numeric, trigonometric and string functions compute their documented result',
  'Each built-in function returns the mathematically or textually documented result for every well-typed argument list.',
  ['inputs'], 'all arguments', 'Infinite input space.',
  ['function/FunctionManager.cpp'], [('function bodies', 'function/FunctionManager.cpp')])
p('C39', 'Fast clocks stay close to the system clock',
  'The tick-counter based clocks never drift from the system clock by more than the calibration interval allows and never go backwards visibly.',
  ['schedules', 'configurations'], 'all machines and frequencies', 'Physical time.',
  ['time/detail/TscHelper.cpp'], [('calibration', 'time/detail/TscHelper.cpp')])
p('C40', 'A look-up that found nothing is never used as an entry',
  'Wherever something is looked up in a container (find, lower_bound, upper_bound, the searches of the standard library), the entry is read only on paths on which the look-up has been found to have hit, by a comparison with the end of that same container or because the same key is known to be present and nothing could have removed it.',
  ['inputs', 'histories'], 'all look-ups, all keys, all histories of the container', 'The missing key is the case tests forget; reading the end of a container is undefined, and often goes unnoticed.',
  ['clients/meta/MetaClient.cpp', 'meta', 'function', 'stats/StatsManager.cpp', 'conf/Configuration.cpp', 'base/ConcurrentLRUCache.h', 'network', 'datatypes'], [('tests against end()', 'clients/meta/MetaClient.cpp')])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '../properties.jsonl'), 'w') as f:
    for d in R:
        f.write(json.dumps(d) + '\n')
print(len(R))
