"""What each property's check runs: harnesses, cases, bounds."""
def H(name, **k): return dict(name=name, **k)
CHECKS = {
 'C01': dict(harnesses=[
   H('c01_ops', cases=range(0, 6), tdefs=['-DNOPS=3'], reach=['deleted', 'deleted all', 'end'], bounds='', what='histories of field operations against a reference multimap'),
   H('c01_reads', cases=range(0, 7), reach=['value absent', 'value found', 'get', 'get: no space', 'getalloc'], bounds='', what='value search, get, copy, limited iteration'),
   H('c01_many', cases=range(0, 6), reach=['end'], bounds='300 occurrences of one field (thorough: 700) between two others, values offset by a symbolic number, one delete/change/gap at 12 positions around 127/128, 255/256 and the ends', what='fields with several hundred occurrences'),
 ]),
 'C02': dict(harnesses=[
   H('c02_space', cases=range(0, 5), reach=['fits', 'does not fit'], bounds='', what='one add/change (also converting, also creating missing occurrences) in a buffer of every size around what it needs'),
   H('c02_move', cases=range(0, 3), reach=['moved', 'copied', 'reallocated', 'minimum'], bounds='', what='block move, copy, growth, minimum size'),
   H('c02_whole', src='c03_small', cases=range(0, 7), reach=['fits', 'does not fit', 'read back', 'refused'], bounds='', what='whole-buffer operations and byte images into destinations of every size'),
 ]),
 'C03': dict(harnesses=[
   H('c03_setops', cases=[m * 16 + o for m in range(3) for o in range(8)], reach=['end'], steps=3000000, bounds='', what='update, join, outer join, concatenate, project, project-copy, delete-set, copy'),
   H('c03_small', cases=range(0, 8), reach=['fits', 'does not fit', 'read back', 'refused', 'checksums'], bounds='', what='tight destinations, byte image, checksum'),
 ]),
 'C04': dict(harnesses=[
   H('c04_ids', reach=['valid', 'invalid'], bounds='every type and number', what='field id packing'),
   H('c04_cvt', cases=range(0, 49), reach=['number to text', 'converting add', 'converting get', 'no space'], bounds='', what='every pair of types'),
 ]),
 'C05': dict(harnesses=[
   H('c05_roundtrip', cases=range(0, 9), reach=['read back'], bounds='', what='print, read back, compare'),
   H('c05_text', cases=range(0, 12), reach=['accepted', 'refused', 'not hexadecimal'], bounds='', what='any text'),
 ]),
 'C06': dict(harnesses=[
   H('c06_num', cases=range(0, 6), reach=['evaluated', 'division by zero'], bounds='', what='integer expressions'),
   H('c06_prec', cases=range(0, 7), reach=['evaluated'], bounds='', what='chains of operators'),
   H('c06_str', cases=range(0, 23), reach=['evaluated', 'field and field', 'field and constant', 'subscript', 'any subscript'], bounds='', what='strings, subscripts'),
   H('c06_text', cases=range(0, 21), reach=['accepted', 'refused'], bounds='', what='any text, long texts, decimals'),
 ]),
 'C08': dict(harnesses=[
   H('c08_hist', cases=range(0, 8), tdefs=['-DSTEPS=3'], reach=['end', 'grown', 'shrunk', 'imported', 'refused'], bounds='', what='allocate, resize, import'),
 ]),
 'C09': dict(harnesses=[
   H('c09_round', cases=range(0, 8), reach=['too small', 'fits', 'round trip'], bounds='', what='export and import'),
   H('c09_bad', cases=range(0, 8), reach=['refused'], bounds='', what='import of anything else'),
 ]),
 'C07': dict(harnesses=[
   H('c07_roundtrip', cases=range(0, 7), tcases=range(0, 16), reach=['round trip', 'encode refused'], bounds='inputs of 0..6 bytes, output sizes from 6 below to 2 above what is needed', what='encode, then decode'),
   H('c07_decode', cases=[0,1,3,4,6,8], tcases=[0,1,2,3,4,5,7,8,11,12,16], reach=['accepted','rejected'], bounds='texts of 0,1,3,4,6,8 characters, output sizes from 4 below to 1 above the largest decoding', what='decode any text'),
 ]),
 'C10': dict(harnesses=[
   H('c10_deliver', cases=range(0, 6), reach=['through a file', 'in the queue'], bounds='', what='send and receive'),
   H('c10_faults', cases=range(0, 8), reach=['sent', 'not sent', 'received', 'not received'], bounds='', what='full queues, failing calls'),
 ]),
}
CHECKS['C11'] = dict(harnesses=[
   H('c11_hist', cases=range(0, 22), tdefs=['-DSTEPS=4'], reach=['end', 'advertised', 'withdrawn', 'refused', 'full'], bounds='', what='histories of registrations'),
   H('c11_full', cases=range(0, 10), reach=['end'], bounds='', what='full tables'),
 ])
CHECKS['C13'] = dict(harnesses=[
   H('c13_route', cases=range(0, 16), tdefs=['-DSTEPS=3'], reach=['routed', 'no such service', 'changed after the look', 'changed before the look', 'rotated'], bounds='', what='routing'),
   H('c13_race', cases=range(0, 16), trace=True, reach=['met', 'not met', 'end'], bounds='', what='a request that meets a change'),
 ])
CHECKS['C18'] = dict(harnesses=[
   H('c18_text', cases=range(0, 21), reach=['round trip', 'accepted', 'refused'], bounds='', what='text form'),
   H('c18_table', cases=range(0, 7), tdefs=['-DSTEPS=3'], reach=['unique', 'started', 'refused', 'ended', 'found', 'not found', 'end'], bounds='', what='transaction table, unique ids'),
   H('c18_race', cases=range(0, 2), trace=True, reach=['concurrent', 'alone'], bounds='', what='identifiers made at the same moment'),
   H('c18_tx', cases=range(0, 4), trace=True, reach=['met', 'not met'], bounds='', what='transactions of several processes at the same moment'),
 ])
CHECKS['C20'] = dict(harnesses=[
   H('c20_bbl', cases=range(0, 9), reach=['wake-up', 'dead server', 'dead client', 'end'], bounds='', what='one monitor pass'),
   H('c20_race', cases=range(0, 6), trace=True, reach=['met', 'not met', 'new client'], bounds='', what='one monitor pass that meets other processes'),
   H('c20_crash', cases=range(0, 2), reach=['answered', 'timed out', 'interrupted', 'left', 'killed', 'end'], bounds='', what='waiting times on record, and clients killed at any call'),
 ])
CHECKS['C14'] = dict(harnesses=[
   H('c14_hist', cases=range(0, 25), tdefs=['-DSTEPS=5'], reach=['reply', 'any reply', 'bad descriptor', 'timed out', 'cancelled', 'end'], bounds='', what='histories'),
   H('c14_err', cases=range(0, 8), reach=['timed out', 'answered', 'not sent', 'refused', 'limit', 'wrapped'], bounds='', what='refused calls, time-outs, limits'),
 ])
CHECKS['C15'] = dict(harnesses=[
   H('c15_server', cases=range(0, 16), reach=['freed', 'enlarged', 'reply', 'error reply', 'no reply', 'forwarded', 'not answered here', 'caller gone', 'stopped'], bounds='', what='dispatch'),
   H('c15_start', cases=range(0, 8), reach=['ran', 'unknown server', 'not initialised', 'no room', 'not understood', 'listed', 'help'], bounds='', what='start'),
   H('c15_threads', cases=range(0, 18), reach=['reply', 'error reply', 'several threads', 'stopped while busy', 'end'], bounds='', what='several dispatch threads'),
   H('c15_race', src='c15_threads', defs=['-DRACE', '-DNREQ=2'], cases=range(0, 18), trace=True, reach=['reply', 'several threads', 'end'], bounds='', what='several dispatch threads that change the services'),
 ])
CHECKS['C16'] = dict(harnesses=[
   H('c16_tx', cases=range(0, 72), tdefs=['-DMORE=2'], reach=['committed', 'rolled back', 'aborted', 'heuristic outcome', 'no begin', 'chained', 'refused', 'begun', 'suspended', 'suspend failed', 'resumed', 'wrong id', 'bad argument', 'end'], bounds='', what='state table'),
 ])
CHECKS['C17'] = dict(harnesses=[
   H('c17_coord', cases=[0, 1, 2, 3, 5, 7, 9, 11, 17, 19, 12, 13], tcases=range(0, 32), qdefs=['-DODD=1'], tdefs=['-DODD=3'], reach=['rollback', 'commit', 'commit with failures', 'refused', 'unreachable', 'no answer', 'end'], bounds='', what='coordinator'),
   H('c17_tm', cases=range(0, 8), reach=['prepare', 'commit', 'rollback', 'unknown', 'refused', 'end'], bounds='', what='transaction manager'),
   H('c17_part', cases=range(0, 11), reach=['passed on', 'not passed on', 'forwarded', 'reply', 'failure reply', 'error reply', 'left open', 'end'], bounds='', what='participants'),
 ])
CHECKS['C12'] = dict(harnesses=[
   H('c12_lock', cases=range(0, 6), tcases=range(0, 12), reach=['another process', 'called', 'left', 'served', 'withdrawn', 'table full', 'joined', 'stopped', 'ended', 'no place', 'monitored', 'asked', 'refused', 'end'], bounds='', what='registry lock'),
   H('c12_boot', cases=range(0, 3), reach=['another process', 'started', 'stopped', 'end'], bounds='', what='registry lock in tmboot and tmshutdown'),
 ])
CHECKS['C23'] = dict(harnesses=[
   H('c23_get', cases=range(0, 7), qdefs=['-DMAXS=2'], reach=['domain', 'machine', 'groups', 'servers', 'queues', 'advertisements', 'services', 'refused', 'withdrawn', 'end'], bounds='', what='reports'),
   H('c23_admin', cases=range(0, 4), tdefs=['-DMAXA=4'], reach=['option', 'queue', 'help', 'nothing', 'end'], bounds='', what='console'),
 ])
CHECKS['C19'] = dict(harnesses=[
   H('c19_load', cases=[0, 4, 8, 9, 13], tcases=range(0, 15), reach=['without', 'with transaction managers', 'end'], bounds='', what='well-formed texts'),
   H('c19_bad', cases=range(0, 14), reach=['refused', 'checked', 'loaded'], bounds='', what='configurations with one error'),
   H('c19_text', cases=range(0, 10), reach=['accepted', 'refused'], bounds='', what='any text'),
 ])
CHECKS['C22'] = dict(harnesses=[
   H('c22_table', cases=range(0, 12), reach=['unloaded', 'header', 'end'], bounds='', what='well-formed tables'),
   H('c22_threads', cases=range(0, 36), reach=['half loaded', 'kept', 'end'], bounds='', what='several threads ask at once'),
   H('c22_text', cases=range(0, 14), reach=['accepted', 'refused'], bounds='', what='any text as a field table'),
   H('c22_view', cases=range(0, 14), reach=['accepted', 'refused'], bounds='', what='any text as a view description'),
 ])
CHECKS['C21'] = dict(harnesses=[
   H('c21_fml', cases=range(0, 10), reach=['end', 'failed', 'succeeded', 'too large', 'size', 'refused', 'allocated', 'too long'], bounds='', what='every FML32 call with missing, misaligned and impossible arguments'),
   H('c21_log', cases=range(0, 7), reach=['end', 'any bytes', 'cut', 'whole', 'formatted', 'text', 'name'], bounds='', what='log lines, formatted and error texts'),
   H('c21_api', cases=range(0, 20), reach=['end', 'failed', 'succeeded', 'time set', 'still outstanding', 'ended'], bounds='', what='XATMI, ATMI, administrative and TX calls'),
   H('c21_srv', cases=range(0, 1), reach=['end', 'withdraw', 'no place', 'advertised', 'not a client'], bounds='', what='calls of service routines'),
 ])
CHECKS['C24'] = dict(harnesses=[
   H('c24_boot', cases=range(0, 28), reach=['help', 'new process', 'cannot run', 'not started', 'running', 'started', 'failed', 'sequence', 'end'], bounds='', what='tmboot'),
   H('c24_stop', cases=range(0, 20), reach=['full', 'gone', 'not asked', 'stopped', 'refused', 'no answer', 'no queue', 'whole', 'part', 'help', 'end'], bounds='', what='tmshutdown'),
   H('c24_ipcrm', cases=range(0, 7), reach=['help', 'killed before it had a queue', 'left', 'already gone', 'no configuration', 'removed', 'kept', 'end'], bounds='', what='tmipcrm'),
 ])
CHECKS['C25'] = dict(harnesses=[
   H('c25_build', cases=range(0, 8), reach=['refused', 'server', 'resource manager', 'kept', 'client', 'transaction manager', 'end'], bounds='', what='builders'),
 ])
NA = {}
# ---- stated bounds per harness (quick; what the thorough tier adds in brackets) and what lies outside, per property
CHECKS['C26'] = dict(harnesses=[
   H('c26_ud32', cases=range(0, 8), reach=['not sent', 'sent', 'served', 'failed', 'no answer', 'printed', 'silent', 'no reply', 'committed', 'rolled back', 'malformed', 'help', 'no service', 'unknown service'], bounds='', what='ud32'),
 ])
CHECKS['C27'] = dict(harnesses=[
   H('c27_blocktime', cases=range(0, 9), tdefs=['-DSTEPS=3'], reach=['answered', 'timed out', 'would wait', 'full'], bounds='', what='block times'),
 ])
BOUNDS = {
 'c27_blocktime': 'every configured time of 1..65536 ms; up to 2 [3] settings (8 times up to the largest, any negative; seconds or milliseconds; next or all; 7 kinds of unknown flags), enquiries or calls in any order; every combination of no-wait, no-time and any-reply flags; up to 2 wake-ups too early or in time; full queues with 6 time limits set in 3 ways',
 'c23_admin': 'tmadmin: registries of 0..3 [thorough: 4] servers (one symbolic letter in a name) on any of 3 queues, up to 3 commands of 8 forms, with and without a last newline, every option',
 'c26_ud32': 'requests of 2..5 fields (strings, numbers, nested, up to 1200 bytes, one symbolic byte), replies smaller, equal and larger, failures of 5 kinds, every option, 5 kinds of malformed text, transactions with and without a participant that agrees or refuses, with and without a reply, sent or not',
 'c20_crash': 'one client with three ways to set its waiting time, up to 3 messages or interruptions while it waits in any order (answer, wake-up, old wake-up, late answer), killed at any of its first 14 calls to the system; then one pass of the monitor',
 'c12_boot': 'tmboot and tmshutdown of a system of 4 servers, one other process acting once in any of 3 ways whenever the lock is taken, every outcome of starting a process',
 'c24_boot': '4 servers in 3 groups; every subset to be started automatically; for one server at a time every earlier state (never started, running, gone), 4 outcomes and 0..2 waits before it is ready; every -i, -g, -n, -y, -d, -h',
 'c24_stop': '4 servers in 3 groups, two sharing a queue, every subset running; for one server at a time every state and 4 kinds of answer, its queue full for a while or not; every -i, -g, -h; resources of other systems beside',
 'c24_ipcrm': '3 servers, 3 clients (without a queue, with one, with one already gone), every subset started; 0..3 lines of 5 answers, end of input, -y, no configuration',
 'c25_build': '0..3 services in 3 notations, 0..2 files before and after, 2 resource managers in a file with comments, 6 kinds of malformed lines, every option, names with a symbolic letter and of up to 1500 characters, every result of the compiler',
 'c01_ops': '3 fields of every type (6 mixes, adjacent and extreme field numbers), 0..2 starting occurrences each, every history of 2 [3] operations, every occurrence number up to one past the end, values symbolic, strings and byte arrays of 0, 7 or 8 bytes',
 'c01_reads': '0..3 occurrences of each of the 7 simple types between two neighbours, values symbolic, result areas of 0..9 bytes',
 'c01_many': '300 [700] occurrences of one field between two others, values offset by a symbolic number, one delete/change/gap at 12 positions around 127/128, 255/256 and the ends',
 'c02_space': 'two fields, 0..2 occurrences each, one add/change/converting add/change of 0, 7, 8, 9 bytes up to two past the end, 23 buffer sizes from what is there to 2 above what is needed',
 'c02_move': 'three fields, 0..2 occurrences; copies into buffers from 8 below to 8 above the used size, growth to 12 sizes and filled up to the last byte, buffers of 0..80 bytes',
 'c02_whole': 'as c03_small',
 'c03_setops': 'pairs of buffers of 3 fields (3 mixes of types), 0..3 occurrences of two fields and 0..1 of the third, values symbolic, id lists of up to 3 ids in any order with repetitions and absent ids',
 'c03_small': 'destinations of the used size plus 0..72 bytes in steps of 8; byte images whole and cut at 3 places into buffers from 48 below to 16 above; equal buffers made in different orders and areas',
 'c04_ids': 'every type and every number',
 'c04_cvt': 'all 49 pairs of types; every short, char and long value between numbers, longs to text of up to 5 digits and around both ends of the range, every float and double representable in the target, texts of 0..4 arbitrary bytes, result areas around the length needed; decimal texts from a list',
 'c05_roundtrip': 'up to 3 fields of every named type, arbitrary byte contents of up to 4 bytes, one level [two levels] of nesting',
 'c05_text': '12 templates with stretches of 1..3 [2..4] arbitrary bytes, two buffer sizes',
 'c06_num': 'every combination of 14 operators over 3 [4] operands, parentheses and unary operators at every place, field values symbolic (all values where no division or repeated product is involved, a grid of values where it is)',
 'c06_prec': 'chains of 5 operands over 7 operators, one of each strength, field values symbolic',
 'c06_str': 'strings, characters and byte arrays of 0..2 arbitrary bytes, 0..2 occurrences, 6 comparison operators, 6 constants including escapes',
 'c06_text': '18 templates with stretches of 1..2 [2..3] arbitrary bytes; constants of up to 5000 characters; chains of up to 201 operands; decimal constants of up to six decimals from a list',
 'c07_roundtrip': 'inputs of 0..6 [0..15] arbitrary bytes, output sizes from 6 below to 2 above what is needed',
 'c07_decode': 'texts of 0,1,3,4,6,8 [up to 16] arbitrary characters, output sizes from 4 below to 1 above the largest decoding',
 'c08_hist': '4 types, sizes 0, 1, 100, 511..513, 700 and negative, every history of 2 [3] resizes and imports; 8 arbitrary bytes as type name, 2 as subtype; sizes no machine has',
 'c09_round': '4 types, contents of 0..5 and 60 bytes (3 symbolic), export areas from 2 below to 1 above what is needed and of 0 bytes, receivers of 4 types and 5 sizes',
 'c09_bad': 'exports cut at every header position, with one changed byte in type, subtype and text, with bytes appended; 1..30 arbitrary bytes',
 'c10_deliver': '18 payload sizes from 0 to 20000 around both limits, every header value symbolic, one or two messages in either order of taking, fresh and reused message objects',
 'c10_faults': 'one [two] failing system calls of 6 kinds at any call while sending or receiving; full queue with room after 0..6 waits; limits of 0, 150, 300, 450 ms',
 'c11_hist': 'histories of 3 [4] registry calls of 11 kinds on tables of 1..3 places, names of 1, 2, limit-1 and limit characters with a symbolic letter, numbers symbolic',
 'c11_full': 'table capacities 1, 2, 3, 5, 16 in combinations, every entry of every table written from first to last byte',
 'c12_lock': '6 kinds of process (client, server, own transaction, participant, monitor, administration), one other process acting once in any of 7 ways whenever the lock is taken',
 'c13_race': 'one request (any group) by a process that knows the service, knew it before a change or sees it first, over 3 servers with every set of advertisements, while another process advertises or withdraws one or two of them before any single load or store of the caller in the shared registry that the lock allows; then 3 to 6 more requests',
 'c13_route': '4 servers in 3 groups (two sharing a queue), 2 services, every start state, histories of 2 [3] changes and requests by two processes, a change by another process just before or after the look',
 'c14_hist': 'histories of 4 [5] steps of calls, waits (one, any, wrong), cancels; replies arriving in any order, late, or not at all; data of 3 kinds with a symbolic byte, return codes symbolic; the limit and wrap-around of descriptors',
 'c14_err': 'two calls in a row with late replies, full queues, one failing system call, the limit of outstanding calls, the wrap-around of descriptor numbers',
 'c15_server': 'two requests in a row, the first of 16 kinds (7 ways to return, also after enlarging or freeing the request buffer, 3 to forward, stops for this and other servers, garbage), the second any of them; data of 3 kinds with a symbolic byte, return values, codes and flags symbolic',
 'c15_start': 'a server built with 0..3 services (one symbolic letter in the names) started with and without -A, any one-digit server and group number, any result of the initialisation, 0..2 free places in the table of advertisements, help, list, unknown options, options of its own, 10 ways to name services and functions by -s',
 'c15_threads': 'a server with 2 dispatch threads and 3 requests, the first [two] of 9 kinds of routines (including calls, forwards, advertising, withdrawing), arriving one or two at a time; threads are switched wherever one waits, inside routines, and once [twice] more at any lock, unlock or queue operation',
 'c15_race': 'as c15_threads with 2 requests that advertise or withdraw, threads also switched at any access to the server process table of its services',
 'c16_tx': 'every state reached by a prefix (closed, open, in a transaction, chained, suspended) followed by every call and then one [two] more, with one resource manager failure, every vote, heuristic outcomes',
 'c17_coord': '1..4 groups taking part in any subset, votes, errors, missing and odd answers (one [three] odd participants), any order of answers, commit and rollback',
 'c17_tm': 'one transaction manager, every function with symbolic flags and results, requests with missing or bad parts, two requests',
 'c17_part': 'a server taking part in a transaction, any failure of its resource manager, every way to return or forward',
 'c18_text': 'identifiers of 9 combinations of lengths up to 64+64 and 8 format numbers, one symbolic byte; 13 templates of text with 1..4 arbitrary bytes',
 'c18_tx': 'begin, commit, roll back or join by one process, beside 2 transactions of others with any identifiers, while another process begins, joins or ends one (or ends one and begins another) before any single load or store of the first one in the shared registry that the lock allows',
 'c18_race': 'any registry content, clock and counter; a second process that makes its identifier before any single load or store of the first one in the shared registry',
 'c18_table': 'tables of 1..3 places and 2 or 9 groups in every start state, histories of 2 [3] starts, joins, look-ups and ends, identifiers with symbolic bytes; unique ids for every clock, host and counter value with up to 2^24 calls in between',
 'c19_load': 'texts of 2 groups and up to 3 servers; per case one topic (limits, groups, transaction managers, servers, layout) varies with symbolic digits and letters, in 3 layouts',
 'c19_bad': '14 kinds of error at one place of a well-formed text, including any two bytes instead of a number',
 'c19_text': '10 templates with stretches of 2..3 [3..4] arbitrary bytes, decided against an independent reading of the grammar',
 'c20_race': 'one monitor pass over 2 clients (waiting or not, any time around now) and a server, while a client gets its reply, waits again, ends, is replaced by another or starts, or a server is started in place of a dead one, before any single load or store of the monitor in the shared registry that the lock allows',
 'c20_bbl': '3 clients (ended, alive, of another user, dead, dead before it had a queue; waiting or not, symbolic times) and 3 servers in every mix, queues missing or full, stopped before or after',
 'c21_fml': 'every FML32 call, each with one argument missing, misaligned or impossible (lengths, ids, types symbolic where they are numbers)',
 'c21_log': 'program names and messages of lengths around every limit (symbolic length classes), log file that cannot be opened, every error number (all 32 bits), error texts of up to 4 bytes of any value',
 'c21_api': 'every XATMI, ATMI, administrative and TX call of a client in 5 systems (working, none, full, no queue, no lock), names of 0 to 300 characters, flags symbolic',
 'c21_srv': 'calls made by service routines, names of 9 kinds, full tables',
 'c22_table': 'tables of 2..4 fields in 3 layouts, one topic (base, number, type, lines between) symbolic, read by the library and turned into a header',
 'c22_threads': 'two threads, each asking once or twice (names, ids, unknown ones, unloading either direction; every pair), the tables not loaded, loaded or loaded in one direction only; threads switched wherever one waits, after each name returned, and once [twice] more at any lock or unlock',
 'c22_text': '14 templates with stretches of 1..3 [2..4] arbitrary bytes, decided against an independent reading of the grammar',
 'c22_view': '14 templates with stretches of 1..3 [2..4] arbitrary bytes, decided against an independent reading of the grammar',
 'c23_get': 'registries of up to 2 [3] servers, 3 groups, 3 services with any subset of advertisements, some withdrawn; every attribute of every entry given a value of its own; unknown classes and operations with symbolic letters',
}
OUTSIDE = {
 'C27': 'sleeps interrupted by signals; waiting for the registry lock',
 'C26': 'user and client names (ignored by the repository); several requests in one input (only the first is read); a request without a reply inside a transaction',
 'C01': 'floating point not-a-number values as search keys; Ffindocc32 of strings as regular expressions (std::regex is outside)',
 'C04': 'floating point to text beyond a list of values (printf of doubles); text to floating point beyond a list',
 'C05': 'float and double fields (not exact in six decimals); the flags + - = of Fextread32',
 'C06': 'regular expression operators are only compiled and called, their result is that of a stand-in for std::regex',
 'C08': 'tpalloc of views (not implemented by the repository)',
 'C09': 'negative lengths given for byte arrays',
 'C10': 'the operating system is a model: SysV queues of a given capacity, files in memory; a process killed between system calls',
 'C11': 'several servers sharing one request queue and advertising the same service',
 'C12': 'memory ordering below the lock; start-up of the first process; processes killed while holding the lock',
 'C13': 'more than four servers; the order in which two processes take the lock at the same instant is the semaphore\'s',
 'C14': 'more than five steps; more than one thread per process',
 'C15': 'more than two dispatch threads; data races on other things than the table of services between two locks, queue operations or waits; TPEXIT',
 'C16': 'time limits of transactions (never enforced by the repository)',
 'C17': 'a crash of the coordinator (no log is kept); more than four groups',
 'C18': 'more than 2^24 transactions started while another start is between its two steps',
 'C19': 'sections the repository does not know; interactive prompts',
 'C20': 'process numbers reused by unrelated processes',
 'C21': 'every argument wrong in more than two ways at once; tpreturn and tpforward outside a service routine (documented to have no return)',
 'C22': 'several table files in several directories',
 'C24': 'a process number reused by an unrelated process; a tool killed half way; the first start of a system by two users at once',
 'C25': 'what the compiler makes of the generated program (the tests do that); libraries of resource managers whose options contain a colon',
 'C23': 'SET requests (an unfinished stub for servers), accesser reports (not offered)',
}
for _c, _v in CHECKS.items():
    for _h in _v['harnesses']:
        if not _h.get('bounds'): _h['bounds'] = BOUNDS[_h['name']]
    _v['outside'] = OUTSIDE.get(_c, '')
