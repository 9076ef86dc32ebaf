#!/usr/bin/env python3
# Writes properties.jsonl (one JSON object per line).
import json,os
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})

p("C01","A fielded buffer behaves as an ordered multimap of field occurrences",
"A fielded buffer always reads back as the multimap its history of add, change, delete and delete-all operations produced: every present occurrence has exactly the value and length last stored, later occurrences shift down by one when an earlier one is deleted, and changing an occurrence past the end creates the missing ones with the type's empty value. Presence, occurrence counts, lengths, value search, last-occurrence and iteration (each field once per occurrence, in ascending field order, without skipping or repeating) all agree with that multimap. A single-field operation that fails reports an error and changes nothing.",
["inputs","histories"],"Every sequence of mutating calls on any mix of field types, field numbers, occurrence numbers and values, followed by any read.",
"The tests replay a few fixed scripts with fixed ids and values; interactions between several types, shifting of offsets when a variable-length value changes size, and occurrence gaps are only met at hand-picked points.",
["src/fbfr32.h","src/fml32.cpp"],
[("per-type sorted field areas with moving offsets","src/fbfr32.h Fbfr32::add/chg/del/delall/where"),("public entry points","src/fml32.cpp Fadd32/Fchg32/Fdel32/Fget32/Fnext32/...")],
[("type offsets","where each type's fields start inside the buffer","src/fbfr32.h longs_/chars_/.../fml32s_")],["return values and Ferror32 of the fielded buffer API"])

p("C02","Fielded buffers never exceed their space and account for it exactly",
"No fielded buffer operation ever reads or writes outside the memory of its buffers, and at every moment used plus unused space equals the buffer's size. An operation that does not fit reports lack of space, a single-field one then leaves the buffer's contents exactly as they were, and an operation whose result fits succeeds. The buffer may be moved as a block of bytes, copied to any buffer at least as large as its used size, or grown, and still holds the same fields.",
["inputs","histories"],"Every buffer size, fill level and operation, in particular those where the remaining space is within a few bytes of what is needed.",
"A space check that is off by the alignment or header size only shows at exact fill levels; tests use roomy buffers.",
["src/fbfr32.h","src/fml32.cpp"],
[("space checks before growth","src/fbfr32.h Fbfr32::ensure/need"),("initialisation and size computation","src/fml32.cpp Finit32/Fsizeof32/Fused32/Funused32/Fneeded32")],
[("size and used length","header of the buffer","src/fbfr32.h size_/len_")])

p("C03","Whole-buffer operations compute the set operation they are named after",
"Copy, update, join, outer join, concatenate, project (in place and by copy), delete-set and byte-image write/read of fielded buffers give exactly the result of the corresponding operation on the multimaps of the source and destination, and terminate for every pair of buffers. The source buffer is never modified, checksums of equal buffers are equal, and an operation whose result does not fit reports lack of space.",
["inputs","histories"],"Every pair of source and destination contents: fields missing on either side, different numbers of occurrences per field, mixed types, every projection list, and every destination size.",
"The number of ways two small buffers can overlap is in the thousands; each operation has one or two example tests, none with several surplus occurrences.",
["src/fml32.cpp","src/fbfr32.h"],
[("merge walks over source and destination","src/fbfr32.h Fbfr32::update/join/ojoin/concat/proj/cpy/delete"),("byte image","src/fml32.cpp Fwrite32/Fread32/Fchksum32")])

p("C04","Field ids and typed conversions preserve value, type and number",
"A field id made from a valid type and field number yields exactly that type and number back, and invalid types or numbers are rejected. Converting reads and writes store and return the converted value: integer to integer keeps the value whenever the target can represent it, integer to string and back is the identity, a character, string and byte array convert to each other by content, and the reported length is the length of the converted value. A conversion never writes more than the space the caller declared and otherwise reports lack of space.",
["inputs"],"Every field type pair, every value, every declared length, every field number.",
"There are 49 type pairs and each has boundary values (minimum, maximum, empty, longest, embedded zero byte); tests use one mid-range value per pair.",
["src/fbfr32fld.h","src/fml32.cpp","src/fbfr32.h"],
[("per-pair conversion","src/fml32.cpp CFadd32/CFchg32/CFget32/CFfind32/Ftypcvt32"),("id packing","src/fml32.cpp Fmkfldid32/Fldtype32/Fldno32")])

p("C05","Printed fielded buffers read back as the same buffer",
"Printing a fielded buffer of named fields (integers, characters, strings, byte arrays and nested buffers of them) and reading the text back yields an equal buffer, for every content of printable and unprintable bytes. Reading any text, valid or not, either yields a buffer or reports an error; it never touches memory it should not, hangs or ends the process.",
["inputs"],"Every buffer content (all byte values in strings and byte arrays, all numbers, nesting), and every input text up to a bound.",
"Tests print one buffer of plain ASCII; escapes, high bytes, backslashes, truncated and malformed lines are input classes no fixed example list covers.",
["src/fbfr32.h","src/fml32.cpp","src/extreader.h","src/basic_parser.h"],
[("escaping printer","src/fbfr32.h/fml32.cpp Ffprint32"),("line parser","src/extreader.h extreader::parse_line/value, src/basic_parser.h hex")])

p("C06","Boolean expressions evaluate by their grammar on any buffer",
"Evaluating an expression over a fielded buffer gives the result the expression grammar defines: operator precedence and associativity, comparison of numbers by value and of strings by content, occurrence subscripts, any-occurrence subscripts, logical operators, unary operators and arithmetic. Printing a compiled expression (with floating constants of at most six decimals) and compiling the print gives an expression with the same value on every buffer. Any expression text is either compiled or rejected with an error, and evaluating a compiled expression never crashes; dividing by zero is an error.",
["inputs","programs"],"Every expression built from the grammar up to a size bound, every field value it refers to, and every text of bounded length.",
"Tests evaluate a list of about a hundred fixed strings on one buffer; combinations of operators, boundary operand values and malformed texts are unbounded.",
["src/expr.cpp","src/basic_parser.h"],
[("recursive-descent parser into a relocatable tree","src/expr.cpp expr_parser, ast_tree"),("evaluator","src/expr.cpp eval/Fboolev32/Ffloatev32"),("printer","src/expr.cpp Fboolpr32")])

p("C07","Base64 encoding round-trips and never exceeds its buffers",
"Decoding an encoded byte string returns the same bytes, the encoded text has exactly the length announced for that many bytes and only alphabet characters with correct padding. Neither direction reads past its input or writes past the output size it was given; too small outputs and texts that are not valid base64 are rejected.",
["inputs"],"Every byte string, text and output size up to the bound.",
"Tests use the RFC vectors; invalid characters, misplaced padding and exact output sizes are not in them.",
["src/base64.cpp","src/misc.h"],
[("encode/decode loops and bounds checks","src/base64.cpp base64encode/base64decode"),("announced length","src/misc.h base64chars")])

p("C08","Typed buffers keep type, subtype, size and content",
"An allocated typed buffer reports the type and subtype it was allocated with and is at least as large as requested; resizing keeps the type, the subtype and the content up to the smaller of the two sizes, and the new size is the one later used for every size decision. Unknown types, bad arguments and pointers to memory whose header is not a typed buffer's are reported as errors.",
["inputs","histories"],"Every type, subtype and size, every sequence of allocate, resize and query calls.",
"Tests allocate each type once with a fixed size; growing then shrinking then using the buffer is not covered.",
["src/mem.cpp"],
[("header in front of the data","src/mem.cpp tpalloc/tprealloc/tptypes/tpfree"),("per type init/reinit hooks","src/mem.cpp types table")],
[("header type, subtype, size","typed buffer metadata","src/mem.cpp struct tpmem")])

p("C09","Exported typed buffers import as the same buffer; bad imports are rejected",
"Exporting a typed buffer, in binary or text form, and importing the result yields a buffer of the same type, subtype and content whatever buffer it is imported into, which is resized when needed. Exporting into a too small area is reported without writing past it. Importing bytes that are not an export (too short for a header, an unknown type or subtype, not base64, or a length that does not match) is rejected without corrupting the buffer given for the result or any other memory.",
["inputs","histories"],"Every type and content, every previous size of the receiving buffer, every declared output length, every byte string offered for import.",
"Tests export and import one buffer of each type into a fresh one; resized receivers and damaged inputs are not reached.",
["src/mem.cpp","src/base64.cpp"],
[("export/import of header and data","src/mem.cpp tpexport/tpimport, fux::mem::bufsize")])

p("C10","Messages between processes arrive whole or not at all",
"What one process sends through a queue is what another receives: payload type and content, service name, flags, descriptor, reply queue, return values, transaction and category are unchanged, whether the message travels inside the queue or, when long, through a temporary file. After a delivered long message no temporary file remains, and when sending fails or times out nothing is queued, no temporary file remains and the caller is told. Non-blocking and time-limited sends never block indefinitely.",
["inputs","fault_sequences"],"Every payload size around the in-queue limit, every header value, every outcome of the queue and file system calls (full queue, interrupted, failed open/write/read).",
"Tests send two sizes over a live queue and no system call ever fails; the size threshold, header fields on the file path and error paths are unvisited.",
["src/ipc.cpp","src/ipc.h"],
[("choice between in-queue and file transport","src/ipc.cpp qsend/qrecv"),("payload packing","src/ipc.cpp msg::set_data/get_data")])

p("C11","The shared registry holds exactly what was registered, within capacity",
"Groups, servers, queues, services and advertisements (of a server on its own request queue) created in the shared registry are found again by their key and only by it, with the attributes they were created with; creating an existing one is refused or returns the existing entry and never duplicates it. The tables never overlap, never grow past their configured capacity and an operation refused for lack of capacity or an over-long name changes nothing. Advertising and withdrawing a service makes exactly that advertisement appear and disappear and advances the service's revision so that callers notice.",
["inputs","histories","configurations"],"Every configured capacity, every key and name, every sequence of register, advertise, withdraw and look-up calls.",
"Tests create a handful of entries in a roomy registry; full tables, name prefixes of one another, longest names and removal from the middle are not covered.",
["src/mib.cpp","src/mib.h","src/mibtypes.h","src/misc.h"],
[("layout","src/mib.cpp mib::needed/init_memory"),("find_*/make_*/advertise/unadvertise","src/mib.cpp"),("bounded copies","src/misc.h checked_copy")],
[("table lengths","number of live entries","src/mib.h mibarr.len")])

p("C12","Shared registry updates happen only under its lock, which is always released",
"After start-up every change any process makes to the shared registry's tables (groups, servers, queues, services, advertisements, client registrations, transactions) is made while that process holds the registry lock, except a client's note of its own waiting time and the atomic identifier counter. Every operation, whether it succeeds, fails or throws, releases the lock exactly as often as it took it, and never takes it twice.",
["schedules","inputs"],"Every public operation, on every path through it including all error paths, at any interleaving with other processes.",
"The tests are single-process and sequential: an update outside the lock or a lock leaked on an error path cannot be observed by them.",
["src/mib.cpp","src/mib.h","src/server.cpp","src/client.cpp","src/tx.cpp","src/svcrepo.h"],
[("scoped lock","src/ipc.h scoped_semlock, src/mib.h data_lock"),("lock users","src/mib.cpp, src/server.cpp, src/tx.cpp")])

p("C13","Calls are routed only to servers that currently offer the service, evenly",
"A request for a service is always sent to the queue of a server that advertises that service at that moment (as of the last look under the lock), and to one in the requested group when a group is required; if there is none the caller is told the service does not exist. With several servers offering the service successive requests rotate through all of them, and a service becoming available or unavailable is noticed by the next request of every process.",
["inputs","histories","schedules"],"Every set of servers, groups and advertisements, every history of advertise and withdraw between calls.",
"Tests have one server per service; stale cached routes after a change, group filters and rotation are not exercised.",
["src/svcrepo.h","src/mib.cpp","src/client.cpp"],
[("cached route refreshed on revision change","src/svcrepo.h service_repository::refresh/load_balance"),("revision bump","src/mib.cpp advertise/unadvertise")])

p("C14","Every reply reaches exactly the call it answers",
"A reply obtained for a call descriptor is the reply to that call and carries its data, return code and user code; replies to other outstanding calls that arrive first are kept and delivered later when asked for, each once. A cancelled or already answered descriptor is invalid and its late reply is never delivered to anyone. Descriptors of outstanding calls are distinct, their number is limited, invalid arguments are refused, and failed or timed-out calls do not use up descriptors.",
["schedules","histories","inputs"],"Every order in which replies to several outstanding calls arrive, interleaved with every order of waiting, cancelling and calling again, with time-outs at any point.",
"Tests make calls whose replies arrive in order; permutations of reply arrival with cancels and time-outs are schedules they do not control.",
["src/client.cpp","src/resp.h"],
[("descriptor table and buffered replies","src/resp.h responses"),("call, wait, cancel","src/client.cpp tpcall/tpacall/tpgetrply/tpcancel")],
[("outstanding calls","descriptor to reply","src/resp.h calls_")])

p("C15","A server answers each request once, from the right service routine",
"A request received by a server is given to the routine advertised under the requested service name with the request's data, flags and name, and, unless no reply was wanted, exactly one reply is sent to the caller's queue with the caller's descriptor and the routine's return value, user code and data; a routine that does not return properly yields a service error. A forwarded request reaches the other service with the original caller's reply address and is answered there and not here. A request that is not valid, such as one for a service the server does not offer, gets an error reply. A stop request ends only the server it names. A server runs only when it is on record, understood its options, was initialised and found room for its services; while it runs it is registered as running and advertises exactly the services it was told to. A server with several dispatch threads keeps all this however their work interleaves: every request is handled by one thread, its data stays its own, a routine never has to wait for the next request to arrive, each thread is initialised and ended once, and the server ends after all of them.",
["inputs","histories"],"Every request header and payload, every outcome of the service routine (success, failure, forward, no return), every set of advertised services, every interleaving of dispatch threads.",
"Tests run a few services end to end; unknown services, stop messages for another server on a shared queue, replies that cannot be sent and no-reply requests combined with failures are not generated.",
["src/server.cpp"],
[("dispatch loop","src/server.cpp dispatch"),("reply and forward","src/server.cpp tpreturn/tpforward"),("advertising","src/server.cpp tpadvertisex/tpunadvertise")])

p("C16","Transaction calls obey the transaction-demarcation state rules",
"Every transaction call is allowed or refused according to the caller's transaction state as the standard prescribes: nothing but opening works before opening, a transaction cannot be begun inside one, commit and rollback need one and leave none (or, in chained mode, exactly one new one), and characteristics accept only valid values. The information call always reports whether the caller is in a transaction and its identifier. Suspending and resuming gives back the same transaction.",
["histories","inputs"],"Every sequence of transaction calls with every argument value, each resource-manager call returning any allowed code.",
"A state table times call sequences is far larger than the few happy sequences tested, and resource managers never return errors in the tests.",
["src/tx.cpp","src/trx.h"],
[("state machine","src/tx.cpp change_state and tx_* entry points")],[("transaction state","closed, open, in transaction, chained","src/tx.cpp")])

p("C17","A distributed transaction ends the same way in all participants",
"When a transaction is ended every group that took part in it is told the same outcome, and the outcome is commit only if the caller asked to commit and every participant voted to commit; otherwise all are rolled back and the caller is told so. No reachable participant is left without an outcome, whatever errors, refusals or missing answers occur (a crash of the coordinator itself excepted), and the transaction no longer occupies a place afterwards.",
["fault_sequences","histories","inputs"],"Every number of participants up to a bound, every vote, every failure of a participant or of the messages to it.",
"Tests commit with one well-behaved resource manager; failing votes and lost answers of one of several participants are not injected.",
["src/tx.cpp","src/trx.h","src/trx.cpp"],
[("two-phase commit coordinator","src/tx.cpp tx_commit/tx_rollback"),("participants of a transaction","src/trx.h transaction_table")])

p("C18","Transaction identifiers are unique, survive text form and identify one transaction",
"Every transaction identifier converted to text and back is the same identifier, and text that is not an identifier is rejected without touching memory beyond it. Transactions started concurrently get different identifiers, occupy different places, are found by their identifier only while they live, and remember exactly the groups that joined them; their number is limited and places are reused after the end.",
["inputs","histories"],"Every identifier content and length, every text up to a bound, every history of start, join, look-up and end.",
"Tests convert one identifier and start a couple of transactions; over-long or odd-length text, full tables and reuse are not reached.",
["src/fux.h","src/trx.h","src/trx.cpp","src/mib.cpp"],
[("text conversion","src/trx.h fux::to_string/to_xid"),("transaction table","src/trx.h transaction_table start/find/join/end"),("unique ids","src/mib.cpp genuid")])

p("C19","Configuration files load into exactly the configured system or are refused",
"A well-formed configuration text (of *RESOURCES, *MACHINES, *GROUPS and *SERVERS sections, each entry and parameter once) produces a configuration with exactly the machine, groups, transaction managers, servers and limits it lists, with the values it gives and the built-in defaults for what it leaves out; unloading gives that text back. A text with a missing, malformed or out-of-range value for one of these is refused with an error and leaves the configuration file unchanged. No text makes the loader crash, hang or touch memory it should not.",
["inputs","configurations"],"Every parameter value in its range, presence or absence of each parameter, and every text up to a bound.",
"Tests load two or three fixed files; each parameter's conversion, default and range, and malformed files are not varied.",
["src/ubbreader.h","src/ubb2mib.cpp","src/basic_parser.h","src/ubb.h"],
[("parser","src/ubbreader.h"),("conversion to registry","src/ubb2mib.cpp")])

p("C20","Dead processes are noticed and live ones left alone",
"The monitor's periodic pass acts on a server exactly when its process is gone, and on an expired waiting caller exactly when its waiting time has passed, sending that caller a wake-up and no one else. Entries of live processes stay untouched. A waiting caller has its time on record exactly while it waits; wherever a client is killed, the monitor removes its registration and its queue, and nothing of anyone else.",
["histories","schedules","fault_sequences"],"Every set of registered servers and callers, each alive or dead, waiting or not, with any clock value.",
"The tests contain no dead process and no expired wait at the moment of a monitor pass.",
["src/BBL.cpp","src/mib.cpp","src/client.cpp"],
[("watchdog passes","src/BBL.cpp"),("waiting registration","src/client.cpp, src/mib.cpp make_accesser")])

p("C21","Library calls report errors and never let exceptions or overruns escape",
"Every public library call, given arguments the interface does not allow (missing buffers, names, values, lists and files, misaligned buffers, ids and types that do not exist, unknown or over-long names, out-of-range numbers and flags), or made when the registry is missing or full, or a queue or the lock cannot be had, returns its failure value and sets a defined error code for that failure, without changing its buffers; XATMI calls that succeed leave the error code clear. No exception leaves a library call, and log lines, formatted and error texts are never written past their areas, however long; a log line is cut only where it does not fit.",
["inputs"],"Every public call, every argument value, every message length.",
"Argument checks are tested call by call with one bad value each, long texts around internal buffer sizes are not tested at all.",
["src/xatmi.cpp","src/userlog.cpp","src/misc.cpp","src/fml32.cpp","src/client.cpp","src/tx.cpp","src/mem.cpp"],
[("exception boundaries","src/misc.h exception_boundary"),("error text","src/misc.cpp string_format, src/xatmi.cpp set_tperrno"),("log lines","src/userlog.cpp userlog")])

p("C22","Field tables map names and ids both ways, and view descriptions become the structures they describe",
"After loading field tables every listed field name (names and ids being distinct) maps to the id made of its type and base-adjusted number and that id maps back to the name, and the generated header defines the same ids; unlisted names and ids are reported as unknown. This holds also when several threads ask at once, and a name once returned stays valid until the names are unloaded. A malformed table is refused as a whole with an error and never crashes the reader. A view description becomes a header with one structure per view, with the members, types, counts and sizes it lists, and a malformed one is refused with an error.",
["inputs","configurations","schedules"],"Every base, number, type and name in a table of bounded length, and every text up to a bound; every interleaving of two threads at their locks.",
"Tests load one small table; base directives, comments, odd spacing and malformed lines are input classes not enumerated.",
["src/fieldtbl32.h","src/fbfr32fld.h","src/fml32.cpp","src/view32.h","src/mkfldhdr32.cpp","src/viewc32.cpp"],
[("view parser","src/view32.h"),("table parser","src/fieldtbl32.h"),("lookup","src/fml32.cpp Fldid32/Fname32")])

p("C23","Administrative reports list every registry entry once with its true values",
"An administrative GET request for the domain, the machine, groups, servers, services, advertisements or queues answers with every registry entry of the requested class exactly once, one occurrence per entry, each attribute reported having the entry's true value, and with the number of entries; entries no longer in use are not reported. The administrative console answers each of its commands with what that report gives for it. Requests for unknown classes or operations are refused with an error. A report changes nothing in the registry.",
["inputs","configurations"],"Every class and operation on every registry content up to a bound.",
"Tests query a single class of one configuration.",
["src/tpadmcall.cpp","src/mib.cpp","src/tmadmin.cpp"],
[("class handlers","src/tpadmcall.cpp"),("console","src/tmadmin.cpp")])

p("C24","Starting, stopping and cleaning up act on exactly the selected servers and the system's own resources",
"Starting a system starts every selected server that is marked for automatic start and not running exactly once, in the configured order, with its configured program, group and number, the next one only when the one before is ready or has ended; the registry then holds the process of every running server and of no other, and the outcome of each is reported. Asking for the sequence or for help, or a missing log directory, starts nothing. Stopping asks every selected running server exactly once, in reverse order and on its own queue, and reports each outcome; only stopping the whole system removes its IPC resources. The clean-up tool lists exactly the system's IPC resources and removes them only when told so. Resources of other systems are never touched.",
["configurations","histories","fault_sequences"],"Every set of configured servers, each not started, running or gone, with any outcome of its start or stop, and every selection and answer.",
"Tests start and stop one complete healthy system; servers that fail, hang, are already gone or are not selected, and partial selections, are not combined.",
["src/tmboot.cpp","src/tmshutdown.cpp","src/tmipcrm.cpp","src/mib.cpp"],
[("start","src/tmboot.cpp start"),("stop","src/tmshutdown.cpp"),("clean-up","src/tmipcrm.cpp, src/mib.cpp remove")])

p("C25","Builders generate and compile exactly what was asked",
"Building a server generates one program whose table has exactly the services asked for, each with its function, in order, that uses the resource manager asked for (or none) and the threading asked for, and compiles it once with the given files, libraries and output name in the given order, with the configured compiler and flags; building a client or a transaction manager compiles what was given likewise. The compiler's result is the tool's result, the generated file is kept only when asked, and an unknown resource manager, a malformed resource manager list or a file that cannot be written is an error and compiles nothing.",
["inputs","configurations"],"Every list of services and functions, files, options and resource managers up to a bound.",
"Tests build a handful of servers with one or two services; lists of services with and without functions, resource manager files with malformed lines and failing compilers are not varied.",
["src/buildserver.cpp","src/buildclient.cpp","src/buildtms.cpp"],
[("server generator","src/buildserver.cpp"),("client","src/buildclient.cpp"),("transaction manager","src/buildtms.cpp")])

p("C26","The request tool sends exactly what it was given and reports what came back",
"Given a fielded buffer in text form, the request tool ud32 sends exactly that buffer once to the service named in it, prints the request and the reply exactly (unless told to print nothing), whatever their sizes, and waits for no reply when told not to. With a transaction asked for, the request runs in one, which is committed when the request succeeded and rolled back otherwise. A missing, malformed or nameless request sends nothing; that, and every failed call, is reported and fails. Asking for help does nothing else. It gives its registration back whatever happens.",
["inputs","fault_sequences"],"Every request and reply, every option, and every outcome of the call and of the transaction.",
"Tests send one small request and read one reply of similar size; failures, options and replies that outgrow the request are not tried.",
["src/ud32.cpp","src/extreader.h","src/fux.h"],
[("the tool","src/ud32.cpp"),("reading the request","src/extreader.h")])

p("C27","Calls wait exactly as long as their block time says",
"A call that may have to wait (for room in a service's queue or for a reply) waits until what it waits for is there or its block time has passed, whichever is earlier, and a call whose time has passed says so (TPETIME) and can be repeated. The block time in force is the one set for the next call, for exactly that call (both halves of a synchronous call), else the one set for all calls of the client, else the configured one; times are reported as they were set, in either unit, and negative times or unknown flags are refused. A call told not to wait (TPNOBLOCK) returns at once and says that it would have had to; one told to ignore time (TPNOTIME) waits for as long as it takes.",
["inputs","histories","schedules"],"Every block time, sequence of settings and calls, flags, and moment at which the reply, the wake-up or a late wake-up of an earlier call arrives.",
"Tests wait once for each of three block times of whole seconds; sequences of settings, early and late wake-ups and the flags are not combined.",
["src/client.cpp","src/ipc.cpp","src/BBL.cpp"],
[("block times","src/client.cpp tpsblktime, tpgblktime, next_blocktime"),("waiting for a reply","src/client.cpp tpgetrply, tpcall"),("waiting for room","src/ipc.cpp msgsnd_timed")])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
