#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for ids, statements and anchors)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [],
                          "hook_needed": hook}})

p("C01", "Requests are framed exactly, whatever the segmentation or pipelining",
  "For every stream of well-formed multi-bulk requests on a connection, however its bytes are split over reads or batched together, the server executes exactly those requests, in order, with byte-exact arguments (empty, binary, CRLF-containing and large ones included). Each request gets exactly one well-formed RESP reply, in request order, and arguments once stored never change because of later traffic.",
  ["inputs", "schedules"], "every request stream, every split of it into reads, every pipelining depth",
  "The parser tests feed three whole, single requests; no split, pipelined, empty-argument or larger-than-buffer request is ever parsed, and no reply is ever read.",
  ["server/resp.go", "server/client.go", "server/server.go", "server/command.go"],
  [("incremental multi-bulk parser", "server/resp.go processMultiBulkBuffer"), ("query buffer", "server/server.go readQueryFromClient")],
  [{"name": "query buffer + parse state", "meaning": "unconsumed bytes and partially parsed request of a connection", "where": "server/client.go Client"}],
  ["client socket: bytes in, replies out"])

p("C02", "No client input can take the server down",
  "No byte sequence a client sends (malformed framing, negative, empty or absurd lengths, blank lines, truncated requests, any command with any arguments) makes the server process exit, hang or allocate memory out of proportion to the bytes received and the replies owed. The offending connection gets an error reply or is closed; every other connection keeps being served without long stalls (also when KEYS gets a very long pattern, and when clients use up the file descriptors) and the stored data stay intact.",
  ["inputs", "histories"], "all byte strings and all command/argument combinations, on any number of connections",
  "The tests contain no malformed request and no command execution at all; a single panic in any handler ends the process.",
  ["server/resp.go", "server/server.go", "server/client.go", "server/command.go", "datastruct/quicklist.go", "datastruct/skiplist.go"],
  [("length validation", "server/resp.go"), ("argument validation", "server/command*.go")],
  None, ["server process liveness, witness connection, resident memory"])

p("C03", "String and keyspace commands follow a sequential key-value model",
  "Over every history of commands, SET/SETEX replace whatever the key held, GET returns the last value stored byte for byte (null when the key does not exist, an error when it holds another type), and PING answers PONG. KEYS * returns exactly the live keys of the selected database, each once, KEYS with another pattern exactly those in which that regular expression is found (an error if it is none), and RANDOMGET returns a live key, or null only when there is none; a collection whose last element has been removed no longer exists as a key.",
  ["histories", "inputs"], "all command histories over all keys, values and key counts (the key table grows, rehashes and shrinks underneath)",
  "No test executes a command; the dictionary tests insert keys in one ascending batch and never interleave growth, iteration and deletion.",
  ["server/commandstring.go", "server/commandkey.go", "server/command.go", "database/database.go", "datastruct/dict.go"],
  [("key table", "datastruct/dict.go Dict"), ("command handlers", "server/commandstring.go, server/commandkey.go")],
  None, ["replies on client connections"])

p("C04", "List commands follow a sequential double-ended list model",
  "Over every history and at every list length, LPUSH/RPUSH insert their values one after another at head/tail and return the new length, LPOP/RPOP remove and return the head/tail element (null when there is none), and LLEN is the exact length. LINDEX with a non-negative index and LRANGE (negative indexes counting from the tail, stop clamped to the end) return exactly the elements at those positions in order.",
  ["histories", "inputs"], "all histories of list commands, at lengths spanning many storage pages",
  "Server list commands are never run; the quicklist tests only append, remove the head and insert in the first half of a list.",
  ["server/commandlist.go", "datastruct/quicklist.go"],
  [("paged list", "datastruct/quicklist.go Quicklist"), ("handlers", "server/commandlist.go")], None, ["replies on client connections"])

p("C05", "Hash commands follow a sequential field-map model",
  "Over every history, HSET stores each given field/value pair (last one wins) and returns the number of fields that were new, HGET returns the last value stored for the field or null, and HDEL removes the given fields and returns how many existed. HEXISTS, HLEN and HKEYS agree exactly with the set of fields present, each field once.",
  ["histories", "inputs"], "all histories of hash commands, at field counts that make the table grow and rehash",
  "No test runs a hash command.",
  ["server/commandhash.go", "datastruct/dict.go"],
  [("hash object is a Dict", "server/commandhash.go")], None, ["replies on client connections"])

p("C06", "Set commands follow the mathematical set model",
  "Over every history, SADD/SREM add and remove exactly the given members and return how many were new/present, SISMEMBER, SCARD and SMEMBERS agree with the current membership (each member once), and SPOP removes and returns one current member (null when there is none). SUNION, SINTER and SDIFF return exactly the union, intersection and left-to-right difference of the named sets, a missing key counting as the empty set, and modify nothing.",
  ["histories", "inputs"], "all histories of set commands, any number of operand sets, any sizes and overlaps, operands in mid-rehash",
  "Set tests use three fixed ascending ranges; the commands, including SPOP and multi-key forms, are never run.",
  ["server/commandset.go", "datastruct/set.go", "datastruct/dict.go"],
  [("Set over Dict", "datastruct/set.go"), ("handlers", "server/commandset.go")], None, ["replies on client connections"])

p("C07", "Sorted-set commands follow the ordered (score, member) model",
  "Over every history, a sorted set holds each member once with its latest score, ordered by score and then by member bytes: ZADD returns the number of new members, ZSCORE, ZCARD and ZCOUNT are exact, and ZRANGE (non-negative ranks) and ZRANGEBYSCORE (inclusive bounds, infinities allowed), with or without WITHSCORES, return exactly the elements of that order in range. ZREM, ZREMRANGEBYRANK (non-negative ranks) and ZREMRANGEBYSCORE remove exactly the addressed elements and return their number; NaN is never accepted as a score or bound.",
  ["histories", "inputs"], "all histories of sorted-set commands, all finite and infinite scores, ties, score updates, all rank and score ranges",
  "Tests add distinct ascending scores once, never update a score, never tie, and delete ranges only from rank 1.",
  ["server/commandzset.go", "server/client.go", "datastruct/zset.go", "datastruct/skiplist.go"],
  [("dict+skiplist kept in step", "datastruct/zset.go"), ("span-indexed skiplist", "datastruct/skiplist.go")], None, ["replies on client connections"])

p("C08", "A key lives exactly until its deadline",
  "A key given a deadline by EXPIRE, EXPIREAT or SETEX is fully visible to every command until the deadline and absent for every command (reads, writes, KEYS, RANDOMGET, TTL) after it; a write after the deadline starts from an empty key without a deadline. TTL returns -2 for an absent key, -1 without a deadline, otherwise the remaining seconds; SET clears the deadline, other updates of a live key keep it, setting a deadline on an absent key has no effect, and a deadline too large to represent is rejected rather than wrapped.",
  ["histories", "inputs", "schedules"], "all histories of writes, deadline changes and clock advances, on all data types, whether or not the background expiry got to the key first",
  "No test touches expiry; deciding it needs control of the clock and of the race between lazy and background expiry.",
  ["server/command.go", "server/commandkey.go", "server/commandstring.go", "server/server.go", "server/commandlist.go", "server/commandhash.go", "server/commandset.go", "server/commandzset.go"],
  [("lazy expiry", "server/command.go expireIfNeeded"), ("background expiry", "server/server.go databasesCron")],
  [{"name": "Expire table", "meaning": "deadline in ms per key", "where": "database/database.go"}],
  ["replies under a controlled clock"])

p("C09", "Databases and connections are isolated from each other",
  "A command reads and changes only the database its own connection last selected (database 0 initially); the same key in different databases holds independent values, types and deadlines. SELECT accepts exactly the configured database numbers, and a rejected SELECT leaves the connection where it was; no connection's selection, authentication or partial request affects another's.",
  ["histories", "schedules"], "all interleavings of SELECTs and commands over several connections and all configured databases",
  "No test executes SELECT or opens two command connections.",
  ["server/commandconnection.go", "server/server.go", "server/client.go", "database/database.go"],
  [("per-client db pointer", "server/client.go"), ("db table", "server/server.go NewServer")], None, ["replies on several connections"])

p("C10", "Nothing is readable or writable before authentication",
  "When a password is configured, a connection whose most recent AUTH (if any) did not carry exactly that password gets an error for every other command, whatever its case, arity, framing or position in a pipeline, and such a command neither reveals nor changes any data. After AUTH with the exact password the connection's commands are served until an AUTH with another one (an AUTH with a wrong number of arguments is no attempt); without a configured password all commands are served.",
  ["inputs", "histories"], "all commands, password guesses, pipelines and connection histories",
  "Authentication is never exercised by a test.",
  ["server/command.go", "server/commandconnection.go"],
  [("gate before dispatch", "server/command.go processCommand")], None, ["replies; data seen through an authenticated connection"])

p("C11", "A command that is answered with an error changes nothing",
  "Whenever the reply to a command is an error (unknown command, wrong number of arguments, wrong type, unparsable or out-of-range argument anywhere in the argument list), every key, value, type and deadline in every database is as it was before, no key has been created, and nothing about the command is visible after a restart. The error for a key of another type does not claim that the key is missing.",
  ["inputs", "histories"], "all erroneous commands in all dataset states, including errors in the middle of a multi-element command",
  "No test runs an erroneous command.",
  ["server/command.go", "server/commandzset.go", "server/commandhash.go", "server/commandlist.go", "server/commandset.go", "server/commandstring.go", "server/commandkey.go", "server/aof.go"],
  [("validation before mutation", "server/command*.go"), ("dirty counter gates the log", "server/command.go call")], None, ["full dataset dump before/after; dataset after restart"])

p("C12", "Acknowledged writes survive a kill of the process",
  "With the append-only file enabled, under every fsync policy, once a client has received the reply to a write, killing the server process at any later moment and restarting it yields a dataset that contains that write, in the order it was executed. Requests in flight at the kill either took effect entirely or not at all, and those that did form a prefix of each connection's request order.",
  ["crash_points", "histories", "schedules"], "all kill times during all workloads, any number of clients and pipelining depth, repeated kills",
  "No test starts a server with persistence, let alone kills one.",
  ["server/aof.go", "server/server.go", "server/command.go", "server/client.go"],
  [("log flushed before the loop sleeps, replies sent after", "server/server.go beforeSleepProc"), ("replay", "server/aof.go loadAppendOnlyFile")],
  [{"name": "AOF buffer", "meaning": "executed but unwritten commands", "where": "server/server.go Server"}], ["acknowledged replies vs dataset after restart"])

p("C13", "Restarting reproduces the dataset",
  "Loading the append-only file written by any history of commands, over all databases, data types, value sizes and contents, random pops, expiries and any number of earlier restarts, reproduces exactly the dataset the server held: same keys, types, values, element order and scores. Deadlines are reproduced too, never later and less than one second earlier than before, and keys that expired before, during or after the downtime are absent while writes made after such an expiry are kept; with another number of databases configured, the restart either reproduces the databases there are or is refused with the file untouched.",
  ["histories", "crash_points"], "all command histories and all placements of restarts and clock advances in them",
  "No test writes or loads an append-only file.",
  ["server/aof.go", "server/commandset.go", "server/command.go", "server/server.go"],
  [("command log with database switching", "server/aof.go feedAppendOnlyFile"), ("replay", "server/aof.go loadAppendOnlyFile")], None, ["full dataset dump before stop and after restart"])

p("C14", "Rewriting the append-only file preserves the dataset",
  "A background rewrite (BGREWRITEAOF or automatic), with any writes executed while it runs, never changes the live dataset, and the rewritten file reloads to exactly the dataset the server holds: every database, key, type, value, element order, score and deadline, each effect exactly once.",
  ["histories", "schedules"], "all datasets (all types, sizes beyond the per-command batch limit) and all interleavings of writes with the running rewrite",
  "No test runs a rewrite; the interleaving of the rewriting goroutine with command execution is never explored.",
  ["server/aof.go", "database/database.go", "datastruct/dict.go", "server/server.go"],
  [("snapshot then background dump", "server/aof.go rewriteAppendOnlyFileBackground"), ("difference buffer", "server/aof.go aofRewriteDoneCallback")],
  [{"name": "rewrite buffer", "meaning": "commands executed while a rewrite runs", "where": "server/server.go Server"}], ["live dataset and dataset after restart"])

p("C15", "A torn append-only file tail never prevents or corrupts recovery",
  "If the append-only file ends anywhere inside a record, as a crash in the middle of a write leaves it, the server starts and holds exactly the dataset of the complete records before it. Writes accepted after such a recovery are themselves recovered by the next restart. A failure to read the file, or to cut it off, is never taken for its end: the server then either refuses to start and leaves the file as it is, or has everything.",
  ["crash_points", "inputs"], "every truncation point of every append-only file, followed by any further history and restarts",
  "No test loads an append-only file, complete or truncated.",
  ["server/aof.go"], [("replay loop", "server/aof.go loadAppendOnlyFile")], None, ["dataset after restart on each truncated file"])

p("C16", "A crash during an append-only file rewrite loses nothing",
  "Killing the server at any step of a background rewrite, including the installation of the new file, leaves on disk an append-only file from which a restart reproduces every acknowledged write, exactly once, and at which the server resumes logging.",
  ["crash_points", "schedules"], "every kill point from the start of the rewrite to after the switch to the new file, with concurrent writes",
  "No test performs a rewrite or a crash.",
  ["server/aof.go"], [("temp file, then switch", "server/aof.go rewriteAppendOnlyFile, aofRewriteDoneCallback")], None, ["dataset after restart; system-call trace of the server"])

p("C17", "The configured fsync policy is honoured",
  "With policy 'always' no reply to a write leaves the server before an fsync issued after that write's append to the log has completed, including across a log rewrite. With 'everysec' every append is followed by an fsync within about a second, also when no further writes arrive or the server is told to stop, and fsyncs are at most about one per second; with 'no' the server issues no fsync for appended commands.",
  ["histories", "schedules", "configurations"], "all write workloads under each policy",
  "Nothing observes system calls or ordering between fsync and replies.",
  ["server/aof.go", "config/config.go", "server/server.go"], [("aofFileSync", "server/aof.go"), ("flush before sleep", "server/server.go beforeSleepProc")], None,
  ["system-call trace: write/fsync on the log vs write on client sockets"])

p("C18", "Concurrent clients observe one sequential execution",
  "For any number of concurrent connections, the replies are those of executing all commands one at a time in some order consistent with real time: every history is linearizable with respect to the sequential model of the data types, and a pipeline on one connection is executed in order.",
  ["schedules", "histories"], "all interleavings of requests on any number of connections",
  "No test has two clients issuing commands.",
  ["server/server.go", "server/client.go", "server/command.go", "ae/ae.go"], [("single-threaded event loop", "ae/ae.go Main")], None, ["invocation/response histories at the clients"])

p("C19", "The server is free of data races",
  "In any execution of the server (concurrent clients, every fsync policy, background and automatic rewrites while data are being modified, edits of the configuration file, and shutdown at any moment), no memory location is accessed by two goroutines without synchronization when one of the accesses is a write.",
  ["schedules"], "all schedules of the event loop, rewrite, fsync, configuration-watching and signal-handling goroutines",
  "The race detector is never run and the tests of the server package start no background task.",
  ["server/server.go", "server/aof.go", "ae/ae.go", "database/database.go", "datastruct/dict.go", "cmd/root.go"],
  [("deep copy before background work", "database/database.go DeepCopy"), ("channel and atomic hand-over", "server/aof.go")], None, ["Go race detector reports from the real server binary"])

p("C20", "The hash table and set behave as a map under incremental rehashing",
  "Over every sequence of operations at every table size and rehash phase, the dictionary is exactly a map: Set reports whether the key was new, Find/Get/Delete/Size are exact, GetRandomKey returns a present entry (nil only when empty), can return any of them, and stays quick when most entries of a large table have been deleted. An iteration, also when the current entry is deleted or other keys are looked up or updated meanwhile, visits every remaining entry exactly once and leaves the table usable (it goes on growing with its entries, so that lookups stay fast); DeepCopy and the set algebra return independent, exact results.",
  ["histories", "inputs"], "all operation sequences, key sets with arbitrary hash collisions, iterations started in every rehash phase",
  "Tests grow one table monotonically with well-spread hashes and iterate once at rest.",
  ["datastruct/dict.go", "datastruct/set.go"], [("two-table incremental rehash", "datastruct/dict.go rehash"), ("iterator count blocks rehash", "datastruct/dict.go DictIterator")],
  [{"name": "hashTables/rehashIndex/iterators", "meaning": "rehash phase", "where": "datastruct/dict.go Dict"}], ["exported API of datastruct"])

p("C21", "The paged list behaves as a sequence at every length",
  "Over every sequence of PushFront, PushBack, PopFront, PopBack, Insert and Remove at any position, the list holds exactly the expected sequence: Len, Get, Find, Range and forward and backward iteration agree with it at every index and length, out-of-range operations change nothing and report it, and no empty page is kept.",
  ["histories", "inputs"], "all operation sequences over lengths from empty to many pages, all positions",
  "Tests append 10000 values and only address the first half or the head.",
  ["datastruct/quicklist.go"], [("page split and lookup from both ends", "datastruct/quicklist.go Insert, get")], None, ["exported API of datastruct"])

p("C22", "The skiplist and sorted set keep exact order, ranks and links",
  "After every sequence of insertions, deletions, range deletions and score updates, the skiplist's forward links at each level are sorted subsequences of the level below, every span equals the number of elements it skips, backward links, tail, length and level are exact, and the member table holds the same members and scores as the order. Rank, element-by-rank, count and range queries by rank or score, forward and reverse, agree with the sorted sequence.",
  ["histories", "inputs"], "all operation sequences with ties, negative, infinite and equal scores, and all random level choices",
  "Tests insert ascending scores and never inspect spans or links.",
  ["datastruct/skiplist.go", "datastruct/zset.go"], [("span maintenance", "datastruct/skiplist.go Insert, deleteNode")],
  [{"name": "Head/Tail/Levels/Span/Backward", "meaning": "the structure itself", "where": "datastruct/skiplist.go"}], ["exported fields and API of datastruct"])

p("C23", "Timers fire when due, as often as asked, and never after removal",
  "In the event loop a timer never fires before its interval has elapsed since it was added or last fired; a one-shot timer fires exactly once and a repeating one keeps firing until removed. A removed timer does not fire again, including when it is removed by another callback of the same round, timers added or removed inside callbacks take effect, no timer starves another or the file events, and setting the clock back neither stops a timer nor makes it fire early.",
  ["schedules", "histories"], "all sets of timers and intervals, and all additions and removals from callbacks",
  "One test registers one timer of each kind and checks only that they were called.",
  ["ae/ae.go"], [("time event list", "ae/ae.go processEvents, wait")], None, ["callback log against a monotonic clock"])

p("C24", "File events reach exactly the registered handlers",
  "In the event loop a handler runs only for a descriptor and direction it is currently registered for and that is ready, with the descriptor and data it was registered with. Registering or removing one direction never disturbs the other, duplicate registration and removal of an absent registration fail without effect, and after a removal, also one made by an earlier callback of the same round, the removed handler is not run.",
  ["schedules", "histories"], "all sequences of registrations and removals over many descriptors, inside and outside callbacks",
  "One test follows a single read-then-write exchange on one connection.",
  ["ae/ae.go"], [("event map and epoll mask", "ae/ae.go AddFileEvent, RemoveFileEvent, processEvents")], None, ["callback log over socket pairs"])

p("C25", "Replies are delivered completely, in order, to the right client only",
  "Whatever the size of the replies, the number of connections and the speed at which clients read, each client receives exactly the bytes of its own replies in order, with none lost, duplicated, truncated or delivered to another connection. A client that stops reading or disconnects at any moment, also in the middle of a request or reply, affects no other client, and its descriptor is released, exactly once.",
  ["schedules", "fault_sequences"], "all reader speeds, partial writes, disconnects and resets at any point, over many connections",
  "No test reads a reply from the server or closes a connection during one.",
  ["server/server.go", "server/client.go", "ae/ae.go", "socket/socket.go"], [("reply queue with partial-write offset", "server/server.go sendReplayToClient"), ("free on error/EOF", "server/client.go free")], None,
  ["bytes received per client; descriptor count of the server process"])

p("C26", "A termination signal ends the server cleanly at any moment",
  "On SIGTERM or SIGINT at any time after the server has begun to listen, whatever it is doing (serving pipelined writes, syncing, running or completing a rewrite), the process exits by itself with status 0 and without a panic or fatal error. The append-only file it leaves is loadable and contains every acknowledged write.",
  ["schedules", "crash_points"], "all signal arrival times during all workloads",
  "No test stops a running server.",
  ["cmd/root.go", "server/server.go", "ae/ae.go", "server/aof.go"], [("Server.Stop", "server/server.go")], None, ["exit status, stderr, dataset after restart"])

p("C27", "The append-only file is rewritten automatically when it has outgrown the data",
  "With automatic rewriting configured, once the file exceeds the minimum size and has grown by the configured percentage since the last rewrite (or, when this process has made none, over nothing), a rewrite takes place without any command asking for it, so that a workload overwriting a bounded dataset keeps the file bounded. Below the minimum size or growth, or with percentage 0, no automatic rewrite happens.",
  ["histories", "configurations"], "all write workloads and all percentage and minimum-size settings",
  "No test runs the periodic task or a rewrite.",
  ["server/server.go", "server/aof.go", "config/config.go"], [("growth check", "server/server.go serverCron")],
  [{"name": "current/base size", "meaning": "bytes in the log now and after the last rewrite", "where": "server/server.go Server"}], ["size and identity of the append-only file"])

p("C28", "Expired keys are reclaimed without being accessed",
  "In every database, keys whose deadline has passed are eventually removed by the periodic task even if no client touches them, within a bounded number of rounds proportional to the number of keys carrying deadlines; keys without a deadline or with a future one are never removed by it, and it does not take the server away from its clients, however many keys have expired; setting the clock back does not stop it.",
  ["histories", "schedules"], "all populations of keys with past, future and no deadlines, in all databases",
  "No test runs the periodic task.",
  ["server/server.go", "datastruct/dict.go"], [("random sampling of the deadline table", "server/server.go databasesCron")], None, ["rewritten append-only file as a picture of what is held in memory"])

p("C29", "The server honours its network and database configuration",
  "The server accepts connections exactly on the configured address and port and on no other local address, and the start fails visibly for an address that is not a valid IPv4 address or a port that does not exist. The configured number of databases, password, log file and level, append-only file name, fsync policy and rewrite thresholds are the ones in effect.",
  ["configurations"], "all configurations of bind address, port, databases, password and append-only options",
  "No test loads a configuration; the socket tests connect only to 127.0.0.1, which a wildcard bind also satisfies.",
  ["socket/socket.go", "server/tcp.go", "config/config.go", "cmd/root.go", "server/server.go"], [("bind", "socket/socket.go Bind"), ("LoadConfig", "config/config.go")], None, ["bound address of the listening socket, reachability, behaviour"])

p("C30", "A write that cannot be logged is never acknowledged",
  "With the append-only file enabled, if writing (or, under policy 'always', syncing) the file fails at any moment (disk full, I/O error, short write), no client receives a success reply for a write whose record is not completely in the file. After the fault is gone a restart yields a dataset containing every acknowledged write.",
  ["fault_sequences", "histories"], "all failure kinds at all write and sync operations on the log",
  "No test injects a fault or writes a log.",
  ["server/aof.go", "server/server.go"], [("flush precedes replies and fails hard", "server/aof.go flushAppendOnlyFile")], None, ["replies received vs dataset after restart, under injected system-call errors"])

p("C31", "Editing the configuration file does not disturb a running server",
  "Whatever happens to the configuration file while the server starts or runs (other values, values of the wrong type, garbage, a half-written, empty, removed or replaced file, in any order and at any speed), the server keeps running and answering correctly, keeps its data, goes on logging to the same append-only file and ends cleanly when told to. It keeps the address, password, number of databases and rewrite settings it was started with; the file as it then is takes effect at the next start.",
  ["histories", "schedules"], "all sequences and timings of changes to the file",
  "No test loads a configuration, and the callback for changes runs in a goroutine of its own at times nobody chooses.",
  ["config/config.go", "cmd/root.go", "server/server.go"], [("change callback", "config/config.go LoadConfig"), ("settings copied at start", "server/server.go NewServer")], None, ["process liveness, listening sockets, replies, append-only file"])

p("C32", "A rewrite that cannot be completed leaves everything as it was",
  "If creating, writing, syncing, reopening or renaming the rewritten append-only file fails at any of its system calls (disk full, I/O error, no descriptors, short write; once or for good), the server keeps running and answering correctly, every write before, during and after the attempt stays in the dataset and in the append-only file in use, and no temporary file is left behind. Once the cause is gone a later rewrite succeeds.",
  ["fault_sequences", "histories"], "all failures at all system calls of a rewrite, with any commands executed beside it",
  "No test rewrites a log, let alone on a failing disk; the failure shows only in the background goroutine and in a callback of the periodic task.",
  ["server/aof.go", "server/server.go"], [("giving up a rewrite", "server/aof.go rewriteAppendOnlyFile"), ("installing the new file", "server/aof.go aofRewriteDoneCallback")], None, ["process liveness, replies, dataset after restart, directory contents, under injected system-call errors"])

p("C33", "What has been synced survives a power failure, across rewrites too",
  "A power failure at any moment, after which of each file only what an fsync has covered is certain to be there, leaves under the name of the append-only file a log that loads. With fsync policy 'always' it contains every write acknowledged by then, and with 'everysec' every write synced by then, each effect once; in particular a rewritten file takes the place of the log only when all of its content has been synced.",
  ["crash_points", "histories", "schedules"], "all moments of a power failure, in all histories of writes and rewrites",
  "No test writes a log; what a power failure leaves can only be computed from the order of write, fsync and rename calls.",
  ["server/aof.go", "server/server.go"], [("sync before rename", "server/aof.go rewriteAppendOnlyFile, aofRewriteDoneCallback"), ("sync before reply", "server/aof.go aofFileSync")], None, ["recorded system calls on files and sockets; dataset loaded from the computed file"])

p("C34", "Resources follow the data and connections there are, not the past",
  "Over any history, memory, file descriptors, threads and goroutines of the server stay in proportion to the data it holds and the connections that are open: data overwritten, deleted, popped or expired, connections ended in any way, failed commands, reads, rewrites and syncs leave nothing behind, however many there have been. Small elements do not keep large ones in memory that arrived with them and have been removed (tables may stay as large as they have been), and idle connections do not keep what they have sent or read. A server with nothing to do uses next to no processor time, whatever states its connections are in.",
  ["histories", "schedules"], "all histories of commands, connections and background tasks, of any length",
  "A test ends long before anything that accumulates is noticed, and none starts a server.",
  ["datastruct/quicklist.go", "datastruct/dict.go", "datastruct/skiplist.go", "datastruct/zset.go", "server/client.go", "server/server.go", "server/aof.go", "ae/ae.go"],
  [("removal from the data structures", "datastruct/*.go"), ("end of a client", "server/client.go free"), ("buffers of a rewrite", "server/aof.go")], None, ["live heap reported by the runtime, /proc/PID/fd and task, list of goroutines on SIGQUIT"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        assert x["statement"].count(". ") <= 2, (x["id"], x["statement"].count(". "))
        f.write(json.dumps(x) + "\n")
print(len(P))
