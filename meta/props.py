prop("C01", "Every message is encoded exactly as 9P2000 lays it out",
 "For every value of its fields, what an encoder writes is size[4] type[1] tag[2] and then the fields in the order, width and little-endian byte order of the 9P2000 manual, with the size that of the whole message; the same holds for the stat record. The message types, permission, mode and QID constants have the manual's values. Fields whose length does not fit their count are excluded.",
 ["inputs"], "all 27 messages and the stat record, all field values, strings, lists and data of any length that fits its count",
 "The tests encode one or two sample messages; they compare against bytes for those only and never look at other lengths, high bytes or wide integers.",
 [GEN, PROTO + "protocol.go", PROTO + "types.go", PROTO + "gen.go"],
 [("one encoder per message, generated", GEN), ("message and stat record structs fix the field order", PROTO + "protocol.go")],
 observe=["the bytes an encoder leaves in the buffer it is given"],
 technique=AI + "the abstract content each encoder leaves on every path is compared with the manual's layout",
 note="Sound for all field values up to the modelled library calls (bytes, encoding/binary, io). Counts that overflow are not decided.")

prop("C02", "Decoding gives back exactly what was encoded",
 "For every message, decoding what encoding wrote succeeds and yields the same field values and tag. More generally, a decoder accepts every input that has exactly the manual's layout and returns for each field the value the layout gives it.",
 ["inputs"], "all messages, all field values, all well-formed byte strings",
 "The tests round-trip a few sample messages; a decoder that drops a high byte or mixes two fields of equal width passes them.",
 [GEN, PROTO + "protocol.go"],
 [("one decoder per message, generated", GEN)],
 observe=["results of the decoders"],
 technique=AI + "each accepting path's results are compared with the layout's terms, each refusing path is refuted for well-formed input, and encoder and decoder are composed",
 note="Sound for all inputs up to the modelled library calls.")

prop("C03", "Decoders refuse malformed input and never fault on any input",
 "For every byte string, a decoder either returns an error or has found all fields of the message within the input and nothing after them. No byte string makes a decoder index out of range, panic, or allocate more memory than a constant multiple of the input's length.",
 ["inputs"], "all byte strings of any length, for every message and for the stat record",
 "The tests feed well-formed messages and one or two short ones; the set of truncations and lying counts is unbounded.",
 [GEN],
 [("length checks before each field and the check for bytes left over", GEN)],
 observe=["error result of the decoders", "panics", "allocation sizes"],
 technique=AI + "bounds, nil and allocation obligations discharged on every path, acceptance implies exact layout",
 note="Sound for all inputs up to the modelled library calls.")

prop("C04", "Refused requests are never executed",
 "Before the first version request on a connection every other request is answered with an error and reaches no handler. A request that does not decode completely, or that is of a type the server does not support, is answered with an error and reaches no handler. After a version request other requests are not refused for lack of one.",
 ["inputs", "histories"], "all 256 type bytes, all message bodies, all histories of requests on a connection",
 "The tests send requests in the right order and well formed; a handler run on a half-decoded request does not show in them.",
 [PROTO + "server.go", GEN],
 [("the dispatcher's check for a version request", PROTO + "server.go Dispatch"), ("each server stub returns on a decoding error", GEN)],
 state=[("versioned", "a version request has been seen on the connection", PROTO + "server.go Server.Versioned")],
 observe=["calls of the server's handlers", "the reply"],
 technique=AI + "all paths of the dispatcher for each type byte, with and without the version state",
 note="Sound for all requests up to the modelled library calls.")

prop("C05", "Each request gets its one matching reply with its tag",
 "Every request the dispatcher is given leaves exactly one well-formed reply, with the tag of the request. If the handler succeeds it is the reply type of that request carrying exactly the handler's results; if the handler fails or is not run it is an Rerror, which carries the handler's error text, cut to what a 9P string holds. A well-formed supported request runs the handler of its type once, with exactly its fields.",
 ["inputs", "histories"], "all request types, all bodies, all handler results and errors",
 "The tests look at a handful of requests with their expected replies; swapped arguments, a wrong tag on an error path or a lost result show only for particular values.",
 [PROTO + "server.go", GEN],
 [("the dispatcher's table", PROTO + "server.go Dispatch"), ("server stubs: decode, call, encode", GEN)],
 observe=["the buffer after dispatch", "arguments of the handlers"],
 technique=AI + "the reply left on every path is matched with the handler's results, and the handler's arguments with the request's fields",
 note="Sound for all requests and handler results up to the modelled library calls; overlong strings and lists from a handler are not decided.")

prop("C06", "Requests are framed by their size and answered one by one",
 "However the bytes of a connection are split up in transit, the server takes exactly the number of bytes each message's size field says, dispatches each message once with its own type and body, and writes its reply once, whole and unchanged, before it takes the next. It stops only when the connection fails or a size cannot be one.",
 ["inputs", "schedules", "fault_sequences"], "all byte streams, all ways the transport splits them, all points at which a read or write fails",
 "The tests use pipes that deliver whole messages; partial reads and several messages in one read never happen in them.",
 [PROTO + "server.go"],
 [("the loop that serves a connection", PROTO + "server.go conn.serve")],
 observe=["bytes read from and written to the connection", "calls of the dispatcher"],
 technique=AI + "one arbitrary turn of the serving loop: bytes consumed, dispatched content and written content as terms over the stream",
 note="Sound for any chunking of the stream. That the transport delivers bytes in order is assumed.")

prop("C24", "Connections do not share state",
 "Each connection gets its own server made for it: its fids, its version state and its table of fids are new objects no other connection reaches. Nothing a connection does is stored in package-level variables.",
 ["histories", "schedules"], "all numbers of connections and all interleavings of their requests",
 "The tests use one connection at a time.",
 [PROTO + "server.go", FS, "pkg/debugfs/debug.go"],
 [("a creator is called for each connection", PROTO + "server.go newConn"), ("the creator allocates", FS + " NewUFS")],
 observe=["objects reachable from two connections"],
 technique="escape and allocation-site analysis on the abstract paths that set up a connection, and an effect analysis of stores to package variables",
 note="Covers the server of this repository; a user's own creator can share what it likes. The host file system is shared on purpose.")

prop("C25", "Connections and listeners are closed, and all that is accepted is served",
 "When serving a connection ends, for whatever reason, the connection is closed, and not before. When Serve ends its listener is closed and forgotten; until then each accepted connection is served exactly once, temporary accept errors are retried after a pause of at most a second, and any other error is returned. Shutdown closes every active listener even if one cannot be closed, and reports that failure.",
 ["histories", "fault_sequences", "schedules"], "all sequences of accept results, read and write failures, and shutdowns",
 "The tests never fail a read, a write, an Accept or a Close.",
 [PROTO + "server.go"],
 [("deferred closes", PROTO + "server.go serve, Serve"), ("table of listeners", PROTO + "server.go trackListener, closeListenersLocked")],
 state=[("listeners", "the active listeners", PROTO + "server.go Listener")],
 observe=["Close calls", "error results"],
 technique=AI + "typestate of connections and listeners on every path out of the serving functions",
 note="Sound for all results of the network calls.")

CLI = PROTO + "client.go"

prop("C07", "Concurrent calls have tags of their own and each reply goes to its call",
 "However many calls are made at once on a client and in whatever order a server answers, no two outstanding calls have the same tag, a tag is used again only after the reply to it has come in, and each reply is delivered, unchanged and once, to the call whose request carried its tag. A reply whose tag belongs to no outstanding call is dropped and changes nothing.",
 ["schedules", "inputs", "histories"], "all interleavings of calls and replies, all orders of replies, all tags a server may send",
 "The tests make one call at a time against a server that answers in order; a tag freed too early or a reply delivered to the wrong call needs two calls in flight.",
 [CLI],
 [("the pool of tags and the table of outstanding calls", CLI), ("the goroutine that writes requests and the one that dispatches replies", CLI)],
 state=[("outstanding calls", "the call a tag stands for", CLI + " Client.RPC")],
 observe=["tags on the wire", "which call a reply ends"],
 technique=AI + "one arbitrary turn of each client goroutine, with channel and lock invariants, over which tag is taken, entered, removed and given back, and which call is sent to",
 note="Sound for all schedules given the channel invariants the check itself establishes at every send; a server that answers a tag before it was sent is only dropped.")

prop("C08", "A call sends its request and returns what the reply says",
 "Each client call sends one message, which is its arguments encoded as 9P2000 has them. It returns without error only if the reply is of the type that answers this request and is well formed, and then with exactly the reply's fields; an error reply gives an error with its text, and any other reply gives an error.",
 ["inputs"], "all client calls, all arguments, all byte strings as replies",
 "The tests make successful calls with one set of arguments; wrong reply types, cut replies and error replies are hardly tried.",
 [GEN, CLI],
 [("client stubs: encode, send, wait, decode", GEN)],
 observe=["the message handed to the connection", "results of the call"],
 technique=AI + "content of the message sent and results on every path as terms over the arguments and over an arbitrary reply",
 note="Sound for all arguments that fit their counts and all replies.")

prop("C09", "Nothing a server does crashes or hangs a client",
 "No sequence of bytes from a server, and no failure of the connection, makes a client panic or kills its goroutines unnoticed. Once the connection has failed or a reply cannot be framed, calls that wait and calls made later return an error instead of waiting for ever. Replies are framed by their size however the transport splits them.",
 ["inputs", "schedules", "fault_sequences"], "all byte streams from a server, all points at which reads and writes fail, all interleavings with calls",
 "The tests use a well-behaved server over a pipe that does not fail; what happens to waiting calls on a failure depends on the schedule.",
 [CLI],
 [("the goroutines that read and write the connection", CLI), ("the channel closed when a client dies", CLI)],
 observe=["panics", "calls that do not return"],
 technique=AI + "panic obligations on every path of the client's goroutines, what each loop exit implies, and which choices each wait has",
 note="That a scheduler runs a ready goroutine is assumed. A server that keeps the connection up and never answers is not a failure.")

prop("C10", "No request crashes or wedges the server",
 "Whatever requests a client sends, in whatever order and with whatever contents, no request makes the file server, the tracing server, the dispatcher or a connection's goroutine panic, end the process, or return with a lock held or take one twice.",
 ["inputs", "histories", "fault_sequences"], "all requests with all field values, all states of the fid table, all results of host calls",
 "The tests send a few valid requests; a negative count, a fid that is not open or a host call that fails at the wrong moment is not among them.",
 [FS, PROTO + "server.go", "pkg/debugfs/debug.go"],
 [("handlers of the file server", FS), ("dispatcher and serving loop", PROTO + "server.go")],
 state=[("fid table", "fid to path, QID and open file", FS + " FileServer.files")],
 observe=["panics", "exits", "locks held on return"],
 technique=AI + "index, slice, nil, map, lock and type-assertion obligations discharged on every path from every handler",
 note="Host calls return arbitrary results of their type. Memory exhaustion by large counts is not decided.")

prop("C11", "Every path the server touches is inside its root",
 "For every sequence of names a client gives in attach, walk, create and wstat, however many dot-dots or slashes are in them, each path the server passes to the host and each path it remembers for a fid is the root or below it. Symbolic links in the exported tree are followed as the host follows them.",
 ["inputs", "histories"], "all names, all sequences of walks, creates and renames",
 "The tests walk to plain names; escapes need particular combinations of dot-dots and steps.",
 [FS],
 [("names are joined and cleaned from the root on", FS)],
 state=[("path of a fid", "where requests on it act", FS + " file.fullName")],
 observe=["path arguments of host calls"],
 technique=AI + "each path argument is a term built from the root and lexically cleaned parts, with induction over loop variables and the fid table",
 note="Lexical containment. What the host does with symbolic links is not decided.")

prop("C12", "Fids live from attach or walk to clunk, remove or version",
 "A fid becomes known only by an attach or by a complete walk that succeeds, and only if it was free, or is the fid walked from; after such a request it is known. Clunk and remove make their fid unknown whether or not they succeed, a version request makes all of them unknown, and nothing else does.",
 ["histories", "schedules", "inputs"], "all histories of requests, all fids, all failures in between, requests in parallel",
 "The tests use fresh fids in the right order; reuse after partial walks, failed removes and second versions are not tried.",
 [FS],
 [("table of fids and its lock", FS + " FileServer.mu")],
 state=[("fid table", "the fids that are known", FS + " FileServer.files")],
 observe=["whether a later request on the fid succeeds"],
 technique=AI + "insertions into and deletions from the table on every path of every handler, with the lookups and locks they follow",
 note="Sound for all histories and requests in parallel, as the test and the insertion are in one holding of the lock.")

prop("C13", "A request acts only on the file of its fid",
 "Each request acts on the file its fid stands for, or on what its names lead to from there, and on nothing else: no other fid's path or open file is used or changed. A request on a fid that is not known fails and touches nothing. A request that succeeds has done on the host what it stands for, once, and nothing that another kind of request stands for.",
 ["histories", "inputs"], "all requests, all fids, all states of the fid table",
 "The tests have one or two fids; mixed-up fids show only with several of them standing for different files.",
 [FS],
 [("handlers look up the fid and use its path and open file", FS)],
 state=[("fid table", "path and open file of a fid", FS + " FileServer.files")],
 observe=["host calls and their arguments"],
 technique=AI + "provenance of each host call's path and file arguments on every path",
 note="Host functions are classified by name; a host function the analysis has no class for counts as changing files.")

prop("C14", "Open files have one owner and are closed with it",
 "Every file the server opens is either remembered for the fid of that request or closed before the request ends. An open file belongs to one fid only, is never replaced without being closed, and is closed exactly once, when its fid is clunked, removed, bound to another file or ended by a new version.",
 ["histories", "fault_sequences"], "all histories of opens, creates, walks and clunks, all failures of host calls in between",
 "The tests never count open files; a leak on an error path or a doubly closed file is invisible to them.",
 [FS],
 [("the open file of a fid", FS + " file.file"), ("clunk closes it", FS)],
 state=[("open file", "the host file a fid has open", FS + " file.file")],
 observe=["files opened and closed on the host"],
 technique=AI + "typestate of each opened file on every path: stored once or closed once, and old values of overwritten fields",
 note="Fids left when a connection drops are not closed by anything and are listed under C34.")

prop("C15", "Failures of the host are reported to the client",
 "If a host call made for a request fails, the request is answered with an error and not as if it had succeeded. The exceptions are those the protocol has: the end of a file or directory, a walk that got past its first element, the test whether the target of a rename is there, and a failed close.",
 ["fault_sequences", "inputs"], "every host call of every request failing at every point",
 "The tests never make a host call fail in the middle of a request.",
 [FS, "filesystem/filesystem_unix.go", "filesystem/filesystem_windows.go"],
 [("error checks after host calls", FS)],
 observe=["the error of the request"],
 technique=AI + "each path carries which host calls failed on it and is required to return an error",
 note="Sound for every host call returning any error at any time.")

prop("C16", "A request that fails leaves its fid as it was",
 "A request answered with an error leaves the path, QID and open file of its fid as they were and binds no fid, apart from clunk and remove, which always end it. If a rename has been done before the failure, the fid stands for the new name.",
 ["fault_sequences", "histories"], "all requests, all points of failure within them",
 "The tests do not go on using a fid after a failed request.",
 [FS],
 [("fid is changed after the last call that can fail", FS)],
 state=[("fid", "path, QID and open file", FS + " file")],
 observe=["later requests on the fid"],
 technique=AI + "stores to the fid on each path that returns an error",
 note="Sound for every host call failing at any time. Effects on the host of a partly done wstat are not undone.")

prop("C26", "New fids handed out by a client are never repeated",
 "However many goroutines ask a client for a fid at once, no two of them get the same one, starting from the same state a new client is in, as long as fewer than 2^32 have been handed out.",
 ["schedules", "histories"], "all interleavings of requests for fids",
 "The tests ask for fids from one goroutine.",
 [CLI],
 [("the counter of fids", CLI + " GetFID")],
 state=[("next fid", "counter", CLI + " Client.FID")],
 observe=["the fids returned"],
 technique=AI + "the value returned is the result of one atomic addition, and no other store to the counter exists",
 note="Sound for all schedules, up to wrap-around after 2^32 fids.")

prop("C27", "Requests are refused only for a reason",
 "The file server refuses a request only if the host refused it, or the fid is unknown, or one to be bound is in use, or it is one of: a version other than 9P2000; attach with authentication; open or create on an open fid, or a walk that would rebind one; read or write on one not open; a negative count; a malformed stat record, or one that sets owner or group; a rename onto a directory.",
 ["inputs", "histories"], "all requests with all field values, all states of the fid table",
 "The tests try few valid requests; one that is refused for particular values only goes unnoticed.",
 [FS],
 [("handlers of the file server", FS)],
 observe=["the error of the request"],
 technique=AI + "each path that returns an error is required to carry one of the listed reasons in its path condition",
 note="Sound for all inputs; the reasons are read off the path condition.")

prop("C28", "Version negotiation",
 "A version request succeeds exactly if it asks for 9P2000, and is then answered with that version and a message size that is not above the one the client offered.",
 ["inputs"], "all version strings and message sizes",
 "The tests try one version and one size.",
 [FS],
 [("version handler", FS + " Rversion")],
 observe=["reply to a version request"],
 technique=AI + "path conditions and results of the version handler",
 note="Sound for all inputs.")

prop("C17", "Open and create do what their mode and permissions say",
 "For each of the 256 mode bytes, open opens the fid's file for reading, writing or both as the low two bits say (execute counts as reading), and truncates it exactly if the mode asks for that; create does the same for the new file, which it creates and truncates. Create makes a directory exactly if the permissions have the directory bit, else a file, each with the low nine permission bits. After it the fid stands for the new file, which is open if it is not a directory.",
 ["inputs"], "all 256 modes, all 2^32 permissions, all names",
 "The tests open with two or three modes.",
 [FS, "filesystem/ninep.go"],
 [("mode to open flags", "filesystem/ninep.go modeToUnixFlags"), ("open and create handlers", FS)],
 state=[("fid", "path, QID and open file", FS + " file")],
 observe=["flags and permissions given to the host", "the fid after the request"],
 technique=AI + "each mode byte is analysed on its own; flags as constants, permissions as bits of the argument",
 note="Sound for all modes and permissions. Remove-on-close is not implemented by the server and not claimed.")

prop("C18", "Wstat changes exactly what its record says",
 "A wstat that succeeds has changed the permissions, name, length and times of the fid's file to the values in the record, each exactly if its field is not the one that means leave alone, and has changed nothing else; a name that is absolute is taken from the root, any other from the file's directory. One that changes nothing flushes the file if it is open. One that sets owner or group or is malformed is refused and changes nothing.",
 ["inputs", "fault_sequences"], "all stat records, all combinations of fields set and left alone, all failures in between",
 "The tests try one or two records; the combinations of fields and their special values are not covered.",
 [FS],
 [("wstat handler", FS + " Rwstat")],
 observe=["host calls and their arguments"],
 technique=AI + "on each path, the host calls made are matched with what the path condition says about each field of the record",
 note="Sound for all records.")

prop("C19", "Reads and writes move exactly the bytes at the offset",
 "A read of a file asks the host for count bytes at the request's offset and returns exactly the bytes the host gave, never more than count. A write passes all its data, unchanged, at the request's offset, and returns the number of bytes the host took.",
 ["inputs"], "all offsets, counts and data",
 "The tests read and write small files from offset 0.",
 [FS],
 [("read and write handlers", FS + " Rread, Rwrite")],
 observe=["host reads and writes", "the data returned"],
 technique=AI + "arguments of host reads and writes and the returned slice as terms over the request",
 note="Sound for all offsets and counts. What the host does with offsets beyond 2^63 is the host's.")

prop("C20", "Walk follows its names one by one",
 "A walk looks up its names in order, each from where the one before led, starting at the fid's file, and returns the QID of each file it got to, in order. It stops at the first name that cannot be looked up: with an error if that is the first, and otherwise with the QIDs so far, at least one and fewer than the names, and no fid bound. A walk to the end binds the new fid to the file the last name led to, with its QID; a walk of no names binds it to the same file and QID as the old one.",
 ["inputs", "histories", "fault_sequences"], "all lists of names of any length, all points of failure",
 "The tests walk one or two names that exist.",
 [FS],
 [("walk handler", FS + " Rwalk")],
 state=[("fid table", "fid to path and QID", FS + " FileServer.files")],
 observe=["QIDs returned", "host look-ups", "the new fid"],
 technique=AI + "induction over the turns of the walk's loop: path, look-up and QID of an arbitrary turn, and what each exit implies",
 note="Sound for lists of any length.")

prop("C21", "QIDs and stat records describe the file",
 "Every QID the server gives out has the directory bit exactly if the file is a directory, the symbolic link bit exactly if it is one, the inode number as path where the host has one, and a version made from the modification time, in the same way in attach, walk, create, stat and directory entries. Stat records and directory entries carry the file's permissions, directory bit, modification time, length and name, and say how long they are. Open returns the QID of the fid.",
 ["inputs", "configurations"], "all files, all kinds of them, all requests that return QIDs or stat records",
 "The tests look at one directory and one file.",
 [FS, "filesystem/ninep.go", "filesystem/ninep_unix.go", "filesystem/ninep_windows.go"],
 [("file information to QID", "filesystem/ninep_unix.go fileInfoToQID"), ("file information to stat record", "filesystem/ninep.go dirTo9p2000Dir")],
 observe=["QIDs and stat records in replies"],
 technique=AI + "each QID and record is a term over the host's file information, bit by bit; shapes from different requests are compared",
 note="Sound for all file information the host can return. Names longer than 2^16 bytes are not decided.")

prop("C22", "Tracing changes nothing",
 "With tracing on, every request is passed to the traced server exactly once, with the same arguments, and its results and error are returned unchanged; the tracing server does nothing else but log.",
 ["inputs"], "all requests, all results and errors of the traced server",
 "The tests do not run the tracing server at all.",
 ["pkg/debugfs/debug.go"],
 [("one forwarding method per request", "pkg/debugfs/debug.go")],
 observe=["calls of the traced server", "results"],
 technique=AI + "the calls on every path of each method, their arguments and what is returned",
 note="Sound for all requests, up to what logging does.")

prop("C23", "Shared state is used under its lock",
 "Every piece of state that several goroutines of a client, a listener or a file server share and that changes while they run is read and written only with the lock of that object held, or only by atomic operations. No variable that a goroutine shares with its starter is changed after the start.",
 ["schedules"], "all interleavings of calls, connections and goroutines",
 "Races show only for particular interleavings; the tests run without the race detector and with little concurrency.",
 [CLI, PROTO + "server.go", FS],
 [("mutexes of client, listener and file server", CLI + " Client.mu, server.go Listener.mu, filesystem.go FileServer.mu")],
 observe=["data races"],
 technique="must-lockset dataflow over the SSA form with call summaries, and an effect analysis of which fields change after construction",
 note="Objects are told apart by access path within a function. Fields a user of the package uses directly are not covered.")

prop("C29", "Directory reads lose no entry",
 "Each entry the host gives for an open directory is returned by a read, whole and in order, once: one that does not fit into the count is kept and comes with the next read that does not start over. A read at offset 0 starts the directory over and no other read does, and what is returned is never longer than the count.",
 ["inputs", "histories"], "all directories, all counts, all sequences of reads",
 "The tests read directories with large counts only.",
 [FS, "filesystem/filesystem_unix.go", "filesystem/filesystem_windows.go"],
 [("directory part of the read handler", FS + " Rread")],
 state=[("overflow", "an entry kept for the next read", FS + " file.oflow")],
 observe=["data returned by reads of a directory"],
 technique=AI + "on every path, returned bytes followed by kept bytes are what was kept before followed by the encoding of the entry read",
 note="Sound for all entries and counts. That the host lists each file once is assumed.")

prop("C35", "Constructors apply every option and report one that fails",
 "NewClient, NewListener and NewUFS call each of the options they are given, in order and once, with the object they return. If one fails they return its error and have started nothing; without a failing option they do not fail. A listener has the server creator it was made with.",
 ["inputs", "fault_sequences"], "all lists of options and every one of them failing",
 "The tests' options never fail.",
 [CLI, PROTO + "server.go", FS],
 [("loops over the options", CLI + " NewClient; " + PROTO + "server.go NewListener; " + FS + " NewUFS")],
 observe=["the options called", "the object and error returned"],
 technique=AI + "the loop over the options as one arbitrary turn: what is called with what, and what a failure leads to",
 note="What an option does to the object is its own business.")

prop("C36", "A client lets go of its connection",
 "When the part of a client that reads replies ends, for whatever reason, the connection it reads from has been closed, and it was not closed before the last read.",
 ["fault_sequences", "inputs"], "all messages and all points at which the connection can fail",
 "The tests never end a connection while they look at it.",
 [CLI],
 [("goroutine that reads replies", CLI + " readNetPackets")],
 observe=["Close calls on the connection"],
 technique=AI + "typestate of the connection on every path out of the reading goroutine",
 note="A read that never returns keeps the connection open.")

prop("C37", "The server program serves what its flags say, or fails",
 "The program cmd/ufs listens on the network and address its flags give (tcp port 5640 without any), and accepts connections from that listener and serves each the tree that -root names (/ without it). If it cannot listen, cannot make the server or stops serving because of an error, it ends with a failure status and does not go on.",
 ["inputs", "fault_sequences"], "all values of the flags, each call that can fail failing",
 "No test runs the program.",
 ["cmd/ufs/ufs.go", FS],
 [("main", "cmd/ufs/ufs.go"), ("creator of file servers", FS + " NewUFS")],
 observe=["address listened on", "exit status", "tree served"],
 technique=AI + "main as a whole, into the serving loop: provenance of what it listens on and serves, and the end of each path on which something failed",
 note="The flag package and net.Listen are taken as documented.")

prop("C38", "Requests that cannot be honoured are refused",
 "The file server refuses, instead of acting on them: requests about a fid that is not in use, attaches that ask for authentication, attaches and walks to a fid that is in use, reads and writes of a fid that is not open, opens, creates and walks of one that is, wstats with a cut-off record or with an owner or a group to set, and renames onto a directory.",
 ["inputs", "histories"], "all requests in all states of the fid table and of the host's files",
 "The tests try two or three of the refusals.",
 [FS],
 [("handlers", FS + " FileServer.R*")],
 observe=["whether the reply is an error"],
 technique=AI + "each path of a handler that returns no error carries the facts that exclude every reason to refuse",
 note="What the host refuses is the host's; C15 passes it on.")

prop("C30", "Replies respect the negotiated message size",
 "No reply is longer than the message size agreed on by the version request.",
 ["inputs", "histories"], "all requests and all message sizes", "The tests use small messages.",
 [PROTO + "server.go", FS], [("version handler", FS + " Rversion")],
 na="The server does not keep the agreed size, so there is nothing in the source that bounds a reply by it; enforcing it is a new feature, not a repair, and no static argument can show it here.")

prop("C31", "No symbolic link leads out of the exported tree",
 "No request reaches a file outside of the root, even through symbolic links in the tree.",
 ["inputs", "histories", "schedules"], "all trees with all symbolic links", "The tests have no symbolic links.",
 [FS], [("host calls by path", FS)],
 na="Depends on the links in the host's file system at run time and on how the host resolves them; the server follows them on purpose. Lexical containment is C11.")

prop("C32", "The generated stubs are what the generator produces",
 "The checked-in stubs are the output of the generator for the message definitions.",
 ["programs"], "all message definitions", "The tests do not run the generator.",
 [PROTO + "gen.go", GEN], [("generator", PROTO + "gen.go")],
 na="To decide it the generator has to be run, which this family excludes. What the stubs do is decided for each of them by C01 to C05 and C08.")

prop("C33", "Every call returns in bounded time and memory stays bounded",
 "Requests are answered within a bound, and the memory used is bounded by the message size.",
 ["schedules", "inputs"], "all loads", "Performance is not tested.",
 [PROTO + "server.go", FS], [("serving loop", PROTO + "server.go")],
 na="Time and memory depend on the host, the scheduler and the counts a client asks for; no static bound is in reach. The parts that can be decided, that no call waits for ever on a dead connection and that decoders do not allocate beyond their input, are C09 and C03.")

prop("C34", "Files left open by a dropped connection are closed",
 "When a connection ends, the files its fids have open are closed.",
 ["fault_sequences", "histories"], "all histories that end without clunks", "The tests clunk what they open.",
 [PROTO + "server.go", FS], [("end of a connection", PROTO + "server.go conn.serve")],
 na="The interface between connection and file server has no call for the end of a connection, so the code does not provide this; the files are left to the garbage collector's finalizers, whose timing no static analysis can bound.")
