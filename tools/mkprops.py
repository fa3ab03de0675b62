#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run from /verif: python3 tools/mkprops.py).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
D="internal/infra/delta/"; I="internal/infra/index/"; R="internal/infra/recdb/"; M="internal/domain/"; A="internal/api/shard/"

p("C01","Delta log: the last operation on each user-item pair wins, across sessions",
 "For any history of add, flush, close, reopen and recover calls on a delta file, a lookup of a user-item pair returns the operation added last for exactly that pair, or not-found if none was added, both before and after the history is flushed, closed and reopened. The reported user count is the number of distinct users added, the reported item count is the number of stored operations (a pair re-added before a flush is stored once), and after a flush or close the reported file size equals the real file size.",
 ["histories","inputs"],
 "Every sequence of sessions over any user and item ids and any number of operations, under any legal chunking of file reads and any map iteration order.",
 "The tests use one or two sessions with three small entries; none looks a pair up after a flush inside a session, re-adds a pair after a flush, or exceeds an I/O buffer.",
 [D+"storage.go",D+"storagefactory.go",D+"protocol.go"],
 [("newDelta / deltaCache lookup","delta/storage.go Get, Add"),("header count + appended entries","delta/storage.go flushHeader, flushEntries"),("load on open","delta/storagefactory.go Open")],
 [("deltaCache","operations already in the file","delta/storage.go"),("newDelta","operations not flushed yet","delta/storage.go")],
 ["DeltaStorage.Get","GetUserCount","GetTotalItemCount","GetFileSize","file contents"])
p("C02","Delta log: flushed operations survive a crash at any point",
 "Once Flush or Close of a delta storage has returned success, a process crash at any later point - inside another flush, a close, an open, or a recovery, repeatedly - never loses those operations: after reopening with recovery every pair reads back its acknowledged operation or one added later, and pairs never added are not found. Reopening with recovery always succeeds on whatever a crash left behind, including an empty or half-created file, and what one recovery has shown is still there after the next crash.",
 ["crash_points","histories"],
 "Every history of sessions and every crash point, at byte granularity inside a file write, including crashes during recovery itself.",
 "The tests never stop a session part-way: recovery is tested on two hand-written images, never on an empty file, never interrupted.",
 [D+"storage.go",D+"storagefactory.go",D+"protocol.go","internal/helpers/file_buffer.go"],
 [("locked byte","delta/protocol.go WriteLocked, IsLocked"),("recovery rewrite","delta/storagefactory.go Recover, OpenMaybeRecover"),("entry copy","delta/protocol.go RecoverTo")],
 [("locked byte","file not closed properly","file offset 9")],
 ["DeltaStorageFactory.OpenMaybeRecover","DeltaStorage.Get"])
p("C03","Delta recovery keeps exactly the undamaged records",
 "Recovering a delta file that was not closed properly keeps every record whose stored checksum matches its contents, in order, and drops every record that is damaged or cut short; nothing else is ever served. This holds whatever record bytes were flipped, wherever the file was cut, whatever the stored entry count says, and also when the recovery itself is interrupted and repeated; the recovered file then opens normally with the same contents.",
 ["fault_sequences","crash_points","inputs"],
 "Every set of flipped or truncated stored bytes outside the magic number, on files of any size, with recovery interrupted anywhere.",
 "The tests recover three images with one bad entry at the end; no damage in the middle, no large file, no interruption.",
 [D+"protocol.go",D+"storagefactory.go","internal/helpers/file_buffer.go"],
 [("per-entry checksum","delta/protocol.go CalcEntryChecksum"),("skip of bad entries","delta/protocol.go RecoverTo"),("in-place replacement and truncation","delta/storagefactory.go Recover")],
 (),["recovered file bytes","DeltaStorage.Get after OpenMaybeRecover"])
p("C04","Delta log: I/O errors never lose or corrupt acknowledged operations",
 "When any read, write, seek or truncate on a delta file fails, possibly after part of a write reached the file, the call that met the error reports it, and nothing acknowledged earlier is lost. A later Flush or Close that succeeds makes every operation added so far durable and readable, and an open or recovery that failed leaves the file such that a later one without faults still finds every acknowledged operation. In-memory lookups in the running session stay exact throughout.",
 ["fault_sequences","histories"],
 "Every placement of transient I/O errors and short writes in every history of sessions.",
 "The test file buffer never fails, so no error path has ever run under test.",
 [D+"storage.go",D+"storagefactory.go",D+"protocol.go"],
 [("error propagation","delta/storage.go Flush, Close"),("unflushed data kept until written","delta/storage.go flushEntries"),("recovery read errors","delta/protocol.go RecoverTo")],
 (),["return values","file contents after retry"])
p("C05","An interrupted session is never mistaken for a clean file",
 "At every instant while a delta or index storage is open, from the successful return of opening it until its close, the bytes on disk are such that a plain open of a copy is refused. At any instant during opening or closing, a plain open of a copy is either refused or yields exactly the complete contents before (opening) or after (closing) the session. After a successful close a plain open succeeds.",
 ["crash_points","histories"],
 "Every instant (between any two bytes written) of every session history of both storages.",
 "The tests look at the lock byte once after open and once after close; the order of the writes in between is never observed.",
 [D+"storage.go",D+"storagefactory.go",I+"storage.go",I+"storagefactory.go",D+"protocol.go",I+"protocol.go"],
 [("lock byte written on open","delta/storagefactory.go Open, index/storage.go load/create"),("unlock as the last write","delta/storage.go Close, index/storage.go Close")],
 [("locked byte","session in progress or interrupted","delta offset 9, index offset 7")],
 ["factory Open on a copy of the current bytes"])
p("C06","Index: a reopened index holds exactly what the last session closed with",
 "An index storage behaves as a map from id to index value: Get returns the value of the last Put for that id unless it was removed since, in the session and after any number of close and reopen cycles. No id appears, disappears or changes value otherwise, for any ids and values and any number of entries, whether it grows or shrinks between sessions.",
 ["histories","inputs"],
 "Every sequence of put, remove, get, close and reopen over any 64-bit ids, under any legal chunking of reads and any map iteration order.",
 "The tests put at most two ids and never read values back through a reopened storage.",
 [I+"storage.go",I+"storagefactory.go",I+"protocol.go"],
 [("in-memory map","index/storage.go Get, Put, Remove"),("rewrite on close","index/storage.go saveHeader, saveEntries"),("load","index/storage.go load")],
 [("indices","the whole index in memory","index/storage.go")],
 ["IndexStorage.Get"])
p("C07","Index: faults never produce a wrong index",
 "After a crash at any point of an index session, or after any I/O error in opening or closing it, opening the index again either fails or yields exactly the contents of one whole session - the last one closed, or the one being closed - never a mixture, a partial or a stale set. A Close that reported success is always followed by an open with exactly its contents; an open that failed on a read error leaves the file unchanged, so that a later open without faults succeeds with the old contents; and whenever opening or closing fails the underlying file handle has been released.",
 ["crash_points","fault_sequences","histories"],
 "Every crash point at byte granularity and every placement of I/O errors in every session history.",
 "No test injects an error or stops in the middle of opening or closing.",
 [I+"storage.go",I+"storagefactory.go",I+"protocol.go"],
 [("lock byte","index/protocol.go WriteLocked"),("order of entry and header writes","index/storage.go Close"),("load checks the lock","index/storage.go load")],
 (),["IndexStorageFactory.Open","IndexStorage.Close","handle closed"])
p("C08","Database iteration returns each record and rewrites only the chosen one",
 "Iterating a recommendation database file returns its records in file order, each exactly as last written, for any record sizes and any legal chunking of reads; rewinding restarts from the first. Rewriting the previously returned record replaces exactly that record: every other byte of the file is unchanged, iteration continues with the following record, and a later pass returns the new contents. A rewrite whose capacity differs, whose data does not fit its capacity, or that has no previous record is refused and changes nothing.",
 ["histories","inputs","schedules"],
 "Every sequence of next, rewrite and rewind on files of any number and size of records, under any chunking of reads and read-ahead.",
 "The tests use files with a single record, where read-ahead always stops exactly at its end.",
 [R+"iterator.go",R+"protocol.go",R+"likeprotocol.go","internal/helpers/io.go"],
 [("position tracking","recdb/iterator.go Next, SetPrevious, Rewind"),("capacity padding","recdb/protocol.go WriteEntry, ReadEntry"),("record encoding","recdb/likeprotocol.go")],
 [("file position vs. read-ahead buffer","where the previous record starts","recdb/iterator.go")],
 ["Iterator results","file bytes"])
p("C09","Database iteration under I/O errors never yields or damages another record",
 "When a read, write or seek fails during iteration of a recommendation database file, the call reports the error, the position does not move, and repeating the call without the fault gives what the failed call should have given. A rewrite that fails part-way leaves every byte outside its own record unchanged and can be repeated to repair it. No sequence of faults makes iteration return a record other than the next one.",
 ["fault_sequences","histories"],
 "Every placement of transient read, write and seek errors, including partial writes, in every iteration history.",
 "No test makes a read, write or seek fail.",
 [R+"iterator.go",R+"protocol.go",R+"likeprotocol.go","internal/helpers/io.go"],
 [("position tracking","recdb/iterator.go"),("error propagation","recdb/protocol.go ReadEntry, WriteEntry")],
 (),["Iterator results","file bytes"])
p("C10","Damaged files are refused or read as they are, and never crash the process",
 "Opening and reading a delta, index, database or registry file whose stored bytes were flipped, overwritten or cut at arbitrary places always ends with a result or an error: it never panics, never loops forever, and never allocates memory out of proportion to the actual size of the file. Records of a database file that lie wholly before the first damaged byte are still returned exactly, a returned record's data always fits the record's stated capacity, and the iteration ends at the stored number of records or with an error. A delta or index file that is locked, of another format or shorter than its entry count says is refused by a plain open; one that is opened serves exactly the entries stored in it. On a registry file that is not a complete list of valid namespaces the shard does not start, and on any other it serves what is stored in it or does not start. Neither a refused plain open nor reading a database file changes a byte.",
 ["fault_sequences","inputs"],
 "Every set of stored-byte faults in files of the four kinds.",
 "The tests read one file with a wrong magic number; no length or count field is ever damaged.",
 [R+"likeprotocol.go",R+"protocol.go",R+"iterator.go",D+"storagefactory.go",D+"protocol.go",I+"storage.go"],
 [("length checks","recdb/likeprotocol.go ReadEntryData"),("count-driven loads","delta/storagefactory.go Open, index/storage.go load")],
 (),["return values","allocated bytes"])
p("C11","A write that reports success has handed every byte to the file",
 "For each of the three file formats, creating a file and writing a prefix, header, record or lock flag either returns an error or has passed the complete encoding to the underlying writer, such that reading it back gives an equal value; a fault of the writer at any byte is always reported. A database record whose data does not fit its capacity is refused before anything is written, and setting or testing the lock flag leaves the file position where it was.",
 ["fault_sequences","inputs"],
 "Every value written and every byte at which the underlying writer or reader can fail or return short.",
 "The tests write one value each to a writer that never fails, and never create a database file.",
 [R+"protocol.go",R+"likeprotocol.go",D+"protocol.go",I+"protocol.go","internal/helpers/io.go",D+"storagefactory.go",I+"storage.go"],
 [("create","recdb/protocol.go Create, index/storage.go create, delta/storagefactory.go Open"),("write functions","*/protocol.go Write*")],
 (),["bytes received by the writer","return values"])
p("C12","Every namespace request gets exactly one answer, in bounded time",
 "Each like, dislike, delete, profile, similarity and recommendation request on a started namespace returns exactly once, with its result or an error, under every interleaving with other requests, with any number of concurrent or repeated stop calls and with cancellation: none hangs and nothing panics, also for requests made after the namespace stopped. While the namespace is neither stopped nor cancelled the answer is the one its like storage gave. Requests queued together are served together: with at most 100 concurrent requests and responsive storage each is answered within one second.",
 ["schedules","histories"],
 "Every schedule of any number of clients, stop calls and cancellation, including stalls of the worker and of clients.",
 "The namespace worker has no tests at all.",
 [M+"likenamespace.go",M+"actions.go"],
 [("action queue","domain/likenamespace.go ns.action"),("worker loop","domain/likenamespace.go Start"),("stop notification","domain/likenamespace.go sendStoppedLikeNamespaceErrorToActionWaiters, Stop")],
 [("action queue","requests not taken by the worker yet","domain/likenamespace.go")],
 ["return of request methods"])
p("C13","Namespace actions run exactly once, in order, one batch at a time",
 "Every request that was answered with a result by the namespace was handed to the like storage exactly once, and one that was answered with the stopped error was never handed over. If one request returned before another was made, the storage sees them in that order; batches are never processed concurrently; and each requester receives the answer to its own request and no one else's.",
 ["schedules","histories"],
 "Every schedule of clients, stop and cancellation.",
 "The namespace worker has no tests at all.",
 [M+"likenamespace.go",M+"actions.go",M+"likestorage.go",R+"likestorage.go"],
 [("single worker goroutine","domain/likenamespace.go Start"),("reply channels in the action","domain/actions.go")],
 (),["calls of LikeStorage.ProcessActions","answers"])
p("C14","Stopping a namespace completes, closes its storages and keeps the data",
 "After a stop call or cancellation of its context, a running namespace terminates within bounded time whatever requests are queued or arriving. Its delta, index and like storages are each closed exactly once, never while or before a batch is being processed, and its delta and index files do not stay open even if closing meets I/O errors; with healthy I/O the delta and index files are then cleanly closed and contain every operation of every processed batch.",
 ["schedules","histories"],
 "Every schedule of clients, stop calls and cancellation around the worker.",
 "The namespace worker has no tests at all.",
 [M+"likenamespace.go"],
 [("deferred closes","domain/likenamespace.go Start"),("ctx.Done branch","domain/likenamespace.go Start")],
 (),["storage Close calls","files after termination"])
p("C15","A namespace can always be started again after a crash or a failed start",
 "Whatever a crash at any point left of a namespace's delta and index files, starting the namespace on them with healthy I/O succeeds: the delta data flushed before is all there, an index closed cleanly keeps its contents, and one not closed cleanly is reset rather than served or allowed to block the start. A start that fails because of I/O errors, however many, returns the error with every file it opened closed again, loses no flushed delta data and - unless changing the index was what failed - no cleanly closed index, and a later start without faults succeeds.",
 ["crash_points","fault_sequences","histories"],
 "Every crash point (byte granularity, across both files) of any number of incarnations, and every placement of I/O errors during start.",
 "Starting a namespace is never tested.",
 [M+"likenamespace.go",I+"storage.go",I+"storagefactory.go",D+"storagefactory.go",M+"errors.go"],
 [("recovery on start","domain/likenamespace.go openMaybeRecoverDeltaStorage"),("index reset","domain/likenamespace.go openMaybeResetIndexStorage"),("corruption error","domain/errors.go")],
 (),["Start","open handles","delta and index contents"])
p("C16","Concurrent registry operations are atomic and names stay unique",
 "Namespace create, update, delete, get and list, issued concurrently over HTTP or through the service, each take effect atomically at one instant between request and response: the responses are those of some sequential execution in which creating or renaming to a taken name fails, operating on a missing name fails, and a fetched or listed namespace shows the settings of its last successful change. A request that is invalid or was cut short is refused and changes nothing. No list ever shows a name twice, and every request is answered, also while the upload of another one stalls.",
 ["schedules","histories"],
 "Every schedule of concurrent clients at statement granularity, with delayed requests and responses.",
 "No test exercises the service or an endpoint, let alone two at once.",
 [M+"namespaceservice.go",A+"endpoints/namespaceendpoint.go",A+"dto/namespaceresponse.go",M+"likenamespace.go"],
 [("namespace list","domain/namespaceservice.go"),("routes and handlers","endpoints/namespaceendpoint.go")],
 [("namespaces","the registry","domain/namespaceservice.go")],
 ["HTTP responses","service return values"])
p("C17","Acknowledged registry changes survive a crash and restart",
 "Once a create, update or delete of a namespace has been acknowledged, a restart of the service - after a process crash at any point, also in the middle of saving another change - loads a registry that contains it: every namespace with its name, type and settings as last acknowledged. A change in flight at the crash is either wholly applied or not at all, and the registry file is always loadable. A service that cannot read an existing registry never goes on with an empty or partial one.",
 ["crash_points","histories"],
 "Every crash point, at byte granularity in any file operation, of any history of concurrent registry changes over several incarnations.",
 "Saving and loading the registry is not tested.",
 [M+"namespaceservice.go",M+"likenamespace.go","main.go"],
 [("save after each change","domain/namespaceservice.go SaveNamespaces"),("load at startup","domain/namespaceservice.go LoadNamespaces, main.go runShard")],
 [("namespaces.json","persisted registry","REC_PATH/namespaces.json")],
 ["HTTP list after restart"])
p("C18","A registry change reported as failed has no effect",
 "If saving the registry fails because of any I/O error, the create, update or delete that needed it is reported as failed, and afterwards neither the running service nor a restarted one shows any trace of it; repeating the request once I/O works again succeeds. The previously saved registry stays intact.",
 ["fault_sequences","histories"],
 "Every placement of file errors, full disk and short writes in any history of registry changes.",
 "No test makes a save fail.",
 [M+"namespaceservice.go",A+"endpoints/namespaceendpoint.go"],
 [("save and error return","domain/namespaceservice.go CreateNamespace, UpdateNamespace, DeleteNamespace")],
 (),["HTTP responses","list before and after restart"])
p("C19","The server reports start-up failures and shuts down gracefully in bounded time",
 "Running the application returns an error promptly, without waiting for a signal, if the server cannot listen or stops listening because of an error. After it has started handling signals, one SIGINT or SIGTERM at any instant makes it stop accepting requests and return within the five-second grace period, successfully if every request in flight finished by then - each of those gets its complete response - and with an error otherwise. It does not return for any other reason.",
 ["schedules","fault_sequences"],
 "Every instant of signals and listen failures relative to start-up, requests in flight and each other, with slow requests.",
 "The application is never run in a test.",
 [A+"application.go","main.go"],
 [("signal handling and shutdown","shard/application.go Run"),("listener goroutine","shard/application.go Run")],
 (),["return of Application.Run","responses"])
p("C20","Profile likes and dislikes stay sorted, duplicate-free and disjoint",
 "After any sequence of like, unlike, dislike, undislike and remove calls a profile's likes and dislikes are sorted, have no duplicates and do not intersect, and an item's state is the one set last.",
 ["inputs","histories"],"Every sequence of profile operations over any item ids.",
 "The tests use two item ids.",
 [M+"profile.go","internal/helpers/arrays.go"],[("ordered arrays","helpers/arrays.go PutSavingOrder, RemoveSavingOrder")])
p("C21","Profile similarity is a number in [0,100] and symmetric",
 "The similarity of two profiles is always a number from 0 to 100, equal in both directions, and 100 for identical profiles with an item that counts (dislikes do not if the factor is 0).",
 ["inputs"],"Every pair of profiles and dislike factor in [0,1].",
 "The tests compute five pairs, none empty, all with factor 1.",
 [M+"profile.go"],[("weighted Jaccard","domain/profile.go ComputeSimilarity")])
p("C22","Only complete requests with valid names, types and settings have an effect",
 "A create or update request takes effect only if it arrived completely, its name is lowercase alphanumeric starting with a letter, its type is known, its dislike factor is above 0 and at most 1 and its limit of similar profiles is left out or a whole number that is not negative; such a request is never refused for its values or for its content type, and after it is accepted the service can always be restarted with it. Any other - with invalid or missing fields, of the wrong kind, cut short in its JSON text or by a connection that breaks at any byte of it - is answered with a client error and changes neither the running service nor the stored registry, whatever other requests are under way. If the text is well formed and the values are of the right kinds, the answer to a create request names wrong fields and no right ones.",
 ["inputs","schedules","fault_sequences"],"Every request body, every byte at which it can be cut, and every interleaving with other requests.",
 "Request handling is not tested.",
 [M+"valueobjects/namespacename.go",M+"valueobjects/namespacetype.go",A+"dto/namespacecreaterequest.go",A+"dto/namespaceupdaterequest.go",A+"dto/validationerror.go",A+"endpoints/helpers.go",A+"endpoints/namespaceendpoint.go"],
 [("binding tags and parsers","dto, valueobjects"),("validation answers","endpoints/helpers.go")],
 [],["HTTP answers","namespaces.json","list after restart"])
p("C23","The shard runs on its environment and .env file, or not at all",
 "The shard listens on the host (a name, an IPv4 or an IPv6 address) and port and keeps its registry in the path that its environment gives, completed but never overridden by the .env file; a host that is missing or empty and a port that is missing, negative or not a number are replaced by the given or built-in defaults. This holds at every start, also after restarts with other settings and whatever configurations were made before in the process. If the .env file cannot be read completely or is malformed the process ends with an error before it listens or touches a registry.",
 ["configurations","fault_sequences","crash_points"],"Every environment and .env file, every read error and crash while starting, over any number of restarts.",
 "Configuration and main are not tested.",
 [A+"config.go","main.go",M+"namespaceservice.go",A+"application.go"],[("NewConfigFromEnv","shard/config.go"),("loading of .env","main.go"),("REC_PATH","domain/namespaceservice.go NewNamespaceService")],
 [],["listening address","namespaces.json","exit status"])
p("C24","Storages and namespaces of one process never affect each other",
 "Storages on different files used at the same time by different goroutines of one process - sharing the storage factories and protocol objects, as the namespaces of a service do - behave exactly as if each were used alone: no operation, entry, record, count or byte of one ever shows up in or is lost from another, under any interleaving, also when the process crashes and each is recovered. Stopping one namespace neither stops, delays nor fails the requests of another, and neither does a namespace whose storage is slow or fails.",
 ["schedules","crash_points"],
 "Every interleaving, at statement granularity, of sessions on any number of delta, index and database files, and of the workers and clients of several namespaces.",
 "The tests use one storage at a time, from one goroutine.",
 [D+"protocol.go",D+"storage.go",D+"storagefactory.go",I+"protocol.go",I+"storage.go",R+"protocol.go",R+"likeprotocol.go",R+"iterator.go",M+"likenamespace.go",M+"namespaceservice.go"],
 [("protocol objects without state","delta/protocol.go, index/protocol.go, recdb/protocol.go, recdb/likeprotocol.go"),("one factory for all namespaces","domain/namespaceservice.go forgeNamespace, main.go")],
 [("deltaStorageFactory, indexStorageFactory","shared by all namespaces","domain/namespaceservice.go")],
 ["storage contents","file bytes"])
p("C25","Finished work leaves no goroutines, open files or stray files behind",
 "However long one process runs, whatever mix of registry changes (successful, failing on I/O, invalid, cut short or given up by the client), of namespaces that fail to start, start, serve, are stopped or cancelled, of storages that open, fail to open, are recovered and closed, and of runs of the application it has been through, at rest it has only the goroutines and open files that what is still running needs. The number of goroutines, of open files and of files beside the registry and the storages does not grow with the amount of work done, so the process never runs out of descriptors or disk space by working.",
 ["schedules","fault_sequences","histories"],
 "Every history of such work in one process, every interleaving, every failing file operation except in closing a storage, lost messages and clients that disconnect at any instant.",
 "A test does little of one kind of work and never looks at what is left; a leak needs the failure of a particular operation or a client that goes away, again and again.",
 [M+"namespaceservice.go",M+"likenamespace.go","internal/api/shard/application.go","internal/api/shard/endpoints/namespaceendpoint.go",D+"storagefactory.go",I+"storagefactory.go",I+"storage.go"],
 [("storages closed by the worker and on a failed start","domain/likenamespace.go Start"),("closing on a failed open","index/storagefactory.go Open, delta/storagefactory.go OpenMaybeRecover"),("answer and listen error channels with room for one","domain/likenamespace.go, shard/application.go"),("one name for the temporary file","domain/namespaceservice.go saveNamespaces")],
 [],["open descriptors","goroutines","directory listing"])
p("C26","The service runs its namespaces until exactly they are deleted or it ends",
 "Starting the service starts every registered namespace, and one that fails to start keeps no other from running and leaves nothing open. From then on each started namespace serves its requests without being held up until its deletion succeeds or the context of the service ends, however long that is and whatever else happens: renames, updates and deletions that are refused or fail on an I/O error - also its own -, and other namespaces that are created, fail, are slow or are deleted. A deletion that succeeded, and the end of the context, stop the namespaces concerned within bounded time, with their storages closed once and the data of every processed batch in their files, which are in the directory of the registry.",
 ["schedules","fault_sequences","histories"],
 "Every history of changes to the registry and of requests to its running namespaces, every interleaving, I/O error in saving the registry, failure to start, instant of the end of the context and restart.",
 "Nothing tests the namespace service or runs a namespace.",
 [M+"namespaceservice.go",M+"likenamespace.go",D+"storagefactory.go",I+"storagefactory.go","main.go"],
 [("starting all, going on after failures","domain/namespaceservice.go Start"),("stopping after the change is saved","domain/namespaceservice.go DeleteNamespace"),("undoing a change that cannot be saved","domain/namespaceservice.go UpdateNamespace"),("worker and stop","domain/likenamespace.go Start, Stop, Rename")],
 [],["answers","storage files","open descriptors"])
p("C27","No data races: what goroutines share is accessed under synchronisation",
 "In every execution of the shard - clients changing, reading and deleting namespaces over HTTP and through the service, the namespaces of the service being started, serving requests, stopped and deleted meanwhile, storages in use side by side, signals and shutdown - any two accesses of different goroutines to the same variable, field, element or map, at least one of them a write, are ordered by synchronisation in the sense of the Go memory model. Values handed out by one goroutine's call (listed namespaces, profiles, errors) can be read by the caller without racing with later changes.",
 ["schedules","histories","fault_sequences"],
 "Every interleaving of requests, worker goroutines, starts, stops and shutdown, every I/O error on the way.",
 "The tests are single-threaded, and the race detector of Go sees only the accesses that happened to be unordered in the one schedule it watched.",
 [M+"namespaceservice.go",M+"likenamespace.go","internal/api/shard/application.go","internal/api/shard/endpoints/namespaceendpoint.go",D+"storagefactory.go",I+"storagefactory.go"],
 [("the lock of the registry","domain/namespaceservice.go namespacesMutex"),("the locks of a namespace","domain/likenamespace.go settingsMutex"),("channels between a namespace and its worker","domain/likenamespace.go"),("shared factories and protocol objects without state","internal/infra"),("channels and wait groups of the application","shard/application.go, main.go")],
 [("application and factories","used by all request handlers","main.go")],
 ["happens-before of accesses"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
