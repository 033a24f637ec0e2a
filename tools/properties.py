prop("U01", "DagModifier behaves as a byte array with a position",
 "For every file and every sequence of reads, writes, positioned writes, seeks, truncations and syncs, a modifier returns the bytes, counts, offsets and sizes that a plain byte array with one position would, and the node it finally returns is a stored file with exactly that content and truthful sizes; buffers it is given to write are neither changed nor kept.",
 ["inputs", "histories", "configurations", "schedules"],
 "every starting file (any layout, fanout, chunk size, leaf format, sharing of blocks), every sequence of operations and offsets, every order in which blocks arrive",
 "Tests run a dozen fixed sequences on a few file shapes; the interactions of pending writes, open readers, offsets and tree shapes are unbounded.",
 ["mod/dagmodifier.go", "importer/trickle/trickledag.go", "io/dagreader.go"],
 [("pending write buffer and its flush", "mod/dagmodifier.go Sync/modifyDag/appendData"), ("truncate and sparse expansion", "mod/dagmodifier.go Truncate/expandSparse")],
 ["results of each call on mod.DagModifier", "the DAG below GetNode()"],
 state=[("wrBuf, writeStart, curWrOff", "pending write and its place", "mod/dagmodifier.go"), ("read", "reader open at the current position", "mod/dagmodifier.go")],
 note="Oracle: a byte slice with a position.")
prop("U02", "DagModifier operations are all-or-nothing under storage faults",
 "When a storage operation fails during a modifier operation, that operation reports an error, no data that was written before is lost or altered, later operations behave as if the failed one did not happen (or, for data accepted into the pending write, as if it is still pending), and once the faults stop everything can be flushed and read back.",
 ["fault_sequences", "histories", "inputs", "schedules"],
 "every operation sequence and every placement of failing, lost-acknowledgement or slow block writes and failing block fetches in it",
 "No test injects a single storage failure into a modifier.",
 ["mod/dagmodifier.go", "importer/trickle/trickledag.go"],
 [("error returns of Sync and Truncate", "mod/dagmodifier.go"), ("copy before modification", "mod/dagmodifier.go modifyDag/dagTruncate")],
 ["results of each call on mod.DagModifier", "the DAG below GetNode()"],
 note="Oracle: the byte-array model, with the pending write allowed to be partly flushed.")
prop("U03", "A crash never loses or tears what was completed",
 "Whenever the process dies during imports, appends, edits or directory changes, every node whose root some completed operation reported is still there with everything below it and its exact content, no stored node refers to a block that was not stored before it, and a new process can read it, repeat the interrupted operation and get the result an undisturbed one gives.",
 ["crash_points", "histories", "schedules", "fault_sequences"],
 "every sequence of operations by one to three clients, every point between two block writes (or in the middle of a batch or of one write) at which the process dies",
 "No test restarts anything; what is durable at a crash point is never looked at.",
 ["importer/helpers/dagbuilder.go", "importer/trickle/trickledag.go", "importer/balanced/builder.go", "mod/dagmodifier.go", "hamt/hamt.go", "io/directory.go"],
 [("children are stored before their parents", "importer/helpers/dagbuilder.go AddChild, mod/dagmodifier.go modifyDag, hamt/hamt.go Node")],
 ["blocks in the store at each write and after each crash", "results after the restart"],
 note="Oracle: per-root content recorded when the operation completed; dangling references are looked for at every block write.")
prop("U04", "Importing stores exactly the input, in exactly the layout asked for",
 "Importing any stream yields a root below which every block is stored and whose content is exactly the stream's bytes, in chunk order, in the balanced or trickle layout with the requested fanout, leaf format, CID format and truthful sizes; the result depends only on the input and parameters, not on timing; an input with a chunk above the block size limit is refused. Unless told otherwise nodes have up to 174 links and blocks up to 1 MiB.",
 ["inputs", "configurations", "schedules"],
 "every input length and content, chunking, fanout, layout, leaf and CID format, and every pattern in which the stream delivers its bytes",
 "Tests import a few sizes with one fanout and read the result back.",
 ["importer/importer.go", "importer/balanced/builder.go", "importer/trickle/trickledag.go", "importer/helpers/dagbuilder.go"],
 [("layouts", "importer/balanced/builder.go Layout, importer/trickle/trickledag.go Layout"), ("chunk look-ahead", "importer/helpers/dagbuilder.go prepareNext")],
 ["root returned", "blocks stored"],
 note="Oracle: an independent decoder of the stored blocks and an independent statement of both layouts.")
prop("U05", "A failing store or input never yields a successful import",
 "If a block write fails or the input stream fails (also together with its last bytes), the import returns an error; if it returns a root, everything below it is stored and equals the input; and repeating a failed import without faults gives the root an undisturbed import gives.",
 ["fault_sequences", "inputs", "schedules"],
 "every import and every placement of write and input failures in it",
 "Tests have no failing store, and one failing reader.",
 ["importer/helpers/dagbuilder.go", "importer/balanced/builder.go", "importer/trickle/trickledag.go"],
 [("error propagation", "importer/helpers/dagbuilder.go prepareNext/AddChild/Add")],
 ["result of the import", "blocks stored"])
prop("U06", "DagReader is an exact view of the file: reads, seeks and copies",
 "Every read, seek and copy of a file returns exactly the bytes, counts, positions and end-of-file conditions that a reader over the plain bytes would, for any layout, independent of the order and delays in which blocks arrive and of other readers of the same file; it writes only to the buffer of the read in progress.",
 ["inputs", "histories", "schedules", "configurations"],
 "every file layout, every sequence of reads, seeks (also beyond the end) and copies by several concurrent readers, every arrival order of blocks",
 "Tests seek in a handful of balanced files read from an instantaneous in-memory store.",
 ["io/dagreader.go", "unixfs.go"],
 [("walker based reading and seeking", "io/dagreader.go CtxReadFull/Seek/WriteTo"), ("child sizes", "unixfs.go FSNode.BlockSize")],
 ["results of each call on io.DagReader"],
 note="Oracle: bytes.Reader over the content.")
prop("U07", "DagReader stays correct under fetch faults, cancellation and failing writers",
 "When a fetch fails, a context ends, or the destination of a copy fails or takes too few bytes, the call returns an error with a truthful count, no wrong, missing or repeated byte is ever returned by it or any later call, the position stays consistent with the bytes accepted, and after faults stop a reader can read on.",
 ["fault_sequences", "histories", "schedules"],
 "every file, sequence of calls, and placement of failing, missing, delayed or cancelled fetches and failing writers",
 "One test cancels a context; nothing tests reading on after a failure.",
 ["io/dagreader.go"],
 [("walker state on errors", "io/dagreader.go"), ("offset accounting", "io/dagreader.go writeNodeDataBuffer/WriteTo")],
 ["results of each call on io.DagReader"],
 note="A stale failure may be repeated a bounded number of times after faults stop.")
prop("U08", "A directory is a map from names to nodes, however it is represented",
 "For every sequence of additions, replacements, removals, lookups and listings, in plain, sharded or switching directories, also after storing and loading again, the results are those of a map from names to nodes: the last node added under a name is found, removed names are reported as not existing, and listings contain each entry once.",
 ["inputs", "histories", "configurations", "schedules"],
 "every set of names (including hash-prefix collisions and awkward names), every operation sequence, every width, threshold and stored or in-memory state",
 "Tests use a few hundred sequential names; colliding prefixes, reloads half-way and switches there and back in one history are not sampled.",
 ["io/directory.go", "hamt/hamt.go", "hamt/util.go"],
 [("plain directory", "io/directory.go BasicDirectory"), ("HAMT", "hamt/hamt.go Set/Remove/Find/swapValue"), ("switching", "io/directory.go DynamicDirectory")],
 ["results of each call on io.Directory", "stored nodes"],
 state=[("sizeChange, estimatedSize", "size bookkeeping that decides the representation", "io/directory.go")],
 note="Oracle: a Go map; stored form decoded independently.")
prop("U09", "Directory operations are all-or-nothing under faults",
 "When a fetch or write fails or a context ends during a directory operation, it reports an error and the directory afterwards contains exactly the entries from before it or exactly those from after it; a listing is either complete or ends in an error; no operation succeeds although the store refused one of its writes; and after faults stop all operations work again.",
 ["fault_sequences", "histories", "schedules"],
 "every operation sequence and every placement of failing fetches, failing writes and cancellations",
 "Tests have no failing store under a directory, and one timing-dependent cancellation test.",
 ["io/directory.go", "hamt/hamt.go"],
 [("error paths of HAMT updates", "hamt/hamt.go swapValue"), ("switch by enumeration", "io/directory.go switchToSharding/switchToBasic")],
 ["results of each call on io.Directory"],
 note="Oracle: a map, before or after the failed operation.")
prop("U10", "A sharded directory's root depends only on its entries",
 "Two sharded directories of the same width with the same entries have the same root, whatever the history of additions, removals, stores and loads that led there, and the stored tree is canonical: no empty or needlessly deep shards, every entry at its hash's position.",
 ["histories", "inputs", "configurations"],
 "every pair of histories leading to the same set of entries, every width",
 "Tests compare one or two histories; removal that collapses shards loaded from the store is sampled at best once.",
 ["hamt/hamt.go", "hamt/util.go", "io/directory.go"],
 [("collapse on removal", "hamt/hamt.go swapValue"), ("position by hash", "hamt/util.go hashBits")],
 ["CID of GetNode()", "stored shards"],
 note="Oracle: independent HAMT decoder and murmur3 position computation.")
prop("U11", "The representation switches at the size threshold, and only there",
 "With switching enabled, a directory is stored plain exactly when its size (names plus CIDs) is below the threshold (256 KiB unless set) at the last change and sharded otherwise, without losing, duplicating or changing entries, also when fetching the shards to decide fails or is interrupted.",
 ["histories", "configurations", "fault_sequences", "schedules"],
 "every history that crosses the threshold in either direction any number of times, with shards loaded or not, and interruptions during the evaluation",
 "Tests cross the threshold a few times with equal-sized entries.",
 ["io/directory.go"],
 [("size bookkeeping", "io/directory.go addToEstimatedSize/updateEstimatedSize/addToSizeChange"), ("evaluation", "io/directory.go needsToSwitchToBasicDir/sizeBelowThreshold")],
 ["representation of the node returned by GetNode()"])
prop("U12", "Enumerating a directory yields every entry exactly once, or an error",
 "Every way of listing a directory yields each entry exactly once with its right node and then ends without error, or reports an error after a subset of them; never does it end without error on a partial list, whatever the consumers' speed, the arrival order of blocks, or what is already in memory.",
 ["schedules", "inputs", "fault_sequences", "histories"],
 "every directory, interleaving of the parallel walk and its consumers, arrival order of blocks and placement of fetch failures",
 "Tests enumerate with an instantaneous store and one consumer under whatever schedule happens.",
 ["hamt/hamt.go", "io/directory.go"],
 [("parallel walk", "hamt/hamt.go walkTrie/parallelShardWalk/EnumLinksAsync"), ("channel of results", "io/directory.go EnumLinksAsync")],
 ["results of ForEachLink, EnumLinks, EnumLinksAsync, Links"])
prop("U13", "Enumeration always ends, and leaves nothing running behind",
 "Every enumeration ends after its context ends or its consumer leaves, within a bounded number of steps and even if fetches never answer, closes its channel, and leaves no goroutine of its own behind.",
 ["schedules", "fault_sequences"],
 "every point at which the context ends or the consumer leaves, and any pattern of failing or stalled fetches",
 "Tests cancel at one moment and look at results only.",
 ["hamt/hamt.go", "io/directory.go"],
 [("context handling of the walk", "hamt/hamt.go EnumLinksAsync/parallelShardWalk/emitResult")],
 ["termination of the call", "closing of the channel", "live goroutines"])
prop("U14", "Lookups find what is there, and deny only what is not",
 "Resolving any path finds exactly the node stored there, or reports that it does not exist exactly when it does not; a failed fetch or ended context is reported as such and never as absence, also with several concurrent clients of one directory node.",
 ["inputs", "schedules", "fault_sequences"],
 "every tree of plain and sharded directories, every path, every interleaving of clients and placement of fetch failures",
 "One test resolves a few names in one sharded directory.",
 ["io/resolve.go", "io/directory.go", "hamt/hamt.go"],
 [("one step of resolution", "io/resolve.go ResolveUnixfsOnce"), ("lookup", "hamt/hamt.go Find/getValue")],
 ["results of ResolveUnixfsOnce and Directory.Find"])
prop("U15", "The files.Node view shows exactly the stored tree",
 "Walking any stored tree through the generic file interface yields exactly its directories, names, symbolic links, file contents and sizes, or an error; never a partial directory or truncated file without an error; and abandoning it leaves nothing running.",
 ["inputs", "schedules", "fault_sequences"],
 "every tree, every interleaving of concurrent walks, any placement of failed or stalled fetches and cancellations",
 "One test opens a tiny file.",
 ["file/unixfile.go", "io/directory.go", "io/dagreader.go", "unixfs.go"],
 [("prefetching directory iterator", "file/unixfile.go Entries/Next/setupIterator"), ("sizes", "file/unixfile.go Size")],
 ["results of files.Node, files.Directory and files.File calls"])
prop("U16", "Malformed or hostile blocks are rejected, never a crash or a hang",
 "Whatever the stored blocks contain - wrong types, sizes, counts, bitfields, fanouts, link names, garbage - every operation that meets them returns an error or some value within bounded work; no goroutine panics, nothing runs endlessly, nothing is left running.",
 ["inputs", "histories", "schedules"],
 "every damage to the blocks of any tree, every use of the result through every package",
 "Tests contain two malformed nodes; blocks come from untrusted peers, and the parallel walk decodes them in goroutines whose panic ends the process.",
 ["hamt/hamt.go", "mod/dagmodifier.go", "importer/helpers/dagbuilder.go", "importer/trickle/trickledag.go", "io/dagreader.go", "io/directory.go", "file/unixfile.go", "unixfs.go"],
 [("validation when loading a shard", "hamt/hamt.go NewHamtFromDag/makeChilder/childLinkType"), ("width limit", "hamt/hamt.go newChilder"), ("decoding of file nodes", "unixfs.go FSNodeFromBytes/ReadUnixFSNodeData")],
 ["panics", "termination", "live goroutines"],
 note="Damage that already makes go-merkledag's own decoder or encoder panic is left out.")
prop("U17", "Editing never changes what others hold",
 "Nodes are immutable to everybody but their maker: editing through a modifier or directory never changes the node it was opened on, nodes it returned earlier, nodes given to it as entries, or listings it returned; what was held still shows, byte for byte, what it showed, also to readers already open on it and to other editors of the same node working at the same time.",
 ["histories", "schedules", "inputs", "fault_sequences"],
 "every file and directory, every sequence of edits by several clients that were handed the same node object, every interleaving of them with readers of it, and every placement of faults",
 "Tests use one client per node and never look at the node they started from again.",
 ["mod/dagmodifier.go", "io/directory.go", "hamt/hamt.go", "importer/trickle/trickledag.go"],
 [("copies taken on the way in and out", "mod/dagmodifier.go NewDagModifier/GetNode, io/directory.go NewDirectoryFromNode"), ("links taken over from the caller", "hamt/hamt.go SetLink")],
 ["the nodes and links held by callers, before and after", "what they show when opened again"],
 note="A plain directory's GetNode and Links give out the directory's own node and are not covered (documented upstream behaviour); trickle.Append works on the node given to it and is not either.")
prop("U18", "Concurrent use that shares only nodes and a store is free of data races",
 "Readers, modifiers, directories and walks that were opened separately - on the same node objects and the same DAG service - and concurrent enumerations of one sharded directory can be used from different goroutines at once, and the goroutines the library starts itself (parallel walks, prefetching iterators, cancellations) share no memory without synchronisation, on any path including cancellation and failure.",
 ["schedules", "fault_sequences", "histories"],
 "every concurrent use of separately opened objects, every path through the library's own goroutines including failures and cancellations",
 "Tests rarely run under the race detector, hardly any uses the library concurrently, and none on failure paths.",
 ["hamt/hamt.go", "file/unixfile.go", "io/directory.go", "io/dagreader.go", "mod/dagmodifier.go"],
 [("the walk's shared state", "hamt/hamt.go parallelShardWalk/EnumLinks"), ("iterator and its prefetching goroutine", "file/unixfile.go Entries/Next"), ("objects opened on one node", "mod/dagmodifier.go NewDagModifier, io/directory.go NewDirectoryFromNode, io/dagreader.go NewDagReader")],
 ["memory accesses of the race-detector build"],
 note="Oracle: the Go race detector's happens-before analysis, run on simulated interleavings (the simulator itself adds no ordering). Several clients using one directory object other than to enumerate it are not covered.")
prop("U19", "Whoever cancels gets control back, even from a store that never answers",
 "Every operation that takes a context returns after that context has ended, even if the store never answers a fetch again: operations that only read do so promptly; afterwards nothing of them is left running, an end of the context is never passed off as a complete result, and other operations with live contexts are not disturbed.",
 ["schedules", "fault_sequences", "histories"],
 "every operation of every package, every moment at which its context ends, every fetch from which on the store is silent",
 "Tests cancel two operations at one moment, on a store that always answers at once.",
 ["io/dagreader.go", "io/directory.go", "io/resolve.go", "hamt/hamt.go", "mod/dagmodifier.go", "file/unixfile.go", "importer/trickle/trickledag.go"],
 [("contexts handed down to each fetch", "io/dagreader.go, hamt/hamt.go loadChild/walkTrie, io/directory.go sizeBelowThreshold"), ("contexts kept in objects", "mod/dagmodifier.go ctx, file/unixfile.go ctx, io/dagreader.go ctx")],
 ["return of each call in virtual time", "its error", "live goroutines"],
 note="Writes: the importer and hamt.Node put blocks with context.TODO by design; the store answers puts.")
prop("U20", "Appending to a trickle file keeps the content and the layout",
 "Appending any data, any number of times, to any trickle file yields a file whose content is the old content followed by the new data and which still satisfies the trickle layout for its fanout; a failed append reports an error and leaves the old file intact.",
 ["inputs", "histories", "configurations", "fault_sequences"],
 "every file size, sequence of appends, fanout and leaf format, and placement of faults",
 "Tests append to a few files with one fanout, none with a failure.",
 ["importer/trickle/trickledag.go", "importer/helpers/dagbuilder.go"],
 [("finding the place to continue", "importer/trickle/trickledag.go trickleDepthInfo/appendFillLastChild/appendRec")],
 ["content and shape of the stored result"],
 note="Oracle: content model, an independent shape checker and the package's own VerifyTrickleDagStructure.")
prop("U21", "Every recorded and reported size is the truth",
 "After any history of imports, appends, edits and directory changes, every link records the cumulative size of what it leads to, every file node the number of bytes below each child and in total, and every interface that reports a size (node, reader, seek to the end, modifier, files.Node, DataSize, metadata) reports that truth; an FSNode's file size is at all times its own data plus its children, also after being stored and loaded.",
 ["histories", "inputs", "configurations", "crash_points"],
 "every history of operations by several clients, with crashes in it, and every result of each of them; every sequence of edits of an FSNode",
 "Tests compare the size of a few imported files with their content, none looks at link sizes after edits.",
 ["unixfs.go", "mod/dagmodifier.go", "importer/helpers/dagbuilder.go", "importer/trickle/trickledag.go", "hamt/hamt.go", "io/directory.go", "file/unixfile.go"],
 [("block sizes of file nodes", "unixfs.go FSNode.AddBlockSize/UpdateFilesize/RemoveBlockSize"), ("cumulative link sizes", "hamt/hamt.go Node, mod/dagmodifier.go modifyDag/dagTruncate, importer/helpers/dagbuilder.go AddChild"), ("reported sizes", "unixfs.go DataSize, file/unixfile.go Size, io/dagreader.go Size")],
 ["sizes recorded in the stored blocks", "sizes reported by each interface"],
 note="Oracle: the decoder of the stored blocks, which adds up what is there.")
prop("U22", "The CID and leaf formats asked for are used, and kept by every edit",
 "Every node of a file or directory made with a CID format (version, hash function, digest length) has that format, with raw blocks as leaves exactly if they were asked for; appending to it, editing it through a modifier, or changing it through a directory - including the change between the plain and the sharded form and the splitting and merging of shards - keeps the format of every node it writes.",
 ["configurations", "histories", "inputs", "fault_sequences"],
 "every CID format and leaf format, every history of imports, appends, edits and directory changes by several clients, with failures in it, and every node of each result",
 "Tests check the format of roots, of some leaves, and hardly after edits; a node in another format is still readable, so nothing else notices it.",
 ["hamt/hamt.go", "io/directory.go", "mod/dagmodifier.go", "importer/helpers/dagbuilder.go", "importer/trickle/trickledag.go"],
 [("builder handed down to sub-shards", "hamt/hamt.go SetCidBuilder/loadChild/modifyValue"), ("builder handed over on a change of form", "io/directory.go switchToSharding/switchToBasic"), ("prefix kept by edits", "mod/dagmodifier.go modifyDag/dagTruncate/appendData")],
 ["CIDs and block types of all nodes reachable from each result"],
 note="Oracle: a walk over the stored blocks that compares each CID with the format asked for.")
prop("U23", "Operations fetch and write only the blocks they need",
 "Opening an object fetches nothing; a read or seek asks only for the nodes that hold the bytes wanted (and a bounded few siblings ahead); an overwrite, append, growth or truncation asks only for the path to what it changes and writes only the nodes that are affected; looking up, adding or removing an entry of a sharded directory asks only for the shards on that name's path; storing a changed directory writes only shards on paths that were touched; listing asks for each shard once and never for the entries' own blocks.",
 ["inputs", "histories", "configurations", "schedules", "fault_sequences"],
 "every layout, fanout and file length, every history of reads, seeks, edits and directory changes, every order in which blocks arrive, with failures among them",
 "The result is the same whether one block or all of them were fetched, so no test that looks at results can tell; on a real network, and on a store that lacks the rest of a file, it is the difference between working and not.",
 ["io/dagreader.go", "mod/dagmodifier.go", "importer/trickle/trickledag.go", "hamt/hamt.go", "io/directory.go", "io/resolve.go", "file/unixfile.go"],
 [("seeking skips whole subtrees by their recorded sizes", "io/dagreader.go Seek, mod/dagmodifier.go modifyDag/dagTruncate"), ("shards are loaded along one path", "hamt/hamt.go getValue/swapValue/loadChild"), ("the size check is only made where the size may have shrunk", "io/directory.go needsToSwitchToBasicDir"), ("walks stop at shards", "hamt/hamt.go walkTrie, file/unixfile.go Entries")],
 ["blocks asked for of the store", "blocks written to it"],
 note="Oracle: the set of nodes that hold what each operation is about, computed from the stored blocks. Not bounded: the shards fetched by the size check while it is needed.")
prop("U24", "Every stored node is, byte for byte, the format's one encoding",
 "The bytes of every node, and so its CID, follow from the format and the content alone: an import gives the root that a reference encoder gives for that input, layout, fanout, leaf format and CID format; a directory of a given form and width gives the root that follows from its entries, however it came about; every node that an append or edit writes is the canonical encoding of what it says; the constructors of the format package give the documented messages.",
 ["inputs", "configurations", "histories", "schedules", "fault_sequences"],
 "every input and parameter, every history of appends, edits and directory changes, with failures among them, and every node of each result",
 "Tests pin the CIDs of a handful of inputs; a node in another encoding reads back the same, so nothing else notices that the same content no longer has the same address.",
 ["unixfs.go", "importer/balanced/builder.go", "importer/trickle/trickledag.go", "importer/helpers/dagbuilder.go", "hamt/hamt.go", "hamt/util.go", "io/directory.go", "mod/dagmodifier.go"],
 [("fields present and their order", "unixfs.go NewFSNode/FilePBData/FolderPBData/HAMTShardData"), ("leaf and interior types of the layouts", "importer/balanced/builder.go, importer/helpers/dagbuilder.go FillNodeLayer"), ("slot names, bit fields and hashing", "hamt/hamt.go Node/linkNamePrefix, hamt/util.go")],
 ["bytes and CIDs of stored nodes"],
 note="Oracle: hand-written encoders of dag-pb and UnixFS, an independent statement of both layouts and of the sharded form. Which leaves an appended subtree holds is left to U20.")
prop("U25", "The trickle verifier passes exactly the trees that keep the layout",
 "VerifyTrickleDagStructure reports no error exactly if it saw the whole tree and every node of it is where and what the layout, its parameters (direct children, repetitions, leaf format, CID prefix) and the format allow: direct children are leaves of the right kind without links, the others are file nodes without data of their own and shallower than their place allows; a tree it could not fetch completely never passes.",
 ["inputs", "configurations", "schedules", "fault_sequences"],
 "every tree, every single node of it that is wrong, every parameter, every failing fetch",
 "Tests only run it on trees that are right; whether it rejects anything is never tested, though every other test of the layout relies on it.",
 ["importer/trickle/trickledag.go"],
 [("recursion over depth and position", "importer/trickle/trickledag.go verifyTDagRec")],
 ["the error of VerifyTrickleDagStructure"],
 note="Oracle: trees are made well-formed and then spoiled in one known node.")
prop("U26", "A failed operation says what went wrong",
 "Whenever an operation (on files, directories, views or imports) fails because the store, the input, a writer or a context failed, the error it returns is that failure's own error or wraps it (errors.Is), so that a caller can tell a missing block from a cancellation, a timeout or a broken store; no failure surfaces under another name, or under that of something that did not happen.",
 ["inputs", "schedules", "fault_sequences"],
 "every operation, every place at which a fetch, a write, the input, a writer or a context fails",
 "Tests have hardly any failing store, and none looks at which error comes back, through the fetching goroutines, channels and retries in between.",
 ["hamt/hamt.go", "io/directory.go", "io/dagreader.go", "io/resolve.go", "mod/dagmodifier.go", "file/unixfile.go", "importer"],
 [("errors cross goroutines here", "hamt/hamt.go parallelShardWalk, EnumLinksAsync; file/unixfile.go ufsIterator")],
 ["error values of all operations"],
 note="Oracle: the error values the simulated store, input, writer and contexts have given so far in the run. Runs over a store that hands its own errors through (merkledag's own service puts others in their place).")
prop("U27", "Each entry point takes what it is for and refuses the rest by name",
 "Files, raw blocks and metadata of a file can be read (NewDagReader, NewUnixfsFile) with exactly their content and size; directories are refused with ErrIsDir, symlinks with ErrCantReadSymlinks, unknown types with ErrUnrecognizedType, foreign nodes with ErrUnkownNodeType. NewDirectoryFromNode takes plain and sharded directories, each as its kind, and refuses the rest with ErrNotADir; NewHamtFromDag takes shards only; NewDagModifier refuses foreign nodes with ErrNotUnixfs. NewUnixfsFile shows files as files, both kinds of directory as directories and symlinks as symlinks with their target, and an iteration over entries that cannot be shown ends with an error. ResolveUnixfsOnce follows named links of nodes that are not UnixFS at all. The format functions (ReadUnixFSNodeData, ExtractFSNode, IsDir, DataSize, MetadataFromBytes) agree.",
 ["inputs", "schedules", "fault_sequences"],
 "every sort of node, also inside directories and below metadata, at every entry point, with every failing fetch",
 "Tests try a few matching pairs; what happens with the other pairs, several levels down, is decided by type switches in six files that have to agree.",
 ["io/dagreader.go", "io/directory.go", "io/resolve.go", "file/unixfile.go", "hamt/hamt.go", "mod/dagmodifier.go", "unixfs.go"],
 [("the type switches", "NewDagReader, NewDirectoryFromNode, NewUnixfsFile, NewHamtFromDag, NewDagModifier, ResolveUnixfsOnce, ReadUnixFSNodeData, size")],
 ["results and errors of these functions"],
 note="Oracle: a table of what each sort of node amounts to, and the documented error values.")
prop("U28", "A late block delays only what needs it; blocks are fetched side by side",
 "While some blocks of a file or sharded directory do not arrive, everything that does not lie beneath them is delivered: an asynchronous enumeration shows every entry whose shards have arrived, reads and copies deliver every byte before the first missing block, ranges and lookups that avoid the missing blocks finish; once they arrive, everything finishes with the right result. With every fetch taking the same time, reading a file from end to end and enumerating a sharded directory take far less than the sum of their fetches: time grows with depth and a fraction of the number of blocks.",
 ["inputs", "configurations", "schedules", "fault_sequences"],
 "every shape of file and directory, every choice of missing blocks, every order in which the others arrive, every schedule of the fetching goroutines",
 "With a store in memory nothing is ever late, and fetching one by one gives the same result; on a network it is the difference between seconds and hours, and between a listing and none.",
 ["hamt/hamt.go", "io/dagreader.go", "io/directory.go", "io/resolve.go", "mod/dagmodifier.go", "file/unixfile.go"],
 [("shards are fetched and handled as they come", "hamt/hamt.go parallelShardWalk, EnumLinksAsync"), ("one walker per reader, which fetches ahead", "io/dagreader.go CtxReadFull/WriteTo/Seek")],
 ["results delivered while blocks are missing", "virtual time of whole operations"],
 note="Oracle: which bytes and entries lie beneath the missing blocks, from the stored blocks; a bound on the number of rounds of fetches, from the shape. Time passes only when nothing can go on.")
