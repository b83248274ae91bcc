#!/usr/bin/env python3
"""Writes properties.jsonl (the list lives here so that it stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

NOSRC = "No existing test runs any code in src/; none has a btrfs filesystem. "

prop("C01", "User files are never altered by deduplication",
 "Whatever the filesystem holds and whatever users write while the daemon runs, the content, size, attributes and timestamps of every file visible to users are exactly what the users made them. The only modification the daemon ever requests on a user's file is a kernel-verified deduplication of block ranges; every write, truncate, hole, allocation or attribute change it makes goes to its own unlinked temporary files or its own state directory. Files are opened without updating access times, following symlinks, or blocking.",
 ["inputs", "schedules", "histories", "fault_sequences"],
 "all filesystem images (shared, compressed, inline, preallocated, sparse, unaligned-tail extents), all concurrent user writes/truncates/unlinks/snapshots, all thread schedules, all failing system calls",
 NOSRC + "The guarantee is over all images and all interleavings of user writes with scanning.",
 ["src/bees-context.cc", "src/bees-resolve.cc", "src/bees-roots.cc", "lib/fs.cc", "src/bees.cc"],
 [("dedupe ioctl wrapper", "lib/fs.cc btrfs_extent_same / src/bees-context.cc BeesContext::dedup"), ("temporary files", "src/bees.cc BeesTempFile"), ("open flags", "src/bees.h FLAGS_OPEN_FILE")],
 observe=["system calls: dedupe, write, truncate, fallocate, setflags, open, on every file"])
prop("C02", "Duplicate blocks end up sharing storage",
 "After the daemon has scanned everything and no writes are happening, duplicate data that it can process shares physical storage: identical whole extents in eligible files refer to one physical copy, blocks that repeat across extents of different layout are shared except where rewriting the rest of the extent would not pay off, and in an uncompressed extent so rewritten blocks of zeros are not stored and the extent itself is given up. Data written after the first pass is also deduplicated, against both old and new data, and so is everything after a restart (hashes not yet written to the table when the process is killed may be lost).",
 ["inputs", "histories", "configurations"],
 "all images within the hash table's capacity, all scan modes, any sequence of write batches between passes, one worker thread",
 NOSRC + "Convergence depends on hash lookup, extent resolution, match growing, temporary copies and generation tracking working together on arbitrary extent layouts.",
 ["src/bees-context.cc", "src/bees-resolve.cc", "src/bees-hash.cc", "src/bees-types.cc", "src/bees-roots.cc"],
 [("extent scan", "src/bees-context.cc BeesContext::scan_one_extent"), ("resolve and replace", "src/bees-resolve.cc BeesResolver"), ("range growth", "src/bees-types.cc BeesRangePair::grow")],
 observe=["extent references of the filesystem after quiescence"])
prop("C03", "Deduplication never makes space usage worse",
 "The daemon never leaves more data allocated than there was: extents are only split by rewriting unique blocks when the rewrite frees at least as much as it allocates, and once all references to an extent have been processed, total allocated space is not larger than before the scan. When nothing in an extent is duplicate, nothing in it is rewritten.",
 ["inputs", "configurations"],
 "all images without concurrent writers, all scan modes",
 NOSRC + "The accounting depends on the mixture of duplicate, zero and unique blocks and on reference counts.",
 ["src/bees-context.cc", "src/bees-resolve.cc"],
 [("nuisance rule", "src/bees-context.cc scan_one_extent bytes_deduped/bytes_copied comparison"), ("operation limit", "src/bees-context.cc BEES_MAX_EXTENT_REF_COUNT / dedupe_list size")],
 observe=["bytes allocated by the filesystem model before and after"])
prop("C04", "Every eligible extent is scanned, in every scan mode",
 "In each of the scan modes, every data extent reachable from an eligible file that existed when scanning began is read and considered within a bounded number of passes, and any extent created later is considered in a later pass (an extent whose first block already stands in the hash table at that address needs no second reading); with no further changes the daemon becomes idle. This holds for any subvolume and extent layout, across restarts, across worker contention, and with new subvolumes appearing or disappearing.",
 ["inputs", "schedules", "histories", "configurations"],
 "all images, all five scan modes, all worker schedules and counts, restarts, subvolume creation/deletion, new writes between passes",
 NOSRC + "Missed ranges appear only for particular combinations of sizes, generations, subvolume order, task contention and restart points.",
 ["src/bees-roots.cc", "src/bees-context.cc", "lib/btrfs-tree.cc", "lib/task.cc"],
 [("subvol crawlers", "src/bees-roots.cc BeesScanModeSubvol, BeesCrawl, BeesFileCrawl"), ("extent crawler", "src/bees-roots.cc BeesScanModeExtent"), ("transid polling", "src/bees-roots.cc BeesRoots::transid_max, crawl_thread")],
 observe=["reads issued by the daemon on each extent"])
prop("C05", "Saved scan progress never claims unfinished work",
 "At every moment, if the daemon is killed and restarted with the scan progress it has saved so far, no eligible data that existed before the crash is permanently skipped: every extent that had not been considered before the crash is considered after the restart. Positions may be repeated but never lost.",
 ["crash_points", "schedules", "inputs", "configurations"],
 "every point in an execution at which the process can die, all schedules, scan modes and images",
 NOSRC + "The dangerous states exist only between fetching work, finishing it and saving progress.",
 ["src/bees-roots.cc", "include/crucible/progress.h"],
 [("progress holders", "include/crucible/progress.h ProgressTracker; src/bees-roots.cc BeesCrawl::hold_state"), ("state writeback", "src/bees-roots.cc BeesRoots::state_save, writeback_thread")],
 state=[("crawl state file", "positions and generation window per subvolume", "$BEESHOME/beescrawl.dat")],
 observe=["contents of the state file at the crash; reads after restart"])
prop("C06", "The scan state file survives crashes and any damage",
 "The saved scan state is replaced atomically: after a process or system crash at any point, the file contains either the complete old or the complete new state. Saving then loading reproduces every position; a missing, empty, truncated, recognizably corrupt or older-format file never stops the daemon from starting and scanning, and never makes it skip data it cannot prove was scanned.",
 ["crash_points", "inputs", "fault_sequences"],
 "all crash points within a save with unsynced data lost, all failing file operations, all file contents",
 NOSRC + "Atomic replacement can only be judged over crash points and loss of unsynced data; parsing over arbitrary bytes.",
 ["src/bees-roots.cc", "src/bees.cc"],
 [("atomic file replace", "src/bees.cc BeesStringFile::write"), ("state format", "src/bees-roots.cc BeesRoots::state_to_stream, state_load")],
 observe=["state directory contents after simulated crash", "first scan positions after start"])
prop("C07", "The hash table on disk keeps everything a clean run learned",
 "Every hash table entry present in memory when the daemon is asked to stop is in the table file after a clean stop and is found again after restart (except entries whose only change is the toxic marking or an entry evicted by newer ones). Background flushing that overlaps with concurrent changes never loses or corrupts an entry, and a failed write is retried rather than forgotten.",
 ["schedules", "histories", "fault_sequences"],
 "all interleavings of inserts, erases, lookups and background flushes; all failed or short writes; stop at any time",
 NOSRC + "Losing an update needs a change between a flush's copy and its completion.",
 ["src/bees-hash.cc"],
 [("extent flush", "src/bees-hash.cc flush_dirty_extent, writeback_loop"), ("extent load", "src/bees-hash.cc fetch_missing_extent_by_index"), ("stop", "src/bees-hash.cc stop_request, stop_wait")],
 state=[("beeshash.dat", "persistent table", "$BEESHOME")],
 observe=["table file bytes after stop", "lookups after reopening"])
prop("C08", "Hash table lookups return what was inserted, by recency",
 "The block hash table behaves as a set of independent fixed-size buckets of (hash, address) pairs: a lookup returns exactly the live pairs with that hash, inserting a present pair never duplicates it, erasing removes exactly the matching pair, and no operation disturbs any other bucket. When a bucket is full an insertion displaces exactly one entry, and an entry just confirmed as a duplicate (moved to the front) is never the one displaced by the insertion that follows.",
 ["histories", "inputs"],
 "all operation sequences on tables of any legal size, including full buckets and colliding hashes",
 NOSRC + "Ordering faults show only after a bucket has filled and entries have been promoted and erased.",
 ["src/bees-hash.cc"],
 [("bucket operations", "src/bees-hash.cc find_cell, push_random_hash_addr, push_front_hash_addr, erase_hash_addr")],
 observe=["return values of every operation; full-bucket lookups"])
prop("C09", "Any hash table file contents are tolerated",
 "A table file of any legal size and arbitrary contents -- old, truncated and extended, or corrupted -- is loaded without crashing, endless work or wrong results: dangling or wrong entries never cause incorrect deduplication, and entries marked as toxic in the file are given another chance while unmarked entries keep their hash and address. A file of an illegal size or wrong length for the table is refused with an error instead of being used.",
 ["inputs"],
 "all table file contents and lengths",
 NOSRC + "The space of table contents is unbounded.",
 ["src/bees-hash.cc", "src/bees-resolve.cc", "src/bees-context.cc"],
 [("load-time repair", "src/bees-hash.cc fetch_missing_extent_by_index, verify_cell_range"), ("verify before use", "src/bees-resolve.cc chase_extent_ref")],
 observe=["lookups after load; daemon behaviour on a corrupt table"])
prop("C10", "Block addresses encode and decode without loss",
 "A block address records the physical position, compression, end-of-file and toxic properties of a block such that decoding returns what was encoded, distinct blocks get distinct addresses, the position within a compressed extent is preserved for every block of the largest legal extent, and the reserved values for zero, hole, delayed-allocation and unusable data never collide with a real block. Addresses computed for a file position agree with the extent map at that position for every extent type.",
 ["inputs"],
 "all extent types, sizes, offsets and file positions",
 NOSRC + "Encoding mistakes affect only particular offsets (last block, large compressed offsets).",
 ["src/bees-types.cc", "src/bees.h"],
 [("address encoding", "src/bees-types.cc BeesAddress constructors and accessors")],
 observe=["accessors of constructed addresses against the extent model"])
prop("C11", "A file's extent map equals its metadata",
 "For any file layout -- data, compressed, inline, preallocated and partially referenced extents, holes with or without explicit metadata, data beyond end of file, any extent count -- walking the file's extents forward, backward and by seeking yields contiguous, non-overlapping, block-aligned extents that cover the file exactly and report position, length, physical address, offset, hole, compression and preallocation as the metadata does. Seeking to any position gives the extent that contains it regardless of earlier movements.",
 ["inputs", "histories"],
 "all file layouts and all sequences of seek/next/prev, with items spread across any number of metadata searches",
 NOSRC + "lib/extentwalker.cc and lib/btrfs-tree.cc have no test.",
 ["lib/extentwalker.cc", "lib/btrfs-tree.cc", "lib/fs.cc"],
 [("walker", "lib/extentwalker.cc ExtentWalker, BtrfsExtentWalker::get_extent_map")],
 observe=["walker positions against the file model"])
prop("C12", "Metadata searches return exactly the matching items",
 "Lookups in filesystem metadata by exact key, first-at-or-after, last-at-or-before, next and previous return exactly the item that a sorted list of all items of that type would give, decoded with the right field values, or report that there is none; items of other types or objects are never returned. This holds for any density, spacing and item size up to the largest the filesystem produces.",
 ["inputs", "histories"],
 "all item sets, key values up to the numeric extremes, item sizes and result batching",
 NOSRC + "lib/btrfs-tree.cc has no test; only the integer seek primitive does, with a few fixed vectors.",
 ["lib/btrfs-tree.cc", "lib/fs.cc", "lib/seeker.cc", "include/crucible/seeker.h"],
 [("tree fetchers", "lib/btrfs-tree.cc BtrfsTreeFetcher and subclasses"), ("search ioctl", "lib/fs.cc BtrfsIoctlSearchKey::do_ioctl_nothrow, next_min")],
 observe=["returned items against a sorted-map model"])
prop("C13", "Backward seek finds the greatest element not above the target",
 "For any set of integers (other than the greatest representable value, which marks the end) exposed only through a forward fetch from a position, the backward seek returns the largest member not greater than the target, or the lowest possible value when there is none, for any target and any batch size the fetcher uses. It always terminates, with a number of fetches logarithmic in the distance plus the local density.",
 ["inputs"],
 "all finite sets in the full 64-bit range, all targets, batch sizes and starting windows",
 "test/seeker.cc checks a few dozen fixed vectors; the failing cases depend on gap sizes relative to the expanding window.",
 ["include/crucible/seeker.h", "lib/seeker.cc"],
 [("seek_backward", "include/crucible/seeker.h")],
 observe=["result and fetch count"])
prop("C14", "Scheduled tasks run exactly as requested",
 "Every request to run a task leads to an execution that starts after the request, a task never runs in two threads at once and never more often than requested, tasks waiting behind another run once it has run or been destroyed (inserted ones in task order), queued tasks run first-in first-out with idle tasks last, and waiting for a lock held by another task always ends. While paused or after cancellation no task starts, no caller blocks, and nothing is lost on resume; the number of concurrently executing tasks respects the thread count, which is reached when the call that sets it returns.",
 ["schedules", "histories"],
 "all programs of run/idle/append/insert/lock/barrier/pause/cancel/resize operations from inside and outside tasks, all thread schedules and worker counts",
 "test/task.cc runs a few fixed programs under the native scheduler; lost wakeups need specific interleavings.",
 ["lib/task.cc", "include/crucible/task.h"],
 [("task state machine", "lib/task.cc TaskState::run, exec, append, insert"), ("worker loop", "lib/task.cc TaskConsumer::consumer_thread"), ("exclusion and barrier", "lib/task.cc Exclusion::try_lock, BarrierState")],
 observe=["start and end of every task body"])
prop("C15", "Progress tracking reports the first unfinished item",
 "With any number of work items held and released in any order by any threads, the reported beginning is always the smallest item still held, or the reported end when none is held, and the reported end is the largest item ever held and never decreases. Equal items held more than once are each accounted.",
 ["histories", "schedules"],
 "all sequences of hold and release with repeated, ascending and descending values, from several threads",
 "test/progress.cc checks one fixed sequence.",
 ["include/crucible/progress.h"],
 [("ProgressTracker", "include/crucible/progress.h")],
 observe=["begin and end after every step"])
prop("C16", "Caches, pools and locks hand out consistent objects",
 "The bounded cache returns the value its function produced for that key, computes a missing key once however many threads ask, keeps at most its limit and evicts the least recently used entry; the named-object registry gives all holders of a name the same live object and creates a new one only after the last holder is gone; the pool never gives one object to two users and reuses returned ones. Named locks exclude, respect their limit and wake waiters, and the group lock admits any number of holders of one kind but never two kinds at once.",
 ["histories", "schedules"],
 "all operation sequences and thread schedules over small key sets, including factory functions that throw",
 "test/namedptr.cc covers one type with fixed values; the cache, pool and lock classes have no test.",
 ["include/crucible/cache.h", "include/crucible/namedptr.h", "include/crucible/pool.h", "include/crucible/lockset.h", "lib/multilock.cc"],
 [("LRUCache", "include/crucible/cache.h"), ("NamedPtr", "include/crucible/namedptr.h"), ("Pool", "include/crucible/pool.h"), ("LockSet", "include/crucible/lockset.h"), ("MultiLocker", "lib/multilock.cc")],
 observe=["returned objects, call counts, sizes"])
prop("C17", "Read-only subvolumes are left alone when send is protected",
 "With the send workaround enabled, a file in a read-only subvolume is never the target of a deduplication, and in the subvolume scan modes such a subvolume is not scanned until it becomes writable, whatever order subvolumes change between read-only and read-write; with it disabled, read-only subvolumes take part normally. A deduplication refused because a send is in progress is retried and never treated as success.",
 ["configurations", "histories", "schedules"],
 "all images with read-only and read-write subvolumes, all scan modes, send starting and ending at any time, subvolumes changing state while the daemon runs",
 NOSRC,
 ["src/bees-roots.cc", "src/bees-context.cc"],
 [("read-only check", "src/bees-roots.cc BeesRoots::is_root_ro"), ("dedupe refusal", "src/bees-context.cc BeesContext::dedup, is_fd_writable path")],
 observe=["dedupe requests and reads per subvolume"])
prop("C18", "Excluded files are never touched",
 "Files without checksums or copy-on-write, non-regular files, the daemon's own hash table file and temporary files (as scanned files), and files on other filesystems are never read for hashing, never used as a source or target of deduplication. The daemon's temporary data is never entered in its hash table as lasting data.",
 ["inputs", "configurations"],
 "all images mixing eligible and excluded files with identical content, all scan modes",
 NOSRC,
 ["src/bees-roots.cc", "src/bees-context.cc", "src/bees.cc"],
 [("nodatasum checks", "src/bees-roots.cc crawl_one_inode, create_extent_map"), ("nocow check", "src/bees-roots.cc open_root_ino"), ("blacklist", "src/bees-context.cc blacklist_insert, is_blacklisted")],
 observe=["reads and dedupe requests per inode"])
prop("C19", "A file is opened by inode only if it is that inode",
 "Opening a file by subvolume and inode number (of a file with extents, as the scanner asks) returns a descriptor for exactly that regular file on the daemon's filesystem, or none: whatever renames, replacements, hard links, symlinks, mounts, deletions or stale lookups happen around it, the descriptor never refers to another inode, another subvolume, another filesystem or a path outside the subvolume. Cached descriptors obey the same rule after subvolumes and files are deleted and recreated.",
 ["histories", "schedules", "fault_sequences"],
 "all path states between path lookup and open, all multi-link files, all errors from each step",
 NOSRC + "The checks matter only when the path changes between lookup and open.",
 ["src/bees-roots.cc", "src/bees-context.cc", "lib/openat2.cc"],
 [("verified open", "src/bees-roots.cc BeesRoots::open_root_ino_nocache, open_root_nocache"), ("fd caches", "src/bees-context.cc BeesFdCache")],
 observe=["identity of each returned descriptor"])
prop("C20", "Command-line options are validated before anything starts",
 "Every documented option takes effect as described, valid values are accepted, and out-of-range, malformed or contradictory arguments end the program with an error before any filesystem is touched; exactly one filesystem path is required. The version and help options succeed without side effects.",
 ["inputs", "configurations"],
 "all argument vectors built from the documented options with valid and invalid values",
 NOSRC,
 ["src/bees.cc"],
 [("option parsing", "src/bees.cc bees_main")],
 observe=["exit status, resulting configuration, system calls made"])
prop("C21", "Block checksums and hashes are computed correctly",
 "The CRC-64 of any bytes equals the value defined by its polynomial for every length, alignment and split of the input, and the block hash used for deduplication depends on every byte of a block and only on the block's bytes. Repeated and concurrent computations give the same result.",
 ["inputs", "schedules"],
 "all byte strings, lengths, alignments and threads",
 "test/crc64.cc checks a few fixed vectors.",
 ["lib/crc64.cc", "lib/city.cc", "src/bees-types.cc"],
 [("crc64", "lib/crc64.cc Digest::CRC::crc64"), ("block hash", "src/bees-types.cc BeesHash, BeesBlockData::hash")],
 observe=["values against a bitwise reference"])
prop("C22", "Byte buffers stay in bounds and keep their contents",
 "A byte buffer never gives access outside its contents: indexing, slicing, copying, appending, erasing and resizing within bounds behave like the same operations on an ordinary array, every out-of-range request is refused with an error, views share storage with their parent, and no valid use blocks or corrupts memory, including from several threads. Metadata search results decoded from such buffers are accepted or rejected cleanly whatever their contents.",
 ["inputs", "histories"],
 "all operation sequences with in-range and out-of-range arguments, including views of views, self-assignment and self-comparison",
 "lib/bytevector.cc has no test.",
 ["lib/bytevector.cc", "include/crucible/bytevector.h", "lib/fs.cc"],
 [("bounds checks", "lib/bytevector.cc ByteVector"), ("search result decoding", "lib/fs.cc BtrfsIoctlSearchHeader::set_data")],
 observe=["contents against a vector model; address sanitizer"])
prop("C23", "Status tables render every cell in aligned columns",
 "A text table of any shape and content renders each cell's text exactly once, in the right row and column, with columns aligned and separators as configured, for any sequence of row and column insertions and deletions. Out-of-range positions are refused.",
 ["histories", "inputs"],
 "all sequences of table edits and cell contents, including empty and multi-digit cells, fill values and alignments",
 "test/table.cc checks two fixed tables.",
 ["lib/table.cc", "include/crucible/table.h"],
 [("Table", "lib/table.cc")],
 observe=["rendered text against a reference renderer"])
prop("C24", "The daemon pauses, resumes and stops cleanly on signals",
 "A termination request at any moment makes the daemon stop all threads and exit, having saved scan progress and every learned hash, without deadlock and without touching user data; what it saves is such that a restart continues correctly. A pause request stops all scanning and deduplication until resume, after which all work is completed as if there had been no pause.",
 ["schedules", "histories"],
 "signals at any point of any execution, any worker count and scan mode",
 NOSRC + "Deadlocks and lost state at shutdown are schedule dependent.",
 ["src/bees.cc", "src/bees-context.cc", "src/bees-roots.cc", "src/bees-hash.cc", "lib/task.cc"],
 [("stop sequence", "src/bees-context.cc BeesContext::stop"), ("signal loop", "src/bees.cc wait loop on SIGUSR1/SIGUSR2")],
 observe=["process exit, state files, reads during pause"])
prop("C25", "Rate limits and estimates follow their definition",
 "Over any interval, work admitted by a rate limiter never exceeds the configured burst plus rate times elapsed time, waits are never longer than needed to repay what was borrowed, and unused allowance never accumulates beyond the burst. Rate estimates stay within their configured bounds, a steadily advancing counter is estimated at its true rate, and a waiter for a count is released when the count is reached.",
 ["histories", "inputs"],
 "all sequences of requests, costs, pauses and counter updates in virtual time",
 "lib/time.cc has no test; real time cannot be controlled by a unit test.",
 ["lib/time.cc", "include/crucible/time.h"],
 [("RateLimiter", "lib/time.cc"), ("RateEstimator", "lib/time.cc")],
 observe=["waits and estimates in virtual time"])
prop("C26", "Worker count follows the load target within its limits",
 "With a load target set, the number of workers stays between the configured minimum and maximum, does not increase while the load is above the target, grows while it is below, and reaches the maximum (minimum) if the load stays low (high) long enough; without a target it is the configured count. Queued work still completes whatever the load does, as long as the limits allow a worker.",
 ["histories", "inputs"],
 "all sequences of load averages, targets, minimum and maximum counts",
 "test/task.cc never sets a load target.",
 ["lib/task.cc"],
 [("load tracking", "lib/task.cc calculate_thread_count_nolock, adjust_thread_count")],
 observe=["thread count after each adjustment in virtual time"])
prop("C27", "File descriptor handles close exactly once",
 "Shared descriptor handles close the underlying descriptor exactly when the last handle to it goes away, never earlier, never twice, whatever order handles are copied, assigned, cleared and destroyed in, by however many threads, even when the close reports an error or its number is reused at once. Wrapping a number again joins the existing handle, and invalid descriptors are reported as such.",
 ["histories"],
 "all sequences of handle operations including reassigning the same descriptor number",
 "test/fd.cc runs a fixed list of handle operations.",
 ["lib/fd.cc", "include/crucible/fd.h"],
 [("IOHandle/Fd", "lib/fd.cc")],
 observe=["close calls; open descriptors"])
prop("C28", "Reads and writes through helpers are complete or fail",
 "The helpers that read or write whole objects on a descriptor transfer exactly the requested bytes in order despite short transfers and interruptions, or raise an error; the variant that allows a shorter read reports exactly the bytes present up to end of file. No byte is misplaced, duplicated or invented.",
 ["inputs", "fault_sequences"],
 "all object sizes and all patterns of short transfers, interruptions and errors",
 "test/fd.cc uses only complete transfers.",
 ["lib/fd.cc", "include/crucible/fd.h"],
 [("read/write helpers", "lib/fd.cc read_or_die, read_partial_or_die, write_or_die, pread_or_die, pwrite_or_die")],
 observe=["bytes delivered through a scripted descriptor"])
prop("C29", "One bad file or extent never stops the rest",
 "Whatever read errors, missing files, resolve failures, over-shared or slow-to-resolve extents and refused deduplications occur, the daemon neither exits nor hangs, and all other eligible data (content of other classes than the troubled files') is still scanned and deduplicated; a single failing call costs at most the one file or extent it was made for. An extent found too expensive to resolve is remembered and not resolved again on later matches.",
 ["fault_sequences", "inputs"],
 "all combinations of failing system calls on any objects at any time, and of extents whose resolution is slow or has too many references",
 NOSRC,
 ["src/bees-context.cc", "src/bees-resolve.cc", "src/bees-roots.cc", "lib/error.cc"],
 [("exception containment", "lib/error.cc catch_all; src/bees-trace.cc"), ("toxic extents", "src/bees-context.cc resolve_addr, BeesHashTable toxic marking")],
 observe=["daemon liveness; reads and sharing of the unaffected files; resolve requests"])
prop("C30", "Deduplication requests are well formed and justified",
 "Every deduplication request names two ranges of equal length with identical content at the time of comparison, aligned to blocks (except a common end of file), within both files, not overlapping physically or logically, and no longer than the largest range the daemon is allowed to use; source data is never destroyed to make the request possible. A request the kernel rejects because data changed causes no further harm and is not counted as done.",
 ["inputs", "schedules", "histories"],
 "all images and concurrent writes",
 NOSRC,
 ["src/bees-context.cc", "src/bees-types.cc", "src/bees-resolve.cc", "lib/fs.cc"],
 [("range growth", "src/bees-types.cc BeesRangePair::grow"), ("ioctl wrapper", "lib/fs.cc BtrfsExtentSame")],
 observe=["arguments of each dedupe request"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
