# Descriptions of the properties: read by mkprops.py.

WHY = ("The 20 unit tests and lfscheck run a few fixed sequences of writes, truncates, links and clear-cache calls with one "
       "geometry, one client and no failures. ")

prop("C01", "Reads return exactly the latest writes",
     "Until unsynced data is deliberately lost (clear-cache, crash), every read through the mount returns exactly the bytes "
     "last written at those offsets, through whatever name or descriptor, cut at the current end of file. Bytes that were "
     "never written (holes left by writes past the end, areas added by growing truncates, areas cut and grown again) read as "
     "zeros. This holds for every block and page geometry, for any mix of cached and uncached blocks, and for descriptors "
     "opened with any flags.",
     ["inputs", "histories", "configurations"],
     "all operation sequences, offsets and lengths; all io_block_size/page_size/no_pages combinations; files older than the mount",
     WHY + "They sample block-aligned and a few sparse writes with 4 KiB blocks; offsets, lengths, geometries and interleavings "
     "of truncate, sync and clear are unbounded.",
     [L, C, E, P], [("lfs_cached_write / lfs_zero_fill", L), ("lfs_read: mixing cached chunks and pread", L),
                    ("lfs_truncate, truncate_cached_blocks", L + ", " + E), ("Page::get_block_data, update_block_data", P)],
     "exploration", "runtime monitor: online model comparison of every read",
     MODEL + ". It says nothing about histories it did not generate.",
     state=[("contents", "inode -> cached item (blocks, metadata)", CH), ("file_inode_mapping", "path -> inode", CH)],
     observe=["FUSE READ replies"])

prop("C02", "Attributes agree with what clients did",
     "After any history, stat of a path or of an open descriptor gives the size, link count, permissions, owner and sector count that "
     "follow from the operations so far, including those that are still only cached. The modification time is never earlier "
     "than the last change of the content, times set explicitly are returned as set, and fsync makes the modification time on "
     "the backing file the one clients are told. Folders and symbolic links have the attributes of their backing entries. Directory listings never carry attributes that contradict stat.",
     ["inputs", "histories", "configurations"],
     "all sequences of writes, truncates, links, unlinks, renames, utimens, chmod, chown, syncs and cache clears",
     WHY + "Only the size after a few truncates and links is asserted.",
     [L, C, "libs/libpcache/src/item/metadata.cpp", "libs/libpcache/src/item/item.cpp"],
     [("lfs_getattr overriding lstat with cached metadata", L), ("update_content_metadata", C), ("lfs_utimens, lfs_fsync", L)],
     "exploration", "runtime monitor: online model comparison of every attribute reply", MODEL + ".",
     observe=["FUSE GETATTR, LOOKUP, SETATTR, READDIRPLUS replies", "stat of the backing file after fsync"])

prop("C03", "fsync and fdatasync make the file's data durable",
     "When fsync or fdatasync of a file returns success, the backing file holds exactly the content and size clients saw, and a "
     "later power failure or clear-cache at any moment never takes a file back behind its last successful sync. Whatever is on "
     "the backing file after a failure is, byte for byte, a version the file had at or after that sync. This also holds when the "
     "cache is too small for the data, and for files reached by another name, renamed, hard-linked or removed while open.",
     ["crash_points", "histories", "configurations"],
     "all histories, sync positions and crash points, cache sizes down to one page, eviction on and off",
     WHY + "They sync and clear at a few fixed points and never crash the process.",
     [L, C, E, P], [("lfs_fsync -> sync_owner -> sync_pages", L + ", " + E), ("_write_streak, ftruncate to the cached size", E)],
     "fault_enumeration", "runtime monitor: crash injection with a byte-level durability oracle on the backing files",
     MODEL + "; power failures are SIGKILL at operation boundaries and clear-cache commands.",
     observe=["backing files after each sync and each crash"])

prop("C04", "Unsynced data never reaches the backing files",
     "As long as the cache has room, neither written data nor a truncation changes the content or size of a backing file before "
     "fsync, fdatasync or cache-checkpoint of it: the backing file stays byte for byte as the last of these left it. So a crash at "
     "any point, or an unmount, which is no sync either, shows after a restart exactly the last synced content of every file.",
     ["crash_points", "histories", "configurations"],
     "all histories and crash points for caches that are big enough and no configured fault",
     WHY + "They look at the backing content only after clear-cache at the end of a sequence.",
     [L, C, E], [("writes put into cache pages, no pwrite", L), ("lfs_truncate only changing cached metadata and blocks", L)],
     "fault_enumeration", "runtime monitor: backing-file watcher plus crash injection", MODEL + ".",
     observe=["backing files after every step", "content after restart"])

prop("C05", "clear-cache loses exactly the unsynced data",
     "After a clear-cache command every file, read by path or through a descriptor opened earlier, has exactly the content and size "
     "of its last sync; names, folders and links are untouched. Afterwards the file system works on as if it had just been mounted, "
     "and the completion message is written once, after the cache is clear.",
     ["fault_sequences", "histories", "configurations"],
     "all histories and all positions of clear-cache commands in them",
     WHY + "Each clears once or twice, after simple writes to one or two files.",
     [L, C, E, M], [("command_fault_clear_cache under the exclusive command lock", L), ("clear_all_cache, remove_cached_blocks", C + ", " + E),
                    ("completion fifo", M)],
     "fault_enumeration", "runtime monitor: fault injection by command with online model comparison", MODEL + ".",
     observe=["FUSE replies after the command", "completion fifo"])

prop("C06", "cache-checkpoint persists everything",
     "After a cache-checkpoint command every backing file has exactly the content and size clients see, for all files, whatever was "
     "done to them before (renamed, hard-linked, truncated, removed while open); clients notice nothing.",
     ["histories", "configurations"], "all histories and all positions of checkpoints in them",
     WHY + "None runs a checkpoint.", [L, C, E], [("command_checkpoint", L), ("full_checkpoint", C), ("sync_pages", E)],
     "exploration", "runtime monitor: byte comparison of all backing files after each command",
     MODEL + ". One known finding is listed: a file none of whose remaining names LazyFS has been told.",
     observe=["backing files after each checkpoint"])

prop("C07", "Name operations are immediate and cached data follows the file",
     "create, mkdir, rmdir, rename, link, unlink and symlink take effect on the backing folder at once and return what that file "
     "system returns; listings agree. Unsynced data belongs to the file and not to its name: it follows renames of the file or of any "
     "parent folder, is shared by all hard links, disappears with the last name and last descriptor, and never shows up in another "
     "file, not even one that reuses the name or the inode number. A name operation that fails changes nothing, cached data included.",
     ["histories", "inputs"], "all sequences of name operations, data operations and failures of name operations",
     WHY + "Three tests cover plain hard links; rename, replacement, unlink-while-open and failing operations are not covered.",
     [L, C, E], [("lfs_rename, rename_item, folder recursion", L + ", " + C), ("lfs_unlink, remove_cached_item", L + ", " + C),
                 ("lfs_link, insert_inode_mapping", L + ", " + C)],
     "exploration", "runtime monitor: online model comparison of the tree, contents and errors", MODEL + ".",
     observe=["FUSE replies", "backing folder after each name operation"])

prop("C08", "A full cache loses no data",
     "When the cache has no free page and eviction is off, writes and reads still behave exactly as with a big cache: what does not "
     "fit is written to the backing file, nothing is lost, duplicated or put at a wrong offset, sizes are right, and syncs and "
     "checkpoints still leave exactly the visible content. The backing file only ever holds bytes the file had since its last sync.",
     ["histories", "configurations"], "all histories in caches of 1 to 16 pages",
     WHY + "They never fill the cache.", [L, C, E, P], [("cache_full path in lfs_cached_write", L), ("allocate_blocks failing", E)],
     "exploration", "runtime monitor: online model comparison under cache pressure", MODEL + ".",
     observe=["FUSE replies", "backing files"])

prop("C09", "LRU eviction is invisible to clients",
     "With eviction on, a cache of any size behaves for clients exactly like a big one: an evicted dirty page is written back to its own "
     "file at its own offsets before the page is reused, clean pages are dropped without loss, and no read, size, sync or checkpoint "
     "differs. A file that was renamed, truncated or removed does not get stale bytes from a page evicted later.",
     ["histories", "configurations"], "all histories in caches of 1 to 16 pages with eviction on",
     WHY + "Eviction is off in all of them.", [E, P, C, L], [("_get_next_free_page, Page::sync_data", E + ", " + P), ("LRU order lists", E)],
     "exploration", "runtime monitor: online model comparison under eviction", MODEL + ".",
     observe=["FUSE replies", "backing files"])

prop("C10", "Crash-fault commands crash at exactly the chosen operation",
     "After a valid lazyfs::crash command, LazyFS kills itself at the first operation of the given kind whose path matches from_rgx (for "
     "rename, link and symlink also to_rgx, where given), and at no other operation. With timing=before that operation has no effect, with timing=after "
     "its effect is as usual; either way exactly the unsynced data is lost and the restarted file system shows the last synced contents.",
     ["crash_points", "inputs", "fault_sequences"], "all operations, timings, regular expressions, several faults at once, all histories around them",
     WHY + "No test injects a crash.", [L, M, LH], [("add_crash_fault, trigger_crash_fault", L), ("command parsing", M)],
     "fault_enumeration", "runtime monitor: enumeration of operation x timing x pattern with a death-point and post-crash oracle",
     "every operation and timing is enumerated with matching and non-matching patterns in random histories; the oracle knows which "
     "operation must be the last one and what the backing files must hold.",
     observe=["process exit status", "operation during which it ends", "backing files", "content after restart"])

prop("C11", "Configured clear-cache faults fire at exactly the chosen occurrence",
     "A clear-cache injection of the configuration file acts at exactly the given occurrence of the given operation on the given path (and "
     "target path): before that operation takes effect or right after it, and never at another time. With crash=false the unsynced data is "
     "lost and the operation and all later ones go on normally; with crash=true LazyFS kills itself with the same loss.",
     ["fault_sequences", "configurations", "crash_points"], "all operations, timings, occurrences, crash flags, several injections, histories around them",
     WHY + "No test configures an injection.", [L, F, CF], [("trigger_configured_clear_fault", L), ("ClearF", F), ("injection parsing", CF)],
     "fault_enumeration", "runtime monitor: enumeration of operation x timing x occurrence x crash with model comparison",
     "the model counts the occurrences itself and predicts contents after the fault.",
     observe=["FUSE replies after the fault", "process exit status", "backing files"])

prop("C12", "torn-op persists exactly the chosen parts of the write",
     "A torn-op fault (configuration file or command) acts on exactly the given occurrence of a write to the given file: exactly the chosen "
     "parts of that write, equal parts with the remainder in the last one or parts of the given sizes, reach the backing file at their "
     "offsets, nothing else of the unsynced data does, and LazyFS crashes. Writes before, and files other than the chosen one, are not affected.",
     ["fault_sequences", "inputs", "crash_points"], "all part counts, part sizes, persist lists, occurrences, write sizes and offsets",
     WHY + "No test injects torn writes.", [L, F, CF, M], [("split_write", L), ("SplitWriteF", F), ("add_torn_op_fault", L)],
     "fault_enumeration", "runtime monitor: generated faults with an exact post-crash byte oracle",
     "the expected backing bytes are computed from the fault's parameters alone.",
     observe=["backing file after the crash", "process exit status"])

prop("C13", "torn-seq persists exactly the chosen writes of the group",
     "A torn-seq fault acts on the given group of consecutive unsynced writes to the file (a group is two or more writes without an "
     "intervening sync of that file): the chosen writes of that group reach the backing file, the other unsynced writes do not, and "
     "LazyFS crashes at the last chosen write (at the second write, when only the first is chosen). Other groups, single writes and "
     "other files are not affected.",
     ["fault_sequences", "inputs", "crash_points"], "all groups, persist lists, occurrences, write sizes and offsets, interleaved files",
     WHY + "No test injects torn sequences.", [L, F, CF, M], [("persist_write, pending writes", L), ("restart_counter on fsync", L), ("ReorderF", F)],
     "fault_enumeration", "runtime monitor: generated faults with an exact post-crash byte oracle",
     "the expected backing bytes are computed from the fault's parameters and the list of writes alone.",
     observe=["backing file after the crash", "process exit status"])

prop("C14", "The command pipe executes every command once and survives any input",
     "Each line written to the command pipe is executed exactly once and in order, however the bytes are grouped into writes and however "
     "long the line is. A line that is unknown, malformed or has invalid values changes nothing (no fault is added, no data is lost), and "
     "neither it nor any other input stops the file system or the pipe from serving the next command.",
     ["inputs", "schedules"], "all byte sequences on the pipe and all ways to split them into writes",
     WHY + "They send single well-formed clear-cache lines.", [M, L, F], [("read_fifo_command, fht_worker", M), ("validation of faults", M + ", " + F)],
     "exploration", "runtime monitor: grammar and mutation fuzzing of the pipe with sentinel commands",
     "effects are observed through sentinels (completion messages, contents, liveness), not log text.",
     observe=["completion fifo", "contents after commands", "process status"])

prop("C15", "The configuration file decides geometry, capacity and faults",
     "Whatever valid configuration is given (cache.simple with any size unit and blocks_per_page, or cache.manual), the cache holds what "
     "the configured capacity says and no more: data that fits stays unsynced, what does not fit goes through. Options that are left out get their "
     "documented defaults, invalid injections are left out without affecting the valid ones, a pipe that cannot be created ends the start with an error, and starting and unmounting end cleanly.",
     ["configurations", "inputs"], "all combinations of sections, sizes, units, injections valid and invalid, command lines",
     WHY + "They run with one configuration file.", [CF, M, "libs/libpcache/include/cache/config/config.hpp"],
     [("load_config, setup_config_*", CF), ("argument parsing", M)],
     "exploration", "runtime monitor: generated configurations, capacity measured from outside",
     "the capacity is observed as the number of written blocks that stay off the backing file.",
     observe=["backing file sizes", "process start and exit status"])

prop("C16", "The unsynced-data report and the cache usage are truthful",
     "The unsynced-data report names exactly the files that have data not yet synced, with exactly the blocks written since the last sync, and "
     "says that all is synced when nothing is pending. The cache usage shown is the share of pages in use, so it is zero after "
     "clear-cache and grows and shrinks with the cached data.",
     ["histories", "configurations"], "all histories and all positions of reports in them",
     WHY + "No test asks for a report.", [L, C, E, M], [("command_unsynced_data_report", L), ("get_dirty_blocks_info", E), ("get_engine_usage", E)],
     "exploration", "runtime monitor: report parser against the model's set of unsynced blocks",
     "the log format is parsed; only lines with the documented fields are read.",
     observe=["log lines of the report and usage commands"])

prop("C17", "No memory errors or undefined behaviour for any input",
     "No sequence of file operations, commands or configuration values makes LazyFS read or write outside its objects, use freed or "
     "uninitialised memory or iterators, overflow integers, or throw an uncaught exception: it ends only by unmounting or by a configured crash.",
     ["inputs", "histories", "configurations"], "all histories, commands and configurations of the other properties",
     WHY + "They run without sanitizers.", [L, C, E, P, BO, M, CF, F], [("bounds of blocks inside pages", P), ("iteration over block maps", E)],
     "exploration", "AddressSanitizer and UndefinedBehaviorSanitizer with checked iterators under the other checks' workloads",
     "sanitizer reports and unexpected ends are violations; memory leaks are not part of the property.",
     observe=["sanitizer reports", "process exit status"])

prop("C18", "No data races, deadlocks or lost requests under concurrency",
     "Whatever operations, commands and configured faults run at the same time, no two threads access the same memory without "
     "synchronisation where one writes, every request is answered, and every command finishes.",
     ["schedules", "histories"], "all interleavings of file operations of many clients and of all commands",
     WHY + "They use one client at a time.", [L, C, E, M, LH], [("cache_command_lock", L), ("lock_cache_mtx, item locks, maps_mtx", C), ("engine lock", E), ("faults_lock", L)],
     "exploration", "ThreadSanitizer plus a progress watchdog under concurrent stress with injected delays",
     "schedules are those the stress and the injected delays produce; a hang must reproduce to be reported.",
     observe=["ThreadSanitizer reports", "answers within the watchdog's time"])

prop("C19", "Concurrent clients see a sequential file",
     "Operations that overlap in time behave as if they had run one after the other: reads concurrent with writes return for each written byte "
     "either the old or the new one (sizes likewise), completed writes are never lost, files of other clients never change, and once all is quiet contents, sizes and "
     "backing files after sync are those of one sequential order. A clear-cache or checkpoint command is atomic with respect to every operation.",
     ["schedules", "histories"], "all interleavings of operations of several clients on the same and on different files, with commands in between",
     WHY + "They use one client at a time.", [L, C, E], [("item locks", C), ("cache_command_lock", L), ("engine lock", E)],
     "exploration", "runtime monitor: offline checker over recorded concurrent histories",
     "intervals of requests and answers are recorded at the client; per-byte linearizability is decided exactly for the recorded history.",
     observe=["request/answer event log", "backing files at quiescence"])

prop("C20", "Failures of the backing file system are reported and lose nothing",
     "When a call on the backing file system fails (no space, I/O error, no permission, too many files), the operation or sync that needed it "
     "returns an error to the client, no other file is affected, and data that was accepted earlier stays readable and is persisted by a later "
     "sync that succeeds. A sync never returns success unless everything is on the backing file.",
     ["fault_sequences", "histories"], "all backing calls and failure positions, all histories",
     WHY + "Nothing fails in them.", [L, E, P, C], [("sync_pages returning errors", E), ("lfs_fsync", L), ("write-through errors", L)],
     "fault_enumeration", "runtime monitor: system-call failure injection with model comparison",
     "failures are injected in the library calls lazyfs makes, by position and errno.",
     observe=["FUSE replies", "backing files"])

prop("C21", "The operation log and its parser are faithful",
     "With log_all_operations every covered operation that runs is logged once, in order, with its path, size, offset and mode. The log parser's "
     "filtered output lists exactly those operations for the chosen system calls and files, and expanding its grouped output gives back the same sequence.",
     ["histories", "inputs"], "all operation sequences and all filter options",
     WHY + "No test reads the log.", [L, LP, M], [("spdlog lines of each operation", L), ("parse_ops, group_ops", LP)],
     "exploration", "runtime monitor: log compared with the driver's own record; parser output expanded and compared",
     "the log's documented line format is relied on, as the parser does.", observe=["log file", "parser output"])

prop("C22", "Resources are given back",
     "Open descriptors of LazyFS on backing files exist only for files clients have open, whatever operations succeeded or failed, and cache pages are given back when "
     "their data is removed, truncated or cleared: after deleting or clearing everything the whole cache is usable again, any number of times.",
     ["histories", "configurations"], "all histories of any length",
     WHY + "They are too short to run out of anything.", [L, E, P, C], [("close in every path", L), ("free_pages, owner_free_pages", E)],
     "exploration", "runtime monitor: descriptor and page conservation between operations",
     "descriptors are counted in /proc; pages by writing the cache full again and watching what stays off the backing file.",
     observe=["/proc/PID/fd", "backing files", "cache usage"])

prop("C23", "Eviction takes the least recently used page of a full cache",
     "With eviction on, nothing is evicted as long as the cache has a free page or the file has room in one of its own pages; when a write needs "
     "a page and none is free, exactly the one page is evicted whose blocks were written or read from the cache longest ago. So unsynced data "
     "is written back early only in this order, and data used more recently stays lost-on-crash as it should. Reads of blocks that are not cached take no page, "
     "and pages of truncated, removed or cleared files are free again.",
     ["histories", "configurations"], "all histories of reads, writes, syncs and removals in caches of any size",
     WHY + "Eviction is off in all of them.", [E, P, C], [("_apply_lru_after_page_visitation_on_WRITE/READ", E), ("_get_next_free_page, remove_cached_blocks", E)],
     "exploration", "runtime monitor: backing files compared after every operation with a model of the pages in order of use",
     MODEL + "; the order is seen through the dirty pages that are written back.", observe=["backing files", "cache usage"])

prop("C24", "The mount and unmount scripts pass on exactly what they are given",
     "mount-lazyfs.sh, given a configuration file, a mount folder and a root folder that exist, in any order and spelling of its options, starts LazyFS "
     "exactly once and with exactly these three, whatever characters are in their names and whether they are relative or absolute, so that what clients do is done "
     "in that root folder; in the foreground, ending as LazyFS ends, if and only if asked to. When one of the three is missing or not there or an argument is unknown, it says so, "
     "ends with an error, and starts and creates nothing. umount-lazyfs.sh unmounts exactly the given folder and ends as the unmount ends.",
     ["inputs"], "all names of folders and files (without line breaks), all orders and spellings of the options",
     WHY + "No test calls the scripts.", ["lazyfs/scripts/mount-lazyfs.sh", "lazyfs/scripts/umount-lazyfs.sh", M],
     [("option loop and checks", "lazyfs/scripts/mount-lazyfs.sh"), ("./build/lazyfs ... -o subdir=", "lazyfs/scripts/mount-lazyfs.sh"),
      ("fusermount3 -u", "lazyfs/scripts/umount-lazyfs.sh")],
     "exploration", "runtime monitor: recorded calls of lazyfs and fusermount3, then the real lazyfs run with the recorded arguments",
     "build/lazyfs and fusermount3 are recording stand-ins while the scripts run, the real lazyfs is run afterwards with the recorded arguments; bounded by a fixed number of calls per seed.",
     observe=["arguments of the started programs", "exit status and output of the scripts", "the root folder"])
