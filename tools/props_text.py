p("C01", "Shared lock: mutual exclusion",
  "However the processes that share a named codex lock (through one resource tracker or none) are interleaved, and whichever of them are killed, at most one of them is ever inside the section the lock guards.",
  ["schedules", "crash_points"], "every interleaving of shared-memory system calls of any number of contending processes, any number of rounds, kills at any point",
  "The existing tests never construct a lock that two processes contend for; mutual exclusion is a statement about all interleavings.",
  [IMP, MEM], [("SlidingLock ticket/marker/lock blocks created exclusively in shared memory", IMP), ("exists_block tolerates half-created blocks", MEM)],
  [("<name>_count", "floor of issued tickets", IMP)], ["shared-memory block namespace", "critical-section occupancy"])
p("C02", "Shared lock: progress and no stranding",
  "Every process that waits for a codex lock eventually enters provided holders leave and no holder or waiter was killed; a holder that leaves by an exception, and a waiter that gives up (timeout, keyboard interrupt while waiting, failing system call), leave the lock usable by everyone else, with no trace of themselves in shared memory; a waiter with a limit gives up only after waiting as often as it allows.",
  ["schedules", "fault_sequences"], "every fair schedule; every body exception, timeout, interrupt while waiting or failed shared-memory system call in any contender",
  "Tests never contend for, time out on or interrupt a lock.",
  [IMP, MEM], [("SlidingLock.__enter__/__exit__/release/wait", IMP)], [], ["shared-memory block namespace", "TimeoutError from wait"])
p("C03", "Shared index: no lost, duplicate or ghost keys",
  "Concurrent additions and removals on one shared index behave as if executed one at a time: each call returns or raises what that order implies, no acknowledged addition is lost, no removed key survives, and once the updates are over every process lists exactly the present keys (and the value attached to each), once each.",
  ["schedules", "histories"], "every interleaving of add/remove (exists_ok true or false, metadata or none) from any number of processes, and of threads sharing one index object, over any history",
  "Tests add two keys from one process and never remove one.",
  [IMP, COD], [("lock around TagIndex/MetaTagIndex add and delete", IMP), ("move-last-into-hole on delete with reverse hash map", IMP)],
  [("<index> length word, <index>_key_i, <index>_name_<hash>, <index>_val_i", "forward and reverse maps", IMP)], ["TagIndex.update/add/remove", "MetaTagIndex.items"])
p("C04", "Shared index: concurrent listing never invents or repeats keys",
  "Listing the keys of a shared index while other processes add and remove keys completes without error, never reports a key nobody added, never reports one key twice, and includes every key that was present throughout, whatever is removed meanwhile; listing keys together with their values obeys the same as long as no value is being replaced.",
  ["schedules"], "every interleaving of listings with additions and removals by other processes",
  "Tests list only at rest.",
  [IMP], [("order in which a slot is filled and published; lock-free enumeration", IMP)], [], ["TagIndex.update", "Notepad.keys/iterkeys"])
p("C05", "Notepad: readers see exactly the stored values",
  "A read of a notepad key from any process, if it returns a value, returns one that was stored under that key and not superseded before the read began; a read that overlaps no update of the key returns the latest stored value, or reports the key missing if it is (one that overlaps an update of the same key may also fail or miss it); any value the notepad's codec can represent, including None, is returned unchanged, and a key another process finds listed is readable unless it is being replaced or removed.",
  ["schedules", "histories", "inputs"], "every interleaving of set/get/delete/iterate over shared and private keys by several processes; every history; keys and values of any shape",
  "Tests store two values and read each once from a child that starts after the store.",
  [IMP, COD, MEM], [("generic memorize/remember", COD), ("open_block overwrite by unlink and re-create", MEM), ("Notepad.__setitem__ order of value and index updates", IMP)],
  [], ["Notepad.__getitem__/get/set/__delitem__/iteritems"])
p("C06", "A store that fails leaves the rest intact and can be retried",
  "If storing an entry fails because the operating system refuses memory, descriptors or a block, the error reaches the caller, every other entry stays listed and readable, no other process is blocked, repeating the store (with exists_ok, its default) succeeds and leaves the object as if the failure had never happened, and removing the key instead leaves no trace of it; a value the codec cannot represent is refused without any effect.",
  ["fault_sequences", "schedules"], "every system call of a store failing, once or several times in a row, alone or amid other processes' work",
  "No test makes a shared-memory call fail.",
  [IMP, MEM, COD], [("lock release on exception", IMP), ("order in which index state is published", IMP)], [], ["Notepad/GridPaper store, list, read after the failure"])
p("C07", "A killed process does not damage what others stored",
  "If a process is killed at any instant, every entry it was not itself changing stays readable with its stored value by every surviving process, and listed exactly once; later writers may have to wait for a lock that a killed holder or waiter took with it.",
  ["crash_points", "schedules"], "a kill before any shared-memory system call, and in the middle of any block write, of any operation; survivors' reads and listings",
  "No test kills a process.",
  [IMP, MEM, COD], [("lock-free reads", IMP), ("enumeration skips half-written slots", IMP)], [], ["Notepad.get/keys, Sticky.read from survivors and fresh processes"])
p("C08", "Closing or exiting leaves nothing behind in shared memory",
  "After a notepad, grid paper or sticky is closed, or its process exits normally with cleanup_on_exit, no shared-memory block belonging to it remains, whatever was done to it before and by however many processes (none of which uses it any more, except to close it too), and exit raises no error; clear() removes every entry and leaves it usable; closing with dump=True never removes an entry whose dump failed.",
  ["histories", "schedules", "fault_sequences"], "every history of sets, overwrites, deletes and re-adds by any processes before the close; close, clear, double close and exit hooks in any order; dump files failing",
  "Tests never close anything.",
  [IMP, MEM], [("AbstractNotepad/ShareableIndex close and atexit registration", IMP), ("delete_block", MEM)], [], ["shared-memory block namespace", "resource-tracker registrations"])
p("C09", "GridPaper returns exactly the stored array under each name",
  "An array read back from a grid paper by any process equals, in dtype, shape and contents, the last array stored under that name, also after it was overwritten by one of another size or type and after other names were added or deleted; deleting always completes, and a read never returns another name's array.",
  ["histories", "schedules", "inputs"], "every history of set/overwrite/delete over any processes and array shapes; reads interleaved with changes to other names",
  "One test stores two equal-sized arrays and reads each once.",
  [IMP, COD], [("MetaTagIndex holds dtype/shape metadata moved with its key on delete", IMP), ("numpy memorize/remember", COD)], [], ["GridPaper.__getitem__/get/set/__delitem__"])
p("C10", "Sticky notes: read is absent or exactly what was stuck",
  "Reading a sticky in any process returns the object last stuck at its address once sticking has finished, and otherwise None or an object that was stuck there, never a mixture; sticking again, with an object of any other size, replaces it; if sticking fails, the note shows what it showed before or nothing, never the object that failed; notes left without an address never share one, and peeling or exiting removes it exactly once.",
  ["schedules", "histories"], "every interleaving of stick/read/pull by several processes, including processes whose random state is identical",
  "Tests stick once and read after a fixed delay.",
  [IMP, MEM], [("Sticky.stick/read/note/pull", IMP), ("open_block", MEM)], [], ["Sticky.note/read/close"])
p("C11", "Disabling the resource tracker keeps shared blocks alive",
  "After a process turns off shared-memory tracking before it first uses shared memory, its exit never destroys a block another process still needs, whichever process created, opened or exits first, while other kinds of tracked resource (semaphores) stay registered and released as before.",
  ["schedules", "configurations"], "every order of create, attach, exit and kill among process families with separate trackers; with tracking turned off or not",
  "No test calls it; the effect shows only when independent process families exit.",
  [MEM], [("deactivate_shared_memory_resource_tracker", MEM)], [], ["block namespace after a family's exit", "tracker registrations"])
p("C12", "Creation and claiming are exclusive",
  "Of several processes that create the same shared object at once exactly one succeeds and the others are told it exists, without disturbing its contents; opening a missing object without creating it fails; of several notepad or grid paper exists_ok=False stores of one new key exactly one succeeds, its value stays, and reserved key names are refused.",
  ["schedules"], "every interleaving of racing constructors and racing exclusive stores",
  "Tests create each object once from one process.",
  [IMP, MEM, COD], [("exclusive creation of the index block", IMP), ("exists_ok handling in Notepad.__setitem__ and memorize", COD)], [], ["Notepad/GridPaper/TagIndex constructors, set(exists_ok=False)"])
p("C13", "Tracker log file survives every failed or interrupted dump",
  "At every moment a tracker's log file is either absent or a valid JSON array holding, in order, one entry per completed dump since it was last cleared, each with the history at the time (what was tracked, by which caller and line); a dump that fails (full disk, I/O error, unserializable metadata) or is killed loses none of the earlier entries, and the next dump succeeds once the cause is gone, with no other file left behind unless a process was killed; trackers of different names or identifiers (unless they read the same when joined by an underscore) write different logs.",
  ["crash_points", "fault_sequences", "histories"], "every history of track/set_metadata/pause/dump/clear, new trackers on the same file, every write failing or cut short, kills at any file operation",
  "The test never dumps.",
  [TRK], [("Tracker.dump rewrites the closing bracket in place", TRK)], [("outpath", "JSON array log", TRK)], ["contents of the log file", "Tracker.history"])
p("C14", "Composition: step failures are contained and attributed",
  "If any step or send of a composition fails or is interrupted, no later step runs and no later send fires, everything before it has happened exactly once in order, the tracker (if given) holds one record per completed step, followed, if a step of an executed composition raised an ordinary exception, by one naming the failing step and its exception, and the error reaches the caller unless the composition is optional (then None; interrupts always propagate); a later run is unaffected by the failure, and what is added or replaced between runs takes effect from the next run on.",
  ["fault_sequences", "histories"], "every step or send position failing with any exception, in any sequence of runs, with sends, inserts, captures and tracker in any configuration",
  "Tests run only pipelines in which every step succeeds.",
  [COM, TRK, FUN, DYN], [("Composition.execute/itercall/_do_step/_perform_sends", COM), ("exc_report", DYN)], [], ["Composition.execute result, tracker history, captures"])
p("C15", "Composition: interleaved executions do not mix",
  "When one composition is executed by several threads or stepped through several iterators at once, each execution yields exactly the step-by-step outputs its own input produces alone, and inserts and baked-in arguments are left unchanged by running.",
  ["schedules"], "every interleaving, at any source line of the library, of executions of one shared composition without sends into itself",
  "Tests execute one at a time.",
  [COM], [("per-call argument maps in call_step/_flow_signal", COM)], [], ["Composition.execute/itercall outputs"])
p("C16", "Pool mapping: each job's outcome under its own key",
  "Mapping jobs into a pool ends and returns, for every job that ends by returning or raising, exactly its own result or its own exception under its own key (distinct keys; its position if none was given), running each job once, whatever the number of workers, the chunking and the order in which jobs finish; a job that raises, or whose outcome cannot be pickled or restored (its entry is then an exception saying so), changes no other job's entry, and filtering exceptions drops only failed jobs.",
  ["schedules", "fault_sequences", "configurations"], "every worker count, chunked or not, every completion order, any subset of jobs failing",
  "No test covers the pool.",
  [STR], [("MaybePool.map/apply/get, map_into_pool, _chunkwrap", STR)], [], ["map_into_pool / MaybePool.get result"])
p("C17", "Pool mapping: no orphaned pool, truthful progress",
  "Whenever pool mapping ends - normally, by an error in collecting results, or by an interrupt while it submits, watches or collects - the worker pool has been shut down; and while it runs, the reported counts of ready and running jobs always add up to the jobs submitted, never go backwards, and report completion only when every result can be fetched without waiting.",
  ["schedules", "fault_sequences"], "every completion schedule and every point at which waiting is interrupted",
  "No test covers the pool.",
  [STR], [("map_into_pool try/finally terminate; n_ready/n_running/ready/results_ready", STR)], [], ["pool lifecycle calls, MaybePool progress properties"])
p("C18", "Reading a label head: complete despite short reads, always closed",
  "Reading the head of a file or of a blocking stream yields exactly its first N bytes (all of it if shorter) however the stream splits its reads, without asking it for more; an I/O error reaches the caller rather than truncating the result, and the stream has been closed on every outcome.",
  ["schedules", "fault_sequences"], "every way a reader may split, interrupt or fail reads",
  "scrape.py has no tests.",
  [SCR], [("head_file, trim_label, get_label_text", SCR)], [], ["head_file/trim_label/get_label_text results; reader.closed"])
p("C19", "Cached label loading never caches a failure",
  "A label read that fails is reported and forgotten: the next attempt reads again; once a read has succeeded, later scrapes of that file give what that text gives (first loads that overlap in several threads may settle on any of the texts they read) with no further file access whatever the filesystem then does, and bulk scraping returns one record per file in order.",
  ["fault_sequences", "histories"], "every sequence of failing and succeeding reads, file changes and disappearances between cached calls",
  "scrape.py has no tests.",
  [SCR], [("cached_label_loader, cached_label_trimmer, scrape_from_file, cached_exists, cached_ls", SCR)], [], ["scrape_patterns/scrape_from_file/bulk_scrape_metadata"])
p("C20", "Chunked sort: complete sorted output or an error",
  "Sorting a parquet file by chunks on an integer or floating-point column writes exactly the input's rows (as the inline processor returns them), sorted in the requested direction with rows lacking a key (null or NaN) last, whatever the number of chunks and row groups, in row groups no larger and without the dictionaries the caller ruled out, printing only if asked to; on another type it does so or raises. If reading, processing or writing fails or is interrupted at any point the error reaches the caller and the output has been closed, and neither that nor being killed leaves an incomplete output that passes for a success.",
  ["fault_sequences", "configurations"], "every key value (extreme, infinite, null, repeated), chunk count, row-group layout, with and without statistics, and direction; every open, read or write failing or returning short, full disks, interrupts, kills, failing processors",
  "mosaic.py has no tests.",
  [MOS], [("sort_chunked, read_between, parquet_metadata_records", MOS)], [], ["rows of the output file, exceptions, writer state"])
p("C21", "Optional calls: every failure recorded once, interrupts pass",
  "A loadable dynamic function called as optional never raises an ordinary exception of that function: each failing call returns None, appends exactly one report naming that exception and marks the object as failed, each succeeding call returns its value and appends nothing, keyboard interrupts always pass through, and a non-optional call raises the original exception; loading, also again, makes calls run the source the object has then; this holds over any sequence of calls, loads and unloads and for calls, but not unloads, interleaved in several threads.",
  ["histories", "fault_sequences", "schedules"], "every sequence and interleaving of failing, succeeding and interrupted calls, loads, reloads and unloads",
  "The test makes one failing call.",
  [DYN, FUN], [("Dynamic.__call__, dontcare, optionalize", DYN)], [], ["Dynamic call results, errors, call_fail"])
p("C22", "Dumps hold exactly one stored value or raise",
  "Dumping a notepad or grid paper entry into a file leaves in it exactly the stored bytes of one value the entry had while it was dumped (after what was there, if appending), or raises; a dump of a missing entry leaves the file alone; no dump changes the entry, another file or another entry, or leaves a file open; closing with dump=True writes each entry into a file of its own. This holds amid stores and removals of the same and other entries by other processes (for the same entry only if the notepad has a real index) and when file operations fail or fall short.",
  ["schedules", "fault_sequences", "inputs"], "every interleaving of dumps with stores and removals; every file operation failing, falling short or being the last; keys whose default file names would coincide",
  "Tests never dump anything.",
  [IMP], [("Notepad.dump, GridPaper.dump, close(dump=True)", IMP)], [], ["files written, exceptions, later reads"])
p("C23", "Repeated work does not accumulate resources",
  "A process that keeps repeating work that undoes itself (storing, replacing, reading, listing, dumping, removing and refused operations on notepads, grid papers, indexes and stickies, making and closing objects, taking and leaving locks, tracker logging) holds no more descriptors, shared-memory blocks and bytes, exit hooks and open files after many rounds than after the first ones, whichever operations fail on the way, once work succeeds again.",
  ["histories", "fault_sequences", "schedules"], "every repeated sequence of operations in one to three processes, with failing system calls in any of them",
  "Leaks show only over repetition and after failures; tests do everything once.",
  [IMP, MEM, TRK], [("all operations of codex.implements; Tracker", IMP)], [], ["open descriptors, blocks, bytes, exit hooks, files per round"])
p("C24", "A removal that fails midway can be repeated and harms nothing",
  "If removing an entry, clearing or closing fails because the operating system refuses descriptors or memory, the error reaches the caller and each entry concerned is either still there, listed and readable with its value, or gone, neither listed nor readable; all other entries stay as they are, no other process is blocked, repeating the operation succeeds, the places can be used again, and closing then leaves no block behind.",
  ["fault_sequences", "schedules"], "every system call of a removal, clear or close failing, once or several times in a row, alone or amid other processes' work",
  "No test makes a shared-memory call fail or removes anything under load.",
  [IMP, MEM], [("TagIndex.remove, Notepad/GridPaper del, clear, close, Sticky.pull", IMP)], [], ["exceptions, listings, reads, blocks left"])
p("C25", "Range reads and metadata summaries match the file or raise",
  "Reading a parquet file between two bounds (either may be open) on one of its columns returns, in file order, exactly the rows whose value there is neither null nor NaN and is at least the lower and less than the upper bound, with exactly the requested columns (nothing if there are none), however the rows are split into groups and whatever statistics the file has; metadata records hold one entry per column and row group with the file's own sizes and bounds, and summaries of them, brief or extended, one entry per column with the sums over its row groups; if opening or reading fails or is interrupted the error reaches the caller instead of a partial result, and the file is not changed.",
  ["fault_sequences", "inputs"], "every column type and value (extreme, infinite, null, repeated), bound, row-group layout, with and without statistics; every open and read failing, coming short or being interrupted",
  "mosaic.py has no tests.",
  [MOS], [("read_between, parquet_metadata_records, meta_record_df, meta_column_df", MOS)], [], ["rows and columns returned, records, summaries, exceptions"])
p("C26", "Objects under different names do not affect each other",
  "Whatever is done to one shared object (notepad, grid paper, index, sticky note or lock) - storing, removing, holding it while others are used, failing, killing its users, closing it or cleaning it up at a process's exit - never changes, removes, lists among another's keys, or blocks an object with a different name, however similar the names are and even with the same keys, so long as no name extends another's by an underscore and more; everything the others hold stays readable and closing all of them leaves nothing behind.",
  ["schedules", "crash_points", "fault_sequences", "inputs"], "every mix of kinds, similar names, shared keys, nesting of uses, kills and failing calls on one object, and order of closing and exits",
  "Tests use one object at a time, under one name each.",
  [IMP, MEM], [("SlidingLock, TagIndex, Notepad, GridPaper, Sticky: addresses, close, exit hooks", IMP)], [], ["values, listings, exceptions, blocks left, completion"])
p("C27", "Trackers may write one log at the same time",
  "When several processes, threads or trackers dump to the same log at once, that log is at every moment absent or a valid JSON array of whole entries, each the history of one dump and none twice; no dump fails because of another or of a clear; an entry whose dump completed is lost only if another dump or a clear overlapped it; a clear that no dump overlaps removes every earlier entry; and no other file is left behind unless a process was killed.",
  ["schedules", "crash_points", "fault_sequences"], "every interleaving of the dumps', clears' and tracks' file operations and statements, kills, interrupts and failing or short file operations amid them",
  "The test never dumps.",
  [TRK], [("Tracker.dump reads, extends and replaces the log", TRK)], [("outpath", "JSON array log", TRK)], ["contents of the log file after each change, exceptions, files left"])
p("C28", "Objects made without a name get one of their own",
  "Making a notepad, grid paper, index or sticky note without a name always succeeds (unless the operating system refuses) and gives it addresses no other live object has, even in processes forked with the same random state and making them at the same moment; each then holds exactly what was stored in it, others can attach to it by the name it got, and closing or cleaning up one leaves the others untouched and, once all are closed, nothing behind.",
  ["schedules", "crash_points", "fault_sequences"], "every interleaving of makers with equal and different random states, mixes of kinds, uses under shared keys, kills and failing calls",
  "Tests name their objects and use one process at a time, or give each child its own.",
  [IMP], [("TagIndex(name=None), Notepad/GridPaper(prefix=None), Sticky.note(address=None)", IMP)], [], ["names, values, listings, exceptions, blocks left"])
p("C29", "A closed name can be used again",
  "Once a notepad, grid paper, index or sticky note has been closed or cleaned up, and every process that asked for its cleanup on exit has itself closed it, exited or been killed, an object of any kind can be made under its name: making it succeeds (a making that the operating system refused can be repeated), it starts empty, it only ever lists and returns what was stored in it, and the later exit or death of processes of the earlier object does not touch it.",
  ["schedules", "histories", "fault_sequences"], "every sequence of objects under one name, their kinds, makers, users and ways to end, with processes of earlier ones exiting at any moment of later ones",
  "Tests never use a name twice.",
  [IMP, MEM], [("close() and atexit registration of notepads, indexes and stickies", IMP)], [], ["values, listings, exceptions, blocks left, errors at exit"])
p("C30", "Arrays got without a copy stay valid and live",
  "An array got from a grid paper without copying, and whatever is derived from it, can be used for as long as it is held, whatever becomes of the grid paper object it came from and of entries in this or another process: its memory stays mapped; until something else is stored under its name or the entry is removed it shows what is stored there, also what others write through theirs, and what is written through it is what every later read of that name returns; a write never changes what is stored under another name; and it can be stored again, also rearranged and under its own name, with the values it had.",
  ["inputs", "schedules", "histories", "fault_sequences"], "every sequence and interleaving of storing, removing, reading, viewing, deriving, writing through and letting go of views and papers by several processes and threads",
  "No test gets an array without copying it, and none outlives its paper.",
  [IMP, "dustgoggles/codex/codecs.py"], [("GridPaper.get(copy=False), __setitem__(keep_open=True)", IMP), ("numpy_mnemonic_factory.remember_array", "dustgoggles/codex/codecs.py")], [], ["contents of views and copies, mappings that are closed while an array uses them"])
p("C31", "A dynamic function is loaded and looks it, or is not",
  "A loadable dynamic function is loaded when it is made unless it is lazy; as long as it is loaded, its name, signature and printed form are those of the function its source defined when it was last loaded, calls run that function in the globals the object was given, if any, and loading it without asking for a reload is refused and changes nothing; as long as it is not, it has no function, and a call loads it first if it may load on calls and otherwise is refused without running anything; unloading forgets every report and failure flag; loading a source that does not compile appends one compile report naming that error, sets the compile failure flag and never makes anything else run than a source compiled before; every report of a call names the frames down to the failing one with their lines. This holds over any sequence of loads, reloads, unloads, calls and changes of source, also after any of them was interrupted and repeated.",
  ["histories", "fault_sequences", "inputs"], "every sequence of operations on one dynamic function, good and bad sources, functions that raise, interrupts at every line and instruction of the library",
  "The test loads and calls one function once.",
  [DYN], [("Dynamic.load/define/unload/_maybe_load_on_call", DYN), ("compile_source, exc_report", DYN)], [], ["Dynamic.func, __name__, signature(), str(), errors, call_fail, compile_fail"])
PIV="dustgoggles/pivot.py"
p("C40", "Digging in nested mappings finds exactly what matches",
  "Searching a nested mapping for keys, values or items returns all (or, for the singular forms, one of) the entries at any depth that match, and nothing else; editing in place changes exactly the matching entries and leaves the rest of the structure as it was.",
  ["inputs"], "every nested mapping and predicate", "Tests use one small mapping.",
  [STR], [("dig_for_*, dig_and_edit, get_from", STR)], [], ["return values, mapping after editing"])
p("C41", "Flattening and merging nested mappings keeps every leaf",
  "Turning a nested mapping into records or into one level keeps every leaf under the path that led to it, and merging two nested mappings gives every leaf of either, the second winning where both have one.",
  ["inputs"], "every nested mapping", "Tests flatten single examples.",
  [STR], [("to_records, unnest, rmerge, NestingDict.todict", STR)], [], ["return values"])
p("C42", "Downcasting stays within the tolerances asked for",
  "Downcasting an array or a frame of numbers returns values that differ from the originals by no more than the absolute and relative tolerances, in a type no wider than the original, with missing values kept; other columns stay as they are.",
  ["inputs"], "every numeric array, dtype and tolerance", "The library's tests do not call it.",
  [PIV], [("downcast, downcast_df", PIV)], [], ["return values"])
p("C43", "Frame helpers separate, unpack and squeeze without losing rows",
  "Extracting constants, splitting, dropping duplicate columns, unpacking nested columns and squeezing duplicate labels keep every value that is not documented to be dropped, aligned with the row it came from.",
  ["inputs"], "every frame", "Tests use single examples or none.",
  [PIV], [("extract_constants, split_on, unpack_column, squeeze, junction, smash", PIV)], [], ["return values"])
p("C44", "Label patterns are parsed alike for every label text",
  "Scraping one text with a set of patterns gives for each field what the pattern matches there, converted by the same rules whichever other fields are scraped.",
  ["inputs"], "every label text and pattern", "Tests do not cover scraping of values.",
  [SCR], [("make_scraper, scrape_patterns", SCR)], [], ["return values"])
p("C45", "Function combinators call through unchanged",
  "The function combinators call the functions they wrap exactly once per call with exactly the arguments they promise to pass on, and return what those return.",
  ["inputs"], "every function and argument list", "Tests use single examples.",
  [FUN, DYN], [("splat, argstop, gmap, triggerize, are_in, disjoint; compile_source, define", FUN)], [], ["calls, return values"])
