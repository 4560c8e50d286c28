#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as one readable table here)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe}})

p("C01", "The binary value encoding is lossless",
  "Encoding any sequence of values (null, booleans, signed integers of every width, floats, decimals, strings, byte strings) and decoding the bytes returns the same sequence, with the same variants and bit patterns. The decoder consumes exactly the bytes the encoder produced, so encodings can be concatenated and read back one after another. Compacting an integer, float or string before encoding never changes the number or text it stands for.",
  ["inputs"], "every value of a boundary alphabet (all width and length-class edges, all small integers, all exponent/sign classes), every pair of values, every run of booleans up to the byte and length-class edges, and every sequence up to a bounded length over a small alphabet",
  "The unit tests encode a few random sequences; an error at one width edge, one bit-packing offset or one length class is not sampled.",
  ["dochy_compaction/src/enc_dec", "dochy_compaction/src/basic_compaction", "dochy_compaction/src/kval_enum.rs"],
  [("tag byte + variable-length body, booleans packed into shared tag runs", "dochy_compaction/src/enc_dec/encode.rs, decode.rs"),
   ("shortest-width integers, floats and decimals", "dochy_compaction/src/enc_dec/var_int.rs, signed_bytes.rs, decimal_lib.rs; basic_compaction")],
  ["dochy_compaction::encode_to_vec / decode / decode_from_slice", "dochy_compaction::basic_compaction"])

p("C02", "Numeric-string and URL-string compaction are lossless",
  "Compressing any list of strings with the number-aware string compaction and decompressing it returns exactly the same strings, whether or not a string looks like a number. Converting any byte sequence to its URL-safe string and back returns the same bytes, and the string uses only URL-safe characters.",
  ["inputs"], "all strings up to a bounded length over the alphabet of characters the number recogniser distinguishes, all byte strings up to length 2 plus all length classes modulo the 6/8-bit regrouping with every boundary byte",
  "The unit tests try a handful of literals; near-numbers (leading zeros, stray characters, signs, exponents, exact width limits) and the remainder classes of the bit regrouping are not covered.",
  ["dochy_compaction/src/string_compaction.rs", "dochy_compaction/src/url_string"],
  [("regular-expression recogniser that turns number-like strings into decimals", "dochy_compaction/src/string_compaction.rs"),
   ("6-bit regrouping of bytes", "dochy_compaction/src/url_string/b8s_and_b6s.rs")],
  ["dochy_compaction::string_compaction", "dochy_compaction::url_string"])

p("C03", "Applying a diff reproduces the edited document exactly",
  "If a document is copied and the copy is edited in any way, applying the diff between the two to a document in the original state yields a document equal to the edited copy: every variable's value and null/undefined state, every list's items with their ids, order and next id, every nested list and every reference. The diff of a document with an unedited copy changes nothing. The edited copy and the original are not altered by taking or applying the diff.",
  ["inputs", "histories"], "every edit sequence up to a bounded length over a document containing all value kinds (all parameter types and null/undefined variants, lists with insert/remove/move/edit, lists nested in items, references and enums), plus every subset-size class of simultaneously edited members up to the id-storage thresholds",
  "The existing diff tests apply one hand-written edit script per data kind; they do not combine edits (insert+move+remove, nested list of a new item, edits beyond the first members of wide items).",
  ["dochy_diff/src/imp/prepare", "dochy_diff/src/imp/write", "dochy_diff/src/imp/read", "dochy_diff/src/imp/apply"],
  [("per-item Create/Modify/Delete records with previous-id placement", "dochy_diff/src/imp/prepare/get_mlist_diff.rs, apply/apply_list_diff.rs"),
   ("changed-member sets stored as none/64 bits/bit array/number list", "dochy_diff/src/imp/write/store_ids.rs, read/read_store_ids.rs"),
   ("identity comparison of shared values", "dochy_core/src/imp/structs/util/identity_equal_trait.rs")],
  ["dochy_diff::get_diff / apply_diff"])

p("C04", "Diffs compose: any chain of diffs reproduces each state it passed",
  "For a document that evolves through any series of states, applying the successive diffs in order to the first state reproduces every state in turn, and continuing to edit a document rebuilt from diffs leads to the same results as editing the one that was never saved. A diff taken directly between two non-adjacent states of the series gives the same result as the chain between them.",
  ["histories"], "every series of up to a bounded number of states where each step is any edit of the alphabet, every split of the series into direct and chained diffs, and a rebuild (round trip through bytes) at any step",
  "Tests apply at most a fixed two-step chain; chains with deletion and re-creation, id growth after a rebuild and edits on rebuilt documents are not explored.",
  ["dochy_diff/src/imp", "dochy_core/src/imp/structs/linked_m.rs", "dochy_core/src/imp/structs/rust_list.rs"],
  [("list ids and next id carried in list diffs", "dochy_diff/src/imp/prepare/get_mlist_diff.rs"),
   ("shared copy-on-write values", "dochy_core/src/imp/structs/root_obj.rs, rust_list.rs")],
  ["dochy_diff::get_diff / apply_diff", "dochy_core::intf"])

p("C05", "Mutable lists behave as ordered sequences with unique, never reused ids",
  "Under any sequence of insertions, removals and moves, a mutable list holds exactly the inserted and not removed items in the order those operations define, forward and backward iteration visit them in that order, and first, last, length, membership and lookup by id agree with it. Every insertion gets an id that list never used before, also after removals, emptying, copying or saving the list. Operations on ids that are not in the list change nothing and report failure.",
  ["histories"], "every operation sequence up to a bounded length over insert first/last, remove by id/first/last, the four moves with every id pair including absent ids, copy, clear and iteration from every start",
  "The unit tests run a few fixed scripts; pointer relinking errors show only for particular neighbour configurations (moving the only, first, last or adjacent item).",
  ["dochy_core/src/imp/structs/linked_m.rs", "dochy_core/src/imp/structs/linked_map_unsafe_iter.rs", "dochy_core/src/imp/intf/mlist_mut.rs", "dochy_core/src/imp/intf/mlist_ptr.rs"],
  [("hash map of boxed nodes linked by raw pointers, with an id counter", "dochy_core/src/imp/structs/linked_m.rs"),
   ("cursors over the links", "dochy_core/src/imp/structs/linked_map_unsafe_iter.rs")],
  ["dochy_core::structs::LinkedMap", "dochy_core::intf::mlist_mut::MListMut"])

p("C06", "A copy of a document is isolated from later edits",
  "After copying a document, no edit of either document (variables, arrays, strings, list items, nested lists, references, insertions, removals, moves) is visible in the other, however many copies exist and in whatever order they are edited or dropped. Saving, diffing or loading never changes a document the caller holds.",
  ["histories"], "every interleaving, up to a bounded length, of edits, copies and drops over up to three live documents, each compared after every step with its own reference model",
  "Tests never edit two copies alternately; a missed copy-on-write at one level is visible only when a shared part is edited while another owner is alive.",
  ["dochy_core/src/imp/structs/root_obj.rs", "dochy_core/src/imp/structs/rust_list.rs", "dochy_core/src/imp/structs/rust_array.rs", "dochy_core/src/imp/structs/rust_string.rs", "dochy_core/src/imp/structs/linked_m.rs"],
  [("reference-counted values copied on first write", "dochy_core/src/imp/structs/root_obj.rs, rust_list.rs, rust_array.rs")],
  ["dochy_core::structs::RootObject::clone", "dochy_core::intf"])

p("C07", "Typed accessors store and return exactly what was set",
  "Setting a variable of a document or list item to a permitted value and reading it returns that value and no other variable changes; a variable never set reads as its declared default and counts as unmodified. Values whose type or null/undefined state the declaration does not permit are refused and change nothing. Null and undefined are kept apart, and references and enums resolve to exactly the table entry they were set to.",
  ["inputs", "histories"], "every declared kind (bool, int, float, string, int array, float array, binary) x every declaration (plain, nullable, undefiable, both) x every value class x every getter and setter, in the root, in list items, in nested list items and in constant lists/tables, plus every pair of sets",
  "Tests set one value per kind on a happy path; refusals, cross-variable effects and nested positions are mostly not exercised.",
  ["dochy_core/src/imp/intf/root.rs", "dochy_core/src/imp/intf/mitem.rs", "dochy_core/src/imp/intf/citem.rs", "dochy_core/src/imp/intf/table.rs", "dochy_core/src/imp/structs/util/set_sabun.rs", "dochy_core/src/imp/structs/var_type.rs"],
  [("defaults plus a map of modified values, with type and null checks on set", "dochy_core/src/imp/intf/root.rs, mitem.rs; structs/util/set_sabun.rs")],
  ["dochy_core::intf::{root, mitem, citem, table, clist}"])

p("C08", "JSON5 source text is read as the value it denotes",
  "Every text of the accepted JSON5 dialect (objects with quoted or bare keys, arrays, strings with escapes, decimal/hex/exponent numbers, comments, trailing commas, null, undefined, booleans) is read as exactly the value it denotes, with member order kept and integers kept apart from floats. Texts outside the dialect, and objects with duplicate members, are rejected with an error and never crash the reader.",
  ["inputs"], "every token sequence up to a bounded length over an alphabet of all token kinds, every number spelling and every string up to a bounded number of characters over the lexically relevant characters, compared with an independent reference reader",
  "There is one smoke test of the reader; grammar corners are not covered at all.",
  ["dochy_json5/src/de.rs", "dochy_json5/src/deserialize_item.rs", "dochy_json5/src/json5.pest"],
  [("grammar and conversion of parse results into values", "dochy_json5/src/json5.pest, de.rs, deserialize_item.rs")],
  ["dochy_json5::from_str"])

p("C09", "A source directory and its archive define the same document",
  "Reading a source directory yields a document with exactly the members its root file and item files declare, with their declared defaults, tables and initial list items. Reading the archive written from that directory yields an equal document and the same source hash. The hash is the same whenever names and contents are the same and differs when a file's content or name changes, files with other extensions and subdirectories not counting.",
  ["inputs", "configurations"], "all source directories built from a bounded set of files, member kinds and contents, every single-file change to each, and every creation order of the files",
  "Tests read a few fixed directories and never compare the archive form with the directory form or vary one file at a time.",
  ["dochy_core/src/imp/json_to_rust", "dochy_archiver2/src/imp"],
  [("directory scan, parallel conversion and hashing", "dochy_archiver2/src/imp/read_archive_data_from_directory.rs"),
   ("archive writer and reader", "dochy_archiver2/src/imp/write_archive.rs, read_archive.rs"),
   ("conversion of source values to a document", "dochy_core/src/imp/json_to_rust")],
  ["dochy_core::json_dir_to_root_with_hash", "dochy_core::archive_file_to_root_with_hash", "dochy_core::archive_src_dir"])

p("C10", "Source validation accepts exactly the consistent sources",
  "With validation on, a source is accepted only if every list item's values fit the declared members, every reference names an existing entry of the table it points to, nothing uses entries or members marked as old, every old mark names something that exists, enums select exactly one alternative, and lists are nested only where their kind allows. Every source that satisfies these rules is accepted, and a rejected source yields an error, never a crash or a partially built document.",
  ["inputs", "configurations"], "every combination of a small source skeleton (table, constant list, mutable list, nested list, references, enum, old marks) with every single and double rule violation",
  "Tests contain a few rejected sources; combinations of container kind, nesting level and rule are not covered.",
  ["dochy_core/src/imp/json_to_rust/validation", "dochy_core/src/imp/json_to_rust/tmp"],
  [("validation walk over defaults, items and references", "dochy_core/src/imp/json_to_rust/validation")],
  ["dochy_core::json_dir_to_root(validation = true)"])

p("C11", "Loading old data with a new source converts it by the documented rules",
  "When data saved with an old source is converted to a new source, every variable present in both keeps its old value (or stays unmodified), removed variables disappear, added variables get the new default or, if declared undefiable, become undefined. Constant lists and tables always come from the new source; mutable lists keep their items, ids, order and references, each item (also in nested lists) converted by the same rules. Converting to an identical source changes nothing. Old data whose type or null/undefined form does not fit the new declaration is refused with an error when validation is on; data may use what the new source marks as old.",
  ["inputs", "configurations", "histories"], "every pair of old and new source over a bounded member set (kept, removed, added, made undefiable, variable made a list and the reverse, marked as old, at root, item and nested-item level, for every container kind) x every edit state of the old data, in memory and through saved files and history entries",
  "The manual's examples convert one hand-written pair of sources; nested lists, unmodified values and combinations are not covered.",
  ["dochy_core/src/imp/version_adjuster"],
  [("member-wise merge of old values into the new declaration", "dochy_core/src/imp/version_adjuster")],
  ["dochy_core::adjust_versions", "dochy_fs::filesys::load_dochy_file"])

p("C12", "A saved document file loads back the saved document",
  "Loading a saved file returns the document as it was when that save was requested, whatever was saved, overwritten, removed or edited before or after under other names, with warm or cold caches and after a restart, and also after the source has changed (then converted to the new source). Listing reports exactly the files that exist with their source version. A failed or refused operation leaves the stored files as they were.",
  ["histories"], "every sequence up to a bounded length of save, overwrite, edit, load, remove, list, restart and source change over several file names, compared after every step with a reference model",
  "The tests save and load one file once per process; overwriting, several source versions, restarts and refused names are not combined.",
  ["dochy_fs/src/imp/filesys", "dochy_fs/src/imp/common"],
  [("diff of the document against its source, stored beside the source archive in a directory named by the source hash", "dochy_fs/src/imp/filesys/save_dochy_file.rs, load_dochy_file.rs; common/path/prepare_hash_dir.rs"),
   ("process-wide cache per save directory", "dochy_fs/src/imp/filesys/save_cache_map.rs")],
  ["dochy_fs::filesys::{save_dochy_file, load_dochy_file, list_dochy_files, remove_dochy_file}"])

p("C13", "Every history entry loads back exactly the state that was saved",
  "After any sequence of saving, editing, loading older entries and continuing from them, choosing by hand which older state of the document to derive from, restarting and tagging, every entry in the history loads as exactly the document state given to the save that created it. A save never alters or removes an existing entry. This holds for every combination of history options, whether diffs are taken from phase files or cumulatively.",
  ["histories", "configurations"], "every sequence up to a bounded length over save (small/large edit, unchanged, tagged), load any earlier entry and continue from it, start over from an unrelated document, and restart, for every option combination of a grid (number of phases, phase-0 update, cumulative limits, serial/parallel)",
  "The tests run two scripted histories with default-like options; branching from old entries, phase shifts and cumulative limits interact in ways only long varied sequences reach.",
  ["dochy_fs/src/imp/history/algo", "dochy_fs/src/imp/history/pub_fn", "dochy_fs/src/imp/history/diff_and_cache", "dochy_fs/src/imp/history/file_hist", "dochy_fs/src/imp/history/current_root_obj_info"],
  [("choice of the phase of the next file from file sizes and limits", "dochy_fs/src/imp/history/algo"),
   ("reconstruction of an entry from its ancestors", "dochy_fs/src/imp/history/file_hist/ancestors.rs; diff_and_cache"),
   ("record of which entry the current document derives from", "dochy_fs/src/imp/history/current_root_obj_info")],
  ["dochy_fs::history::{save_history_file, load_history_file, list_histories}"])

p("C14", "History entries have unique names and list in save order",
  "Every save creates one new entry whose name differs from all existing ones and decodes to the control number, order numbers and tag it was made from. Listing a history shows every entry exactly once and in the order the entries were saved, the newest entry being the last one saved, whatever was branched, tagged or removed before. Files that are not history entries are ignored.",
  ["histories", "inputs"], "every history of the C13 space, every bounded tuple of control number, order numbers and tag for the name codec, and every bounded string over the name alphabet for name decoding",
  "Tests compare a fixed list of names for one script; name collisions or mis-sorting after branching, multi-digit numbers and tags are not covered.",
  ["dochy_fs/src/imp/history/file_name", "dochy_fs/src/imp/history/file_hist"],
  [("name codec", "dochy_fs/src/imp/history/file_name"), ("ordered tree of entries", "dochy_fs/src/imp/history/file_hist/file_history.rs")],
  ["dochy_fs::history::{calc_filename, FileNameProps, list_histories, FileHistory}"])

p("C15", "Removing old history keeps every kept entry loadable",
  "When the history of a source version is pruned, every entry the caller asked to keep still loads as the state that was saved, every file that no kept entry needs is gone, and nothing else is touched. Pruning a history with several source versions to its n newest entries keeps those n loadable and removes every version older than the newest entry that is not kept. Saving, loading and pruning continue to work afterwards.",
  ["histories", "configurations"], "every history of a bounded length for every option combination, followed by pruning to every number of newest entries and to every subset of kept entries, followed by further saves; every history of up to four source versions with up to two entries each, pruned to every number",
  "The manual's test prunes one history at one setting; whether ancestors are kept depends on the phase structure and on branches.",
  ["dochy_fs/src/imp/history/remove", "dochy_fs/src/imp/history/file_hist/file_histories.rs"],
  [("tree of marks over the entries, walking from each kept entry to the files it is built from", "dochy_fs/src/imp/history/remove")],
  ["dochy_fs::history::{HistoryRemover, FileHistory::remove_old_files, FileHistories::remove_old_files}"])

p("C16", "The number of files behind an entry stays within the configured limits",
  "An entry of a history is rebuilt from at most one file per configured phase when diffs are not cumulative, and with cumulative diffs from at most the configured count of files in the last phase (unless the options leave no earlier phase to shift to). The phase of a new entry is the one the documented rule gives: the phase after its base until the last one, then the last phase as long as neither the average size grows by repeating it nor a cumulative limit (count, total size against the n-th largest file behind it) is reached, otherwise the first earlier phase for which the average does not grow, and phase 0 only if the options allow it to be updated or the document has no base in the history. The base is the entry the document was last saved as or loaded from, unless the caller has set another one or none. Options that contradict each other are refused, all others are taken as given.",
  ["histories", "configurations"], "every history of the C13 space, with the set of files each entry needs measured by deleting the others",
  "No test looks at how many files an entry depends on.",
  ["dochy_fs/src/imp/history/algo"],
  [("phase choice", "dochy_fs/src/imp/history/algo")],
  ["files in the history directory", "dochy_fs::history::load_history_file"])

p("C17", "A crash during a save or a removal loses nothing else that was saved",
  "If the process stops at any point while a document file or history entry is being saved, including in the middle of writing a file, then after a restart every earlier history entry and every document file other than the one being written still loads as saved, the interrupted file either loads as the new state or the previous one or is reported as an error, and new saves and loads succeed. If it stops while entries, document files or whole source versions are being removed, everything that was to be kept loads as saved after a restart, what was to be removed is gone, loads as saved or is reported as an error, and new saves and loads succeed.",
  ["crash_points", "histories"], "every stop point before, between and inside the file-system operations of a save or a removal (with every torn length class of each write) for the first, second and later saves of a directory, also under a newer source, both storage kinds, and every phase kind",
  "No test stops a save half-way.",
  ["dochy_fs/src/imp/common/path/prepare_hash_dir.rs", "dochy_fs/src/imp/filesys/save_dochy_file.rs", "dochy_fs/src/imp/history/diff_and_cache", "dochy_fs/src/imp/history/pub_fn"],
  [("preparation of the source-hash directory", "dochy_fs/src/imp/common/path/prepare_hash_dir.rs"),
   ("file writes", "dochy_fs/src/imp/filesys/save_dochy_file.rs; history/fs/write_phase_file.rs")],
  ["file-system calls of the process", "dochy_fs load functions after restart"])

p("C18", "A failing file operation is reported and leaves the store usable",
  "If any file-system call made during a save, load, list or removal fails, the operation reports an error instead of crashing or reporting success for something it did not do. Everything stored before is still loadable, and once the fault is gone the same process can save and load again with correct results.",
  ["fault_sequences", "histories"], "a failure of each single file-system call of each operation (open, create, read, write, stat, directory creation, directory reading, removal), with every error class and with short writes, in every operation of a set of short histories, followed by continued use",
  "No test injects a fault.",
  ["dochy_fs/src/imp", "dochy_archiver2/src/imp"],
  [("error propagation and cache updates around file writes", "dochy_fs/src/imp/history/pub_fn/save_history_file.rs; current_root_obj_info")],
  ["file-system calls of the process", "dochy_fs public functions"])

p("C19", "Background saves store the requested states in request order",
  "A background save stores the document as it was when the save was requested, even if the caller edits the document before the save runs, and calls back exactly once with its result. Background saves of one history take effect in the order they were requested, and a foreground save issued after a background save has called back comes after it. The entries are the ones foreground saves made in the same order would have produced. The variant that only saves when idle skips the save exactly when an earlier background save of that history has been requested and has not finished.",
  ["schedules", "histories"], "every interleaving up to a preemption bound of the caller's thread and the saving thread at their file-system calls and blocking points, for every bounded sequence of background save, save-if-idle, foreground save, edit and wait",
  "The tests run one schedule each and pass whatever the timing happens to be.",
  ["dochy_fs/src/imp/history/pub_fn/save_history_file.rs", "dochy_fs/src/imp/history/current_root_obj_info/fifo_thread.rs", "dochy_fs/src/imp/history/current_root_obj_info", "dochy_fs/src/imp/filesys/save_dochy_file.rs"],
  [("single worker thread fed in order", "dochy_fs/src/imp/history/current_root_obj_info/fifo_thread.rs"), ("counter of queued saves and lock on the history record", "dochy_fs/src/imp/history/current_root_obj_info")],
  ["dochy_fs::history::{save_history_file_nb, save_history_file_nb_if_vacant}", "dochy_fs::filesys::save_dochy_file_nb"])

p("C20", "Parallel loading and saving give the serial result",
  "Loading an entry with parallel decoding, or saving with parallel encoding, produces the same document, the same entry names and loadable files as the serial mode under every thread schedule. Documents can be loaded from several threads at once, each getting the state it asked for. Errors found by a helper thread reach the caller as errors.",
  ["schedules", "configurations"], "every interleaving up to a preemption bound of the loading thread, the reading helper and the decoding workers at their blocking points and file reads, for histories of every phase shape and with each file of the chain damaged in turn",
  "Tests run the default mode under one schedule and with intact files only.",
  ["dochy_fs/src/imp/common/apply_items.rs", "dochy_archiver2/src/imp"],
  [("reading thread, decoding workers and ordered hand-over channel", "dochy_fs/src/imp/common/apply_items.rs")],
  ["dochy_fs::history::load_history_file", "dochy_fs::history::save_history_file"])

p("C21", "Histories saved under an older source stay loadable and separate",
  "After the source changes, every entry saved under the old source still loads as its saved state converted to the new source, and is listed under its own source version. Saving after loading an old-source entry starts a new chain under the new source and never writes into, or derives from, the files of the old source. Returning to the old source makes its history usable as before. All this holds too when the history options change together with the source.",
  ["histories", "configurations"], "every sequence up to a bounded length of save, load of any entry of any version, edit and switch between two or three source versions, with restarts; every ordered pair of options from a set for two versions",
  "No test changes the source between history saves and loads.",
  ["dochy_fs/src/imp/history/pub_fn/load_history_file.rs", "dochy_fs/src/imp/history/current_root_obj_info", "dochy_fs/src/imp/common"],
  [("source-hash directories and per-directory caches", "dochy_fs/src/imp/common/path; history/current_root_obj_info")],
  ["dochy_fs::history::{list_histories, load_history_file, load_history_file_data, save_history_file}"])

p("C22", "Source-version directories are named, listed and removed consistently",
  "The directory name of a source version encodes its full hash reversibly and distinct hashes get distinct names; names that do not encode a hash are ignored by every listing. Listing versions returns every version directory once, oldest first, and removing a version removes exactly its directory. The version directory of the current source is created on first use and found again afterwards.",
  ["inputs", "histories"], "hash values with every byte pattern class at every position, every string at edit distance one from a valid name and of neighbouring lengths, and every bounded sequence of creating, listing, removing and adding foreign files and directories",
  "Tests convert one hash; malformed names and mixed directories are not covered.",
  ["dochy_fs/src/imp/common/path"],
  [("hex codec of the hash", "dochy_fs/src/imp/common/path/hash.rs"), ("listing with creation times", "dochy_fs/src/imp/common/path/get_hash_times.rs, hash_dir_path.rs")],
  ["dochy_fs::common::{hash_dir_path, hash_dir_paths, get_hash_times, remove_hash_dir}"])

p("C23", "Truncated stored data is rejected, never misread",
  "Loading from a stored file that has been cut short at any byte (value encodings, diffs, source archives, document files, history entries) returns an error, and so does loading an entry that is built on it; it never crashes, never hangs and never returns a document. Everything that does not depend on the cut file keeps loading as saved.",
  ["inputs", "crash_points"], "every strict prefix of every file written by every history of a bounded set, loaded through every public loading function, in serial and parallel mode",
  "No test loads a damaged file.",
  ["dochy_compaction/src/enc_dec", "dochy_diff/src/imp/read", "dochy_archiver2/src/imp/read_archive.rs", "dochy_fs/src/imp/history/diff_and_cache"],
  [("length-checked readers", "dochy_compaction/src/enc_dec/reader.rs; dochy_diff/src/imp/read/reader.rs; dochy_archiver2/src/imp/read_archive.rs")],
  ["load functions of dochy_fs, dochy_diff, dochy_core"])

p("C24", "Generated accessors expose exactly the declared members",
  "The code generated for a source offers, for every declared member at every nesting level, a reader (and a writer where the member is mutable) of the declared type and null/undefined form that acts on exactly that member. Table keys, references and enum values have accessors that reach exactly the row they name. Members, keys and references marked old stay accessible under a distinct name. The code compiles whenever the names of the source give distinct Rust identifiers, and two generations from the same source give the same code.",
  ["programs", "inputs"], "generated code for a source containing every member kind x declaration x container x nesting combination, compiled and driven through every generated reader and writer",
  "The generated files in the repository are compared by eye; each test uses a few accessors.",
  ["dochy_intf/src/imp", "dochy_core/src/imp/intf/member_desc.rs"],
  [("member description and code templates", "dochy_intf/src/imp/structs, dochy_core/src/imp/intf/member_desc.rs")],
  ["dochy_intf::generate_interface", "compiled generated code"])

p("C25", "An archive holds exactly the selected files and is identified by them",
  "Reading a directory into an archive takes exactly the files which the options select (extensions, subfolders), each under its path relative to the directory, converted once from its own contents. Writing the archive and reading it back, from a stream that may go on after it, gives the same files, contents and hash. The hash and the bytes of the archive depend on the relative paths and contents only, and different sets of files have different hashes.",
  ["inputs"], "every subset of a tree of files and directories under every combination of options, every pair of boundary contents, every small set of files whose names and contents run into each other, each in two places and creation orders",
  "Tests archive one sample directory.",
  ["dochy_archiver2/src/imp"],
  [("selection of files", "dochy_archiver2/src/imp/read_archive_data_from_directory.rs"), ("format and hash", "dochy_archiver2/src/imp/{read_archive,write_archive,write_items}.rs, structs/hash_thread.rs")],
  ["dochy_archiver2::{read_archive_data_from_directory, write_archive, read_archive}"])

p("C26", "The JSON form of a document reads back as the document",
  "The JSON text made from any document can be read as a source. The document read from it has the same declarations (names, types, null/undefined forms, old marks, keys, references, enums) and the same current contents: values, items with their ids and order, next ids and references, except that an undefined root list comes back empty. Its own JSON text is the same again.",
  ["inputs", "histories"], "every boundary value in every type, form and place, every sequence of edits up to a depth, and sources with every kind of declaration, exported, read and compared",
  "The manual prints one such JSON; nothing reads it back.",
  ["dochy_core/src/imp/rust_to_json", "dochy_core/src/imp/structs/my_json.rs"],
  [("conversion and text", "dochy_core/src/imp/rust_to_json, dochy_core/src/imp/structs/my_json.rs")],
  ["dochy_core::root_to_json_new_default", "Value::to_string_pretty", "dochy_core::json_dir_to_root"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
