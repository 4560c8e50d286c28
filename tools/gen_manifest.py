#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: the checks that exist, and the properties that have none."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(R + "/properties.jsonl")]
T = {
 "C01": ("exhaustive enumeration of bounded value sequences on the real encoder and decoder", "model_checking", "every sequence of the bounded alphabet is encoded and decoded by the real code and compared with the input"),
 "C02": ("exhaustive enumeration of bounded strings on the real compaction code", "model_checking", "every string up to the bound over the alphabet is compacted and expanded by the real code"),
 "C03": ("exhaustive exploration of edit sequences on the real documents with a diff at every pair of states", "model_checking", "every state pair of the bounded edit graph is diffed and patched by the real code; states are compared through the public accessors"),
 "C04": ("exhaustive exploration of edit sequences with every chain of diffs replayed", "model_checking", "every bounded edit sequence is replayed through its diffs on the real code"),
 "C05": ("explicit-state exploration of list operations against a reference list", "model_checking", "every operation sequence up to the depth runs on the real lists and on a reference model, with all observers compared in every state"),
 "C06": ("exhaustive exploration of interleaved edit, copy, drop and diff sequences over live copies of the real document", "model_checking", "every operation sequence up to the depth over up to three live documents, each compared with a document that was never copied"),
 "C07": ("exhaustive enumeration of typed accesses on the real document", "model_checking", "every setter and getter of every type against every kind of variable from every earlier state, the whole document compared with a reference after each"),
 "C13": ("exhaustive exploration of bounded save, load, branch and restart histories on the real history store", "model_checking", "every operation sequence up to the depth and every long history with a bounded number of deviations, for every option combination of the grid, on the real store; every entry compared with what was saved"),
 "C14": ("exhaustive exploration of bounded histories, name tuples and name strings on the real listing and name code", "model_checking", "listings compared with the saves after every operation of every history; every boundary tuple and every string up to the length through the real name code"),
 "C15": ("exhaustive exploration of bounded histories times every pruning choice on the real removal code", "model_checking", "every kept subset and every number of newest entries for every bounded history, with continuation"),
 "C16": ("exhaustive exploration of bounded histories against the documented phase rule", "model_checking", "the phase of every entry compared with the rule, the files each entry needs measured by taking every file away"),
 "C08": ("exhaustive enumeration of bounded texts on the real reader against a reference reader", "model_checking", "every token sequence, escape, number, and tree printing of the bounded sets is read by the real code and compared with an independent reading of the JSON5 grammar"),
 "C09": ("exhaustive enumeration of bounded source file sets on the real readers", "model_checking", "every bounded set of source files is read as directory and archive by the real code; documents compared with a reference reading, hashes compared pairwise"),
 "C10": ("exhaustive exploration of the edit graph around base sources on the real reader against a reference reading", "model_checking", "every source within one or two edits of the base sources is read by the real code; verdict and document compared with an independent reading of the rules"),
 "C11": ("exhaustive enumeration of source evolution pairs times document states on the real conversion", "model_checking", "every pair of a bounded set of sources and every document state is converted by the real code and compared with the documented rules"),
 "C12": ("explicit-state exploration of file operation sequences against a reference store", "model_checking", "every operation sequence up to the depth runs on the real store and on a reference model; directories, listings and loads compared"),
 "C21": ("explicit-state exploration of history operation sequences over several sources against a reference store", "model_checking", "every operation sequence up to the depth over three sources on the real history store; every entry compared with the conversion of what was saved"),
 "C22": ("exhaustive enumeration of names and exploration of directory operation sequences", "model_checking", "every hash and name of the bounded sets through the real name code; every operation sequence up to the depth on the real directories"),
 "C17": ("exhaustive enumeration of stop points and torn writes on the real store", "fault_enumeration", "the process is stopped at every file-system call of every program of the set, with every length class of each write, and everything is reloaded by a new process; for short programs also every pair of stops"),
 "C18": ("exhaustive enumeration of single file-system faults on the real store", "fault_enumeration", "every file-system call of every operation of the set fails once with every error class, short transfers included; results, contents and continued use compared with the undisturbed run"),
 "C19": ("schedule exploration of the real code with a bounded number of deviations from three base policies", "model_checking", "every schedule within the bound of every program runs on the real code, one thread at a time, with choices at file-system calls, futex calls, thread starts and ends and dochy's atomic operations (an instrumented build made by check.sh; nothing in /repo is changed)"),
 "C20": ("schedule exploration of the real code with a bounded number of deviations from three base policies", "model_checking", "every schedule within the bound of every loading and saving program, intact and with each file damaged, compared with the serial result of the same code"),
 "C23": ("exhaustive enumeration of prefixes of stored data on the real readers", "model_checking", "every strict prefix of every encoding, diff, archive and stored file of the bounded sets goes through the real loading functions"),
 "C24": ("exhaustive enumeration of declarations, places and values on the compiled generated code", "model_checking", "the code generated for every combination of member kind, form and place is compiled and every function of it is driven and compared with access by name"),
 "C25": ("exhaustive enumeration of directory trees, options and contents on the real archiver", "model_checking", "every subset of a tree under every option, and every pair of boundary contents, goes through the real archiver and back"),
 "C26": ("exhaustive enumeration of values and edit sequences on the real code, exported and read back", "model_checking", "every document of the bounded sets is exported by the real code, read by the real reader and compared"),
}
NA = {}
m = {"version": 1, "setup_cmd": "./check.sh build",
     "checks": [{"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                 "evidence_file": f"evidence/{i}.json", "technique": T[i][0], "level": T[i][1], "level_note": T[i][2]} for i in ids if i in T],
     "not_applicable": [{"property": i, "reason": NA.get(i, "no check built for it yet")} for i in ids if i not in T],
     "notes": "check.sh builds /verif/mc against /repo's working tree; no hooks in /repo are needed."}
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
open(R + "/MANIFEST.json", "a").write("\n")
