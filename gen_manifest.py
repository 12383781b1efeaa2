#!/usr/bin/env python3
"""Writes MANIFEST.json. Checks that exist are listed in CLAIMED."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
MC, FE, EX = "model_checking", "fault_enumeration", "exploration"
CLAIMED = {
    "C01": (MC, "explicit-state model checking of the real Passwords type against a map model",
            "All operation sequences over a colliding alphabet up to the stated depth (one sub-alphabet to closure), executed on the real code; every lookup and the decrypted file compared with two plain maps after each. Trusts the reference reader (independent implementation of the format) and the fast stand-in for scrypt."),
    "C03": (FE, "exhaustive crash-point enumeration on the real program: kill before/inside every file operation and every power-loss image of the recorded operation history",
            "Every kill point (before each file operation, and torn writes) of every command and every file-system state a power loss may leave (any subset of unsynced data/metadata operations, ordered as POSIX allows); the resulting storage must be exactly the old or the new state and is then used by further commands. The file system model is stated in DESIGN.md."),
    "C04": (FE, "exhaustive fault enumeration: every file operation of every changing command fails with every errno or as a short write, singly and followed by a later successful change",
            "All fault positions for all command cases (program) and all failing saves in operation sequences of the session (library); outcome, exit code, directory content and later saves are checked."),
    "C06": (MC, "explicit enumeration of all single-bit/byte/character alterations and replacements of every encrypted value, each read by the real code in every way that reads it",
            "All single-bit flips, truncations, extensions, replacements of each value and combinations with reading operations; level of AES-GCM forgery itself is not in question."),
    "C16": (MC, "explicit-state model checking, every transition a run of the real program, against a reference model of the command line",
            "All command lines and scripted inputs of the alphabet in every storage state reached up to the stated depth; exit code, output, directory content and decrypted file compared with the reference behaviour. Bounded alphabet of names/values; terminal input (rpassword) not covered."),
    "C02": (MC, "explicit-state model checking of the real Passwords type on the file storage: every operation sequence, each state read back in a new session",
            "All operation sequences up to the stated depth plus all values of an adversarial text alphabet in every field; after each operation the file is decrypted by an independent reader and loaded again by a new session of the real code."),
    "C05": (MC, "explicit-state model checking of locking and unlocking, with every single edit of several primary passwords as an attempt",
            "All sequences of lock/unlock/reset/change operations up to the stated depth on the real code; every command of the program without the right password. One known finding (NUL characters appended)."),
    "C07": (MC, "explicit-state model checking to closure: all alias constellations of four sites on the real code, each operation repeated on the resolved site",
            "Closed state space for four sites with one password each; deeper alphabets to a bounded depth; alias invariants checked on the decrypted file."),
    "C12": (MC, "exploration of all operation sequences on the real code with nonce/salt/secret bookkeeping, replaying chosen random streams",
            "Every nonce, salt and secret appearing in any file or recovery code of all explored sequences is recorded and compared; the random source is scripted so that each byte is traced to it."),
    "C22": (MC, "explicit-state model checking: reset performed from every reachable state, in the library and by the program",
            "Reset from every state of the explored space, including damaged and locked ones; old keys, values and passwords must be gone from the file."),
    "C08": (MC, "explicit-state exploration of the digest-to-password conversion (all decisions of the algorithm, all lengths and character sets) on the real code against an independent implementation",
            "All combinations of class decisions for every length and character set with scripted digests, all generation inputs of an adversarial text alphabet, and the same inputs in different sessions."),
    "C09": (MC, "enumeration of all password lengths/contents, primary passwords and code layouts on the real encoder and decoder against an independent implementation",
            "All passwords of the text alphabet and all lengths up to the bound; each code decoded in all layouts, storages and with all wrong primary passwords. Known findings for NUL characters."),
    "C10": (MC, "explicit-state model checking of the recovery code dialogue plus enumeration of all single and double mistakes on the real decoder and the real program",
            "All single-character substitutions, omissions, repetitions, transpositions and line permutations of codes, and all dialogues up to the stated depth. Checksum collisions are classified with the reference decoder."),
    "C11": (MC, "explicit-state model checking with monitoring of every byte written: all operation and command sequences, searched for every secret in many encodings",
            "All operation sequences up to the stated depth (library), all command sequences and shell sessions (program) with all write system calls recorded; fixed list of encodings plus a strict reader that accounts for every part of the file."),
    "C13": (MC, "explicit enumeration of storage documents emitted by an independent writer in many layouts, each read by the real code and taken through operation sequences whose files an independent reader opens",
            "All documents of the layout/content alphabet and all operation sequences up to the stated depth on each; both directions compared with an independent implementation of the documented format (real scrypt parameters checked separately)."),
    "C14": (MC, "explicit-state model checking of the real program: all answer sequences at every question, for every command and storage state of the alphabet",
            "All command lines × storage states × answer sequences up to the stated length; nothing existing may change without the documented consent (answer or --assume-yes)."),
    "C23": (MC, "exhaustive enumeration of unusable storage files (all single structural changes of a valid document, truncations, wrong types) against every command",
            "All single changes of a valid document's structure plus truncations at every byte; every command run on each: orderly error, no panic, file untouched."),
    "C24": (MC, "exhaustive enumeration of entry pairs when setting and of entry sequences when unlocking, each a run of the real program (piped, in its shell and on a terminal), against a reference dialogue",
            "All pairs over a domain of lengths 0-12 bytes, blanks and multi-byte text, all sequences of attempts up to the stated length; prompts and messages counted, result decrypted by the reference reader."),
    "C25": (MC, "explicit-state model checking of the real program and library: everything displayed in every transition is searched for every secret the reference behaviour doesn't display there",
            "All commands with right and wrong entries in all states reached up to the stated depth, shell pairs, faults at every file operation, damaged records, terminal sessions with echo checked. Recognises any six characters in a row and common encodings."),
    "C26": (FE, "exhaustive enumeration of kill points and faults of every save for all modes, umasks and user constellations, with the permissions of all files compared",
            "Every file-system call of every changing command as the last one (and failing, for some modes; thorough: all); mode bits, owner and group only, no access control lists. Constellations needing privileges the environment lacks are skipped and noted."),
    "C27": (MC, "exhaustive enumeration of the ways to name the storage file and of the environment variables looked up, each with every command as a run of the real program among decoy storages, compared with the reference behaviour",
            "All combinations of option forms, a list of names (thorough: every length and every byte value), paths, links and environments with the commands; all files compared byte for byte afterwards, opened files recorded. Environment variables are those the program asks for with getenv."),
    "C15": (MC, "explicit-state model checking: every state reachable in the operation alphabets is produced by the real library, then listed by the real program with combinations of options and filters and compared with a reference listing",
            "All states reachable by operation sequences up to the stated depth, each listed completely, with other options and with filters; values with line breaks and large vaults as single states."),
    "C20": (MC, "exhaustive enumeration of all patterns and names up to a length, compared with a dynamic-programming matcher",
            "All patterns (letters and wildcards) against vaults holding all names up to the stated length, for list, list_sites and the list command; special characters up to length two."),
    "C17": (MC, "explicit-state model checking of shell sessions: all command sequences up to the stated depth, each run in one shell process and as separate invocations, outputs and decrypted files compared",
            "All sequences of the command alphabet (incl. locking, failing, malformed and refused commands) up to the stated depth and every way of leaving; each session additionally compared with the reference behaviour, some on a terminal."),
    "C21": (MC, "exhaustive enumeration of password lengths and contents across all QR modes, decoded by a strict independent QR reader",
            "All lengths from 0 to beyond the capacity for several character classes and mixtures (thorough: every length), read from the terminal output by an independent reader that checks structure, error correction and padding."),
    "C18": (MC, "explicit-state model checking of heap contents: all operation and command sequences on the real code with every released or still live memory block searched for the secrets after each step",
            "All operation sequences (library) and command sequences (program) up to the stated depth under a tracking allocator; the heap only, not stacks or registers. Known findings: the JSON parser's and the terminal reader's own buffers."),
    "C19": (MC, "stateless model checking of the real program: all interleavings of file-system calls of two or three processes under a controlling scheduler, with sleep-set partial-order reduction",
            "All pairs of commands (also with equal process ids), several kinds of storage location; every interleaving at file-system calls up to equivalence, unreduced up to a preemption bound as a cross-check. The file is opened by the reference reader after every step."),
}
NOT = {}
m = {
    "version": 1,
    "setup_cmd": "./run.sh build",
    "checks": [],
    "not_applicable": [],
    "notes": "No hooks in /repo: the seams are the public StorageIO trait, the scrypt dependency (replaced through cargo's paths/patch configuration) and the C library boundary (LD_PRELOAD).",
}
for i in ids:
    if i in CLAIMED:
        level, technique, note = CLAIMED[i]
        m["checks"].append({"property": i, "quick_cmd": f"./run.sh {i}", "thorough_cmd": f"./run.sh {i} --thorough",
                            "evidence_file": f"evidence/{i}.json", "technique": technique, "level": level, "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT.get(i, "no check has been built yet")})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
