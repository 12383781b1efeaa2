#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements stay reviewable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],
        **({"state":[{"name":n,"meaning":m} for n,m in state]} if state else {}),
        **({"observe_at":observe} if observe else {})}})
PW="pfp/src/passwords.rs"; ST="pfp/src/storage.rs"; CR="pfp/src/crypto.rs"; RC="pfp/src/recovery_codes.rs"
FI="pfp/src/storage_io/file.rs"; TY="pfp/src/storage_types/password.rs"; MA="cli/src/main.rs"; UT="cli/src/processor/utils.rs"
PR="cli/src/processor/"
p("C01","The vault behaves as a map from (site, name, revision) to entries",
 "After any sequence of adding, overwriting, annotating and removing passwords, aliasing and site clean-up, every lookup (existence, password value, notes, listing) gives exactly what the most recent successful change to that site/name/revision determines. An operation affects only the entry it names: all other entries, their notes and all other sites stay as they were, and an operation that fails changes nothing. Revision \"1\" is the same as no revision, one leading \"www.\" of a site name is ignored, and otherwise any difference in site, name or revision (case, blanks, punctuation, length) makes a different entry.",
 ["histories","inputs"],"all operation sequences over the library API up to a depth, over colliding site/name/revision alphabets; and a fixed history for every value of a large string domain in every argument position",
 "Unit tests run one fixed short history per operation on one fixture with four entries; they never check that other entries are untouched, and use a handful of ASCII names.",
 [PW,ST,TY],[("entry keys derived from site, name and revision",ST),("site normalisation and resolution",PW)],
 [("entries","encrypted records in the storage map")],["library API results","decrypted storage content"])
p("C02","Everything saved is read back unchanged by a later session",
 "Every successful change is in the storage file when the operation returns: loading the file again and unlocking it with the same primary password gives exactly the state the writing session had, for every site, name, revision, password and notes text, whatever characters and lengths they have. This holds after every step of a session, for any number of entries, when sessions follow each other, and when the same session goes on after other changes.",
 ["histories","inputs"],"all histories up to a depth over the file-backed store with a reload after each step, and every value of a large string domain in each stored field",
 "Tests use an in-memory store or reload once after one command with plain ASCII values.",
 [FI,PW,ST,"pfp/src/json/mod.rs"],[("serialisation and saving of the storage file",FI)],None,["storage file","second session"])
p("C03","A crash while saving never damages the storage file",
 "If the process is killed or the machine loses power at any moment of a command that changes the storage, the storage file afterwards is either exactly the state before that command or exactly the state after it; it is never missing, truncated, mixed or unreadable, and the next command works with it. Once a command has reported success its change survives a crash.",
 ["crash_points","histories"],"every mutating system call of every state-changing command and every torn write, plus every admissible loss of unsynced data at each of these points",
 "No test interrupts a save; all of them only see files written completely.",
 [FI],[("temporary file, sync and rename when saving",FI)],None,["storage file after the crash"])
p("C04","A failed save is reported and has no effect, then or later",
 "When creating, writing, syncing or replacing the storage file fails at any point (full disk, I/O error, missing permission, short write), the command reports an error instead of success and exits with failure, and the storage file still holds the complete previous state. In a session that goes on, the failed change has not happened: it is not visible, and it is not saved along with a later successful change.",
 ["fault_sequences","histories"],"every file-system call of every state-changing command failing with each of several error codes or written short, alone and in sessions that continue afterwards",
 "No test injects an I/O error; the error branches of saving are never executed.",
 [FI,PW,"cli/src/processor/shell.rs",UT],[("error propagation and rollback when saving",FI)],None,["exit code","stderr","storage file","later commands of the same shell"])
p("C05","Nothing is accessible without the right primary password",
 "Only exactly the primary password last set unlocks the storage: any other password (differing in one character, case, length, added blanks or characters, or an earlier primary password) is rejected, and after a rejected attempt the vault is as locked or unlocked as before and with the same secrets. While locked, before unlocking and after locking, every operation that reads or changes entries fails without disclosing or changing anything, and unlocking again restores full access.",
 ["histories","inputs"],"all lock/unlock/reset/operation sequences up to a depth, and every single-edit neighbour of several primary passwords",
 "Tests try one wrong password and call each operation once while locked.",
 [PW,CR,ST,UT],[("key derivation and authentication of the stored secret",PW)],[("locked","no key held in memory")],["library API results","command output"])
p("C06","Corrupted or tampered entries are detected, never returned as data",
 "If any part of an encrypted value in the storage file is altered (a bit flipped, a character changed, cut off, extended, or the value replaced by anything but a genuine value of the same storage), reading that entry gives an error or treats it as unreadable (or yields the original data if the text still encodes the same bytes); it never yields different data and never crashes the program. Entries that were not altered stay fully usable.",
 ["inputs","fault_sequences"],"every single-bit flip, every truncation and many structural edits of every value in storage files covering all entry kinds, and all of their reads",
 "Tests cover a few hand-written malformed values, and not the effect on other entries.",
 [CR,ST,PW],[("authenticated encryption and format checks",CR)],None,["library API results","command output"])
p("C07","Aliases are transparent, consistent and never hide passwords",
 "Whatever sequence of alias and password changes happened, every operation through an alias behaves exactly as on the site it stands for, an alias always leads to a regular site in one step (never to another alias or to itself), and every stored password can be reached under its own site. Making a site with passwords an alias, or a site an alias for itself (also via other aliases or a www. prefix), is refused without any change; removing an alias makes it an independent site again without touching passwords.",
 ["histories"],"all sequences of alias, un-alias, add, remove and clean-up operations up to a depth over 3 to 4 sites with www. variants",
 "Tests cover one alias level with fixed sites; chains, re-pointing, cycles and www. variants of aliases never occur.",
 [PW,ST,PR+"alias.rs",PR+"list.rs"],[("alias resolution at creation and use",PW)],[("alias","site record pointing to another site")],["library API results","alias and list commands"])
p("C08","Generated passwords are reproducible and honour length and character rules",
 "A generated password depends only on primary password, site, name, revision, length and allowed character types, equals what the documented algorithm (shared with the browser extension) yields, and is the same in every session. It has exactly the requested length, only unambiguous characters of the allowed types, and at least one character of each allowed type whenever the length permits, for every random-looking byte sequence the key derivation can produce.",
 ["inputs"],"all 15 character-type combinations, all lengths 1 to 24 and beyond, all key-derivation outputs over representative byte classes (every residue), and identifier domains",
 "Tests compare a dozen fixed passwords; the rule that forces missing character types depends on the derived bytes and is hit only by chance.",
 [CR,PW,TY,PR+"add.rs"],[("mapping of derived bytes to characters",CR),("per-password derivation input",TY)],None,["retrieved password"])
p("C09","Recovery codes restore exactly the password, for the right primary password only",
 "For every stored password, a recovery code printed for it decodes to exactly that password with the same primary password, also in another or newly initialised storage, in lower or upper case and with any punctuation, blanks and line breaks. With any other primary password it does not decode, and the code's length reveals the password length only up to whole lines.",
 ["inputs","histories"],"passwords of every byte length over several character classes up to well beyond one line and to more than 256 lines, all formatting variants, and fresh or reset storages",
 "Tests encode and decode a few fixed passwords with fixed salts.",
 [RC,PW,CR,PR+"list.rs",UT],[("block encoding with per-line checksums",RC)],None,["library API","list --recovery","add-stored --recovery"])
p("C10","Mistyped recovery codes are noticed and located, never decoded wrongly",
 "No recovery code with mistyped, missing, repeated, swapped or additional characters or lines is ever accepted as a different password: it is decoded correctly, reported as incomplete, or rejected. A line whose checksum does not match is reported as the first bad line while the lines before it are kept, extra data after a complete code is reported with the line where it starts and ignored only if the user agrees, and an incomplete code is asked to be continued.",
 ["inputs","histories"],"every single-character substitution, deletion, insertion and transposition, every line permutation, repetition and omission of several codes, and all short dialogues of entering lines",
 "Tests check a few handmade typos in one code.",
 [RC,CR,UT],[("line checksums with position-dependent start value",RC),("line-wise entry dialogue",UT)],[("accepted lines","lines already entered and verified")],["library API errors","add-stored --recovery dialogue"])
p("C11","The storage file and every other file written discloses no secrets or names",
 "In no state reachable by any command sequence does the storage file (or any other file the program writes, including temporary files, except the shell's history of entered commands) contain in readable or merely encoded form a primary password, stored or generated password, notes, site name, user name, alias or encryption key; the shell's history contains no text entered at prompts. All entry keys are opaque, and equal data under different primary passwords or resets gives unrelated keys and values.",
 ["histories","inputs"],"all command and operation sequences up to a depth with recognisable values in each field; every byte the program writes is inspected",
 "Tests never look at what is written beyond decrypting expected values.",
 [ST,CR,FI,"cli/src/processor/shell.rs"],[("encryption of values and hashing of entry keys",ST)],None,["all bytes written to any file"])
p("C12","Nonces, salts and secrets are always fresh and unpredictable",
 "Every encryption made during the lifetime of a storage uses a nonce never used before with the same key, also when the same value is written again, by another process, or into a recovery code. Every initialisation or reset creates a new random salt and a new random lookup secret, independent of each other, of the password and of anything earlier, and all of these come in full length from the system's random source.",
 ["histories","schedules"],"all histories up to a depth, in one process and in consecutive processes, under a controlled random source",
 "Unit tests replace the random generator by a constant one; integration tests never compare two runs.",
 [CR,PW,RC],[("random generator used for nonces, salt and secret",CR)],None,["all ciphertexts, salts and secrets written"])
p("C13","Storage files are interchangeable with the documented PfP file format",
 "Every file written is a complete format version 3 document that an independent implementation of the format (the browser extension) can open with the primary password and finds all sites, aliases, passwords and notes in, with nothing missing, renamed or left over. Conversely every valid document of that format, whatever order, spacing, optional fields, text escapes or salt bytes it has, is accepted with all its content usable, and content that was not changed is still there after saving.",
 ["inputs","histories"],"all files written along bounded histories decoded by an independent reader, and a bounded grammar of independently written files loaded by the program",
 "Tests read two fixtures; nothing reads the written files independently.",
 [FI,ST,CR,TY,"pfp/src/storage_types/site.rs","pfp/src/storage_types/character_set.rs"],[("file and record serialisation",ST)],None,["storage file content"])
p("C14","Existing passwords are never overwritten or erased without consent",
 "Adding a password under a site/name/revision that already exists (also when addressed through an alias or www. prefix), and setting a new primary password where a storage file already exists (readable or not), asks for confirmation unless it was waived on the command line. Unless the answer is a clear yes, nothing is changed at all, whatever else is answered, including empty lines and end of input; where nothing would be lost, nothing is asked.",
 ["histories","inputs"],"all bounded histories times all ways to address an entry times all answers at each prompt",
 "Tests answer each prompt once with y and n for one directly addressed entry.",
 [PR+"add.rs",PR+"add_stored.rs",MA],[("existence check and confirmation before storing",PR+"add.rs")],None,["prompts","storage file"])
p("C15","Listing shows every password exactly once and loses nothing",
 "In every reachable state, listing shows each stored password exactly once, under its site, with its kind and revision and (on request) correct value, recovery code, notes, length, character types and aliases; nothing is missing, stale or doubled. Listing never fails on a valid storage, and apart from dropping records of sites without passwords it changes nothing: everything retrievable before is retrievable and listed afterwards.",
 ["histories","configurations"],"all bounded histories of passwords and aliases followed by listing with every combination of options and filters, repeatedly",
 "Tests list a few fixed constellations with single options.",
 [PR+"list.rs",PW,ST],[("site enumeration, alias grouping and clean-up",PR+"list.rs")],[("site record","entry that makes a site's passwords listed")],["list output","storage file afterwards"])
p("C16","Commands do what they report, and report what they did",
 "For every command, option combination and storage state, the command succeeds (exit code 0, confirmation) exactly if the requested effect took place and is in the storage file, and otherwise reports an error, exits with failure and leaves the storage file unchanged; commands that only display never change it (listing may drop records of sites without passwords). What it displays (password, notes, alias) is what is stored, options such as revision, length and excluded character types take effect exactly as given, and every command ends in an orderly way for any input including end of input.",
 ["inputs","histories","configurations"],"all commands with all option combinations and boundary values from all states of a bounded history, with all prompt answers including end of input",
 "Tests run each command with one or two option combinations and seldom check exit codes or the file.",
 ["cli/src/args.rs",MA,PR+"mod.rs",PR+"add.rs",PR+"show.rs",PR+"notes.rs",PR+"remove.rs",PR+"alias.rs",UT],[("argument parsing and dispatch","cli/src/args.rs")],None,["exit code","stdout","stderr","storage file"])
p("C17","An interactive shell equals the same commands run one by one",
 "A sequence of commands entered in the shell has the same effects and answers as running each of them as a separate invocation, except that the primary password is asked for only once until locked. After the lock command the primary password is required again before anything is disclosed or changed; failed, unknown, malformed and refused commands (changing the primary password or the storage file, nested shell) change nothing and leave the session usable; leaving by exit or end of input saves nothing extra and succeeds.",
 ["histories"],"all command sequences up to a depth over an alphabet with quoting, errors, lock and prompts, run in one shell and one by one",
 "One test runs one fixed shell session.",
 ["cli/src/processor/shell.rs",PR+"mod.rs",UT],[("command loop reusing one session","cli/src/processor/shell.rs")],[("session","unlocked vault shared by the commands of a shell")],["answers","storage file after each command"])
p("C18","Secrets are erased from memory as soon as the vault is locked",
 "Once the vault is locked or dropped, no heap memory the program allocated, still in use or already released, holds a copy of the primary password, the encryption key, the lookup secret, or any stored or generated password or notes that were entered, shown, listed or decoded, whichever operations happened before and whether they succeeded or failed. Text received from the caller or written to the terminal is the caller's own.",
 ["histories","inputs"],"all operation sequences up to a depth and all commands, with every byte of every heap block ever allocated inspected after locking",
 "The repository's memory test needs a special build, runs fixed scenarios and is affected by stack contents.",
 [PW,CR,ST,TY,RC,"pfp/src/json/mod.rs",UT],[("secret containers erased on drop",TY)],None,["all heap memory"])
p("C19","Simultaneous invocations never corrupt the storage or see half a change",
 "When several invocations of the program work on the same storage file at the same time, at every moment and under every interleaving the file is a complete, readable state: exactly the result of one command applied to a complete earlier state. Every command running alongside either works on such a state or fails cleanly (without calling the storage missing or damaged), a change that was reported as successful before another command started (also a command entered in a shell that was already running) is never lost by that command, and no temporary files remain.",
 ["schedules"],"all interleavings at file-system calls of two or three commands, for all pairs of commands, equal and different process ids; all sequences of shell commands and other invocations up to a depth",
 "No test runs two commands at once.",
 [FI],[("private temporary file and atomic replacement when saving",FI)],None,["storage file at each step","exit codes"])
p("C20","Name and site filters select exactly the matching entries",
 "A filter selects an entry exactly if the whole name matches it, with * standing for any text (also none), ? for exactly one character and everything else for itself, case-sensitively. A site filter selects sites whose own name or whose alias target matches, and the passwords shown for them; no other passwords are shown, and no matching one is left out.",
 ["inputs"],"all patterns and names up to a length over a small alphabet with wildcards and special characters, against vaults holding all these names, at library and command level",
 "Tests use a few hand-picked patterns.",
 [PW,PR+"list.rs"],[("wildcard matching of names",PW)],None,["listing results"])
p("C21","Displayed QR codes decode to exactly the password",
 "The QR code displayed for a password, read row by row from the terminal output, is a well-formed square QR code whose decoded text is exactly that password, for every password that fits a QR code; a password that does not fit gives an error and exit with failure, never a wrong or partial code.",
 ["inputs"],"stored passwords of every length up to the QR capacity limit and all printable characters, and generated passwords, decoded by an independent QR reader",
 "One test compares the picture of one password, after trimming it.",
 [PR+"show.rs"],[("rendering of two module rows per text line",PR+"show.rs")],None,["show --qrcode output"])
p("C22","Setting a new primary password starts an empty, independent vault",
 "After a successful reset the vault contains no passwords, sites or aliases, the new primary password (and only it) unlocks it, and nothing of the earlier data, salt or secrets remains in the file or can be read with the old password. This holds from any earlier state, locked or unlocked, initialised or damaged, and the vault is unlocked and immediately usable, both in the running session and in later ones.",
 ["histories"],"resets at every point of all bounded histories, with same and different primary passwords, repeated resets, and resets of damaged files",
 "Tests reset one fixture once.",
 [PW,ST,MA,PR+"set_primary.rs"],[("clearing and re-keying of the storage",ST)],None,["library API","storage file"])
p("C23","Unusable storage files give an orderly error and stay untouched",
 "A storage file that is missing, empty, truncated, not JSON, of another application or format version, with missing, unknown, duplicate or wrongly typed top-level fields, or with missing or corrupt base data (salt, lookup secret) makes every command that needs its data end with an error message and failing exit code: without crash, endless loop or partial output presented as success. The file and its directory are left byte for byte as they were.",
 ["inputs","configurations"],"every truncation of a valid file, every single-field mutation over a value alphabet, and various special files, for every command",
 "Tests try about ten malformed files with one or two commands.",
 [FI,"pfp/src/json/macros.rs",MA,UT,ST],[("strict parsing of the storage file",FI)],None,["exit code","stderr","bytes of the file"])
p("C24","The primary password is set as typed twice, with at least six characters",
 "A new primary password is accepted only if it is at least six bytes long after removing surrounding blanks and was entered identically a second time, and is then exactly the password that unlocks; otherwise nothing is created or changed and the command fails. When unlocking, too short or wrong passwords are rejected with a message and asked for again, as often as needed, and the right one continues the requested command.",
 ["inputs","histories"],"all pairs of entries over a domain of lengths 0 to 12, blanks, and multi-byte characters, and all sequences of wrong entries up to a length before the right one",
 "Tests try one short and one mismatching entry.",
 [PR+"set_primary.rs",UT],[("length and equality checks",PR+"set_primary.rs")],None,["exit code","prompts","storage file"])
p("C25","Secrets are displayed only by the commands meant to display them",
 "Passwords, notes, the primary password and anything else typed as a password appear in the program's output only where a command is meant to display them: the password shown or listed with --show, the notes displayed or listed with --verbose, never those of other entries. They don't appear in prompts, error messages, standard error or the library's Debug and Display output, also not with wrong attempts, failing saves, malformed command lines or damaged records. A QR code replaces the text of the password, and on a terminal typed passwords aren't echoed and its settings are restored at the end.",
 ["histories","fault_sequences","inputs"],"all commands with right, wrong and missing entries in every state reached up to a depth, pairs of commands in a shell, failing file operations, damaged records, terminal sessions, and all library operations",
 "Tests compare the output of a few successful commands and know nothing about what must not be in it; error output, Debug output and terminal echo are never looked at.",
 [UT,PR+"show.rs",PR+"list.rs",PR+"notes.rs","pfp/src/error.rs",PW],[("output of commands and errors",UT),("password prompts",UT)],None,["standard output","standard error","terminal","Debug and Display output"])
p("C26","Saving keeps the storage file's permissions and never widens access to it",
 "Saving to an existing storage file leaves its mode as it was, and its owner and group as far as the system lets the user set these; a new storage file gets the user's default permissions. At no moment, also when the program is killed or an operation fails, does any file holding storage data (temporary files included) allow anyone access which the storage file didn't allow.",
 ["crash_points","fault_sequences","configurations"],"every file-system call of every changing command as the last one or failing, for all kinds of modes, umasks, and constellations of user, owner and group",
 "No test looks at file permissions.",
 [FI],[("permissions of the temporary file that replaces the storage",FI)],None,["mode, owner and group of all files"])
p("C27","Every command works on exactly the storage file named, by default the usual one",
 "Every command, shell sessions and their commands included, reads and changes exactly the file named with -c/--storage, whatever its name and path (relative, absolute, symbolic links, any bytes), or without this option the file PfP/storage.json in the user's configuration directory ($XDG_CONFIG_HOME if absolute, otherwise ~/.config). No other existing file is read as a storage, changed or removed, however similar its name; nothing else in the environment has an influence. If no file can be determined or something other than a file is named, the command fails with an error and changes nothing.",
 ["inputs","configurations"],"all commands with every way of naming the storage file (option forms, names, paths, links, working directories, environments), existing or not, among decoy storages with similar names and in usual places",
 "Tests always name a fresh temporary file with -c; they never use the default location, relative or unusual names, nor have other storages around.",
 [MA,"cli/src/args.rs",PR+"shell.rs",PR+"set_primary.rs",FI],[("choice of the storage path",MA),("saving next to the file named",FI)],None,["all files of a scratch directory, files opened, output"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    n=x["statement"].count(". ")+1
    if n>3: print(x["id"],n)
