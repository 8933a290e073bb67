import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p("C01","A message enciphered by one station is deciphered exactly by another",
"Any text made of supported characters (A-Z and a-z, Å Ä Ö å ä ö, digits, space and ? - . , : + /) that a station succeeds in enciphering is turned back into exactly the same text, letter case included, by any station that holds copies of the keys used. This holds whatever the length of the text, the number of keys it needs, the recipients, and the configured group size and key length.",
["inputs","configurations"],"every supported text, every key material, every group size and key length, one or many keys",
"The tests never encipher or decipher a message; no example of a round trip exists, let alone case/table switching at a key change or exact group boundaries.",
["cipher.go","diana/diana.go"],[("table and case state machine of the encoder and decoder","cipher.go"),("key change sequence and state reset","cipher.go"),("trigraph substitution","diana/diana.go")],
["Message.Encipher on one instance, Message.Decipher on another instance with the same keys"])

p("C02","Ciphertext follows the published pen-and-paper procedure",
"A person with the printed key sheets, the trigraph table and the two coding tables can decipher every message the program produces and recover the text, starting at the first letter of the named key and moving to the first letter of the next key where a key change is coded. Ciphertext contains only A-Z, fills whole groups, and every key letter taken is taken in order, at most once, and within the length of its key. Conversely the program deciphers every ciphertext that can be correctly written by hand under that procedure, redundant table or case switches and padding included.",
["inputs","configurations"],"every supported text and every hand-made code sequence, every key and group size",
"Nothing in the test suite compares ciphertext with the documented tables; a change to a table, to padding or to the key-change sequence that is symmetric in encoder and decoder passes everything.",
["cipher.go","diana/diana.go","print.go","README.md"],[("coding tables","cipher.go"),("padding to whole groups","cipher.go"),("chunks, one per key","cipher.go")],
["ciphertext and key letters after Encipher","plain text after Decipher of hand-made ciphertext"])

p("C03","Trigraph substitution is the published reciprocal table for every letter pair",
"For every pair of letters A-Z the third letter is the one in the printed DIANA table, the order of the pair does not matter, and applying the substitution to the result and either letter gives back the other. Every other input is rejected with an error, nothing is written for it, and no call ever panics; the byte, rune and keyed-append forms agree.",
["inputs"],"every pair of byte values, every rune against every letter class, every key index relative to key and output lengths",
"The unit tests try 11 of 676 pairs and 5 invalid ones, and one key.",
["diana/diana.go","diana/reciprocal-table.txt"],[("modular arithmetic","diana/diana.go"),("range checks","diana/diana.go")],["return value and output of the three public substitution functions","printed table text"])

p("C04","No key is ever used to encipher more than once",
"Over the whole life of a key store, no two messages, and no two parts of one message, that were successfully enciphered ever share a key, whether the key was chosen automatically or named by the operator, and across failed attempts, deletions, saving and reloading. A key that was used to decipher a received message is never used to encipher afterwards, and an operator's request for a used or compromised key is refused.",
["histories","crash_points"],"every sequence of send, send-with-named-key, receive, failing send, delete and save/reload operations, every recipient set",
"No test enciphers two messages; key reuse only appears over a history.",
["cipher.go","messages.go","persistence.go"],[("used mark set when a key is taken","cipher.go"),("release of keys after a failure","cipher.go"),("used mark persisted with the store","persistence.go")],
["keys named by the ciphertext of every stored message","used marks after each operation"],[("used mark","key must not be taken again","krypto431.go")])

p("C05","A failed attempt to encipher leaves no trace",
"When enciphering fails for any reason (too few keys, key too short, unsupported character, unknown or unsuitable key), every key in the store is exactly as it was before the attempt - identifier, letters, keepers and used mark - and no message is stored. The attempted message carries no ciphertext and its text is unchanged, so the attempt can be repeated after the cause is removed and then succeeds with the same keys.",
["inputs","histories","fault_sequences"],"every store, every text length up to several keys, every position of the failing character, repeated attempts",
"No failing encipherment is tested at all.",
["cipher.go","messages.go"],[("deferred release of taken keys","cipher.go"),("deferred wipe of a failed message","messages.go")],["complete key store compared before and after"])

p("C06","Only keys all addressees hold, unused and uncompromised, are chosen",
"The key chosen automatically for each part of a message is unused, not compromised, of the configured identifier length, and every addressee is one of its keepers; for a message without addressees it is a key without keepers. If such a key exists one is found, and if none exists none is returned; looking for a key changes nothing.",
["inputs","configurations"],"every small store over used/compromised/keepers/identifier length and every recipient set, first and following keys of a message",
"Key selection has no test.",
["cipher.go","functions.go"],[("key search","cipher.go"),("set inclusion of addressees in keepers","functions.go")],["returned key","keys consumed by Encipher"])

p("C07","Deciphering is all or nothing and uses up exactly the keys it read",
"After a successful decipherment every key the message runs through, and no other key, is marked used. If text offered as a received cipher message cannot be deciphered (unknown key, missing continuation key, damaged or foreign letters, ordinary text), the message is left exactly as it was received and no key changes; received ordinary text is never altered. No received text makes the program crash.",
["inputs","histories"],"every single-letter corruption, truncation and extension of traffic, every subset of the needed keys missing, every short text",
"There is no test of deciphering.",
["cipher.go","messages.go"],[("restore on failure","cipher.go"),("key stack marked on success","cipher.go")],["message fields and key store before and after"])

p("C08","A message is never refused while enough suitable keys remain",
"Enciphering succeeds for every supported text, of any length, whenever the store holds enough unused, uncompromised keys of usable length shared with all addressees. In particular no position of a capital, digit or other table or case change relative to the end of a key makes it fail, and each key but the last is filled to within a few letters plus one group of its end before the next one is taken.",
["inputs","configurations"],"every supported text around every key boundary, every group size and key length with key length at least group size + 10",
"Key boundaries are never exercised by the tests.",
["cipher.go"],[("decision to change key","cipher.go")],["error of Encipher","number of keys used"])

p("C09","Text that cannot be coded is refused, never altered, never a crash",
"A text containing any character outside the supported set is refused with an error: the program does not crash, does not drop, replace or approximate the character, and sends nothing. This holds for every Unicode character and any invalid value, at any position in the text.",
["inputs"],"every code point from 0 to 0x10FFFF and values outside that range, alone and in every coding state",
"No test passes an unsupported character.",
["cipher.go"],[("character lookup in the coding tables","cipher.go")],["result of Encipher and of creating an outgoing message"])

p("C10","A saved store loads back exactly as it was",
"Saving a store and loading it, in the same or another program run, gives back every key, message, setting and call-sign with every field equal, in order and with nothing added, whatever the receiving instance held before. Saving does not change the instance, and loaded keys and messages are immediately usable with the instance they were loaded into.",
["inputs","histories"],"every combination of field shapes for keys and messages, store sizes, receiving instances that already hold data, repeated save/load cycles",
"Nothing in the tests saves or loads.",
["persistence.go","krypto431.go"],[("serialisation","persistence.go"),("compression and encryption","persistence.go"),("re-attachment of keys and messages to the instance","persistence.go")],["all exported state before Save and after Load"])

p("C11","A crash while saving leaves the old or the new store, never neither",
"If the program is killed or the machine loses power at any point while a store is being saved over an existing one, the store file afterwards loads as either the complete previous state or the complete new state. Once saving has reported success, the new state survives a crash.",
["crash_points","histories"],"every file-system call of a save, every prefix of every write, and every loss of data not yet forced to disk",
"Tests cannot stop the program between two system calls.",
["persistence.go"],[("how the store file is replaced","persistence.go")],["store file after the crash, loaded by a fresh process"])

p("C12","Saving reports success only if the complete store was written",
"If any file-system operation during a save fails (disk full, I/O error, short write), once or persistently, then either saving reports an error and the previous store is still intact and loadable, or it reports success and the complete new store is loadable. Text printouts obey the same rule: success is reported only for a complete file.",
["fault_sequences"],"every file-system call of a save or printout, each failing with each error or short count, transiently or persistently",
"Tests run on a healthy disk.",
["persistence.go","print.go"],[("error checks of write, flush and close","persistence.go")],["error of Save and of the printout functions, files on disk"])

p("C13","A damaged store is never accepted and never corrupts what is in memory",
"A store file that was truncated, extended, bit-flipped, reordered or spliced from two files anywhere is rejected with an error, unless it still loads exactly as saved. A load that fails, for this or any other reason (missing file, wrong key), leaves the instance's keys, messages and settings as they were and does not crash.",
["inputs","fault_sequences"],"every byte position and every truncation length of a store file, every reordering or splice of its records, every failing read",
"No test loads a damaged file.",
["persistence.go"],[("authenticated encryption","persistence.go"),("checksum of the compressed stream","persistence.go"),("decoding into the instance","persistence.go")],["error of Load, instance state"])

p("C14","Secrets on disk are readable only by the owner with the right key",
"Every file the program writes that holds keys or messages is created accessible to its owner only, whatever the umask. A store opens only with the persistence key it was saved with, or the password and salt that key is derived from (PBKDF2, SHA-256, 310000 rounds), no part of its content appears in the clear, and no two saves ever reuse a nonce; stores written by the released version still open.",
["inputs","configurations","histories"],"every kind of output file, umask, key, password and salt variation, repeated saves",
"Tests write no files and use no passwords.",
["persistence.go","print.go","cmd/krypto431/keys.go","cmd/krypto431/messages.go"],[("file modes","persistence.go, print.go"),("key derivation","persistence.go"),("random nonces","persistence.go")],["file mode and bytes on disk","result of Load under a different secret"])

p("C15","Generated keys are complete, unique and uniformly random, or not made at all",
"Every generated key has an identifier of exactly one group that no other key in the store has, and letters A-Z filling whole groups up to at least the key length, each letter drawn uniformly and independently from the system's random source; its own station is not among its keepers, its keepers and expiry are those requested, and it is unused and uncompromised. If the random source fails, no key is produced. Message identifiers, persistence keys and salts are likewise drawn from that source and are unique or complete.",
["inputs","configurations","fault_sequences"],"every value the random source can deliver per letter, every forced identifier collision, every failing draw, every group size and key length",
"The existing test prints keys without checking them; uniformity is sampled with a random outcome.",
["keys.go","crand/crand.go","messages.go","functions.go","persistence.go"],[("letter generation","keys.go"),("collision retry","keys.go"),("random source","crand/crand.go")],["generated keys as a function of the bytes delivered by the random source"])

p("C16","Exporting and importing move exactly the selected keys, intact",
"Exporting produces a store with exactly the selected keys, all fields equal, and no messages; importing adds exactly the selected keys of matching identifier length, with letters, dates and marks equal, the importing station removed from and the exporting station added to the keepers. Keys already present are untouched unless overwriting was requested, in which case exactly those are replaced. The two stores share nothing afterwards: changing, wiping or deleting in one never affects the other, and neither operation alters the source or the rest of the receiver.",
["inputs","histories"],"every small store pair, selection and option combination, followed by every operation on either side",
"No test exports or imports.",
["persistence.go","keys.go"],[("copying of keys","persistence.go"),("keeper adjustment","keys.go")],["complete state of both stores"])

p("C17","Deleting removes exactly what was named and nothing else",
"Deleting keys or messages by identifier, by list, or by the line shown in a listing removes exactly the items named that exist, reports how many were removed, and leaves every other key and message, including those created from the same data, with all fields intact. Deleted letters and texts do not remain in the memory the store held.",
["inputs","histories"],"every subset and order of a small store, repeated and unknown identifiers, every later operation",
"No test deletes.",
["keys.go","messages.go"],[("swap-with-last removal after wiping","keys.go, messages.go")],["complete state of the store before and after"])

p("C18","Wiping destroys every secret even when the random source fails",
"After a key, message, store or buffer is wiped or closed, none of its key letters, texts, identifiers, passwords, persistence key or raw radiogram can be found in the memory it occupied, and the fields are empty. This holds when the random source fails completely or midway, and wiping never touches data of other objects and can be repeated.",
["inputs","fault_sequences"],"every field of every kind of object, every length, every failing draw of the random source",
"No test wipes, and none makes the random source fail.",
["krypto431.go","persistence.go"],[("random and zero overwriting","krypto431.go")],["aliases to the backing arrays held by the observer"])

p("C19","Radiograms in every documented form are understood the same way",
"For every radiogram in one of the documented forms, with any addressees, sender, date-time group, addressee list, instructions, group count, text and ending, in any letter case and with any line breaks or spacing, parsing yields exactly those addressees, sender, date-time group and text, unless the forms themselves allow the radiogram to be read in two ways. Anything else gives an error or some message, never a crash, and the raw radiogram is kept.",
["inputs"],"the product of all documented header and trailer variants with small text and call-sign alphabets, and all short token strings",
"There is no test of the parser.",
["messages.go","MESSAGE_FORMAT.md","functions.go"],[("four regular expressions tried in order","messages.go"),("trailer removal","messages.go")],["parsed fields"])

p("C20","Traffic displayed by one station, typed in at another, reproduces the message",
"The example traffic displayed for an enciphered message, keyed into the station of any addressee holding the keys, yields the same text, sender, addressees and date-time group, deciphered and with the keys marked used there. This holds for every text length, number of keys and addressees, including when it is wrapped over lines or grouped, and the displayed group count is the true number of groups.",
["inputs","histories"],"every small set of stations, recipients, text shapes and lengths, several messages in sequence in both directions",
"Nothing tests display, parsing and deciphering together.",
["print.go","messages.go","cipher.go"],[("traffic example","print.go"),("parsing and deciphering of incoming traffic","messages.go, cipher.go")],["displayed text fed to a second instance"])

p("C21","Printouts and listings show every selected item completely and correctly",
"A text, PDF or list output contains every selected key or message exactly once and no other, with all its letters in order, split in groups of the configured size, and its identifier, keepers or addressees, dates and marks as stored. Nothing is cut, merged or lost at a line end, page end or column border whatever the number and size of items and the configured widths.",
["inputs","configurations"],"key lengths, group sizes, column widths, numbers of items around page boundaries, comment and keeper lengths",
"No test produces a printout or list.",
["print.go","functions.go","keys.go","messages.go"],[("group formatting","functions.go"),("page filling","print.go"),("column prediction","functions.go")],["strings returned, text files and text extracted from PDF pages"])

p("C22","Command-line selection picks exactly the items the options describe",
"For every combination of selection options, listing, exporting, printing and confirmed deletion act on exactly the keys or messages that meet all the given conditions (or any keeper or addressee when so asked), where invalid means expired or compromised, valid means neither now nor within the given days, and naming identifiers or all overrides the rest; deletion without questions acts on the named identifiers. Items not selected are not shown, exported or changed.",
["inputs","configurations"],"every combination of selection options over a store holding every combination of key attributes",
"The command-line program has no tests.",
["cmd/krypto431/keys.go","cmd/krypto431/messages.go","functions.go"],[("filter functions","cmd/krypto431")],["standard output, exported stores and store file after running the program"])

p("C23","Changing the persistence key keeps the store and locks out the old key",
"After the program reports that the persistence key, password or salt of a store was changed, the store holds exactly the same keys, messages and settings, opens with the new secret and does not open with the old one. If the change is refused or fails, the store still opens with the old secret.",
["inputs","configurations"],"every way to give old and new secrets and combinations of conflicting or invalid options",
"The command-line program has no tests.",
["cmd/krypto431/pfk.go","persistence.go"],[("load with old secret, save with new","cmd/krypto431/pfk.go")],["store file opened with each secret"])

p("C24","Concurrent random draws never mix, share or tear",
"When several threads draw random numbers, letters, bytes or identifiers at the same time, under every interleaving each draw is computed from its own contiguous bytes of the system's random source exactly as it would be when run alone, no byte is used twice and none of a delivered block is lost. (The letters of an identifier or key, and a number drawn again because it was out of range, count as draws of their own.) No interleaving deadlocks.",
["schedules"],"all interleavings of two or three threads each making one or two draws of every kind",
"The tests are single-threaded.",
["crand/crand.go"],[("mutex around the random source","crand/crand.go")],["draw results against the ordered log of delivered bytes"])

p("C25","Traffic is shown only after the used key is safely recorded",
"Whatever sequence of command-line sessions is run, and wherever any of them is killed, ciphertext that has appeared on the output is already recorded with its keys marked used in the store on disk, so a later session never issues ciphertext with a key that was ever shown. A session that failed or was killed before that leaves the store as before or complete, and later sessions work.",
["crash_points","histories","fault_sequences"],"every system call of a session as kill or failure point, followed by further sessions",
"The command-line program has no tests, and tests cannot kill it between system calls.",
["cmd/krypto431/messages.go","persistence.go"],[("order of saving and printing","cmd/krypto431/messages.go"),("atomic replacement of the store","persistence.go")],["standard output and store file at each point"])

p("C26","Existing files are never overwritten without permission, bad settings refused",
"Saving, initialising or exporting to a file that already exists leaves that file untouched and reports an error unless overwriting was requested or the file was loaded as the store itself; an operator who is asked and declines gets the same. Settings outside the supported limits (call-sign, group size, key length, widths, salt, persistence key) are refused by the initialisation and the setters before anything is written; those within are accepted and stored.",
["inputs","configurations"],"every entry point that creates a store, with and without the target existing, every setting at and around its limits",
"No test writes a store.",
["persistence.go","krypto431.go","cmd/krypto431/initialize.go","cmd/krypto431/keys.go"],[("existence check","persistence.go"),("assertion of settings","krypto431.go")],["target file bytes, error, exit status"])

p("C27","Overlapping sessions never see or leave a half-written store",
"When two program runs work on the same store at the same time, under every interleaving of their file operations each one loads a complete store, and the store file finally holds the complete state saved by one of them. Neither run fails because of the other, and no message traffic shown by both was enciphered with the same key.",
["schedules","histories"],"all interleavings, at system-call granularity and up to a preemption bound, of two sessions that list, send or generate keys",
"Tests never run two programs at once.",
["persistence.go","cmd/krypto431/messages.go"],[("replacement of the store file","persistence.go")],["output, exit status and final store of both runs"])

p("C28","Every session does exactly what it reports, and nothing else",
"A session of the command line program changes the store exactly as the operations it was given say: generating adds exactly that many keys with the keepers, length, expiry and fresh identifiers asked for, deleting removes exactly the items named, a new message is stored once and marks exactly the keys it used, and listing, printing, exporting and operations that fail change nothing of the store beyond received traffic that is deciphered in passing. The counts and identifiers it reports are the true ones, the output files are exactly those asked for and hold exactly the items selected, and several operations in one session act one after the other, ending where one fails or finds nothing to act on.",
["inputs","histories"],"every combination of operations and options of a session on stores of several contents, and every short sequence of sessions",
"Tests never run the command line program; combinations of operations in one session and what earlier sessions left behind are not touched.",
["cmd/krypto431/keys.go","cmd/krypto431/messages.go","cmd/krypto431/initialize.go","keys.go","messages.go","persistence.go"],[("order of the operations and the one save at the end","cmd/krypto431/keys.go"),("new messages and deletion","cmd/krypto431/messages.go"),("creation of a store","cmd/krypto431/initialize.go")],
["contents of the store before and after the real program, its output, its exit status and the files it wrote"])

p("C29","The store, key, password and salt that were named are the ones used",
"Every command works on exactly the store file that was named, by the option before the environment variable before the default in the home directory, a leading ~/ meaning the home directory, and under exactly the key that was named, given directly or derived from the named password with the named salt, in the same order of precedence. It touches no other store. A value that is named and can not be used, an empty one included, or both a key and a password, is refused and never replaced by something else. All names of a command or option mean the same. A command line that can not be understood, or that asks for help, changes nothing.",
["inputs","configurations"],"every way to name the store and the secrets by option and environment, good and bad, for every command; every option with every kind of bad value",
"Tests never run the command line program; which of several given values wins is decided in the option tables and is invisible to the library tests.",
["cmd/krypto431/krypto431.go","cmd/krypto431/functions.go","cmd/krypto431/pfk.go","persistence.go"],[("options and environment variables","cmd/krypto431/krypto431.go"),("salt, key and password","cmd/krypto431/functions.go"),("home directory","persistence.go")],
["which of the stores present the real program shows or changes, and under which key a store opens afterwards"])

p("C30","Lists of call-signs read alike everywhere, keepers and addressees are sets",
"A list of call-signs or key identifiers, in one argument or several, separated by commas, spaces or other white space, is read as the same call-signs in capitals and in the order given by every function, option and radiogram that takes one; message identifiers keep their case. The keepers of a key and the addressees of a message act as sets compared without regard to case: adding one that is there changes nothing, removing takes out every occurrence and nothing else, asking for several is asking for each, and what is added is independent of the slice it came from. The station's own call-sign is never a keeper of keys it makes, whatever its spelling.",
["inputs","histories"],"every list over the separators and call-signs of several kinds, every sequence of set operations on keepers and addressees, every way to name the own call-sign",
"Tests use single call-signs without separators; which separators, spellings, repetitions and aliases occur together is up to the operator.",
["functions.go","keys.go","messages.go"],[("lists","functions.go"),("keepers","keys.go"),("addressees","messages.go")],
["the values returned and the sets after every operation, compared with mathematical sets; the slices given are changed afterwards"])

p("C31","Operations in any order leave a consistent station and never crash",
"In whatever order keys are generated, compromised, deleted, exported and imported, messages sent, received, listed and deleted, the call-sign, group size, file or key changed, and the station saved, loaded and closed, no operation crashes and each one either has its stated effect and no other or reports an error and changes nothing. At every point key and message identifiers are unique, every item belongs to its own station, and what was saved or exported is what the file opens as. A closed station holds nothing and refuses what it can no longer do, and works again once it has a key and is loaded.",
["histories"],"every sequence of operations up to a depth on a new and on a stored station with two files",
"Tests call each operation once on a fresh station; what an operation does after others, above all after closing, loading, or a change of settings, depends on the whole history.",
["krypto431.go","keys.go","messages.go","persistence.go","cipher.go","functions.go"],[("station","krypto431.go"),("keys","keys.go"),("messages","messages.go"),("files","persistence.go")],
["all fields of the station and the content of its files before and after every operation"])

with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
