#!/usr/bin/env python3
"""Source of properties.jsonl (one Python literal per property, easier to edit than JSON lines)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": state, "meaning": "state kept between calls on one object", "where": "src/kdbx.hh, src/key.hh"}]
    if observe: a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

KX, KD = "src/kdbx.cc", "src/kdb.cc"
p("C01", "KDBX export then import gives back the same database",
  "For every KDBX-representable database, exporting it with a key and importing the file with the same key yields a database equal in every stored respect: group tree and order, entries with all standard and custom fields and their protection flags, history, attachments, times (including \"never\"), auto-type, icons, metadata, custom data, seeds (32-byte master seed), rounds and compression flag. This holds with and without compression, for text and binary data of any size or content XML can carry, and for protected values with arbitrary bytes.",
  ["inputs", "configurations"], "all databases whose unprotected text is XML text without NUL and whose times lie in years 1601-9999, all keys, both compression settings",
  "The tests re-export a dozen sample files and compare the JSON of the tree, which omits most fields, metadata, history and binaries, and never vary sizes, text content or tree shapes.",
  [KX, "src/kdbx.hh", "src/stream.cc", "src/random.cc", "src/base64.hh"],
  [("XML writer/reader per object", f"{KX} Write*/Parse*"), ("time text form", f"{KX} WriteDateTime/ParseDateTime"), ("content pipeline gzip/hash/encrypt", f"{KX} Import/Export")],
  observe="KdbxFile::Export then KdbxFile::Import, compared through the public getters")
p("C02", "KDB export then import gives back the same database",
  "For every KDB-representable database, exporting it with a key and importing the file with the same key yields the same group tree in the same order and the same entries under the same groups, with every KDB-stored field (names, texts, icons, flags, UUIDs, times to the second, \"never\", attachment) and the same seeds, rounds and cipher. This holds for any tree shape, including going back up several levels and down again, and for both AES and Twofish.",
  ["inputs", "configurations"], "all trees of groups/entries with NUL-free texts, at most one attachment per entry, times in years 1900-4095 that are unambiguous local times, both ciphers, all keys",
  "Tests use sample files with a few shallow trees and compare JSON only; no generated tree shapes, texts, times or attachments.",
  [KD, "src/kdb.hh", "src/cipher.cc"],
  [("group/entry field records", f"{KD} WriteGroup/ReadGroup/WriteEntry/ReadEntry"), ("tree rebuilding from levels", f"{KD} Import"), ("packed time", f"{KD} KdbTime")],
  observe="KdbFile::Export then KdbFile::Import, compared through the public getters")
p("C03", "KDBX files interoperate with the published KDBX 3.1 format",
  "Every KDBX file this library writes is a valid KDBX 3.1 file that an independent reader of the published format decodes to exactly the exported database, and every valid KDBX 3.1 file (AES, Salsa20) written by an independent writer, in any of the textual and structural styles the format allows, is imported as the database it describes. The styles include pretty printing, any block sizes, attribute spellings, compressed, protected or inline binaries, custom icons, settings left to the parent group, unknown extra elements and absent optional elements.",
  ["inputs", "configurations"], "all representable databases; all writer styles permitted by KDBX 3.1",
  "A round trip through the library's own reader hides symmetric mistakes; tests import only a few KeePass-written samples and never check the written bytes with another reader.",
  [KX, "src/stream.cc", "src/random.cc", "src/key.cc"],
  [("header TLV", f"{KX} Import/Export"), ("inner random stream order", f"{KX} ParseProtectedString/WriteProtectedString"), ("binaries pool and inline values", f"{KX} ParseMeta/ParseEntry/WriteEntry")])
p("C04", "KDB files interoperate with the published KeePass 1.x format",
  "Every KDB file this library writes is decoded by an independent reader of the KeePass 1.x format to exactly the exported database, and every valid KDB file written by an independent writer (either cipher, arbitrary distinct group ids, any field order, empty fields, entries in any order) is imported as the database it describes.",
  ["inputs", "configurations"], "all representable databases; all writer styles permitted by the KDB 3.x format",
  "Tests read a handful of KeePass 1.x samples written by one program; symmetric writer/reader mistakes are invisible to round-trip tests.",
  [KD, "src/cipher.cc", "src/key.cc"],
  [("header layout", f"{KD} KdbHeader"), ("field records", f"{KD} ReadGroup/ReadEntry"), ("content hash", f"{KD} Import/Export")])
p("C05", "Key derivation and key files follow the KeePass definition",
  "For every password, key file (XML or 64 hex digits), their combination, seed and round count, the transformed key equals the one defined by the KeePass format: SHA-256 of the password, key-file key, their composition (KDB uses a single component unhashed), the AES-256-ECB rounds and a final SHA-256. A key file that is neither form, or of the wrong size, is rejected with an error and leaves the key as it was.",
  ["inputs", "histories"], "all passwords, key files, seeds, round counts and sequences of set-password/set-key-file operations",
  "Tests exercise the key only through three sample databases with one password and two key files.",
  ["src/key.cc", "src/key.hh", "src/cipher.cc"],
  [("composition", "src/key.cc CompositeKey::Resolve"), ("key file parsing", "src/key.cc SetKeyFile"), ("transform", "src/key.cc Transform")])
p("C06", "Only the right credentials open a database",
  "A database file, KDB or KDBX, opens with exactly the credentials it was saved with: importing it with any other password, key file or combination (component missing, added, or altered in a single bit or character) fails with the password error, and never crashes, returns data or reports another kind of error. Importing it with the right credentials always succeeds.",
  ["inputs"], "all databases, all pairs of distinct credentials, both formats and ciphers",
  "Tests try one wrong password per format on one file; random-looking wrong-key plaintext (1 in 256 passes the padding check) needs thousands of tries.",
  [KX, KD, "src/key.cc", "src/cipher.cc"],
  [("content start bytes", f"{KX} Import"), ("content hash", f"{KD} Import"), ("padding check", "src/cipher.cc decrypt_cbc")])
p("C07", "Damaged or truncated files are never read as a different database",
  "If a saved KDB or KDBX file is altered afterwards (bits flipped, bytes overwritten, blocks swapped or dropped, truncated at any point, extended, or damaged inside the encrypted content while remaining decryptable), importing it with the right key either fails with an error or returns exactly the database that was saved. It never returns a database with missing, extra or changed content.",
  ["inputs", "crash_points"], "all databases, all alterations of their file and of their decrypted content, every truncation point",
  "Tests have one corrupted sample for a single inner stream and none for whole files; truncation points and bit positions are not enumerated.",
  [KX, KD, "src/stream.cc", "src/cipher.cc"],
  [("header hash", f"{KX} Import"), ("block hashes, index, end block", "src/stream.cc hashed_istreambuf::underflow"), ("gzip end and CRC", "src/stream.cc gzip_istreambuf::underflow"), ("content hash and counts", f"{KD} Import")])
p("C08", "Importing arbitrary KDBX input is safe",
  "Importing any byte sequence as KDBX, including files whose authenticated content is malformed (missing, duplicated, misplaced or ill-typed elements, dangling references, bad times, bad base64, odd sizes), either throws a standard exception or returns a usable database; it never crashes, aborts, hangs, or reads outside its buffers. A returned database can be converted to JSON and exported again, or that export throws, without crashing.",
  ["inputs"], "all files, in particular files with valid encryption and arbitrary decrypted content",
  "Tests cover one non-KDBX file and a wrong password; malformed content behind valid encryption is unreachable by sample files.",
  [KX, "src/stream.cc", "src/base64.hh", "src/iterator.hh", "src/io.cc", "src/pugixml.cc"],
  [("header field parsing", f"{KX} Import"), ("XML object parsing", f"{KX} Parse*"), ("stream decoding", "src/stream.cc")])
p("C09", "Importing arbitrary KDB input is safe",
  "Importing any byte sequence as KDB, including files whose authenticated content is malformed (odd field sizes, missing or duplicated fields, impossible times, bad levels, duplicate ids, orphaned entries, wrong counts), either throws a standard exception or returns a usable database; it never crashes, aborts, hangs, or reads outside its buffers. A returned database can be converted to JSON and exported again, or that export throws, without crashing.",
  ["inputs"], "all files, in particular files with valid encryption and arbitrary decrypted content",
  "Tests cover two non-KDB files and a wrong password only.",
  [KD, "src/io.cc", "src/io.hh"],
  [("field record parsing", f"{KD} ReadGroup/ReadEntry"), ("tree rebuilding", f"{KD} Import"), ("time unpacking", f"{KD} KdbTime::ToTime")])
p("C10", "Ciphers and block modes compute the standard algorithms",
  "AES-256, Twofish-256 and Salsa20/20 produce the standard output for every key, IV, block and stream position, decryption inverts encryption, and ECB and CBC with PKCS#7 padding over streams produce the standard ciphertext for every length. CBC decryption inverts CBC encryption for every input and reports an error for ciphertext that is not a whole number of blocks or whose padding is invalid.",
  ["inputs"], "all keys, IVs, blocks, stream lengths and positions, ciphertext damage in length or padding",
  "Tests check a few published vectors with fixed keys and short streams.",
  ["src/cipher.cc", "src/cipher.hh"],
  [("Twofish key schedule and rounds", "src/cipher.cc TwofishCipher"), ("CBC padding", "src/cipher.cc encrypt_cbc/decrypt_cbc"), ("Salsa20 counter", "src/cipher.cc Salsa20Cipher::Process")])
p("C11", "Protected values are stored only in obfuscated form",
  "In an exported KDBX file's decrypted XML, every value marked protected in memory (standard fields, custom fields, history, binaries) appears only as base64 of its bytes XORed with the Salsa20 keystream, consumed in document order without reuse or gaps, and carries the protected mark; its plaintext appears nowhere. No stored text appears in the raw file, and values not marked protected carry no protected mark.",
  ["inputs", "configurations"], "all databases with any mix of protected and unprotected values of any length",
  "Tests never look at exported XML; a plaintext leak or keystream reuse round-trips perfectly.",
  [KX, "src/random.cc", "src/cipher.cc"],
  [("obfuscation", f"{KX} WriteProtectedString"), ("keystream position", "src/random.cc RandomObfuscator::Process"), ("binaries", f"{KX} WriteMeta/WriteEntry")])
p("C12", "The hashed block stream is lossless and detects damage",
  "For every byte sequence, block size and pattern of writes, the hashed block writer produces consecutive indexed blocks with correct SHA-256 hashes and a terminating empty block, and the reader returns exactly the written bytes from it, or from any other valid division into blocks, under any pattern of reads. If any block's index, hash, size or payload is damaged, or the stream is truncated, the reader reports an error and delivers no bytes that were not written at that position. A destination that fails makes the writer report a failure.",
  ["inputs", "histories"], "all byte sequences, block sizes, write/read patterns, damages and truncation points",
  "Tests use five fixed files with one block size and a single corrupted example.",
  ["src/stream.cc", "src/stream.hh"],
  [("block framing", "src/stream.cc hashed_ostreambuf::FlushBlock"), ("block verification", "src/stream.cc hashed_istreambuf::underflow")])
p("C13", "The gzip stream is lossless, standard and detects damage",
  "For every byte sequence and pattern of writes, the gzip writer produces a standard gzip member that an independent decoder expands to exactly those bytes, and the gzip reader returns exactly the original bytes of any valid gzip member however it was compressed and however its source delivers it. A truncated or corrupted member is reported as an error and never silently yields a shorter or different byte sequence. A destination that fails makes the writer report a failure.",
  ["inputs", "histories"], "all byte sequences, compression levels/strategies, read/write patterns, damages and truncation points",
  "Tests use four fixed files up to 16511 bytes; refill boundaries that need particular compressed sizes are never met.",
  ["src/stream.cc", "src/stream.hh"],
  [("refill loop", "src/stream.cc gzip_istreambuf::underflow"), ("flush/finish", "src/stream.cc gzip_ostreambuf::WriteOutput")])
p("C14", "Base64 is exact and bounded decoding cannot overrun",
  "Encoding produces standard padded base64 for every byte sequence, and decoding inverts it for every byte sequence, ignoring white space anywhere. Text that is not base64 (a foreign character, or a length that is not a multiple of four) is rejected with an error, and decoding into a fixed-size destination never writes outside it but throws when the data is longer.",
  ["inputs"], "all byte sequences, white-space insertions, texts and destination sizes",
  "Tests check a list of short fixed strings.",
  ["src/base64.hh", "src/iterator.hh"],
  [("encoder/decoder", "src/base64.hh"), ("bounds-checked output", "src/iterator.hh bounds_checked_iterator")])
p("C15", "I/O failures are reported, never silent",
  "If the storage fails while a database is exported (device full, size limit or write error at any byte), the export throws instead of returning as if the file had been saved; whenever an export returns normally the file holds the complete database. If reading fails while a database or key file is imported (missing file, directory, read error at any point), the import throws, while short reads or writes and interrupted calls that the system permits change nothing.",
  ["fault_sequences", "crash_points"], "every byte offset of write failure and every read call, both formats, plus short and interrupted transfers",
  "No test injects an I/O error.",
  [KX, KD, "src/key.cc", "src/io.hh"],
  [("output stream state", f"{KX} Export, {KD} Export"), ("input stream state", "src/io.hh consume, src/cipher.cc block_transform")])
p("C16", "Operations are independent of history and do not disturb their arguments",
  "The outcome of any import or export depends only on its file, database and key: reusing the same file or key object after earlier imports, exports or failures of any kind gives the same result as fresh objects. Exporting does not change the database passed in, importing does not change the file, results of separate imports share no state, and exporting the same database repeatedly gives files with the same content.",
  ["histories"], "all sequences of imports, exports, failed operations and key changes over shared objects",
  "Tests use each object once or twice, always successfully and in the same order.",
  [KX, KD, "src/key.cc"],
  [("per-file pools and header hash", f"{KX} Reset"), ("key state", "src/key.cc")],
  state="KdbxFile::binary_pool_, icon_pool_, group_pool_, header_hash_; Key::key_")
p("C17", "Imported references denote the objects of the imported tree",
  "After importing a KDBX file, the recycle bin, entry-templates group, last selected and last visible groups, each group's last visible entry, custom icons and shared attachment data are the very objects reachable in the imported database (same identity, not copies), exactly where the file says so and unset where it says nothing. Attachments that refer to the same stored binary share it, and different ones do not.",
  ["inputs"], "all databases and placements of references, from this library or other writers, including references to groups that come later in the document",
  "Tests compare JSON of the tree only; no test inspects a reference after import.",
  [KX, "src/metadata.hh", "src/group.hh"],
  [("group pool", f"{KX} GetGroup/ParseXml"), ("icon and binary pools", f"{KX} ParseMeta/ParseEntry"), ("last visible entry", f"{KX} ParseGroup")])
p("C18", "Equality of groups, entries and attachments is exact",
  "Two groups, entries, attachments or auto-type settings compare equal exactly when every field, child, history entry, attachment, association and custom field is equal in number, order and value (referenced custom icons and last-visible entries by identity); two binaries exactly when their bytes and protection flag are equal (however stored), and two icons exactly when their image data are. Equality is symmetric, != is its negation, and comparing never reads outside the objects.",
  ["inputs"], "all pairs of objects, in particular pairs differing in one field at any depth or in the number of children",
  "Tests contain no equality checks of entries or groups with differing children.",
  ["src/util.hh", "src/entry.cc", "src/group.cc", "src/binary.hh", "src/icon.hh"],
  [("vector comparison", "src/util.hh indirect_equal"), ("field comparison", "src/entry.cc operator==, src/group.cc operator==")])
p("C19", "JSON output is well-formed and faithful",
  "The JSON produced for any group, entry or attachment is well-formed JSON, whatever its texts contain and whatever the locale. Decoded, its members are exactly the icon, the non-zero times (as local date-times) and the non-empty texts (an entry's title, URL, user name, password, notes and attachments; a group's name, notes, flags, custom icon mark, sub-groups and entries, in order). KeePass 1.x meta-entries are omitted from groups and nothing else is.",
  ["inputs"], "all groups, entries and attachments with any text (UTF-8) content",
  "Tests compare JSON of a few samples whose texts contain no characters that need escaping.",
  ["src/group.cc", "src/entry.cc", "src/util.cc"],
  [("serialisation", "src/group.cc ToJson, src/entry.cc ToJson"), ("meta-entry rule", "src/entry.cc IsMetaEntry")])
p("C20", "Times mean the same instant or civil time in every time zone",
  "KDBX times denote the same instant whatever the time zone of the exporting and importing process, and KDB times denote the same local civil date and time that other KeePass 1.x programs would show, across daylight-saving changes, leap days and centuries. The \"never\" time survives import, export and conversion between the formats in every time zone.",
  ["inputs", "configurations"], "all instants in the representable ranges and all pairs of time zones",
  "All tests run with TZ=CET and fixed sample times.",
  [KX, KD, "src/util.cc"],
  [("UTC text times", f"{KX} ParseDateTime/WriteDateTime"), ("packed local times", f"{KD} KdbTime")])
p("C21", "Generated identifiers and start bytes do not repeat",
  "Identifiers given to new groups and entries are unpredictable and distinct: no two of any number of objects created in practice, in one process or many, in one thread or several, share a UUID. The start bytes of exported KDBX files likewise never repeat between exports.",
  ["histories", "schedules"], "all sequences of object creations and exports within and across processes and threads",
  "A test creates one or two identifiers; collisions of a weakly seeded generator appear only after tens of thousands.",
  ["src/util.cc", "src/random.hh", KX],
  [("UUID generation", "src/util.cc generate_uuid"), ("start bytes", "src/random.hh random_array")])
p("C22", "Separate databases can be used from separate threads",
  "Threads that each import, export, compare, convert to JSON or create objects of their own get exactly the results they would get alone, whatever the interleaving, and several threads may export, compare and convert the same unchanging database with the same key at once. No such use contains a data race.",
  ["schedules", "inputs"], "all interleavings of operations of any number of threads on separate (or shared and unchanging) objects, with importer and exporter objects of their own",
  "All tests are single-threaded.",
  [KX, KD, "src/util.cc", "src/cipher.cc", "src/key.cc"],
  [("time conversion", "src/util.cc time_to_str, src/kdb.cc KdbTime, src/kdbx.cc WriteDateTime"), ("state of importers and exporters", "src/kdbx.hh, src/kdb.hh")])
p("C23", "Foreign and unsupported files are refused as what they are",
  "A file that is not a database of the format being imported (any other signature, the other KeePass format, a short or empty file), or that needs something the library does not support (a newer major version, an unknown cipher, compression or inner stream, an unknown header field), is refused with a format error whatever credentials are given, even when everything else about it is valid and authenticated; it is never reported as a wrong password and never yields a database. A path that does not exist is reported as not found. Every minor version is accepted, and header comments are ignored.",
  ["inputs", "configurations"], "all signatures, versions, cipher, compression and stream identifiers and header fields",
  "Tests open supported files with right or wrong passwords only.",
  [KX, KD, "src/exception.hh"],
  [("signature and version checks", f"{KX} Import, {KD} Import"), ("header fields", f"{KX} Import header loop")])
p("C24", "Converting between the formats keeps what both can hold",
  "A database imported from one format and exported to the other, once or along any chain of conversions, keeps everything both formats can represent: the tree of groups in order, every entry's title, URL, user name, password and notes, its attachment, icons, creation, modification, access and expiry times, entry identifiers and the number of key transformation rounds. The converted file opens with the credentials given, and converting back gives the original content. What the target format has no place for (entries of the root group, several attachments of an entry or more than 2^32 rounds in KDB; in either format times outside its range, texts with NUL characters and nesting too deep to be read back) makes the export fail instead of being left out or cut.",
  ["inputs", "histories"], "all databases both formats can hold and all chains of conversions",
  "No test converts a database.",
  [KX, KD, "src/database.hh"],
  [("model shared by both formats", "src/group.cc, src/entry.cc, src/database.hh"), ("field mapping", f"{KD} ReadEntry/WriteEntry, {KX} ParseEntry/WriteEntry")])
p("C25", "Operations give back everything they take",
  "Importing, exporting and failing to do either releases all memory and closes all files once their results are destroyed, leaves no file other than the destination, and never needs memory out of proportion to the database (a file that merely claims huge sizes makes it allocate nothing of that size). Using the same importer, exporter or key again and again does not accumulate memory.",
  ["inputs", "histories", "fault_sequences"], "all files (valid, damaged, malformed, claiming huge sizes), credentials, read and write errors and numbers of uses",
  "Tests run once without watching memory or files; no test has an error path that a leak would be visible on.",
  [KX, KD, "src/stream.cc", "src/cipher.cc", "src/key.cc"],
  [("pools", f"{KX} Reset"), ("stream buffers", "src/stream.cc"), ("size fields", f"{KD} Import, src/stream.cc hashed_istreambuf")])
p("C26", "The object model keeps exactly what it is given",
  "Every attribute of a database, metadata, group, entry, auto-type setting, attachment, binary, icon, field, protected text or timed text reads back as the value last set and nothing else changes it; additions go to the end of their list, all of them, in order, and refer to the very objects added. New objects have the documented defaults and an identifier of their own. A copied, assigned or moved object has everything its source had, later changes of either do not reach the other, and what an object refers to lives exactly as long as something holds it. The questions objects answer (has attachments, is a KeePass 1.x meta-entry, has non-default auto-type, has non-meta entries, empty, size) and the traversal of groups (each once, in order, with its level) agree with their content.",
  ["inputs", "histories"], "all sequences of settings, additions, copies, assignments, moves and releases of objects of every kind, all trees of groups",
  "Tests never build objects: they import samples, and read a few attributes through JSON.",
  ["src/entry.hh", "src/entry.cc", "src/group.hh", "src/group.cc", "src/metadata.hh", "src/metadata.cc", "src/database.hh", "src/security.hh", "src/temporal.hh", "src/binary.hh", "src/icon.hh", "src/util.hh"],
  [("values with protection and time", "src/security.hh protect, src/temporal.hh temporal"), ("attributes and lists", "src/entry.hh, src/group.hh, src/metadata.hh, src/database.hh"), ("traversal", "src/util.hh dfs")])
p("C27", "What is edited after opening is what is saved",
  "Opening a database (or starting a new one), changing it through the public interface in any way any number of times and saving it gives a file that, opened again, holds exactly the database as it was when saved: every change made, nothing that was replaced, and everything that was not touched. Saving does not change the open database, it can be saved and edited again and again, and it makes no difference whether editing continues on the objects that were saved or on a reopened file.",
  ["histories", "inputs"], "all sequences of opening, editing (fields, attachments, icons, identifiers, times, history, groups, metadata, cipher, rounds) and saving, in either format",
  "The tests open a file and save it unchanged at most; state kept from the import (pools, identifiers, compression marks, positions) matters only when edits come in between.",
  [KX, KD, "src/entry.cc", "src/group.cc", "src/metadata.cc", "src/database.hh"],
  [("import and export", f"{KX} Import/Export, {KD} Import/Export"), ("setters", "src/entry.hh, src/group.hh, src/metadata.hh, src/database.hh")])
p("C28", "Work grows in proportion to the database",
  "The work of exporting a database, importing its file or one another program wrote, refusing a wrong key or a damaged file, converting to JSON and comparing grows in proportion to what is processed: the number of groups, entries, history entries, fields, attachments (stored, shared or unused), icons, custom data and auto-type associations, the length of texts and data, and the number of key transformation rounds. Something eight times as large takes about eight times the work, never the square of that; only where things are nested may every level handle all that is below it. Refusing a file takes no more than importing it.",
  ["inputs"], "all databases and files of either format, growing in any one respect",
  "The tests' databases have a few entries; work that grows with the square of something shows only with thousands.",
  [KX, KD, "src/stream.cc", "src/group.cc", "src/entry.cc", "src/key.cc", "src/cipher.cc", "src/util.cc"],
  [("binary and icon pools", f"{KX} ParseMeta/WriteEntry"), ("group table", f"{KD} Import"), ("streams", "src/stream.cc, src/cipher.cc")])
p("C29", "The sample program shows a database or says why it cannot",
  "Given the path of a database with the password it expects, the sample program prints exactly the JSON of the database's root group and a line break to standard output, nothing to standard error, reports success and leaves the file unchanged; a path whose last extension is .kdb is read as KeePass 1.x, any other as KDBX. Given anything else (no or several arguments, a missing path, a directory, another password, the other format, a damaged or empty file) it prints a message to standard error and nothing to standard output, and reports failure.",
  ["inputs"], "all databases of either format, all file names, all ways of failing",
  "There are no tests of the sample program.",
  ["sample/sample.cc", KX, KD, "src/util.cc"],
  [("main", "sample/sample.cc")])
p("C30", "A refused export leaves the destination as it was",
  "Exporting a database that the format cannot hold (nesting too deep, times out of its range, texts with NUL characters, and for KDB entries of the root group, several attachments of an entry or too many rounds) is refused with an error before anything is written: a file or link at the destination stays exactly as it was, in content, identity and time of modification, none is created where there was none, and no other file appears. What was refused does not affect later exports.",
  ["inputs", "histories"], "all databases that either format cannot hold, whatever is at the destination",
  "The tests only export databases that were just imported, to files that do not exist.",
  [KX, KD],
  [("Export", f"{KX} Export, {KD} Export")])
p("C31", "Running out of memory is reported, never silent",
  "When an allocation fails during an export, an import, rendering as JSON, or setting a password or key file, the operation either completes with the same result as ever (an export's file holds everything, an import's database too) or ends with a standard exception that is not the wrong-password one. It never returns normally having dropped, truncated or emptied something. After a failure all memory is given back, the database or key is as it was before, and the same operation succeeds when there is memory again.",
  ["inputs", "fault_sequences"], "all databases and keys, all allocations that may fail, alone or for good",
  "No test runs out of memory.",
  [KX, KD, "src/stream.cc", "src/io.cc", "src/pugixml.cc", "src/key.cc", "src/entry.cc", "src/group.cc"],
  [("Export", f"{KX} Export, {KD} Export"), ("Import", f"{KX} Import, {KD} Import")])
p("C32", "Operations leave the process as it was",
  "No operation of the library, whether it succeeds or fails, writes to standard output or standard error, reads standard input, or changes anything about the process that a program can observe apart from its result and its destination file: environment, time zone, C and C++ locale, state and formatting of the standard streams, working directory and umask, signal handling, rounding mode, resource limits, timers, threads, open files, new and terminate handlers, the sequences of rand() and lrand48(), and OpenSSL's queue of errors.",
  ["inputs", "histories", "fault_sequences"], "all operations on all inputs with every outcome, in all surroundings",
  "The tests look at results only.",
  [KX, KD, "src/key.cc", "src/random.hh", "src/cipher.cc", "src/entry.cc", "src/group.cc"],
  [("Import and Export", f"{KX}, {KD}"), ("times", f"{KX} ParseDateTime, {KD} KdbTime")])
p("C33", "Array streams read, write and position within their array",
  "A stream over an array reads the array's bytes and writes into it, each from its own position, and reports them: reading and writing stop exactly at the end of the array, no byte outside is ever touched, and no byte inside changes except by writing it. Both positions can be moved to any place from the beginning to the end of the array, counted from the beginning, the present position or the end, together or one without the other; a movement to a place outside is refused or ends at the nearest place inside. Encrypting and decrypting between such streams starts and ends where they are positioned.",
  ["inputs", "histories"], "all array sizes and contents, all sequences of reading, writing, putting back and moving",
  "Tests transform whole arrays of one size from the start; positions are only ever used by the way.",
  ["src/stream.hh", "src/cipher.cc", "src/util.hh"],
  [("array_iostreambuf", "src/stream.hh seekoff, seekpos and constructor"), ("transforms", "src/cipher.cc encrypt_ecb, encrypt_cbc, decrypt_cbc")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
