#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = None
    assert len(title) <= 80, title
    P.append(d)

p('C01', 'A save that reports success has stored the complete database',
  "If saving a database (KDB or KDBX) returns normally, the destination file holds a complete database that loads with the same key to exactly the content saved, whatever the storage did while the file was written. If the storage refused or lost any part of it (disk full, write, seek or close error) the save reports an error by exception, conditions the operating system allows a write to meet without loss (short and interrupted writes) lose nothing, and a save repeated after the fault has gone succeeds.",
  ['fault_sequences', 'inputs', 'histories'],
  "every database content and size (from empty to several I/O buffers), both formats and both KDB ciphers, compressed or not, every position and sequence of short write, EINTR, ENOSPC, EIO, failed open and failed close, on a new or an existing destination",
  "The tests only write to a healthy disk; no test makes any write, flush or close fail, so nothing decides what a save reports when byte k of the file could not be stored.",
  ['src/kdb.cc', 'src/kdbx.cc', 'src/io.hh', 'src/io.cc', 'src/cipher.cc'],
  [('export to an output file stream, checks on the stream state', 'src/kdbx.cc: KdbxFile::Export; src/kdb.cc: KdbFile::Export'),
   ('unformatted writes with state check', 'src/io.hh, src/io.cc: conserve'), ('block encryption to the stream', 'src/cipher.cc: encrypt_cbc')],
  observe=['return or exception of Export', 'bytes in the destination file'])

p('C02', 'Damaged or half-written files are never accepted as different data',
  "Loading a database file that was damaged in storage or left behind by a save that crashed or was torn either reports an error or yields exactly the content of one complete save. It never yields altered, partial or mixed content.",
  ['crash_points', 'fault_sequences', 'inputs'],
  "every crash point during a save over a new or existing file with any subset of not yet durable writes lost, torn or reordered; every truncation, extension, bit flip, zeroed, duplicated, swapped or spliced-in block at any offset of a stored file (both formats), with the right key",
  "The tests load a handful of pristine fixture files plus one hashed-stream file with a bad block; none truncates or flips bytes at arbitrary offsets of a database file or loads what a crash leaves.",
  ['src/kdb.cc', 'src/kdbx.cc', 'src/stream.cc', 'src/cipher.cc'],
  [('content hash and entry/group counts', 'src/kdb.cc: KdbFile::Import'), ('header hash, start bytes, block hashes', 'src/kdbx.cc: KdbxFile::Import; src/stream.cc: hashed_istreambuf'),
   ('padding check', 'src/cipher.cc: decrypt_cbc'), ('gzip trailer check', 'src/stream.cc: gzip_istreambuf')],
  observe=['database or exception from Import'])

p('C03', 'A load under read faults returns the exact content or an error',
  "A load that meets read errors, short or interrupted reads, a failing open, or a file that shrinks or is overwritten while it is read either returns exactly the stored content or reports an error by exception. Short and interrupted reads alone never make a load fail, and after the fault has gone a repeated load succeeds with the exact content.",
  ['fault_sequences', 'inputs'],
  "every position and sequence of EIO, short read, EINTR, early end of file, failed open or seek, concurrent truncation or overwrite, for files of both formats and of every size around buffer boundaries",
  "All fixtures are read from a healthy file system in one piece; no test lets a read fail or return fewer bytes than asked for.",
  ['src/kdb.cc', 'src/kdbx.cc', 'src/cipher.cc', 'src/io.hh', 'src/io.cc', 'src/stream.cc'],
  [('stream state checks after reads', 'src/io.hh: consume'), ('decryption of the file in blocks', 'src/cipher.cc: decrypt_cbc'),
   ('integrity checks after decryption', 'src/kdb.cc, src/kdbx.cc: Import')],
  observe=['database or exception from Import'])

p('C04', 'KDBX saves and loads preserve everything through any history',
  "After any history of edits, saves and loads, loading the last saved KDBX file yields a database equal to the one saved: all header settings, metadata, groups, entries, histories, attachments, icons, custom fields, protection flags and their order. Relations survive as well: an entry's or group's icon, a shared attachment, the recycle bin, template, selected and visible groups and the last visible entry refer to the same element of the loaded tree.",
  ['histories', 'inputs'],
  "every tree of groups and entries (nesting up to 1000), all text that XML can carry (valid UTF-8 without NUL, including leading, trailing or only white space, line ends and control characters), arbitrary bytes in protected values and in pooled, compressed or unpooled attachments, times in years 1 to 9999, set or unset optional parts, any number of save and load cycles with edits in between",
  "The tests round-trip a few small fixture databases once; they reach neither edited or API-built databases, nor odd text, binary and time values, nor several generations of save, load and edit.",
  ['src/kdbx.cc', 'src/kdbx.hh', 'src/entry.hh', 'src/group.hh', 'src/metadata.hh', 'src/random.cc', 'src/base64.hh', 'src/pugixml.cc'],
  [('XML writer and parser pairs', 'src/kdbx.cc: WriteMeta/ParseMeta, WriteEntry/ParseEntry, WriteGroup/ParseGroup'),
   ('in-order stream obfuscation of protected values', 'src/random.cc: RandomObfuscator'), ('pools resolving references', 'src/kdbx.cc: binary_pool_, icon_pool_, group_pool_')],
  state=[('binary/icon/group pools', 'map identifiers to elements while a file is read or written', 'src/kdbx.hh')],
  observe=['database returned by Import compared with the one given to Export'])

p('C05', 'KDB saves and loads preserve everything through any history',
  "After any history of edits, saves and loads, loading the last saved KDB file yields the database saved: the shape and order of the group tree, and each group's and entry's identifier (entries), icon, texts, flags, times and attachment, and the cipher and key-transformation settings.",
  ['histories', 'inputs'],
  "every group tree of any shape (nesting up to 1000), any text without NUL, attachment bytes of any value and size with or without name, times that denote one local instant (1971 to 2900) and 'never', both ciphers, any number of save and load cycles with edits in between",
  "The tests round-trip a few fixture databases once, with regular trees and ordinary values; the tree encoding by levels has shapes they do not reach.",
  ['src/kdb.cc', 'src/kdb.hh', 'src/entry.hh', 'src/group.hh', 'src/cipher.cc', 'src/util.hh'],
  [('group and entry field writer and reader', 'src/kdb.cc: WriteGroup/ReadGroup, WriteEntry/ReadEntry'), ('tree rebuilt from levels', 'src/kdb.cc: KdbFile::Import'),
   ('packed local time', 'src/kdb.cc: KdbTime')],
  observe=['database returned by Import compared with the one given to Export'])

p('C06', 'KDBX files interoperate both ways with an independent implementation',
  "A KDBX 3.1 file the library writes is read by an independent implementation of the format to the same content, and a valid KDBX 3.1 file written by an independent implementation, with any layout choices the format allows, is loaded by the library to that file's content.",
  ['inputs', 'configurations', 'histories'],
  "databases as in C04; for foreign files any header field order, hashed block sizes, gzip levels and chunking, XML formatting, escaping and element order (among elements that carry no protected value), pooled identifiers, inline, compressed or protected binaries, and files passed back and forth between the two implementations for several generations",
  "The fixtures were written by one program in one style; a symmetric mistake in writer and reader passes every round-trip test.",
  ['src/kdbx.cc', 'src/stream.cc', 'src/cipher.cc', 'src/random.cc', 'src/key.cc', 'src/base64.hh'],
  [('KDBX header, key derivation, encryption', 'src/kdbx.cc: Import, Export'), ('block and gzip layers', 'src/stream.cc'), ('XML grammar', 'src/kdbx.cc: Parse*, Write*')],
  observe=['bytes written by Export as decoded by the independent reader', 'database returned by Import'])

p('C07', 'KDB files interoperate both ways with an independent implementation',
  "A KDB (version 3) file the library writes is read by an independent implementation of the format to the same content, and a valid KDB file written by an independent implementation, with any layout choices the format allows, is loaded by the library to that file's content.",
  ['inputs', 'configurations', 'histories'],
  "databases as in C05; for foreign files any group identifiers, field order, empty and comment fields, entry order, either cipher, and files passed back and forth between the two implementations for several generations",
  "The fixtures were written by one program in one style; a symmetric mistake in writer and reader passes every round-trip test.",
  ['src/kdb.cc', 'src/cipher.cc', 'src/key.cc'],
  [('KDB header, key derivation, encryption', 'src/kdb.cc: Import, Export'), ('field grammar', 'src/kdb.cc: Read*, Write*')],
  observe=['bytes written by Export as decoded by the independent reader', 'database returned by Import'])

p('C08', 'A database opens with exactly the key of its last save',
  "A saved database opens with every key composed of the same password and key file as the key of its last save, and with no other: any other key, including all earlier keys of the same file, is refused with the password error and yields nothing. This holds through any history of key changes, saves, loads and reuse of key objects.",
  ['histories', 'inputs'],
  "passwords of any length and bytes (empty, embedded NUL, long, near misses), key files of both kinds and any key bytes, password only, key file only, both, and neither, keys rebuilt or changed in any order between saves, both formats and both KDB ciphers, any number of transformation rounds that is practical",
  "The tests open each fixture with its one right password and try a single wrong one; no test re-keys a file, tries near-miss keys, or reuses a key object.",
  ['src/key.cc', 'src/key.hh', 'src/kdb.cc', 'src/kdbx.cc', 'src/cipher.cc'],
  [('composition and transformation of keys', 'src/key.cc: CompositeKey::Resolve, Key::Transform'), ('start bytes and content hash checks', 'src/kdbx.cc, src/kdb.cc: Import')],
  state=[('composite key', 'password and key-file parts set so far', 'src/key.hh: Key::CompositeKey')],
  observe=['database or kind of exception from Import'])

p('C09', 'Loading a key file gives exactly its key or leaves the key unchanged',
  "Loading a valid key file (XML or 64 hexadecimal digits) makes exactly the 32 bytes it encodes the key-file part of the key, keeps the password part, and replaces any earlier key-file part. A load that fails, because the file is missing, malformed, truncated or meets read errors, reports an error by exception and leaves the key as it was.",
  ['fault_sequences', 'inputs', 'histories'],
  "every 32-byte key, both encodings with any letter case and XML formatting, every truncation or damaged character, every position and sequence of read faults (EIO, short read, EINTR, failed open or seek), any order of successful and failed loads and password changes on one key",
  "The tests load well-formed key files once each; no test loads a malformed or half-readable key file and then looks at the key again.",
  ['src/key.cc', 'src/key.hh', 'src/base64.hh'],
  [('XML then text parse of a key file', 'src/key.cc: Key::SetKeyFile')],
  state=[('key-file part of the key', '32 bytes or unset', 'src/key.hh')],
  observe=['exception of SetKeyFile', 'transformed key', 'which databases the key opens'])

p('C10', 'What a file or key object did before never changes what it does next',
  "A load or save gives the same result on a file object, database or key that was used before, for any mix of successful and failed operations on the same or other files, as on fresh ones. In particular nothing of a previously handled database shows up in a later one.",
  ['histories', 'fault_sequences'],
  "every sequence of loads and saves of different databases on the same file objects, including ones that failed at any point (wrong key, missing or damaged file, I/O error, refused content), both formats",
  "Each test uses a new file object for one or two operations, so no leftover state can matter; none continues after a failure.",
  ['src/kdbx.cc', 'src/kdbx.hh', 'src/kdb.cc', 'src/key.cc'],
  [('reset of per-file state at the start of each operation', 'src/kdbx.cc: KdbxFile::Reset')],
  state=[('binary, icon and group pools, header hash', 'per-operation state kept in the file object', 'src/kdbx.hh')],
  observe=['result of each operation compared with a fresh object'])

p('C11', 'Concurrent use from several threads does not interfere',
  "Threads that load, save, build databases and keys, and print them at the same time, each with its own objects or sharing only databases and keys nobody modifies, each get the result they would get alone. No interleaving causes a data race, crash or deadlock.",
  ['schedules'],
  "every interleaving of two to four threads doing loads, saves, key transformations, JSON output and object construction on both formats with independent file objects",
  "All tests run on a single thread.",
  ['src/kdb.cc', 'src/kdbx.cc', 'src/util.cc', 'src/util.hh', 'src/random.hh', 'src/key.cc', 'src/cipher.cc', 'src/base64.hh'],
  [('no mutable shared state; function-local constants; reentrant time conversion', 'src/kdb.cc: KdbTime; src/kdbx.cc: WriteDateTime; src/util.cc')],
  observe=['per-thread results compared with solo runs', 'conflicting unsynchronised memory accesses'])

p('C12', 'Every load and save releases the resources it took',
  "However a load, a save or a key-file load ends, successfully or with an error, it closes every file it opened and releases all memory it allocated beyond what its result needs; discarding the results releases the rest. Repeating any mix of operations does not accumulate open files or memory.",
  ['histories', 'fault_sequences'],
  "every operation on both formats and on key files, ended by success, wrong key, damaged content, refused content, I/O fault or failed allocation at any point, repeated any number of times",
  "No test counts open files or memory, and almost none takes an error path.",
  ['src/kdb.cc', 'src/kdbx.cc', 'src/key.cc', 'src/stream.cc', 'src/group.hh', 'src/metadata.hh'],
  [('RAII streams and stream buffers, zlib state end', 'src/stream.cc: ~gzip_istreambuf, ~gzip_ostreambuf'), ('weak references for back links', 'src/group.hh, src/metadata.hh')],
  observe=['open file handles and live heap bytes after repeated operations'])

p('C13', 'Failing memory allocation gives an error, never a wrong result',
  "If any memory allocation fails during a load, a save or a key-file load, the operation either still delivers its exact result or reports an error by exception. It never crashes, never returns a database that differs from the file and never reports a save complete that is not, and all objects stay usable for a later attempt.",
  ['fault_sequences'],
  "every single allocation failure point and persistent failure from any point on, in loads, saves and key-file loads of both formats, including allocations made by the XML and compression layers",
  "No test makes an allocation fail.",
  ['src/kdb.cc', 'src/kdbx.cc', 'src/stream.cc', 'src/key.cc', 'src/io.cc', 'src/pugixml.cc'],
  [('exceptions from allocation and checks of allocation results', 'src/kdbx.cc: ParseXml/WriteXml; src/stream.cc constructors')],
  observe=['return or exception', 'database returned', 'file written'])

p('C14', 'Malformed and hostile files are refused with an exception, nothing worse',
  "Loading any file, including one that decrypts correctly but whose content is malformed, inconsistent or built to do harm, either yields a database or fails with an exception. It never crashes, aborts, hangs, reads or writes memory out of bounds, or uses memory and work out of proportion to the data, and any database it yields can be traversed, printed and saved or refused with an exception.",
  ['inputs', 'fault_sequences'],
  "every byte sequence as file or as decrypted or decompressed content of a file (bad sizes, levels, identifiers, references, times, numbers, base64, block headers, XML and group nesting of any depth), with a practical number of transformation rounds; also as key file",
  "The tests hold two or three malformed files; the space of malformed content behind valid encryption is untouched.",
  ['src/kdb.cc', 'src/kdbx.cc', 'src/stream.cc', 'src/key.cc', 'src/base64.hh', 'src/cipher.cc', 'src/io.hh'],
  [('format checks throwing errors', 'src/kdb.cc, src/kdbx.cc, src/stream.cc, src/base64.hh'), ('bounds-checked decoding', 'src/iterator.hh')],
  observe=['exception or database from Import and SetKeyFile', 'memory used', 'ToJson and Export of what was loaded'])

p('C15', 'Results do not depend on clock, time zone, locale or leftover memory',
  "What a load yields and what a save stores depend only on the database, the key and the file: not on the current time, the process locale, address layout or the previous content of memory. The time zone matters only for KDB files, which store local wall-clock time: saving and loading in the same zone keeps every instant, across daylight-saving rules and changes of the system clock.",
  ['configurations', 'histories'],
  "every combination of system clock value and jumps, global C++ locale, C locale and time zone rule including daylight saving, and of garbage in fresh heap and stack memory, for loads and saves of both formats",
  "The tests run in one environment: one zone, the C locale, the real clock and whatever memory content the process happens to have.",
  ['src/kdb.cc', 'src/kdbx.cc', 'src/metadata.hh', 'src/base64.hh', 'src/util.cc', 'src/format.hh'],
  [('UTC times in KDBX, packed local times in KDB', 'src/kdbx.cc: ParseDateTime/WriteDateTime; src/kdb.cc: KdbTime'), ('initialised members', 'src/metadata.hh, src/database.hh, src/entry.hh'),
   ('classic-locale character tests', 'src/base64.hh')],
  observe=['database returned by Import', 'decoded file content'])

p('C16', 'Secrets leave the process only encrypted and only to the destination',
  "A save writes nothing but the encrypted file at the destination it was given, and a load or key-file load writes nothing at all. No text, password, attachment or key material appears unencrypted in any byte written to any file or to standard output or error, also when an operation fails.",
  ['inputs', 'fault_sequences', 'histories'],
  "every database and key, both formats, compressed or not, operations that succeed, are refused or fail at any I/O fault or failed allocation",
  "No test looks at what else is written, or at the bytes of the file other than by reading it back.",
  ['src/kdb.cc', 'src/kdbx.cc', 'src/cipher.cc', 'src/key.cc'],
  [('content assembled in memory, encrypted on the way out', 'src/kdb.cc, src/kdbx.cc: Export; src/cipher.cc: encrypt_cbc')],
  observe=['every write, open and rename the process performs'])

p('C17', 'The stream layers return what was written or an error',
  "Whatever is written through the hashed-block and gzip stream layers, in chunks of any size, is read back byte for byte, in reads of any size. A reader whose input is truncated, corrupted or fails reports an error and never delivers altered data as if complete, and a writer whose output fails reports the failure. The protected-value stream covers a sequence of values, of any sizes, with one continuous key stream, so that a reader taking the same values in the same order recovers them.",
  ['inputs', 'fault_sequences'],
  "every payload size (including zero and multiples of block and buffer sizes), block size, read and write chunking, stacking of both layers, every truncation, bit flip, or failing byte position of the underlying stream, and every sequence of protected values",
  "The tests use a few payload sizes, healthy underlying streams and one corrupted block.",
  ['src/stream.cc', 'src/stream.hh', 'src/random.cc'],
  [('block index and hash verification', 'src/stream.cc: hashed_istreambuf::underflow'), ('inflate/deflate loops', 'src/stream.cc: gzip_istreambuf, gzip_ostreambuf'), ('key stream position', 'src/random.cc: RandomObfuscator')],
  observe=['bytes delivered and stream state'])

p('C18', 'Identifiers and per-save random values are fresh and never predictable',
  "New entries and groups get identifiers that do not collide, in any number that is practical and across restarts, and every KDBX save uses new random stream-start bytes. They depend only on the system entropy source, not on clock or process state, and if that source fails the operation fails with an exception instead of using predictable values.",
  ['histories', 'fault_sequences', 'configurations'],
  "histories of up to several hundred thousand identifiers and any number of saves, process restarts with identical clock and memory state, entropy-source failures at any call",
  "No test looks at generated identifiers or start bytes; collisions need many more draws than a unit test makes.",
  ['src/util.cc', 'src/random.hh', 'src/entry.cc', 'src/group.cc', 'src/kdbx.cc'],
  [('random identifiers', 'src/util.cc: generate_uuid'), ('random stream start', 'src/random.hh: random_array')],
  observe=['identifiers of new elements', 'decrypted start bytes of saved files'])

p('C19', 'Converting between formats keeps shared content and refuses the rest',
  "A database loaded from or built for one format and saved in the other keeps everything both formats can represent: group tree, names, icons, entries with identifier, title, URL, user name, password, notes, times and attachment. Content without which the target file would be invalid or entries would be lost (entries outside any group or several attachments per entry for KDB, unsuitable key-derivation seeds, a missing tree) is refused with an exception before the destination is touched, never dropped silently and never crashed on.",
  ['inputs', 'histories'],
  "every database of either format with metadata present or absent, through any chain of conversions, including databases that the target format cannot represent",
  "No test saves a database in the other format.",
  ['src/kdb.cc', 'src/kdbx.cc', 'src/database.hh'],
  [('extraction of compatible values before writing', 'src/kdb.cc: KdbFile::Export'), ('metadata writer', 'src/kdbx.cc: WriteMeta')],
  observe=['exception of Export or database loaded from the converted file'])

p('C20', 'Saving leaves the database alone, loading leaves the file alone',
  "A save, successful or failed, changes nothing in the database or key it is given, so saving twice stores the same content twice. A load or key-file load, successful or failed, changes no file and returns databases that share no state: editing one never changes another or a later load.",
  ['histories', 'fault_sequences'],
  "every database, both formats, any mix of successful and failed saves and loads, and edits of databases loaded from the same file or with the same file object",
  "The tests check the result of an operation, not that its inputs are unchanged.",
  ['src/kdb.cc', 'src/kdbx.cc', 'src/metadata.hh', 'src/key.cc'],
  [('const arguments, read-only open', 'src/kdb.cc, src/kdbx.cc: Export, Import')],
  observe=['content of the arguments before and after', 'file bytes before and after'])

p('C21', 'A failed save keeps the previous file',
  "If a save over an existing database file fails, because the database or key cannot be stored, an allocation or the entropy source fails, or the storage refuses, or the process dies before the save returns, the destination still loads as the previous version (or, after a crash, as the complete new one).",
  ['fault_sequences', 'crash_points'],
  "every kind and position of failure during a save over an existing file of either format",
  "No test makes a save over an existing file fail.",
  ['src/kdb.cc', 'src/kdbx.cc'],
  [('order of fallible work and opening of the destination', 'src/kdb.cc, src/kdbx.cc: Export')],
  observe=['file content after a failed save'])

p('C22', 'The ciphers compute the published functions',
  "For every key, initialisation vector and block, AES, Twofish and Salsa20 compute the published functions, and decryption inverts encryption.",
  ['inputs'], "all keys, vectors and blocks", "The tests use published vectors only.",
  ['src/cipher.cc'], [('block and stream ciphers', 'src/cipher.cc')])
p('C23', 'Base64 decoding accepts exactly the encodings of byte strings',
  "Encoding and then decoding any byte string gives it back, and decoding rejects every text that encodes no byte string.",
  ['inputs'], "all byte strings and texts", "The tests use a few strings.",
  ['src/base64.hh'], [('encoder and decoder', 'src/base64.hh')])
p('C24', 'JSON output is well-formed JSON',
  "The JSON text printed for any database is well-formed JSON that represents its groups and entries.",
  ['inputs'], "all databases, including texts with quotes, backslashes, control characters and binary attachments", "No test parses the printed JSON.",
  ['src/entry.cc', 'src/group.cc'], [('string concatenation', 'src/entry.cc, src/group.cc: ToJson')])
p('C25', 'Equality of databases elements is an equivalence on their content',
  "Two groups or entries compare equal exactly if all their content is equal.",
  ['inputs'], "all pairs of groups and entries, including different numbers of children", "The tests compare a few equal trees.",
  ['src/entry.cc', 'src/group.cc', 'src/util.hh'], [('member-wise comparison', 'src/util.hh: indirect_equal')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + '\n')
