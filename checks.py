"""What check.py needs to know about each property."""
PROPS = {
    "C01": dict(runs=6000, rule="A random database, a history of edits and saves over a fresh or reused file object, with up to three faults placed inside each save."),
    "C02": dict(runs=12000, rule="A random database saved once or twice, then its file damaged (truncated, extended, bit-flipped, overwritten, blocks duplicated, swapped, removed or mixed with the other version) or taken from a crash image of the save, or written by two processes at once with their system calls interleaved, and loaded."),
    "C03": dict(runs=9000, rule="A random database stored by the library or by the reference writer and loaded under up to three read faults, or while another process saves an edited database over it, then without."),
    "C04": dict(runs=9000, rule="A random KDBX database, then a history of edits, saves and loads (on fresh or reused file objects, the loaded database replacing the current one) in a random time zone, each result compared with the reference model."),
    "C05": dict(runs=18000, rule="A random KDB database, then a history of edits, saves and loads (on fresh or reused file objects, the loaded database replacing the current one) in a random time zone, each result compared with the reference model."),
    "C06": dict(runs=8000, rule="A random KDBX database exchanged in turns with an independent implementation that uses random layout choices, with edits between."),
    "C07": dict(runs=24000, rule="A random KDB database exchanged in turns with an independent implementation that uses random layout choices, with edits between, in a random time zone."),
    "C08": dict(runs=40000, rule="A history of key changes, saves (some failing) and load attempts with keys in use, earlier keys and near misses, over three key objects and one file of each format."),
    "C09": dict(runs=200000, rule="A history of key-file loads (valid, damaged, under read faults) and password changes on one key object."),
    "C10": dict(runs=15000, rule="A mix of successful, failing and faulted loads and saves of several databases on the same objects, each fault-free operation repeated on fresh objects under the same conditions."),
    "C11": dict(runs=6000, kind="thr", rule="Two to four threads load, save, convert, edit, print and build databases and keys, with their own objects or sharing a file, a database or a key that nobody modifies, under a random schedule and sometimes a fault."),
    "C12": dict(runs=15000, rule="A mix of successful and failing loads, saves and key-file loads, run repeatedly under the same conditions with descriptors and heap blocks counted."),
    "C13": dict(runs=10000, rule="A load, save or key-file load in which one allocation, or every allocation from one on, fails."),
    "C14": dict(runs=24000, rule="A stored file of either format, a key file or an arbitrary byte string, mutated before encryption, after it, inside the hashed blocks or inside the XML, then loaded, traversed, printed, saved and loaded again."),
    "C15": dict(runs=14000, rule="The same loads and saves repeated under different clocks, locales, time zones and garbage in fresh memory, results compared."),
    "C16": dict(runs=12000, rule="Databases full of marked secrets saved and loaded with and without faults, every byte written anywhere searched for the marks."),
    "C17": dict(runs=36000, rule="Payloads written through the hashed-block and gzip streams in random chunks over a faulty sink, and read back in random chunks from a faulty source; sequences of protected values through the protected-value stream."),
    "C18": dict(runs=6000, rule="Histories of object construction and saves under a simulated entropy source, with exhaustion, restarts of the process and entropy faults."),
    "C19": dict(runs=20000, rule="A random database of one format converted to the other and back, with edits between, with obstacles (also times that are no calendar date) in some runs."),
    "C20": dict(runs=12000, rule="A history of saves, loads and key-file loads, some under faults, with everything they are given compared before and after."),
    "C21": dict(runs=18000, rule="A stored database, edits, and a save over it that meets a fault, a refusal or a crash."),
}
EVIDENCE = {
    "states": {"*": "hash of (outcome class, extent of I/O of the operation, fault situation)",
               "C11": "hash of the interleaving: which thread ran up to which of its accesses at every switch"},
    "real": {"*": ["all of /repo/src compiled from the working tree with AddressSanitizer", "zlib", "OpenSSL libcrypto", "libstdc++"],
             "C11": ["all of /repo/src compiled from the working tree with every memory access instrumented (and the members of std::string with it)", "real threads, locks and thread-local storage", "zlib, OpenSSL libcrypto and the rest of libstdc++, uninstrumented: their accesses are known only through the buffers they are given"],
             "C17": ["the stream layers of /repo/src (hashed blocks, gzip) compiled from the working tree with AddressSanitizer", "zlib", "OpenSSL libcrypto", "libstdc++"]},
    "stub": {"*": ["file system (in memory, with journal)", "wall clock", "entropy devices", "allocation failures", "process crash (disk image at a journal position)"],
             "C11": ["thread scheduler (one thread at a time, chosen at every access by a seeded policy: random gaps or priorities with change points)", "race detector (happens-before over the accesses, locks, atomics, once-initialisation and thread start and end)", "file system (in memory)", "wall clock", "entropy devices", "allocation failures"],
             "C17": ["the sink and the source next to the stream layers (partial transfers, errors, truncation, damage)", "allocation failures"],
             "C18": ["entropy sources (std::random_device, getrandom, getentropy, RAND_bytes, /dev/urandom): seeded words, low-entropy words, common prefixes after a restart of the process, failures", "file system (in memory)", "wall clock", "allocation failures"]},
    "assumptions": {"*": ["sampled, not exhaustive: seeded search over plans and faults"],
                    "C11": ["sequentially consistent interleavings only; races that need weaker orders are reported as races of the accesses", "accesses inside uninstrumented libraries that do not touch the caller's buffers are not seen"]},
}
TECH = {
    "C01": "storage faults during saves, read back against the reference model",
    "C02": "stored damage, torn writes and crash images, loaded and compared with the versions saved",
    "C03": "read faults during loads against the stored content",
    "C04": "random histories of edits, saves and loads against the reference model",
    "C05": "random histories of edits, saves and loads against the reference model, in simulated time zones",
    "C06": "two-party exchange with an independent implementation on the simulated disk",
    "C07": "two-party exchange with an independent implementation on the simulated disk",
    "C08": "random histories of key changes, saves, failing saves and load attempts",
    "C09": "random histories of key-file loads under damage and read faults",
    "C10": "differential runs of used against fresh objects after faulty operations",
    "C11": "seeded scheduler over every instrumented access, happens-before race detection, comparison with serial runs",
    "C12": "descriptor and heap accounting over faulty operation mixes",
    "C13": "allocation failures at seeded points",
    "C14": "hostile and damaged input under resource accounting",
    "C15": "differential runs under different simulated environments",
    "C16": "search of every written byte for planted secrets, with faults",
    "C17": "stream layers over simulated sinks and sources with faults, against an independent codec",
    "C18": "simulated entropy source with faults and process restarts",
    "C19": "random conversion histories against the reference model, destination audited",
    "C20": "before-and-after comparison of everything an operation is given, with faults",
    "C21": "storage faults, refusals, failing allocations and crashes during overwriting saves",
}
