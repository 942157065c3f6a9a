"""Static facts about each check: run counts, counting rule, components."""

META = {}

_GUARD_COMPONENTS = {
    "real": ["aiootp.asynchs.guards (all modules)", "aiootp.asynchs.loops", "asyncio tasks and futures", "Python threads (one at a time)"],
    "stub": ["event loop clock, timers and ready order", "thread scheduling", "threading.Lock", "time.sleep"],
}


def meta(prop, quick, thorough, rule, components, assumptions):
    META[prop] = {
        "runs": {"quick": quick, "thorough": thorough},
        "rule": rule, "components": components, "assumptions": assumptions,
    }


meta(
    "C01", 6000, 90000,
    "one evaluation = one simulated run; it is non-trivial when at least two contexts on one target overlapped in time from asking to leaving; two runs are distinct when their sequences of ask/enter/leave events differ",
    _GUARD_COMPONENTS,
    ["pre-emption is tried between bytecodes of the guard modules only; deque operations are atomic as in CPython"],
)
meta(
    "C02", 14000, 200000,
    "one evaluation = one simulated run; it is non-trivial when a fault (exception, cancellation, re-use) fired or contexts overlapped; two runs are distinct when their sequences of ask/enter/leave/cancel events differ",
    _GUARD_COMPONENTS,
    ["threads are not killed; cancellation is asyncio's"],
)
meta(
    "C03", 8000, 120000,
    "one evaluation = one simulated run; it is non-trivial when operations on one salt file overlapped in time or a fault fired; two runs are distinct when their sequences of operation starts, ends and results differ",
    {
        "real": ["aiootp._paths", "aiootp.asynchs.guards", "aiofiles", "pathlib", "Python's own file buffering"],
        "stub": ["kernel file system", "executor threads", "event loop clock and order", "thread scheduling", "os.urandom"],
    },
    ["processes other than the simulated one do not touch the salt files", "read errors are injected, write errors and crashes are not (see C04)"],
)
_DB_COMPONENTS = {
    "real": ["aiootp.databases", "aiootp.ciphers.Chunky2048 with all keygens and hashing", "aiootp.generics.ByteIO", "aiofiles", "pathlib", "Python's own file buffering"],
    "stub": ["kernel file system", "executor threads", "event loop clock and order", "clocks", "os.urandom", "process death and restart (only the file system survives)"],
}
meta(
    "C06", 8000, 120000,
    "one evaluation = one simulated run of a random operation sequence with reopenings and process restarts, compared step by step with the model; it is non-trivial when at least one value was read back from disk; two runs are distinct when their operation sequences differ",
    _DB_COMPONENTS,
    ["values are JSON with string keys, or bytes; stored mutable values are not changed in place by the client"],
)
meta(
    "C05", 3000, 45000,
    "one evaluation = one simulated run of two to five process lifetimes over one file system; it is non-trivial when a crash, disk fault or cancellation fired; two runs are distinct when their sequences of operations and faults differ",
    _DB_COMPONENTS,
    ["process death loses nothing the kernel accepted: power loss and lost page cache are not simulated", "a database counts as saved from its first completed save_database on"],
)
meta(
    "C07", 8000, 120000,
    "one evaluation = one simulated run: two databases and a sub-database are written, files are damaged or misplaced, and every tag is read back; it is non-trivial when at least one damaged file or index was read; two runs are distinct when their sequences of damages differ",
    _DB_COMPONENTS,
    ["the attacker or failing disk has no database key", "an earlier genuine version of a file put back under the same name is not damage"],
)
meta(
    "C09", 12000, 160000,
    "one evaluation = one simulated run of 2-5 tasks on one async database object, judged tag by tag for linearizability including the state found on reopening; it is non-trivial when at least two operations overlapped; two runs are distinct when the order of starts and ends of their operations differs",
    _DB_COMPONENTS,
    ["del and deletion of databases are not part of the concurrent histories", "the save of a whole database is judged tag by tag"],
)
meta(
    "C08", 6000, 90000,
    "one evaluation = one simulated run: a history over up to three databases with nested sub-databases sharing a directory with foreign files, one or two of them deleted, possibly interrupted or while other tasks work; it is non-trivial when the deletion removed at least one file; two runs are distinct when the operations or their order differ",
    _DB_COMPONENTS,
    ["the index of every database was saved in the session that added its last tag, unless the deleting object itself added it", "no other task uses the database that is being deleted"],
)
meta(
    "C04", 1600, 14000,
    "one evaluation = one simulated run: up to three process lives opening, filling and deleting up to three profiles in one directory, with concurrent openers and crashes, each followed by an audit in a fresh process; it is non-trivial when a stored value was read back through the profile; two runs are distinct when the order of the operations or the schedule of the openers differs",
    _DB_COMPONENTS,
    ["Passcrypt runs with its smallest cost settings", "concurrent openers store under tags of their own"],
)
_CIPHER_COMPONENTS = {
    "real": ["aiootp.ciphers (Chunky2048, Slick256, streams, padding, StreamHMAC)", "aiootp.asynchs guards and clocks", "hashlib"],
    "stub": ["network", "event loop clock and order", "thread scheduling", "clocks", "os.urandom"],
}
meta(
    "C10", 9000, 120000,
    "one evaluation = one simulated run of 1-3 sessions with one key streaming packets over a faulty network with retransmission; it is non-trivial when a session was recovered completely or its truncation reported; two runs are distinct when their sequences of fed batches and refusals differ",
    _CIPHER_COMPONENTS,
    ["damage is not chosen with knowledge of the key", "one task feeds and draws from a decryption stream"],
)
meta(
    "C11", 12000, 150000,
    "one evaluation = one simulated run of up to four feeders, two drawers and three finalizers on one stream, judged for linearizability against the decrypted text; it is non-trivial when two operations overlapped and the stream was decrypted; two runs are distinct when the order of starts and ends of their operations differs",
    _CIPHER_COMPONENTS,
    ["draws of packets from one stream do not overlap each other or its finalization", "tasks that draw or finalize are not cancelled"],
)
meta(
    "C12", 12000, 150000,
    "one evaluation = one simulated run of up to four concurrent senders of one-shot messages of a cipher or a database over a network that repeats, delays, damages, resizes, mixes and exchanges them, every arrival being decrypted and judged; it is non-trivial when at least one message was read and one refused; two runs are distinct when the order of sendings and readings or their outcomes differ",
    dict(_CIPHER_COMPONENTS, real=_CIPHER_COMPONENTS["real"] + ["aiootp.databases"], stub=_CIPHER_COMPONENTS["stub"] + ["kernel file system"]),
    ["damage is not chosen with knowledge of the key", "an altered spelling of a token that decodes to the same ciphertext may be read or refused"],
)
meta(
    "C13", 14000, 180000,
    "one evaluation = one simulated run: one datum is written under one clock reading and read up to five times under others, with clocks set, stopped and jumping before and during the calls; it is non-trivial when a read was judged; two runs are distinct when their sequences of calls, limits and outcomes differ",
    dict(_CIPHER_COMPONENTS, real=_CIPHER_COMPONENTS["real"] + ["aiootp.databases", "aiootp.keygens.Passcrypt"]),
    ["clocks read between 2023 and 2159, where a timestamp can be written", "lifetimes are whole numbers of seconds", "the queried tag is not in the database object's cache"],
)
meta(
    "C15", 4500, 60000,
    "one evaluation = one simulated run of 2-4 tasks or threads requesting up to about 600 identifiers from one or two generators with one key, under a stopped or slow clock; it is non-trivial when the clock moved between requests or several requests fell into one nanosecond; two runs are distinct when the order in which the callers obtained their sequence numbers differs",
    {"real": ["aiootp.randoms.ids (GUID, RawGUID)", "aiootp.asynchs.Clock", "aiootp keyed permutations"],
     "stub": ["clocks", "os.urandom", "thread scheduling", "event loop order"]},
    ["the clock does not run backwards", "one generator object per key and node number"],
)
meta(
    "C14", 6000, 90000,
    "one evaluation = one simulated run of up to three process lives in which up to three tasks or threads encrypt one of two contents under one key, with the clock stopped, set back and jumping; it is non-trivial when at least two ciphertexts were compared; two runs are distinct when the order of the encryptions differs",
    dict(_CIPHER_COMPONENTS, real=_CIPHER_COMPONENTS["real"] + ["aiootp.databases"], stub=_CIPHER_COMPONENTS["stub"][1:] + ["kernel file system", "process restart"]),
    ["the random source does not repeat, except in runs where every encryption falls into another second", "the ciphertext layout is the published one"],
)

meta(
    "C16", 3600, 50000,
    "one evaluation = one simulated run: either up to three process lives in which up to four tasks and threads draw random values while the entropy gatherer runs, with the clock stopped or set back, the operating system's random source stuck, cycling or repeating after restarts, and crashes while the package starts; or one gatherer whose pace is changed and which is then stopped; it is non-trivial when two values were compared or the gatherer fed its pool; two runs are distinct when the order of requests differs",
    dict(real=["aiootp.randoms", "aiootp._paths (package seed)", "aiootp.asynchs threads"], stub=["operating system random source", "clocks", "thread scheduler", "event loop", "kernel file system", "process restart"]),
    ["the package seed file is kept across restarts"],
)
meta(
    "C18", 8000, 120000,
    "one evaluation = one simulated run of up to four tasks and threads handing functions to worker threads, processes and pools, where functions take time, raise, return up to 300 kB, processes die and pools are shut down and replaced; it is non-trivial when a result was compared or an error reported; two runs are distinct when the order of the ends of their calls differs",
    dict(real=["aiootp.asynchs (Threads, Processes, loops)"], stub=["threading.Thread", "multiprocessing spawn context, processes and queues", "concurrent.futures pools", "thread scheduler", "event loop", "clocks"]),
    ["a process that dies has either sent its whole result or nothing", "the pool is reset by the caller after it broke or was shut down"],
)
meta(
    "C21", 9000, 120000,
    "one evaluation = one simulated run of up to six tasks and threads making async and sync calls of the same few operations on the same objects and on accumulating ones, in any interleaving and with some calls cancelled; it is non-trivial when a result was compared with what the sync form gives alone; two runs are distinct when the order of the ends of their calls differs",
    dict(real=["aiootp.generics", "aiootp._gentools", "aiootp._permutations", "aiootp.keygens (DomainKDF, mnemonics, keys)", "aiootp.ciphers", "aiootp.randoms", "aiofiles"], stub=["event loop", "thread scheduler", "kernel file system", "clock", "process pool", "os.urandom"]),
    ["accumulating objects are used from one event loop", "errors are compared by their type"],
)
meta(
    "C22", 2500, 40000,
    "one evaluation = one simulated run of up to three process lives that start the package and create, read, update and delete two salt files while crashes, torn and short writes, full disks, input/output errors and cancellations hit their file system calls, followed by a life without faults; it is non-trivial when a salt was read or the package started after a fault; two runs are distinct when their sequences of outcomes differ",
    dict(real=["aiootp._paths", "aiootp package import", "aiootp.randoms (package seed)", "aiofiles"], stub=["kernel file system", "process crash and restart", "event loop", "os.urandom"]),
    ["a crash ends the process; what the kernel has accepted by then is kept"],
)
meta(
    "C23", 1800, 40000,
    "one evaluation = one simulated run of up to six process lives in which people make security reports at a simulated console, mistype, decline, give up at a prompt, and have crashes, disk and read faults and clock jumps; after each of them a life without faults reads the reports with the stored keys; it is non-trivial when a report of an earlier life was read; two runs are distinct when their sequences of outcomes differ",
    dict(real=["aiootp.report_security_issue", "aiootp.databases", "aiootp.keygens (X25519, DomainKDF, Passcrypt)", "cryptography"], stub=["console", "file system", "process crash and restart", "process pool", "clock", "os.urandom", "memory per mebibyte setting is 4 KiB"]),
    ["a person gives the same address, passphrase and memory size in all of their sessions", "a crash ends the process; what the kernel has accepted by then is kept"],
)
meta(
    "C24", 2000, 40000,
    "one evaluation = one simulated run of up to three rounds in each of which two to four processes on one file system start the package, open, read and update the same salt files, or open the same new profile at the same time, with their file system calls in any order and some of them crashing; it is non-trivial when a round came to its end; two runs are distinct when the order of the file system calls differs",
    dict(real=["aiootp package import", "aiootp._paths", "aiootp.randoms (package seed)", "aiootp.databases (profiles)", "aiofiles"], stub=["kernel file system, shared by the simulated processes", "order of the processes' file system calls", "process crash", "event loop", "clock", "os.urandom", "process pool", "memory per mebibyte setting is 4 KiB"]),
    ["processes meet in the file system only", "a crash ends the process; what the kernel has accepted by then is kept"],
)
meta(
    "C25", 18000, 200000,
    "one evaluation = one simulated run in which up to five tasks and threads fill the same X25519 and Ed25519 objects or use the same key bundles for streams, with malformed keys, sources of data that fail and cancelled calls among them; it is non-trivial when an object was filled or used with at least two attempts at it; two runs are distinct when the order of the ends of their attempts differs",
    dict(real=["aiootp.keygens.curve_25519", "aiootp.ciphers (key bundles, authenticators, junctions)", "aiootp.commons", "cryptography"], stub=["event loop", "thread scheduler", "generation of secret keys (from the simulated random source)", "os.urandom"]),
    ["a bundle is set to async or sync mode by one task or thread", "the others' refusal is a PermissionError"],
)
meta(
    "C26", 12000, 160000,
    "one evaluation = one simulated run of one caller that makes asynchronous calls of a database with up to three levels, of profiles and of salt files one after the other while input/output errors and a full disk hit their file system calls; it is non-trivial when a call ended with such an error; two runs are distinct when their sequences of outcomes differ",
    dict(real=["aiootp.databases", "aiootp._paths", "aiootp.asynchs", "aiofiles"], stub=["kernel file system", "event loop", "executor threads", "process pool", "clock", "os.urandom", "memory per mebibyte setting is 4 KiB"]),
    ["cancelled calls are not considered: their file system call under way in a thread cannot be called back"],
)
meta(
    "C27", 2000, 40000,
    "one evaluation = one simulated run of up to three rounds in each of which two to four processes on one file system, or tasks and threads with database objects of their own, write and save a partition each of one database and read the others' while some crash or meet input/output errors and a full disk; it is non-trivial when a partition was read by another than its writer; two runs are distinct when the order of their file system calls or of the ends of their operations differs",
    dict(real=["aiootp.databases", "aiootp._paths", "aiootp.asynchs", "aiofiles"], stub=["kernel file system, shared by the simulated processes", "order of the processes' file system calls", "process crash", "event loop", "thread scheduler", "executor threads", "clock", "os.urandom"]),
    ["each partition has one writer and the parent's own index is saved before the partitions are handed out", "a nested sub-database is saved as a whole and read through newly opened objects", "a writer that met an error opens the database anew", "a crash ends the process; what the kernel has accepted by then is kept"],
)
meta(
    "C28", 5000, 100000,
    "one evaluation = one simulated run of up to four tasks and threads that draw random values, keys, identifiers and ciphertexts, hash passwords, use salt files, databases and profiles and give work to the thread and process pools, and in the midst of it split off processes, up to three deep, which do the same, with a good or a failing random source of the operating system and a clock that may stand still; it is non-trivial when a process that had split off drew a value; two runs are distinct when the order of the ends of their draws and splits differs",
    dict(real=["aiootp.randoms", "aiootp.ciphers", "aiootp.keygens", "aiootp.asynchs", "aiootp.databases", "aiootp._paths", "fork of the process with the thread that splits it off"], stub=["event loop", "thread scheduler", "file system", "workers and pools", "clock", "process ids", "os.urandom", "generation of secret keys (from the simulated random source)"]),
    ["a process that splits off uses objects that no other thread was using at that moment, apart from the package's own", "the processes share nothing after the split"],
)
meta(
    "C17", 9000, 120000,
    "one evaluation = one simulated run of up to five key exchanges over a network that loses, repeats, delays, damages and swaps messages, or in threads that share long-term keys, some of them with impostors; it is non-trivial when a client and a server derived keys; two runs are distinct when the order of deliveries differs",
    dict(real=["aiootp.keygens.curve_25519", "aiootp.keygens.domain_kdf", "cryptography"], stub=["network", "event loop", "thread scheduler", "generation of secret keys (from the simulated random source)"]),
    ["the tasks of one session take its messages on one event loop, or one thread does", "damage is not chosen with knowledge of secret keys"],
)
meta(
    "C19", 3000, 40000,
    "one evaluation = one simulated run of up to four sync and async callers that hash and verify passwords in a simulated worker pool, with workers that finish in any order or die and with altered hashes, passwords and limits; it is non-trivial when a hash was verified or refused; two runs are distinct when the order of outcomes differs",
    dict(real=["aiootp.keygens.passcrypt", "aiootp.asynchs.processes", "aiootp.asynchs.concurrency_interface"], stub=["process pool", "event loop", "thread scheduler", "clock", "memory per mebibyte setting is 4 KiB in most runs"]),
    ["the process pool breaks as a whole when one of its workers dies"],
)
meta(
    "C20", 3000, 40000,
    "one evaluation = one simulated run of up to four process lives that sign, save, crash, resume, summarise and verify packages, some of them altered; it is non-trivial when a summary was verified; two runs are distinct when the sequence of operations and faults differs",
    dict(real=["aiootp.keygens.package_signer", "aiootp.keygens.package_verifier", "aiootp.keygens.curve_25519", "aiootp.databases", "aiootp.keygens.passcrypt"], stub=["file system", "process pool", "memory per mebibyte setting is 4 KiB in most runs"]),
    ["resuming a session repeats the package's files and scope, as these are not stored", "reordered or reformatted summaries are not generated"],
)
