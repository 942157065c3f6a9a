"""Writes /verif/properties.jsonl (kept as code so the lines stay uniform)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    anchors = {
        "files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "hook_needed": None,
    }
    if state:
        anchors["state"] = state
    if observe:
        anchors["observe_at"] = observe
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why, "anchors": anchors,
    })


G = "aiootp/asynchs/guards/"
prop(
    "C01", "Guarded contexts are mutually exclusive and admitted in arrival order",
    "While a context holding exclusive access to a target is running, no other context, exclusive or shared, in any task or thread, is running on that target. "
    "Exclusive contexts are admitted in the order in which they asked, a shared context that asked after a waiting exclusive one does not overtake it, and shared contexts may run together. "
    "Contexts on different targets never delay one another.",
    ["schedules", "histories"],
    "All interleavings of tasks on one or more event loops and of threads (pre-empted between any two bytecodes of the guard code) entering and leaving exclusive and shared contexts on a few targets through the sync and async interfaces.",
    "The tests run one hand-written arrival pattern on the real event loop with real sleeps; they never pre-empt a thread inside the admission steps and cannot enumerate arrival orders.",
    [G + "concurrency_guard.py", G + "manager.py", G + "policies.py", G + "state_machine.py"],
    [("order queue and observers deque", G + "policies.py ExclusivePolicy/NonExclusivePolicy"),
     ("per-target state shared by managed guards", G + "manager.py MultiConcurrencyGaurd"),
     ("probing entry loop", G + "concurrency_guard.py __aenter__/__enter__")],
    "order queue, observers deque, users deque per target", "entry and exit of each guarded block")
prop(
    "C02", "A guarded context that ends in any way never strands the others",
    "However a guarded context ends - normally, by an exception, by its task being cancelled while waiting, running or leaving, or by an interrupted wait - every other context waiting on the same target is eventually admitted, and the exception or cancellation reaches the caller. "
    "Once no context uses a target, nothing is retained for it. Using one guard object twice is refused without disturbing other contexts.",
    ["schedules", "fault_sequences"],
    "All schedules of tasks and threads with exceptions raised inside contexts, cancellations delivered at any suspension point, and re-use of spent guard objects.",
    "No test cancels a task that waits for or holds a guard, and liveness needs every suspension point to be tried.",
    [G + "concurrency_guard.py", G + "manager.py", G + "policies.py", G + "state_machine.py"],
    [("entry failure cleanup", G + "manager.py ManagedConcurrecyGuard.__aenter__/__enter__"),
     ("release on exit", G + "concurrency_guard.py __aexit__/__exit__"),
     ("reference cleanup", G + "manager.py _cleanup_references")],
    "order queue, observers deque, target map", "admission of later contexts; the manager's target map")
prop(
    "C03", "Salt files stay whole, stable and unreadable at rest under concurrency",
    "However many tasks and threads create, read, update and delete the salt file of one path at once, every read returns a complete salt that was the current one at some moment of that read, all openers of a path that race to create it end up with one and the same salt, and none fails for a reason other than the file having been deleted. "
    "Whenever no operation is under way the file has no permission bits set. No operation blocks the event loop while it waits.",
    ["schedules", "histories", "fault_sequences"],
    "All interleavings of sync (threads) and async (tasks, executor jobs completing in any order) salt operations on a few paths of a file system that enforces permission bits for a non-privileged owner.",
    "The tests run each operation alone and as a single caller; the races are between an executor job of one operation and a permission change of another.",
    ["aiootp/_paths.py", "aiootp/asynchs/aos.py", G + "manager.py"],
    [("guarded chmod/read/chmod and chmod/write/chmod", "aiootp/_paths.py aread_salt_file/read_salt_file/aupdate_salt_file/update_salt_file/adelete_salt_file/delete_salt_file"),
     ("check-then-create of the salt path", "aiootp/_paths.py SecureSaltPath/AsyncSecureSaltPath")],
    "salt file contents and mode bits", "returned salts, file mode between operations")
prop(
    "C04", "The same credentials always open the same profile, others never do",
    "Opening a profile with the same credentials and directory, by either the sync or the async interface, concurrently or after any number of restarts and crashes, gives access to everything saved under that profile before. "
    "Any difference in a credential gives access to none of it and does not disturb it. Deleting a profile removes its stored data and secrets so that later opening with the same credentials starts empty, and leaves other profiles intact.",
    ["schedules", "crash_points", "histories"],
    "All histories of opening, saving, crashing, reopening and deleting a few profiles in one directory, with concurrent openers and crashes at any file system step.",
    "Tests open one profile in one live process; first-use races and crashes between creating the secrets on disk and using them are never exercised.",
    ["aiootp/databases/profile_tokens.py", "aiootp/databases/async_database.py", "aiootp/databases/sync_database.py", "aiootp/_paths.py"],
    [("device and profile salts", "aiootp/databases/profile_tokens.py _summon_device_salt/_summon_profile_salt"),
     ("profile construction and deletion", "aiootp/databases/*_database.py generate_profile/delete_database")],
    "salt files, database files", "tags and values visible after opening")
prop(
    "C05", "A crash or disk fault never loses data that was already saved",
    "If the process dies, the calling task is cancelled, or a disk write fails, at any moment during any operation on a database that was saved before, the database reopened with the same key opens, and each tag reads as the value of its last completed save or as a value that the interrupted operation was storing or removing. "
    "Tags the interrupted operation did not touch are unaffected. A failed write is reported to the caller and saving again once the disk works makes the new values durable.",
    ["crash_points", "fault_sequences", "histories"],
    "All histories of saves, reads and deletions on sync and async databases (with sub-databases), cut at any file system call with the call in progress not done, done in part, or done; and with input/output errors, full disk and short writes at any call.",
    "The tests never interrupt a save; the damage is only visible when the cut falls between truncating and rewriting a file or between two files.",
    ["aiootp/databases/async_database.py", "aiootp/databases/sync_database.py", "aiootp/generics/byte_io.py"],
    [("manifest and tag file writes", "aiootp/databases/*_database.py save_database/save_tag/set_tag/pop_tag"),
     ("file writing", "aiootp/generics/byte_io.py write/awrite")],
    "manifest and tag files", "values read after reopening")
prop(
    "C06", "A database behaves like a persistent map for one client",
    "For any sequence of setting, reading, removing, saving, reverting and cache-clearing of tags on a database and its named sub-databases, each read returns exactly what a simple model with a working copy and a saved copy returns. "
    "Closing and reopening, by the sync or the async interface interchangeably, shows exactly what was saved. JSON values and raw bytes come back equal to what was stored.",
    ["histories", "configurations", "inputs"],
    "All operation sequences over a few tags, sub-databases and both interfaces, with any preload, manual and silent settings, restarts between any two operations.",
    "The tests check single operations from a fresh state; sequences mixing uncached saves, reverts, sub-databases and reopenings are unbounded.",
    ["aiootp/databases/async_database.py", "aiootp/databases/sync_database.py", "aiootp/databases/database_properties.py", "aiootp/databases/dbkdf.py"],
    [("cache and manifest bookkeeping", "aiootp/databases/database_properties.py"),
     ("set/query/pop/rollback/save", "aiootp/databases/*_database.py")],
    "cache, manifest, files", "results of queries, tag sets, lengths, membership")
prop(
    "C07", "Damaged or misplaced database files are reported, never believed",
    "If a stored database file is altered in any byte, truncated, emptied, extended, removed, or put in the place of another tag's or another database's file, reading it (or opening the database, for the index file) raises an error or reports the value as missing when missing values are asked to be tolerated and the file is gone. "
    "It never yields data that was not stored under that name in that database. Undamaged tags remain readable.",
    ["fault_sequences", "histories"],
    "All placements of bit flips, truncations, tails, swaps, removals and read faults over the files of several databases, before any later operation, through both interfaces.",
    "Tests flip a few chosen bytes of a whole ciphertext; which file, which length and which later operation meets the damage is unbounded.",
    ["aiootp/databases/async_database.py", "aiootp/databases/sync_database.py", "aiootp/ciphers/cipher_interface.py", "aiootp/ciphers/stream_hmac.py"],
    [("per-file authenticated encryption", "aiootp/databases/dbkdf.py, aiootp/ciphers/cipher_interface.py"),
     ("missing-file handling", "aiootp/databases/*_database.py _query_ciphertext/query_tag")],
    "database files", "query results and errors")
prop(
    "C08", "Deleting a database removes all of its files and nothing else",
    "After deleting a database, or a named sub-database, no file of it or of its sub-databases remains and every other file in the directory is untouched. "
    "Using the deleted object afterwards does not recreate files, and opening with the same key again starts empty. A deletion cut short by a crash or disk error leaves the databases above it usable and is completed by opening the saved database and deleting it again.",
    ["histories", "schedules", "fault_sequences"],
    "All histories of saving, partial saving, nesting and deleting over several databases sharing a directory with unrelated files, with concurrent tasks for the async interface.",
    "The tests delete one freshly made database in a directory of its own.",
    ["aiootp/databases/async_database.py", "aiootp/databases/sync_database.py"],
    [("delete_database / delete_metatag", "aiootp/databases/*_database.py")],
    "directory contents", "directory listing before and after")
prop(
    "C09", "Concurrent tasks using one async database see one consistent map",
    "When several tasks use the same async database object at once, the values they read, and the values found after the final save and reopening, are those of some order of their operations that respects the order in which non-overlapping operations happened. "
    "Concurrent requests for the same sub-database name obtain the same sub-database, so nothing stored through one handle is lost to another. A save that overlaps other operations does not fail.",
    ["schedules", "histories"],
    "All interleavings of tasks and executor jobs issuing set, read, remove, revert, save, cache-clearing and sub-database operations on a few tags of one object.",
    "The tests await operations one at a time.",
    ["aiootp/databases/async_database.py"],
    [("awaits between cache lookup, file read and cache fill", "aiootp/databases/async_database.py aquery_tag/apop_tag/asave_database"),
     ("sub-database creation", "aiootp/databases/async_database.py ametatag")],
    "cache, manifest, files", "operation results, state after reopening")
prop(
    "C10", "A streamed ciphertext is recovered exactly or the damage is reported",
    "A receiver that feeds an online decryption stream with packets from an unreliable network obtains, in order, exactly the plaintext the sender streamed: a damaged, repeated, reordered or foreign packet is refused when it is fed, before any of its plaintext is released, and the stream continues once the expected packet is fed. "
    "Only the complete, unmodified ciphertext passes final authentication. Both ciphers and both the sync and async interfaces behave alike and interoperate.",
    ["fault_sequences", "schedules", "inputs"],
    "All message contents and chunkings and all sequences of loss, duplication, reordering, delay, corruption, truncation and injection of packets, with retransmission.",
    "The tests corrupt one chosen block of one stream; sequences of faults with recovery and partial deliveries are unbounded.",
    ["aiootp/ciphers/decipher_streams.py", "aiootp/ciphers/cipher_streams.py", "aiootp/ciphers/stream_hmac.py", "aiootp/ciphers/stream_junction.py"],
    [("block id test before decryption", "aiootp/ciphers/decipher_streams.py buffer/abuffer"),
     ("final tag", "aiootp/ciphers/stream_hmac.py finalize/test_shmac")],
    "stream buffers, running authenticator", "released plaintext, raised errors")
prop(
    "C11", "Concurrent buffering keeps a stream whole and closes it exactly once",
    "When several tasks or threads feed chunks to one encryption stream while packets are drawn from it, the decrypted result is the concatenation of the chunks in the order in which the feeds were admitted, with none lost, repeated or interleaved, for any chunk sizes. "
    "A feed that is cancelled is in the result wholly or not at all. "
    "Finalizing can happen once: later feeding or finalizing is refused, and nothing accepted before is lost.",
    ["schedules", "inputs"],
    "All interleavings of feeding, drawing and finalizing tasks or threads on one stream, for both ciphers and interfaces, over all chunk lengths around block boundaries.",
    "The tests feed from one task; racing feeders and finalizers need many schedules.",
    ["aiootp/ciphers/cipher_streams.py", "aiootp/ciphers/decipher_streams.py", "aiootp/ciphers/stream_properties.py"],
    [("guarded buffering", "aiootp/ciphers/cipher_streams.py buffer/abuffer"),
     ("single finalization", "aiootp/ciphers/cipher_streams.py finalize/afinalize")],
    "stream buffers, finalizing deque", "decrypted output, errors")
prop(
    "C12", "One-shot messages and tokens are delivered as sent or rejected",
    "Messages encrypted as bytes, JSON or url-safe tokens by a cipher or a database and sent through an unreliable network are each decrypted by a holder of the key to exactly what was sent under the same associated data (and file name, for a database), or rejected with an error when anything in the encrypted content was changed, mixed with another message, or presented with another key or associated data. "
    "The sync and async interfaces interoperate, and calls running concurrently on one cipher object never affect each other's results.",
    ["fault_sequences", "schedules", "inputs"],
    "All sequences of messages of both ciphers and all encodings, network corruption, truncation, splicing and misdelivery, with concurrently running encryptions and decryptions sharing cipher objects.",
    "The tests change chosen fields of single messages in a quiet program.",
    ["aiootp/ciphers/cipher_interface.py", "aiootp/ciphers/key_bundle.py", "aiootp/ciphers/stream_hmac.py", "aiootp/ciphers/padding.py", "aiootp/ciphers/dual_output_shake_cipher.py", "aiootp/ciphers/shake_permute_cipher.py"],
    [("encrypt/decrypt families", "aiootp/ciphers/cipher_interface.py"),
     ("authentication before release", "aiootp/ciphers/cipher_interface.py bytes_decrypt")],
    "key bundle and authenticator state per call", "decrypted values, errors")
prop(
    "C13", "Lifetimes are enforced against the clock whatever the clock does",
    "Data read with a lifetime limit is rejected exactly when the reader's clock shows that more than that many seconds, or units of the timestamp's clock, have passed since the writer's clock time, with both clocks free to drift, jump and be stalled, for messages, tokens, streams, stored tags, password hashes and plain timestamps; a rejection tells by how much the limit was exceeded, and a longer or absent limit still reads the same data. "
    "No sequence of calls lets expired stream plaintext out under a limit. Data dated in the future is never reported as expired.",
    ["fault_sequences", "histories", "schedules"],
    "All sequences of clock jumps, drifts and delays between and during writing and reading, and all orders of stream calls.",
    "The tests sleep for real seconds around one message; clock jumps, exact boundaries and call orders are not reachable that way.",
    ["aiootp/asynchs/clocks.py", "aiootp/ciphers/padding.py", "aiootp/ciphers/decipher_streams.py", "aiootp/keygens/passcrypt/interface.py", "aiootp/databases/async_database.py", "aiootp/databases/sync_database.py"],
    [("timestamp test", "aiootp/asynchs/clocks.py test_timestamp"),
     ("first-block timestamp test in streams", "aiootp/ciphers/decipher_streams.py _test_timestamp")],
    "timestamps inside ciphertexts", "accepted or rejected reads")
prop(
    "C14", "Ciphertexts are fresh whatever the clock does",
    "No two encryptions made with one key, whether of equal or different data, by any tasks or threads, share a salt they were not given, an initialization value, a tag or a keystream block, even when the clock stands still, jumps back to an earlier reading, or the process restarts; the same holds for ciphertexts a database writes when it saves the same values again. "
    "If the random source repeats itself, encryptions made in different seconds still share no tag and no keystream block.",
    ["schedules", "fault_sequences", "histories"],
    "All sequences of encryptions through every interface, under stalled, repeated and jumping clocks, restarts and thread interleavings.",
    "The tests compare a handful of ciphertexts made one after another with a moving clock.",
    ["aiootp/ciphers/key_bundle.py", "aiootp/ciphers/padding.py", "aiootp/ciphers/cipher_interface.py", "aiootp/databases/async_database.py", "aiootp/databases/sync_database.py"],
    [("salt and iv generation", "aiootp/ciphers/key_bundle.py"),
     ("inner header", "aiootp/ciphers/padding.py")],
    "key bundle", "ciphertext headers and bodies")
prop(
    "C15", "Identifiers are unique and ordered as promised under threads and clocks",
    "Identifiers made by one generator with one key and node number are all different as long as at most 256 are requested in any one nanosecond, for any number of tasks and threads sharing the generator and for a clock that moves in any step of a nanosecond or more. "
    "Each identifier decodes to the time, node and sequence it was made with, and sorting decoded identifiers sorts them by time.",
    ["schedules", "fault_sequences", "configurations"],
    "All interleavings of threads and tasks on one generator, for all identifier sizes, clocks stalled for up to 256 requests or advancing by single nanoseconds, and random sources that repeat.",
    "The tests draw identifiers in one thread from the real clock and the real random source, which hides collisions behind random bits.",
    ["aiootp/randoms/ids/raw_guid.py", "aiootp/randoms/ids/guid.py", "aiootp/asynchs/clocks.py"],
    [("ticker increment", "aiootp/randoms/ids/raw_guid_config.py, raw_guid.py"),
     ("nanosecond timestamp", "aiootp/asynchs/clocks.py")],
    "ticker, clock", "returned identifiers and their decoded fields")
prop(
    "C16", "Random values never repeat and generators survive concurrency",
    "The values that any tasks and threads at once request from the package's random generators all have the requested size and all differ, also from those of earlier runs of the program, even when the operating system's random source is stuck or repeats its output and the clock stands still or is set back. "
    "Concurrent requests never fail, also not while the background entropy gatherer runs. The gatherer keeps feeding its pool at its pace while it runs, returns to that pace when a temporary one is over, and stops when told to.",
    ["schedules", "fault_sequences"],
    "All interleavings of threads and tasks drawing from the generators while the gatherer runs, restarts and crashes at start, with stopped clocks and a stuck or repeating operating system source.",
    "The tests draw from the real source in one thread.",
    ["aiootp/randoms/rng.py", "aiootp/randoms/simple.py", "aiootp/randoms/threading_safe_entropy_pool.py", "aiootp/randoms/entropy_daemon.py", "aiootp/randoms/_early_salts.py"],
    [("shared pool mixing", "aiootp/randoms/rng.py, threading_safe_entropy_pool.py"),
     ("gatherer loop", "aiootp/randoms/entropy_daemon.py")],
    "global pool and hash object", "returned bytes")
prop(
    "C17", "Key exchanges agree exactly when the messages arrive intact",
    "In the double and triple Diffie-Hellman exchanges, over an unreliable network with many sessions at once, client and server derive the same keys when the peer's messages and the expected long-term keys arrive unchanged, and different sessions derive different keys. "
    "When a message is altered, swapped between sessions, or belongs to an impostor without the expected long-term key, the two sides never end with the same keys, and a session whose messages one event loop or thread handles never accepts a second message.",
    ["fault_sequences", "schedules"],
    "All deliveries, duplications, alterations and swaps of messages among several concurrent sync and async sessions.",
    "The tests run a single, undisturbed session.",
    ["aiootp/keygens/curve_25519/double_diffie_hellman_client.py", "aiootp/keygens/curve_25519/double_diffie_hellman_server.py", "aiootp/keygens/curve_25519/triple_diffie_hellman_client.py", "aiootp/keygens/curve_25519/triple_diffie_hellman_server.py", "aiootp/keygens/curve_25519/x25519.py"],
    [("transcript bound key derivation", "aiootp/keygens/curve_25519/*_diffie_hellman_*.py")],
    "session objects", "derived keys and errors")
prop(
    "C18", "Work handed to threads or processes returns its own result once",
    "A function handed to a worker thread or process runs once, and its caller, sync or async, receives exactly that call's result, however many calls run at once, however large the result and in whatever order workers finish. "
    "When the function raises or the worker dies, the caller gets an error instead of waiting forever or receiving a wrong result. Waiting async callers never block the event loop, and a pool that broke or was shut down works again once it is reset.",
    ["schedules", "fault_sequences", "inputs"],
    "All completion orders, worker start delays, raising functions, worker deaths and result sizes for both kinds of workers and all ways of submitting.",
    "The tests submit one small function that returns at once.",
    ["aiootp/asynchs/concurrency_interface.py", "aiootp/asynchs/threads.py", "aiootp/asynchs/processes.py"],
    [("result queue and polling", "aiootp/asynchs/concurrency_interface.py new/anew"),
     ("pool submission", "aiootp/asynchs/concurrency_interface.py submit/asubmit")],
    "result queue, worker state", "returned results and errors")
prop(
    "C19", "Password hashes verify for the right password only, in any worker order",
    "A password hash made by one interface verifies with the same password, associated data and settings through every other one, whatever order its parallel workers finish in, and fails for any other password, associated data, or altered hash. "
    "Difficulty limits given for verification are obeyed before work is done. If a worker dies the call fails with an error, and later calls succeed.",
    ["schedules", "fault_sequences", "inputs"],
    "All worker completion orders, worker deaths, concurrent hashing and verifying callers, corrupted hashes and difficulty settings.",
    "The tests depend on whatever order the real pool finishes in and never kill a worker.",
    ["aiootp/keygens/passcrypt/interface.py", "aiootp/keygens/passcrypt/sessions_manager.py", "aiootp/keygens/passcrypt/hash_format.py", "aiootp/keygens/passcrypt/config.py"],
    [("parallel sessions", "aiootp/keygens/passcrypt/sessions_manager.py, interface.py"),
     ("hash encoding", "aiootp/keygens/passcrypt/hash_format.py")],
    "worker futures", "hashes, verification results")
prop(
    "C20", "A signed package verifies exactly for what was signed, despite faults",
    "A summary produced by the package signer verifies with the matching public key, for exactly the files and descriptions that were added, also after the signing session crashed and was resumed from disk. "
    "Any change to a file, a name, the version, the description or the summary itself is rejected. A crash or disk fault never makes the signer lose a previously saved signing key or summary.",
    ["crash_points", "fault_sequences", "histories"],
    "All histories of adding files, signing, saving, crashing at any file system step and resuming, and all alterations of the package or summary in transit.",
    "The tests sign and verify one package in one process.",
    ["aiootp/keygens/package_signer.py", "aiootp/keygens/package_verifier.py", "aiootp/keygens/curve_25519/ed25519.py"],
    [("summary building and signing", "aiootp/keygens/package_signer.py"),
     ("verification", "aiootp/keygens/package_verifier.py")],
    "signer database", "verification outcome")
prop(
    "C21", "Async calls give the sync answer, alone or interleaved",
    "Every operation offered in both an async and a sync form gives the same result in both forms for equal inputs, including errors, also while any number of other tasks and threads make calls interleaved with it, and while some of those are cancelled; objects that accumulate state and are used by the tasks of one event loop reach the state of some serial order of the calls. "
    "No async call blocks the event loop by waiting inside it.",
    ["schedules", "inputs"],
    "All task interleavings of hashing, key derivation, encoding, packing, permutation, chunking, padding, mnemonic and identifier calls on shared and separate objects.",
    "The tests call the pairs one after another; interleaving at the suspension points of the async forms is never varied.",
    ["aiootp/generics/hashing.py", "aiootp/generics/canon.py", "aiootp/generics/transform.py", "aiootp/keygens/domain_kdf.py", "aiootp/_gentools.py", "aiootp/generics/byte_io.py", "aiootp/_permutations/affine_xor_chain.py", "aiootp/randoms/ids/sequence_id.py"],
    [("async twins with suspension points", "aiootp/generics/*, aiootp/_gentools.py, aiootp/keygens/domain_kdf.py")],
    "hash objects", "returned values")
prop(
    "C22", "Salt files and the package's start survive crashes and disk faults",
    "When a crash, a full disk, an input/output error or a cancellation interrupts creating, reading, updating or deleting a salt file, later reads find either the complete earlier salt or the complete new one, or no file if there was none before or it was being deleted; an operation that reported success has taken effect, and all operations keep working afterwards without repair. "
    "A start of the package interrupted in the same ways never keeps it from starting again.",
    ["crash_points", "fault_sequences", "histories"],
    "All sequences of salt file operations and package starts over several process lives, with a fault at any of their file system calls.",
    "The tests never interrupt an operation.",
    ["aiootp/_paths.py", "aiootp/randoms/_early_salts.py", "aiootp/randoms/rng.py"],
    [("salt file replacement", "aiootp/_paths.py make_salt_file, update_salt_file"),
     ("seed update at import", "aiootp/randoms/rng.py, aiootp/randoms/_early_salts.py")],
    "files below the salt directory", "read salts, raised errors, successful import")
prop(
    "C23", "A printed security report has its key kept, with those before it",
    "When the security report dialogue prints an encrypted report, the secret key belonging to it is already stored in the database of the person's address, passphrase and memory size, and the report can be read with it; the keys of that person's three sessions before it are still stored too, across restarts, crashes, disk errors, abandoned sessions and reports of other people. "
    "A session that could not store its key prints no report, and a declined one writes nothing.",
    ["crash_points", "fault_sequences", "histories"],
    "All sequences of report sessions of several people over process lives, with mistyped answers, sessions given up at any prompt, and a fault at any file system call.",
    "The tests never run the dialogue.",
    ["aiootp/__engagement/issue_reporting.py", "aiootp/databases/sync_database.py"],
    [("storing of the period key and printing of the report", "aiootp/__engagement/issue_reporting.py report_security_issue")],
    "the database of the reports", "printed report, stored keys, raised errors")
prop(
    "C24", "Processes that start or share salts at the same time get along",
    "Any number of processes may start the package at the same time, also for the very first time, and may open, read and update the same salt files or open the same profile: none of them fails because of another one or because another one dies in the midst. "
    "Every read gives a complete salt that was made or written by an update, all processes that find a salt file missing and create it get the same salt, and that salt is the one kept; a profile opened by several processes can be opened afterwards.",
    ["schedules", "crash_points", "histories"],
    "All orders of the file system calls of several processes that start the package or work with the same salts, some of which crash.",
    "The tests run one process.",
    ["aiootp/_paths.py", "aiootp/randoms/_early_salts.py", "aiootp/randoms/rng.py", "aiootp/randoms/ids/guid_config.py", "aiootp/databases/profile_tokens.py"],
    [("salt file creation, reading and replacement", "aiootp/_paths.py"),
     ("seed update at import", "aiootp/randoms/rng.py, aiootp/randoms/_early_salts.py")],
    "files below the salt directory", "read salts, raised errors, successful import")
prop(
    "C25", "Key objects meant for one use serve the first comer and nobody else",
    "Of any number of tasks and threads that fill the same X25519 or Ed25519 object by generating or importing a key, one succeeds and the others get a PermissionError, whatever malformed keys and cancelled calls there are among them; from then on the object shows the keys of the one that succeeded, and its secret key belongs to its public key. "
    "Of those that encipher or decipher with the same key bundle, with one stream authenticator or several, one at most is given a stream, which is correct, and the others get a PermissionError and no output, also after the first one has failed.",
    ["schedules", "inputs", "histories"],
    "All schedules of several tasks and threads that fill the same key objects and use the same key bundles, some of whose calls fail or are cancelled.",
    "The tests reuse objects in one thread only, one call after the other.",
    ["aiootp/keygens/curve_25519/shared_interface.py", "aiootp/ciphers/key_bundle.py", "aiootp/ciphers/stream_junction.py", "aiootp/ciphers/stream_hmac.py"],
    [("filling of key objects", "aiootp/keygens/curve_25519/shared_interface.py"),
     ("registration of a stream with its bundle", "aiootp/ciphers/key_bundle.py _register_shmac")],
    "key objects and key bundles", "held keys, streams, raised errors")
prop(
    "C26", "When an asynchronous call has ended, nothing of it goes on",
    "When an asynchronous call of a database, a profile or a salt file has returned or raised an error, also after input/output errors and with a full disk, its work is over: no file is created, changed, removed or even read afterwards on its behalf, the database lists no other tags or sub-databases later on, and no file stays open. "
    "Cancelled calls are excepted.",
    ["schedules", "fault_sequences", "histories"],
    "All sequences of asynchronous calls with errors at any of their file system calls, under all orders in which the parts of a call make progress.",
    "The tests do not let calls fail half way, nor look for work left behind.",
    ["aiootp/databases/async_database.py", "aiootp/databases/profile_tokens.py", "aiootp/_paths.py", "aiootp/asynchs/loops.py"],
    [("parts of a call that run at the same time", "aiootp/databases/async_database.py asave_database, aload_tags, aload_metatags")],
    "files of databases, profiles and salts", "files and file system calls after the end of a call")
prop(
    "C27", "Parts of one database with a writer each are shared safely",
    "When the sub-databases or tags of a saved database are shared out so that each has one writer, in processes, threads or tasks with database objects of their own, every writer always finds what it saved, and whoever else reads a tag from disk or opens the database anew gets, while writers save, crash or meet input/output errors, exactly the last value and index that was saved or one being saved at that time, never an older one than somebody read before, an error or a mixture. "
    "Opening, reading and saving one part changes nothing in the others.",
    ["schedules", "crash_points", "fault_sequences", "histories"],
    "All orders of the file system calls of several processes, or schedules of tasks and threads, that write one part of a database each and read the others, some of which crash or fail.",
    "The tests use one database object at a time in one process.",
    ["aiootp/databases/async_database.py", "aiootp/databases/sync_database.py", "aiootp/databases/database_properties.py"],
    [("saving and reading of tags and indexes", "aiootp/databases/async_database.py, aiootp/databases/sync_database.py"),
     ("sub-databases opened with their parent", "aiootp/databases/async_database.py ametatag, _aload_manifest")],
    "files of one database", "values and listings read by others, values found by the next process")
prop(
    "C28", "Forked processes draw values of their own and never get stuck",
    "A process may fork at any moment, whatever its other threads are doing and have done before, and the package works in the child: random values, keys, identifiers, salt files, profiles, databases and work given to the thread and process pools all come to their result, without waiting for threads or workers that exist in the parent only. "
    "Random bytes, random values, keys, identifiers and ciphertexts made by the parent, its children and their children are all different; values of `csprng` and `random_number_generator` are so even when the clock stands still and the operating system's random source gives the processes the same values.",
    ["schedules", "fault_sequences", "histories"],
    "All moments at which a process with several tasks and threads may fork, with good and failing random sources.",
    "The tests never fork.",
    ["aiootp/randoms/simple.py", "aiootp/randoms/rng.py", "aiootp/randoms/ids/raw_guid.py", "aiootp/asynchs/concurrency_interface.py", "aiootp/asynchs/guards/manager.py", "aiootp/_paths.py", "aiootp/keygens/curve_25519/shared_interface.py"],
    [("process ids in the seeds of random values", "aiootp/randoms/simple.py canonical_token"),
     ("locks, guards and pools that a child inherits", "aiootp/randoms/ids/raw_guid.py, aiootp/asynchs/guards/manager.py, aiootp/asynchs/concurrency_interface.py")],
    "state inherited by a forked process", "values drawn in parent and children, calls that end")
# not applicable to the technique
prop(
    "N01", "Keyed permutations and sequence identifiers are bijections",
    "For every key and configuration the keyed permutation maps its domain one-to-one onto itself and its inverse undoes it, so sequence identifiers of different numbers never collide.",
    ["inputs", "configurations"], "All keys, configurations and values.",
    "The tests sample a few keys and values.",
    ["aiootp/_permutations/affine_xor_chain.py", "aiootp/_permutations/affine_permutation.py", "aiootp/randoms/ids/sequence_id.py"],
    [("permute/invert", "aiootp/_permutations/affine_xor_chain.py")])
prop(
    "N02", "Canonical packing is injective",
    "Different sequences of byte strings never pack to the same bytes, and unpacking returns exactly the packed sequence or an error.",
    ["inputs"], "All sequences of byte strings and block sizes.",
    "The tests pack a few sequences.",
    ["aiootp/generics/canon.py"], [("canonical_pack/canonical_unpack", "aiootp/generics/canon.py")])
prop(
    "N03", "Key derivation separates domains, keys and inputs",
    "Outputs derived under different domains, keys, labels or input sequences are unrelated, and the derivation matches its published construction.",
    ["inputs"], "All domains, keys, labels and inputs.",
    "The tests check a few vectors.",
    ["aiootp/keygens/domain_kdf.py", "aiootp/generics/hashing.py", "aiootp/generics/domains.py"],
    [("keyed hashing", "aiootp/generics/hashing.py")])
prop(
    "N04", "Text encodings round-trip and reject malformed input",
    "Url-safe, base38 and integer encodings decode to exactly the bytes encoded, use only the allowed characters, and refuse malformed text.",
    ["inputs"], "All byte strings and texts.",
    "The tests encode a few strings.",
    ["aiootp/generics/byte_io.py", "aiootp/generics/transform.py"],
    [("encoders", "aiootp/generics/byte_io.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=True) + "\n")
print(len(P))
