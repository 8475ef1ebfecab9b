"""Per-property constants read by the parent, which never imports ccnpy."""

_REAL = ['ccnpy.flic (tree builder, optimizer, factory, encryptors, name constructors, traversal, stores)', 'ccnpy.core (codec)',
         'ccnpy.crypto', 'cryptography (AES-GCM/CCM, RSA sign/verify/decrypt)', 'CPython buffered I/O layers', 'kernel file system (scratch directory on tmpfs)']
_STUB = ['clock', 'os.urandom / key generation / OAEP seed (drawn from the run seed)', 'process ids', 'system-call layer of files (faultable, then passed to the kernel)',
         'thread/process scheduling (baton scheduler)']
_ASSUME = ['process death is the crash model: what a completed system call wrote survives, nothing after the crash point runs',
           'the reference codec (sim/refcodec.py) reads the wire format correctly']


def m(quick, thorough, rule, level='exploration', real=(), stub=(), assume=(), floor=100, wall=None):
    return {'runs': {'quick': quick, 'thorough': thorough}, 'rule': rule, 'level': level, 'real': _REAL + list(real), 'stub': _STUB + list(stub),
            'assumptions': _ASSUME + list(assume), 'floor': floor, 'wall': wall or {}}


COVERS = {
    'C01': m(2200, 120000, 'A run publishes a generated file under a generated configuration (names of any typed bytes, key numbers of any size, sources behind a header) into memory, a directory and/or a byte store '
             '(with short reads from the source and clock jumps), reads it back through ccnpy and through the reference reader and compares '
             'bytes. Non-trivial: at least two data objects were delivered through at least one manifest below the root.'),
    'C02': m(6000, 200000, 'A run publishes a generated collection and reads it several times by the root hash from a byte store, a memory store or a '
             'directory whose answers are dropped, altered, substituted, forged, replayed or late; the oracle accepts only prefixes of the file and '
             'success only with the whole file. Non-trivial: at least three objects and at least one read that a fault ended.'),
    'C03': m(900, 60000, 'A run publishes a generated collection once to learn its operations, then again into fresh directories (some holding an '
             'older version under the same name) killing the process at chosen operations, before, after or inside a write; the root by hash and the '
             'name link are then read with ccnpy and the reference reader, and an uninterrupted publish is checked at every operation that touches '
             'the root or its link. Non-trivial: at least one process was killed in a publish of more than 12 operations.', level='exploration'),
    'C04': m(1400, 60000, 'A run publishes a collection, then several later publishes into the same directory (the same file again, another file under the '
             'same name, another schema, size or name), most of them killed or given a disk error at a chosen operation; after every operation the '
             'objects it touched and after every publish all objects, names and collections published before are compared. Non-trivial: at least one '
             'later publish failed or was killed.'),
    'C05': m(2400, 80000, 'A run makes one to five faulty attempts (killed, disk errors, full disk, lost replies, failing sinks, broken connections) at '
             'publishing into one directory, publishing over TCP or reading with one reader, in new or the same processes, then one attempt without '
             'faults, which must succeed exactly and within a small multiple of the operations of a first attempt; stores may also have answered wrongly before. Non-trivial: at least one '
             'attempt failed.', stub=['TCP (sockets that record the byte stream)']),
    'C06': m(2200, 80000, 'A run publishes a file (into a directory or over TCP) or reads one (through the library or the manifest_reader, into an output file) '
             'once cleanly and then with one or two operations failing (I/O error, full disk, refused access, no descriptors, lost file, early end, '
             'flipped bit, short transfer, a sink that takes a part, sources and stores of one\'s own that have nothing or raise, allocation failure, broken connection): a normal return requires the complete result, an error requires '
             'that no incomplete root is exposed. Non-trivial: at least one failure was reported.', stub=['TCP (sockets that record the byte stream)']),
    'C12': m(2500, 80000, 'A run publishes a collection over a simulated TCP connection (through the library or manifest_writer -T) once cleanly and then '
             'with sends that are split, slow, timing out, reset (losing bytes already accepted, also when closed with linger 0) or failing, connects that are refused or time out and processes '
             'that are killed; the received byte streams are parsed by the reference codec. Non-trivial: more than one data object and at least one '
             'publish that a fault broke.', stub=['TCP (sockets that record the byte stream)']),
    'C13': m(1100, 60000, 'A run is a history of publishes in one process (shared options, failed attempts, short reads) with packet sizes, names, expiry '
             'times, numbers and encryption chosen around the sizes that just fit (also fitted to the last byte of a first result); every stored object and link is parsed by the reference codec. '
             'Non-trivial: a publish that stored at least two data objects and two manifests below the root.'),
    'C16': m(1600, 60000, 'A run is a history of publishes in one process (shared options, failed attempts, short reads); the reference reader recomputes '
             'every size, number, final chunk number, name and expiry time from the stored bytes. Non-trivial: a collection with more than two '
             'manifests and more than two data objects.'),
    'C14': m(1500, 60000, 'A run drives up to four publishers per phase, over up to three phases, against one directory (the same file again, other files, the same packets through several writers; as processes or as threads of one process; killed or given disk errors) under the seeded scheduler; after every operation every hash-named file touched recently is parsed and hashed by the reference codec, at the end every stored object is parsed, written back, rebuilt from its parts and put again. Non-trivial: at least three objects and a failed publisher or a task switch.'),
    'C15': m(1200, 30000, 'A run publishes one file with the same unsigned, unencrypted options as the first work of several processes (different hash seeds, clocks, pids, entropy, environments, stores and ways the source delivers the file) and then signed, encrypted, after other work, after a failed publish and beside a concurrent publish with preemption inside ccnpy; root hash, object set and data objects are compared. Non-trivial: at least two data objects and at least three processes.'),
    'C07': m(1800, 60000, 'A run republishes several versions (also an earlier one again) under one name, by processes with memories of their own (other schema, size, signer, some publishers killed or given disk errors, some with two publishers) while several readers look the name up under the seeded scheduler and collections with easily confused names (also long ones that differ late) are published beside; the history is judged as a register whose values are the complete versions. At the end some links are found under names they do not belong to. Non-trivial: at least one concurrent read and two task switches.'),
    'C09': m(4500, 80000, "A run publishes one to three signed collections (shared signers, also in another's name, clock jumps, skews, time zones and extreme dates) and verifies every stored root and link with an independent verifier and the clock values the process was given; then it alters roots (contents, signature, algorithm, key id, pointers, order of parts, signatures by or of others) and reads them by hash and by name with fresh and reused readers that hold the signer's key. Non-trivial: at least one forged root was rejected."),
    'C08': m(1300, 60000, 'A run publishes two to four collections into a shared directory and a shared memory store and then runs up to four phases of publishes and reads, one after another or as threads with preemption inside ccnpy, that share signers, keys, encryptors, option objects, one keystore, packet objects, writers, readers and the directory, look at shared packets and manifests in every way or store them again elsewhere; some fail (disk errors, wrong keys, failing sinks). Every result is compared with what the work gives alone. Non-trivial: at least two task switches and a read or a publish beside the first ones.'),
    'C10': m(1000, 50000, 'A run is a history of processes that publish under one to three manifest keys (pre-shared or wrapped; equal keys under other numbers, salts or wrappings): new processes, servers whose forked children inherit encryptors and options, threads with preemption inside ccnpy, retries after errors, crashes, equal process ids, clocks that stand still or go back. Every encrypted manifest found in any directory afterwards is parsed by the reference codec; (key, mode, IV) must be unique, and no manifest may show a node, a hash, a name or a key. Four runs push 100 000 manifests through one key. Non-trivial: at least four encrypted manifests from at least two publishes.'),
    'C11': m(5000, 60000, "A run publishes one to five collections, most of them encrypted under few key numbers (pre-shared GCM/CCM keys and wrapped keys, equal numbers for different keys, equal keys for different kinds), and then drives reused and new readers over two key stores through a history of keys given (right, wrong bytes, salt, mode or length, public only, the content key), reads, failing stores and sinks and altered manifests. A model of the key stores says which reads must succeed and which must deliver nothing; altered manifests (ciphertext, tag, IV, every part of the security context, the wrapped key; ancestors sealed again so that only the manifest's own authentication can notice) must be rejected before anything below them is delivered. Non-trivial: at least one read that succeeded and one that was refused.", floor=80),
    'C17': m(900, 30000, "A run invokes manifest_writer one to three times (any documented options: schemas, locators, prefixes, degree, size, expiry times in other time zones, signing and wrapping keys with and without passwords given or prompted for, keys, modes, numbers, salts, KDF options, links, relative paths, left-out defaults), each as its own process with its own hash seed, clock, environment, current directory and short transfers, and then manifest_reader and packet_reader as further processes, by name or hash in several notations, into files or stdout, with matching options, wrong keys of every kind or altered, missing or exchanged objects and links. What is stored is compared with the options by the reference codec, what is written with the file, what is displayed with the reference reader's view. Non-trivial: at least three stored objects and one tool run that read or displayed them. ", floor=60),
    'C18': m(700, 40000, "A run publishes one to five collections, each in a process of its own (so that their name constructor ids are equal), and composes them with the library's own building blocks under one or two trees of parent manifests: roots of collections (once, twice, shared), data objects and further parents below name constructors defined here or by an ancestor, with ids that collide with those of other branches, plain or encrypted with shared or wrapped keys, and the inner parts of collections whose definitions an ancestor makes. Readers (new and reused, one after another or as threads with preemption inside ccnpy, some failing on the way) read them from a store that answers like a network (by hash and exact name), from a directory and from memory. The bytes must be the concatenation of the parts and the requests (names and hashes, in order) those of the reference reader; a graph built on request must have their nodes and edges, told apart also when their hashes begin alike. Non-trivial: a composed manifest with more than four requests was read."),
    'C19': m(900, 60000, "A run publishes up to three collections (most encrypted, with every kind of key, KDF and salt), each in a process of its own, and reads every stored object with the reference codec, which shares no code with ccnpy and holds only key material: pointers, names, sizes, signatures, wrapped keys, derived keys, IVs and authenticated contexts must be what the object states. It also lets a foreign publisher, the reference codec again, make one or two trees of shapes this writer never makes (data and manifests mixed in one group, definitions at any level, any identifier and start number, padding, vendor fields, size annotations present or not, signed inner objects, missing payload types, groups of up to 300 pointers, pointers to the library's own collections, manifests sealed under several keys), and reads them with the library: new and reused readers, one after another or as threads with preemption inside ccnpy, some failing on the way, from a store that answers like a network, a directory and memory. Bytes and requests must be those of the reference reader, stored objects the bytes received, and the command-line tools must show and read them. Non-trivial: a read of a tree with more than four foreign objects."),
}

_SEARCH = {'C01': 'configurations, file sizes and read/write schedules',
           'C02': 'faulty store and network answers',
           'C03': 'crash points of a publish',
           'C04': 'crashes and disk errors in later publishes',
           'C05': 'sequences of crashes and I/O errors followed by a clean retry',
           'C06': 'failing operations',
           'C07': 'schedules of publishers and readers with crashes',
           'C08': 'thread schedules with preemption inside ccnpy, and histories of shared objects',
           'C09': 'forged roots, clocks and signer histories',
           'C10': 'multi-process, multi-thread histories with one key, clocks, restarts and failures',
           'C11': 'histories of keys, collections, failures and tampering',
           'C12': 'transport faults',
           'C13': 'histories at packet-size boundaries',
           'C14': 'schedules of publishers with crashes and disk errors',
           'C15': 'processes, environments, clocks and concurrent work',
           'C16': 'histories of publishes',
           'C17': 'tool invocations across processes with wrong keys and altered objects',
           'C18': 'compositions of collections',
           'C19': 'foreign trees, keys and histories of readers'}
for _k, _v in COVERS.items():
    _v['search'] = _SEARCH[_k]
