"""Which units and drivers decide which property."""

TRUSTED_BASE = [
    'pyvc, the verification-condition generator in /verif/pyvc (its model of the Python subset and of SQL)',
    'z3 and cvc5',
    'CPython builtins, struct, os, stat, errno as modelled in pyvc/pymodels.py',
]
ASSUMPTIONS = [
    'Python integers are mathematical integers; SQLite 64-bit and double overflow are not modelled',
    'one request at a time between suspension points of other requests (no preemption inside an operation), '
    'except where a unit states otherwise',
    'logging and type annotations have no effect',
]
FS_TRUSTED = [
    'SQL semantics of the statements issued (relational model in pyvc/sqlm.py; per-statement, unbounded tables)',
    'contract of BlockCache.get/remove/start_flush at block level as used by fs.py (proved in the C07/C10 units where listed)',
    'contract of InodeCache mapping interface (proved by the C12 units)',
    'pyfuse3 structures (EntryAttributes, FileInfo, FUSEError) hold what is stored into them',
]
FS_ASSUME = [
    'the kernel passes inode numbers for which it holds a lookup reference, a directory as parent, and does not '
    'create a name that exists (FUSE protocol, VFS locking)',
]

NOT_APPLICABLE = {
    'C23': 'crash points interleave with the operating system writing files back; contracts over the sequential code '
           'express no intermediate durable states, and a model of them would be a different technique',
    'C24': 'unbounded interleavings of trio tasks are outside the sequential contracts used here (rely/guarantee '
           'conditions at every suspension point of every request would be needed)',
}

DEDUCTIVE = 'contract-based deductive verification of the /repo source (pyvc VC generation, z3/cvc5)'
FSDRV = ('fsdrv', dict(quick=1000, thorough=40000, cap=60))

FSNOTE = ('Every request handler listed in the evidence is proved for all states and arguments under the stated '
          'preconditions; SQLite, pyfuse3 and the kernel protocol are assumed.')

BC_TRUSTED = [
    'SQL semantics of the statements issued (relational model in pyvc/sqlm.py)',
    'contracts of LinkedDict (proved as C11) and MultiLock (proved as C22)',
    'backend: write_fh stores what it is given or raises, readinto_fh gives it back, deletion deletes (C01, C18)',
    'trio: tasks switch only at suspension points; a channel without buffer hands an item over when send() returns; '
    'memory channels deliver every item once',
    'SHA-256 is collision free; unbuffered POSIX files',
]
BC_ASSUME = [
    'users of a cache entry leave it unchanged once they have left get(), and hold one entry per task and block',
    'no block is changed while a complete flush is running (flush leaves nothing behind)',
    'the sequence numbers SQLite hands out are not used again (AUTOINCREMENT)',
]
BCNOTE = ('Rely/guarantee over the sections between suspension points: every method of BlockCache for all tables, caches, '
          'locks, uploads under way, failures and cancellation, with arbitrary activity of other tasks at every '
          'suspension point that keeps the guarantees proved of every method.')

PROPS = {
    'C04': dict(level='proof', units=[('fsdata', None), ('cacheentry', None)], drivers=[FSDRV], technique=DEDUCTIVE,
                trusted=FS_TRUSTED, assumptions=FS_ASSUME, min_obligations=300, note=FSNOTE),
    'C05': dict(level='proof', units=[('fsops', None), ('fsdata', None)], drivers=[FSDRV], technique=DEDUCTIVE,
                trusted=FS_TRUSTED, assumptions=FS_ASSUME, min_obligations=500, note=FSNOTE),
    'C06': dict(level='proof', units=[('fsops', None), ('fsdata', None), ('fslist', {'readdir'})], drivers=[FSDRV], technique=DEDUCTIVE,
                trusted=FS_TRUSTED, assumptions=FS_ASSUME, min_obligations=500, note=FSNOTE),
    'C08': dict(level='proof', units=[('fsops', None), ('fsdata', None)], drivers=[FSDRV], technique=DEDUCTIVE,
                trusted=FS_TRUSTED, assumptions=FS_ASSUME, min_obligations=300, note=FSNOTE),
    'C12': dict(level='proof', units=[('inodecache', None), ('fsops', None), ('fsdata', None)],
                drivers=[('icdrv', dict(quick=2000, thorough=100000, cap=30)), FSDRV], technique=DEDUCTIVE,
                trusted=FS_TRUSTED, assumptions=FS_ASSUME, min_obligations=300, note=FSNOTE),
    'C11': dict(level='proof', units=[('linkeddict', None)],
                drivers=[('lddrv', dict(quick=2000, thorough=100000, cap=60))], technique=DEDUCTIVE,
                trusted=[], assumptions=['single-threaded access (trio tasks switch only at suspension points)'],
                min_obligations=30, note='Every method of LinkedDict, for every heap and map state satisfying the '
                'class invariant; mutable_values for arbitrary concurrent mutation between two steps.'),
    'C22': dict(level='proof', units=[('multilock', None)],
                drivers=[('mldrv', dict(quick=1000, thorough=50000, cap=60))], technique=DEDUCTIVE,
                trusted=['trio.Condition: acquire/wait/notify_all as documented (mutual exclusion, re-acquire before '
                         'wait returns, cancellation only at checkpoints)'],
                assumptions=['tasks interleave only at suspension points; interference by other tasks is an arbitrary '
                             'change allowed by the lock table invariant (rely)'],
                min_obligations=15, note='Every method of MultiLock under rely/guarantee: arbitrary interference at '
                'every suspension point, and arbitrary cancellation.'),
    'C01': dict(level='proof', units=[('comprenc', None)],
                drivers=[('comprencdrv', dict(quick=1500, thorough=100000, cap=60))], technique=DEDUCTIVE,
                trusted=['AES-CTR, HMAC, SHA-256 (cryptography, hashlib, hmac) as documented: deterministic, decryption inverts encryption of '
                         'the same stream in the same order', 'zlib, bz2, lzma: a decompressor gives back what was fed to the compressor',
                         'thaw_basic_mapping(freeze_basic_mapping(x)) = x (C03)', 'the raw backend gives back what it was given (C18 for the '
                         'local one)', 'io.BytesIO, trio.to_thread.run_sync as documented'],
                assumptions=['the file holds the number of bytes to be stored', 'stored files are not changed while they are read',
                             'metadata mappings are followed through one arbitrary entry (operations on mappings treat entries independently)',
                             'bytes written are shown to be encrypted; secrecy of the cipher itself is not claimed'],
                min_obligations=100, note='Every loop of the stream encoders and decoders for any length and any way reads are split; write_fh '
                'and readinto_fh composed for every algorithm, level, passphrase, file type and metadata entry.'),
    'C02': dict(level='proof', units=[('comprenc', None)],
                drivers=[('comprencdrv', dict(quick=3000, thorough=200000, cap=60))], technique=DEDUCTIVE,
                trusted=['HMAC-SHA256 cannot be forged without the key; SHA-256 of passphrase and nonce gives independent keys',
                         'checksum_basic_mapping covers every entry (C03); hmac.compare_digest', 'errors of zlib, bz2 and lzma for malformed input as '
                         'observed in CPython'],
                assumptions=['replacing an object by an older version of the same object is outside of the property',
                             'metadata with a valid signature was made by write_fh, or is such metadata with payload_offset added by an upgrade'],
                min_obligations=100, note='decrypt_fh for any byte stream, _verify_meta for any mapping, readinto_fh and lookup for any object.'),
    'C03': dict(level='proof', units=[('serial', {'serial.freeze', 'serial.thaw', 'serial.checksum', 'serial.checksum-code'})],
                drivers=[('serdrv', dict(quick=4000, thorough=400000, cap=60))], technique=DEDUCTIVE,
                trusted=['ast.literal_eval(repr(x)) = x and literal_eval of a mapping display evaluates entry by entry, without '
                         'executing anything; base64, hashlib, hmac, struct, str.encode as documented'],
                assumptions=['strings shorter than 2^31 bytes', 'collision freedom of MD5/HMAC-SHA256 is not claimed: the byte '
                             'stream that is hashed is shown to determine the mapping'],
                min_obligations=100, note='freeze, thaw and checksum for mappings of any size; checksum byte stream shown to be '
                'uniquely decodable.'),
    'C07': dict(level='proof', units=[('blockcache', None), ('cacheentry', None), ('metatransfer', {'metadata.sha256_fh'})],
                drivers=[('bcdrv', dict(quick=400, thorough=40000, cap=60))], technique=DEDUCTIVE,
                trusted=BC_TRUSTED, assumptions=BC_ASSUME, min_obligations=2000, note=BCNOTE),
    'C10': dict(level='proof', units=[('blockcache', None), ('cacheentry', None)],
                drivers=[('bcdrv', dict(quick=400, thorough=40000, cap=60))], technique=DEDUCTIVE,
                trusted=BC_TRUSTED, assumptions=BC_ASSUME, min_obligations=2000, note=BCNOTE),
    'C13': dict(level='proof', units=[('writetrack', None)],
                drivers=[('wtdrv', dict(quick=1000, thorough=60000, cap=60))], technique=DEDUCTIVE,
                trusted=['the clang 18 parser: _sqlite3ext.cpp is translated to verified text from its typed syntax tree on every run '
                         '(pyvc/cxx.py); the Cython text of sqlite3ext.pyx is translated by pyvc/pyx.py',
                         'SQLite changes the database file by xWrite and xTruncate only (WAL mode, no memory mapping: xFetch is proved '
                         'to be absent) and opens it by the name it was given when that is an absolute path without symbolic links',
                         'std::unordered_set and std::unordered_map, SQLite memory allocation, os.path.realpath as documented'],
                assumptions=['signed C++ integers do not overflow: files are shorter than 2^62 bytes, a write is shorter than 2^31 '
                             '(unsigned wrap-around is modelled exactly)', 'the block size is set before tracking starts and below 2^31',
                             'a write that fails changes nothing (SQLite repeats the checkpoint)', 'the VFS methods for dynamic libraries, '
                             'random numbers, time and closing are not under contract'],
                min_obligations=100, note='vfstraceWrite and vfstraceTruncate for every offset, length, block size and set of modified '
                'blocks; opening, registration, WriteTracker and the set-up in Connection for every path.'),
    'C17': dict(level='proof', units=[('retrying', None)],
                drivers=[('rtdrv', dict(quick=3000, thorough=200000, cap=60))], technique=DEDUCTIVE,
                trusted=['trio.sleep, random.uniform, inspect as documented', 'classification by is_temp_failure is taken as given'],
                assumptions=['floating point delays are treated as real numbers', 'requested delays are not negative (proved for '
                             'HTTP errors: _parse_retry_after)'],
                min_obligations=100, note='The retry loop for every outcome sequence; upload bodies restart at position 0 (HTTP '
                'backends, local backend in C18).'),
    'C20': dict(level='proof', units=[('fslist', None), ('serial', {'serial.parse_literal', 'serial.parse_literal_tuple'})],
                drivers=[FSDRV, ('serdrv', dict(quick=2000, thorough=200000, cap=30))], technique=DEDUCTIVE,
                trusted=FS_TRUSTED + ['ast.literal_eval as documented'],
                assumptions=FS_ASSUME + ['entries are not added or removed between two steps of one listing call (changes between '
                                         'calls are allowed)', 'SQLite assigns positive row ids to names'],
                min_obligations=500, note='readdir, listxattr, every control command and the argument parsers.'),
    'C21': dict(level='proof', units=[('expirebackups', None)],
                drivers=[('ebdrv', dict(quick=2000, thorough=200000, cap=60))], technique=DEDUCTIVE,
                trusted=['re, os.listdir, shutil.rmtree, typer as documented'],
                assumptions=['age range boundaries are sorted (checked by the command) and not negative; names of backups are strings',
                             'that a repeated run removes nothing further, and the command around process_backups, are bounded checks'],
                min_obligations=8, note='process_backups for every list, state and list of ranges.'),
    'C14': dict(level='proof', units=[('metadata', {'metadata.first_le_than'}), ('metatransfer', None)],
                drivers=[('mddrv', dict(quick=600, thorough=40000, cap=60)), ('mountdrv', dict(quick=150, thorough=20000, cap=60))],
                technique=DEDUCTIVE, trusted=['trio memory channels and nurseries: every item sent is received by exactly one worker, leaving the nursery '
                         'waits for all workers and passes on errors', 'backend.list yields every stored key once (C18)',
                         'write_fh stores exactly len_ bytes from the file position, readinto_fh writes the stored bytes at the file '
                         'position (C01)', 'WriteTracker.get_block hands out each modified block once (C13)', 'hashlib.sha256'],
                assumptions=['block objects have canonical names (as written by the upload); the regular expressions are checked on '
                             'sampled names', 'database size below 2^52 bytes', 'the database file does not change during an upload that '
                             'records size and checksum (callers hold inhibit_writes)'],
                min_obligations=60, note='Every step from listing or snapshot to the last worker call, for any set of stored objects '
                'and any database; end-to-end restore checked by the bounded driver.'),
    'C15': dict(level='proof', units=[('metadata', None), ('metatransfer', {'metadata.get_block_objects', 'metadata.get_available_seq_nos'})],
                drivers=[('mddrv', dict(quick=600, thorough=40000, cap=60))], technique=DEDUCTIVE,
                trusted=['backend.list yields every stored key once and delete_multi deletes exactly the given keys (C18)'],
                assumptions=['object names are canonical; database size below 2^52 bytes; at least one version is to be kept; versions '
                             'are not zero (they start at 1)'],
                min_obligations=15, note='expire_objects for every store: one arbitrary block object, superblock and retained version are '
                'tracked through all collections.'),
    'C16': dict(level='proof', units=[('mountparams', None), ('mountcmd', None)],
                drivers=[('mountdrv', dict(quick=600, thorough=40000, cap=60))], technique=DEDUCTIVE,
                trusted=['thaw_basic_mapping(freeze_basic_mapping(x)) = x (C03)', 'dataclasses.asdict, trio, contextlib exit stacks, '
                         'pyfuse3, typer as documented', 'POSIX files: rename replaces atomically, fsync makes written data durable',
                         'the callees of the commands (BlockCache, Operations, Fsck.check, upload_metadata, download_metadata) meet '
                         'their contracts; they do not write parameters themselves'],
                assumptions=['the local database file exists whenever local parameters do', 'the periodic backup does not run '
                             'concurrently with the end of the mount command (the nursery is left first)',
                             'the backup loop is verified for one round from an arbitrary state', 'Python runs without -O: unequal '
                             'local and remote parameters of the same version are refused by an assertion'],
                min_obligations=150, note='Reading and writing parameters, get_metadata, the mount and fsck commands and the metadata '
                'backup, for every combination of local and remote parameters and failures.'),
    'C18': dict(level='proof', units=[('localbackend', None)],
                drivers=[('localdrv', dict(quick=1500, thorough=100000, cap=60))], technique=DEDUCTIVE,
                trusted=['POSIX files: rename replaces atomically, buffered files write everything or raise an error (at the latest '
                         'when closed), regular files are read as asked for', 'os.walk visits exactly the directories that are not '
                         'left out of dirnames, and lists every entry that is there all the time once',
                         'thaw_basic_mapping(freeze_basic_mapping(x)) = x, ThawError otherwise (C03)',
                         'str.replace on the image of a character map is image-wise when no occurrence of the pattern can cross two '
                         'images (checked for all character sequences up to the length of the pattern)'],
                assumptions=['keys are not empty, contain no NUL and are short enough for a file name',
                             'nobody else puts files without # into the storage directory, except below the names of keys',
                             'temporary names of concurrent stores are distinct (checked by the driver)',
                             'copyfh copies everything from the position of the source (C01)'],
                min_obligations=40, note='Every operation of the local backend for every key, prefix, content and failing file '
                'operation; listing by following one arbitrary stored key through every directory.'),
    'C19': dict(level='proof', units=[('fsck', None)],
                drivers=[('fsckdrv', dict(quick=2500, thorough=100000, cap=90))], technique=DEDUCTIVE,
                trusted=['SQL semantics of the statements issued (relational model in pyvc/fsql.py: the rows of a query are those of '
                         'the state it is started in, unique constraints hold, COUNT is the number of rows)',
                         'get_path, escape and to_str only compute texts',
                         'the backend lists every stored object once, under its canonical number',
                         'not under contract, only examined by the driver, with the effect that fsck.check assumes of them: check_lof '
                         '(establishes /lost+found), check_cache (leaves directories alone), check_objects_temp, check_inodes_size, '
                         'check_unix and check_foreign_keys (leave entries, counts and references alone), check_ext_attributes_name '
                         '(gives every attribute a name), check_loops (keeps what is established; everything is reachable afterwards)'],
                assumptions=['the inode of the root directory exists',
                             'a cached block counts as stored if its checksum is known (documented behaviour of check_cache)'],
                min_obligations=400, note='Thirteen of the checks, the helpers they use and their order in check() are proved for all '
                'states of the tables: repaired afterwards, nothing else touched, sound data left alone and no error reported. '
                'The other checks (see trusted) are bounded: random trees with random damage, judged from outside.'),
}
