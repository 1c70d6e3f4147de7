import json
P=[]
def add(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
S='src/s3ql/'
add("C01","Stored objects come back byte for byte",
 "Any byte string and metadata mapping stored through the compressing and encrypting layer, for every compression algorithm and with or without encryption, is returned unchanged (data and metadata) when fetched under the same key with the same passphrase. This holds whatever the data length is relative to the internal buffer size, and writing only a prefix of a file or starting at a non-zero position stores exactly the requested bytes. With a passphrase set, no plaintext of the data or of the metadata is handed to the storage backend.",
 ["inputs","configurations"],"every payload, length, start offset, metadata mapping, compression setting and passphrase",
 "Tests store a few fixed payloads; the chunked stream format must invert for every length and every way the underlying reads are split.",
 [S+'backends/comprenc.py',S+'common.py'],
 [("stream encoder/decoder","comprenc.encrypt_fh/decrypt_fh/compress_fh/decompress_fh"),("envelope","comprenc.AsyncComprencBackend._compress_sync/readinto_fh/_verify_meta"),("copy","common.copyfh")])
add("C02","Tampered or swapped objects are never returned as data",
 "With a passphrase set, fetching or looking up an object succeeds only if its metadata carries a valid signature made with that passphrase, it was stored under the very key requested, and its data stream is complete, authentic and followed by nothing. In every other case (modified, truncated, extended, swapped, unencrypted, or unreadable object) an error is raised and the operation does not report success; malformed input raises the documented corruption errors.",
 ["inputs","fault_sequences"],"every modification of stored bytes or stored metadata",
 "Tests flip a handful of bytes; the guarantee is about every possible modification and every branch that could skip a check.",
 [S+'backends/comprenc.py',S+'backends/common.py'],
 [("metadata authentication","comprenc.AsyncComprencBackend._verify_meta"),("stream authentication","comprenc.decrypt_fh"),("end of stream checks","comprenc.decompress_fh"),("checksum","backends.common.checksum_basic_mapping")])
add("C03","Metadata mappings survive serialization exactly",
 "A mapping from strings to strings, bytes, integers, booleans, finite floats, finite complex numbers or nothing that is serialized and read back is equal to the original, with equal types; anything else is refused when serializing with a value or type error. Reading back arbitrary bytes never executes them and either yields such a mapping or raises the one documented malformed-data error. The authentication checksum of a mapping depends on every key, every value and every value type other than the signature itself, but not on ordering.",
 ["inputs"],"every mapping and every byte string",
 "Tests use sample mappings; the round trip must hold for every value and malformed input of any shape must be refused in the documented way.",
 [S+'common.py',S+'backends/common.py'],
 [("serialization","common.freeze_basic_mapping/thaw_basic_mapping"),("checksum","backends.common.checksum_basic_mapping")])
add("C04","Files behave as plain byte arrays",
 "Reading from a file returns exactly the bytes most recently written to each position, zero for positions never written or cut off by truncation and then re-exposed, and never more than up to the end of the file; short results occur only at the end of the file. A write of any length at any offset changes exactly those bytes and extends the size to the end of the write if that lies beyond it; changing the size cuts or zero-extends and changes no other byte. This holds for every position of the range relative to the block boundaries and for every file size.",
 ["inputs","histories"],"all offsets, lengths, contents, block sizes and file sizes",
 "Tests write a few ranges near one block boundary; the arithmetic must hold for every combination of offset, length and block size.",
 [S+'fs.py',S+'block_cache.py'],
 [("read/write/truncate","fs.Operations.read/write/_readwrite/setattr"),("block file position and size tracking","block_cache.CacheEntry")])
add("C05","Directory operations change exactly the named entries",
 "A successful create, mkdir, mknod, symlink, link, unlink, rmdir, rename or lookup changes exactly the directory entries it is defined to change, so that every other entry of every directory keeps pointing at the same file. An operation that fails with an error leaves all directory entries, extended attributes and stored name reference counts as they were. The stored reference count of every name always equals the number of directory entries and extended attributes that use it, and names no longer used are gone.",
 ["inputs","histories"],"all namespaces, operations and arguments, including same-name and same-directory renames and hard links",
 "Tests exercise single operations on tiny trees; the bookkeeping must be exact for every operation in every state, including error paths.",
 [S+'fs.py'],
 [("name table bookkeeping","fs.Operations._add_name/_del_name"),("namespace operations","fs.Operations.unlink/rmdir/rename/link/symlink/mkdir/mknod/create/setxattr/removexattr")])
add("C06","Link counts are exact and files vanish only when unused",
 "A file's stored link count always equals the number of directory entries that point at it. When the last entry goes and no kernel reference remains, the file's attributes, contents, extended attributes and link target are all removed; while either remains, none of them is removed. Every operation changes the number of kernel references by exactly what it reports to the kernel (one per entry handed out on success, none when it fails).",
 ["inputs","histories"],"all namespaces, operations, error paths and forget sequences",
 "Tests check a few sequences; leaked or missing references show up only after a specific error path followed by removal.",
 [S+'fs.py',S+'inode_cache.py'],
 [("removal","fs.Operations._remove/_replace/_purge_inode/forget"),("reference counting","fs.Operations._lookup/create/link")])
add("C07","Stored blocks are shared and released exactly",
 "The reference count of every stored object equals the number of file blocks that point at it; an object is deleted from storage only once nothing points at it and is never deleted twice. Two blocks share an object only if their contents have the same checksum, and nothing is ever shared with an object whose upload failed. After a block has been written out, the database maps that block to an object holding exactly the block's current contents.",
 ["inputs","fault_sequences"],"all block contents, previous mappings, reference counts and upload outcomes",
 "Tests cover the common transitions; every combination of old object, matching object, in-flight upload and failure must preserve the counts.",
 [S+'block_cache.py'],
 [("upload and deduplication","block_cache.BlockCache.upload_if_dirty/_do_upload"),("release","block_cache.BlockCache._deref_obj/remove/_removal_task")])
add("C08","Immutable trees and failed file systems reject changes",
 "Files and directories that have been made immutable keep their contents, size, attributes and extended attributes, and no entry can be created in, removed from or renamed in or out of an immutable directory; such attempts are refused with a permission error before anything is changed. Once the file system has entered its fail-safe state, every operation that would modify contents, attributes, extended attributes or directories is refused the same way, while reads keep working. Removing a tree through the explicit remove-tree command remains possible for immutable trees whose parent directory is not immutable, and making a tree immutable reaches every file and directory in it.",
 ["inputs","histories"],"every modifying operation, every argument and every tree",
 "Tests try a few operations on a locked file; the guarantee is that no operation and no argument combination gets through.",
 [S+'fs.py'],
 [("guards","fs.Operations.write/setattr/setxattr/removexattr/_create/_remove/rename/link/open"),("recursive lock","fs.Operations.lock_tree")])
add("C09","Replicating a tree yields an independent exact copy",
 "After replicating a directory tree, the target contains an entry for every entry of the source with the same name, and each copied file has the same type, permissions, ownership, timestamps, size, device number, link target, extended attributes and data blocks as its original. Hard links inside the source become hard links inside the copy, copied files are new files with exact link counts, and the reference counts of shared blocks and names grow by exactly the number of new users. The source tree and everything outside the target are left unchanged.",
 ["inputs"],"every source tree, including hard links, empty directories and files with pending data",
 "Tests copy one small tree; each table statement must be right for every tree.",
 [S+'fs.py'],[("replication","fs.Operations.copy_tree")])
add("C10","The block cache never loses data and knows its size",
 "A block that has been modified but not yet recorded for upload is never dropped from the local cache by eviction, flushing or cache dropping. The cache's recorded size always equals the sum of the sizes of the blocks it holds, and eviction does not return before size and number of entries are within the configured limits. Once a complete flush has succeeded, no modified block is left.",
 ["inputs","histories","fault_sequences"],"all cache contents, sizes, limits and upload outcomes",
 "Tests use a few small blocks; accounting and the dirty check must hold for every sequence including failures in the middle.",
 [S+'block_cache.py'],
 [("eviction","block_cache.BlockCache.evict/drop/flush"),("accounting","block_cache.BlockCache.get/_get_entry/remove, block_cache.CacheDict.remove")])
add("C11","The recency-ordered map keeps order and content",
 "The map used as recency list behaves as a dictionary ordered by insertion: after any sequence of insertions, replacements, deletions, pops and moves to the front or end, iterating the values from the front or from the back yields exactly the present entries in the order given by insertion or last move (replacing the value of a present key keeps its place). The iteration meant for use during changes never fails while entries are added, removed or moved, never yields a removed entry, and reaches every entry that stays in place for the whole iteration exactly once and in order.",
 ["inputs","histories"],"all operation sequences of any length",
 "Linked structures break for particular positions (head, tail, single element, neighbour of an iterator); tests sample few sequences.",
 [S+'_linked_dict.py'],[("linked list surgery","_linked_dict.LinkedDict")])
add("C12","Cached file attributes are never lost or mixed up",
 "Reading the attributes of a file through the attribute cache gives the values most recently set, whether they come from the cache or the database, and every change that was made is written to the database before the cached copy is discarded. Flushing writes the current value of every changed attribute to the right file and to no other; a file that was deleted is not written back, and reading it raises a lookup error. Attributes reported to the kernel equal the stored ones.",
 ["inputs","histories"],"all attribute values and access sequences, including cache overflow",
 "Tests touch few inodes; a slip in the replacement of cache slots only shows for particular sequences.",
 [S+'inode_cache.py'],[("attribute cache","inode_cache.InodeCache/_Inode")])
add("C13","Every modified database block is reported for upload",
 "After every successful write to the tracked database file, every fixed-size block that overlaps the written byte range is reported as modified, in addition to the blocks already reported, and no other block is. Truncating the file withdraws the reports for the blocks that lie completely behind its new end and for no other modified block. Each modified block is handed out once, and again only after it was modified again. Tracking covers exactly the file that SQLite opens as database, whatever path it was named by; while writes are inhibited, writes to it are refused and leave it unchanged.",
 ["inputs","histories"],"all offsets, lengths, block sizes, paths and sequences of operations",
 "Off-by-one errors at block boundaries lose metadata silently and only for particular write offsets.",
 ['src/s3ql/_sqlite3ext.cpp','src/s3ql/sqlite3ext.pyx','src/s3ql/database.py'],[("write tracking","_sqlite3ext.cpp vfstraceWrite/vfstraceTruncate/vfstraceOpen, sqlite3ext.pyx WriteTracker"),("set-up","database.Connection.__init__")])
add("C14","Metadata backups restore the database they were taken from",
 "Uploading metadata stores every modified block of the database (or every block for a full upload) under the current version with exactly the bytes in the database file, and records the database's size and checksum. Downloading a version takes for each block the newest stored copy not newer than that version, ignores blocks beyond the recorded size, restores the recorded size, and fails with an error if the result does not match the recorded checksum.",
 ["inputs","histories"],"all database sizes, block sizes, sets of stored versions and requested versions",
 "Tests use tiny databases with few versions; block selection and length arithmetic must be right for all sizes and version sets.",
 [S+'database.py'],[("upload","database.UploadMetadata"),("download","database.DownloadMetadata, database.first_le_than, database.get_block_objects")])
add("C15","Expiring old metadata never breaks a retained version",
 "Expiring old metadata backups removes only data that no retained version needs: for each of the newest versions that are kept, every block that a download of that version would use is still present afterwards. The number of versions kept is the requested number or all if there are fewer, the kept ones are the newest, and superblocks and blocks of removed versions that nothing needs are removed.",
 ["inputs","histories"],"all sets of stored versions, sizes and blocks",
 "Which block serves which version depends on the complete upload history; tests build few histories.",
 [S+'database.py'],[("expiry","database.expire_objects")])
add("C16","Out-of-date metadata is never mounted or overwritten",
 "File system parameters survive writing and reading unchanged, and reading refuses data of an older version, unknown format or incompatible revision with the documented errors. Mounting uses the locally cached database only if it is at least as recent as the remote copy and belongs to an orderly state, refuses to proceed when the file system appears mounted elsewhere, damaged or in need of a check, and increases the version number and marks the file system as in use before any change is made.",
 ["inputs","configurations"],"all combinations of local and remote parameters",
 "The decision depends on many independent flags; tests cover few combinations.",
 [S+'mount.py',S+'common.py',S+'database.py'],[("decision","mount.get_metadata, mount.main_async"),("parameters","database.FsAttributes")])
add("C17","Temporary backend failures are retried, others are not",
 "A backend operation that fails with an error classified as temporary is repeated with the same arguments until it succeeds, a permanent error occurs or the time limit is exceeded; its result is then the result of the successful attempt. An error not classified as temporary is passed to the caller after a single attempt, and waiting periods requested by the server are honoured within fixed bounds. Data to be uploaded is sent from its original start position on every attempt.",
 ["inputs","fault_sequences"],"all sequences of failures and all requested delays",
 "Tests inject one or two failures; the loop must be right for every sequence.",
 [S+'backends/common.py'],[("retry","backends.common.retry")])
add("C18","The local storage backend is a faithful key-value store",
 "Distinct keys never share a file, every key survives translation to a path and back, and no key reaches a file outside the storage directory. Storing, fetching, looking up, listing by prefix, measuring and deleting behave as on a key-value map, a missing key raises the documented error, and an interrupted or failed store never leaves a partial object visible under the key. Metadata is returned exactly as stored, and malformed files raise the corruption error.",
 ["inputs","fault_sequences"],"all keys, contents, metadata and prefixes",
 "Tests use short plain keys; escaping and prefix handling must be right for every key.",
 [S+'backends/local.py'],[("path mapping","local.escape/unescape/AsyncBackend._key_to_path"),("operations","local.AsyncBackend")])
add("C19","The checker repairs reference counts and leaves sound data alone",
 "Checking a sound file system changes nothing and reports no error. After checking a damaged one, the link count of every file, the reference count of every name and of every stored block equals the number of uses, entries pointing at missing files or blocks are gone or repaired, and unreferenced stored objects are removed. Files and directories no longer reachable are kept under the lost-and-found directory rather than discarded.",
 ["inputs"],"all database states",
 "Tests damage one thing at a time; the repair statements must be right for every state.",
 [S+'fsck.py'],[("repairs","fsck.Fsck.check_*")])
add("C20","Directory listings and control commands are exact",
 "Listing a directory in any number of steps, continuing from any previously returned position, yields every entry exactly once, never repeats or skips an entry because of where the listing was interrupted, and never uses the positions reserved by network file systems. Control command arguments are accepted only if they are literals of exactly the expected number and types, and anything else is rejected as invalid without effect.",
 ["inputs","histories"],"all directories, interruption points and argument strings",
 "Tests list one small directory in one go.",
 [S+'fs.py',S+'common.py'],[("listing","fs.Operations.readdir"),("argument parsing","common.parse_literal/parse_literal_tuple")])
add("C21","Backup expiry keeps a backup for every age range",
 "The backup expiry tool only removes backups from the list it was given, and never one that is needed: every configured age range that one of the listed backups covers, now or after any number of further backups (one per cycle), is still covered then by a remaining or a further backup, so at least one backup is kept whenever one lies within the configured ranges. With every new backup all older ones age by exactly one cycle, in the order of their dates. Running it again without new backups removes nothing further, and a dry run or a refused run changes nothing.",
 ["inputs","histories"],"all lists of backups and age ranges",
 "Tests use few fixed dates.",
 ['contrib/expire_backups.py'],[("selection","expire_backups.process_backups/simulate")])
add("C22","Block locks are exclusive and never leak",
 "At most one holder can own the lock for a given key at any time, while locks for different keys never block each other. A lock is available again after its holder releases it, also when the protected code fails; releasing a lock that is not held is reported as an error unless explicitly tolerated, and waiting is woken only to re-check.",
 ["inputs","schedules"],"all keys and all sequences of acquire and release",
 "The invariant is over every interleaving at the suspension points, which tests sample.",
 [S+'multi_lock.py'],[("lock table","multi_lock.MultiLock")])
add("C23","A crash at any moment loses nothing already committed",
 "If the machine stops at any moment, the next check recovers all data and metadata that had been written out before, and everything after that is either completely present or completely absent. In particular a local cache file is never mistaken for newer or different data than it holds.",
 ["crash_points"],"every point at which the machine may stop",
 "Tests do not crash the machine.",
 [S+'block_cache.py',S+'mount.py',S+'database.py'],[("write ordering","block_cache.BlockCache._get_entry, database.write_params, mount.main_async")])
add("C24","Concurrent file system requests do not corrupt each other",
 "Requests that run concurrently leave file contents, directory entries and reference counts in a state that some sequential order of the same requests would produce.",
 ["schedules"],"every interleaving at suspension points",
 "Tests run requests one after another.",
 [S+'fs.py',S+'block_cache.py'],[("suspension points","fs.Operations, block_cache.BlockCache")])
for p in P: assert len(p['title'])<=80,p['title']
open(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))+'/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in P))
import sys
sys.path.insert(0,'/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in P:
    try: jsonschema.validate(p,sch)
    except Exception as e: print(p['id'],str(e)[:300])
