"""Writes /verif/properties.jsonl (kept as code so that the entries stay short and uniform)."""
import json
import os

C = 'core/ratarmountcore/'
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    e = {
        'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext},
        'why_tests_cant': why,
        'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]},
    }
    if state:
        e['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        e['anchors']['observe_at'] = list(observe)
    e['anchors']['hook_needed'] = None
    assert len(title) <= 80, title
    P.append(e)


prop('C01', 'File views equal the concatenation of their cut-outs',
     'A file object assembled from byte ranges of other files, from a sequence of whole files, or from a read function '
     'behaves like an in-memory file holding the concatenation of those ranges: a read at any position returns exactly '
     'the bytes there, end-of-file is reported only at the end, and seek and tell agree. This holds for any number, '
     'order, overlap and emptiness of the ranges and for any sequence of seeks and reads. A seek that is rejected '
     'leaves the position unchanged.',
     ['inputs', 'histories'], 'all stencil lists, all file contents, all offsets/sizes/whences, all sequences of operations',
     'Tests try a few hand-written stencils with small sizes; the claim is over all cut-out lists and positions.',
     [C + 'StenciledFile.py'],
     [('RawStenciledFile._find_stencil / _read1_unlocked / read / seek', C + 'StenciledFile.py'),
      ('RawJoinedFileFromFactory.read / seek', C + 'StenciledFile.py'),
      ('LambdaReaderFile.read / seek, ZeroFile', C + 'StenciledFile.py')],
     [('cumsizes', 'prefix sums of the non-empty cut-out sizes', 'RawStenciledFile'),
      ('offset', 'current position in the view', 'RawStenciledFile')])

prop('C02', 'Seekable block-parallel readers return slices of the decompressed stream',
     'Reading from a file opened with a block-parallel decompressing reader returns, for any sequence of seeks and '
     'reads, exactly the bytes of the decompressed stream at the current position, up to the end of the stream. What '
     'happens to be cached, prefetched or still being decompressed never changes a result, and reading without a size '
     'returns everything up to the end.',
     ['inputs', 'histories', 'schedules'], 'all block layouts, positions, read sizes, cache contents and completion orders',
     'Tests use a few files and read patterns; block boundary and cache-state combinations are unbounded.',
     [C + 'BlockParallelReaders.py', C + 'utils.py'],
     [('BlockParallelReader._find_block / _block_size / _read / seek', C + 'BlockParallelReaders.py'),
      ('Prefetcher', C + 'utils.py')],
     [('blockBoundaries', 'uncompressed offsets of the blocks and the stream size', 'BlockParallelReader')])

prop('C03', 'Bounded caches stay bounded and return what was stored',
     'A least-recently-used cache never holds more entries than its configured size, returns for every key the value '
     'stored last, and evicts only an entry that was not used more recently than any entry it keeps. A failed look-up '
     'changes nothing, and no sequence of operations makes a later operation fail.',
     ['histories'], 'all sequences of insertions, look-ups, membership tests and evictions, all sizes',
     'Tests exercise a handful of sequences; the claim is an invariant over all histories.',
     [C + 'utils.py'], [('LRUCache', C + 'utils.py')],
     [('data / lastUsed', 'entries and their recency', 'LRUCache')])

prop('C04', 'Reading an archive member yields exactly its bytes',
     'Opening a member of a TAR archive, or reading any part of it by offset and size, yields exactly the bytes the '
     'archive stores for that member and nothing before or after them. Holes of sparse members read as zeros, and the '
     'size of the opened file equals the recorded file size.',
     ['inputs'], 'all member offsets and sizes, all read offsets and sizes, all sparse maps',
     'Tests read small sample archives at a few offsets; offsets, sizes and sparse maps are unbounded.',
     [C + 'mountsource/formats/tar.py', C + 'mountsource/MountSource.py', C + 'StenciledFile.py'],
     [('SQLiteIndexedTar.open / read / _open_sparse_file', C + 'mountsource/formats/tar.py'),
      ('MountSource.read', C + 'mountsource/MountSource.py')])

prop('C05', 'Concurrent readers of one archive do not disturb each other',
     'Several file objects opened from the same archive may be read from different threads in any interleaving: every '
     'read returns the bytes of its own member as if it were the only reader. No operation on one of them deadlocks the others.',
     ['schedules'], 'all interleavings of reads on handles that share one archive file object',
     'A test runs one schedule; the shared file position makes the outcome schedule-dependent.',
     [C + 'StenciledFile.py', C + 'mountsource/formats/tar.py', 'ratarmount/FuseMount.py'],
     [('fileObjectLock held from seek to read', C + 'StenciledFile.py'),
      ('per-archive lock passed to every opened view', C + 'mountsource/formats/tar.py')])

prop('C06', 'All spellings of a path name the same entry',
     'Paths handed to an archive are reduced to one normal form that starts with a single slash, has no empty, "." or '
     '".." components and no trailing slash; normalising twice changes nothing. Spellings that differ only in leading, '
     'trailing or repeated slashes or in "." components, and that do not climb above the root with "..", look up, list and '
     'count the same entry, whether when stored or when queried.',
     ['inputs'], 'all path strings',
     'Tests check a few spellings; the path language is unbounded.',
     [C + 'SQLiteIndex.py'], [('SQLiteIndex.normpath / _query_normpath / _split_normpath', C + 'SQLiteIndex.py')])

prop('C07', 'Lookup, listing and versions of an indexed archive agree',
     'For every indexed archive, a name appears in the listing of a folder exactly if looking up the joined path finds '
     'an entry, and the listing shows the newest version of it with the same metadata and mode. Version 0 is the newest '
     'entry, versions 1 to n count from the oldest, negative versions count back from before the newest, the version count '
     'is the number of stored entries of that path, and any other version finds nothing. A query that fails changes no later answer.',
     ['inputs', 'histories'], 'all index contents, all paths, all version numbers',
     'Tests use a few archives with up to three versions of one file.',
     [C + 'SQLiteIndex.py', C + 'mountsource/SQLiteIndexMountSource.py'],
     [('SQLiteIndex.lookup / list / list_mode / versions / _row_to_file_info', C + 'SQLiteIndex.py')])

prop('C08', 'Every indexed entry is reachable from the root',
     'After an archive has been indexed, every ancestor folder of every entry exists, is a folder, and lists the next '
     'path component, even if the archive has no headers for these folders. Only an ancestor path that the archive itself also '
     'uses for something else than a folder may show that member instead. Generated folders never replace folders the archive '
     'does contain, and walking from the root reaches every stored path.',
     ['inputs', 'histories'], 'all sets and orders of member paths',
     'Tests use a few archives with missing parents; member path sets and orders are unbounded.',
     [C + 'SQLiteIndex.py'], [('SQLiteIndex.set_file_info(s) / _add_parent_folders / finalize', C + 'SQLiteIndex.py')])

prop('C09', 'A stale, foreign or unfinished index is never used',
     'An existing index is only used if its list of entries was completed and its recorded archive size, backend and (when '
     'requested) modification time do not contradict the archive being opened; only members appended to a TAR may be added instead. An index whose creation was interrupted '
     'before all entries were recorded, that belongs to a smaller, larger or different archive, or that was made by another backend is never used, '
     'and an index that may only be read is never changed or removed.',
     ['crash_points', 'histories', 'configurations'], 'all interruption points of index creation, all recorded/actual metadata pairs',
     'Tests cover a few mismatches and no interruption points.',
     [C + 'SQLiteIndex.py', C + 'mountsource/SQLiteIndexMountSource.py', C + 'mountsource/formats/tar.py'],
     [('SQLiteIndex.index_is_loaded / _try_load_index / open_existing', C + 'SQLiteIndex.py'),
      ('SQLiteIndex.check_archive_stats / check_metadata_arguments / check_metadata_backend', C + 'SQLiteIndex.py')])

prop('C10', 'TAR headers are mapped faithfully to file metadata',
     'For every member of a TAR archive the mounted entry has the path, size, modification time, owner, link target, '
     'permission bits and file type recorded in the header, hard links and symbolic links lead to their recorded target, '
     'and the recorded offsets point at the member header and data. User-given path transformations and encodings apply to every member alike.',
     ['inputs'], 'all header field values and types, all archive layouts',
     'Tests compare a few sample archives; header values and types combine without bound.',
     [C + 'mountsource/formats/tar.py'],
     [('_TarFileMetadataReader._process_tar_info / _fix_incremental_backup_name_prefixes', C + 'mountsource/formats/tar.py'),
      ('_get_full_tar_mode / get_tar_prefix', C + 'mountsource/formats/tar.py')])

prop('C11', 'A union mount gives precedence to the source added last',
     'Looking up, listing or opening a path in a union of mount sources yields the entry of the last source containing it, '
     'a folder lists exactly the union of the names of all sources that have it, and the metadata listed for a name is '
     'that of the source that wins the lookup. Older versions enumerate the remaining sources from newest to oldest, the version count is the '
     'sum over the sources, and internal caching never changes any answer.',
     ['inputs', 'configurations'], 'all source lists, tree contents, paths and version numbers, all cache budgets',
     'Tests use two or three small sources.',
     [C + 'mountsource/compositing/union.py'],
     [('UnionMountSource.lookup / _list / list_mode / versions', C + 'mountsource/compositing/union.py')],
     [('folderCache', 'for folders of immutable sources: which sources contain them', 'UnionMountSource')])

prop('C12', 'The version layer exposes exactly the stored versions',
     'For every file, the special ".versions" folder next to it lists exactly the versions 1 to n that exist, each entry opens the '
     'contents of that stored version, and paths that do not use the special suffix behave as without the layer. Hard links '
     'resolve to the entry they name, link chains and cycles terminate, and a file or folder that really is named like the special suffix stays accessible.',
     ['inputs'], 'all trees, all paths including those containing the special suffix, all link graphs',
     'Tests use one archive with a few versions; link graphs and suffix placements are unbounded.',
     [C + 'mountsource/compositing/versioning.py'],
     [('FileVersionLayer._decode_versions_path_api / lookup / list / versions', C + 'mountsource/compositing/versioning.py')])

prop('C13', 'Subvolumes appear exactly below their mount points',
     'After mounting a source at a path, every path below it shows exactly what that source shows at the remaining path, '
     'for nested mount points too, and every ancestor of a mount point is a folder listing exactly its children. '
     'Mounting never replaces an existing mount, unmounting removes exactly the named mount point, and queries that only ask never change what is visible.',
     ['histories', 'inputs'], 'all sequences of mount/unmount, all paths',
     'Tests try a few mount points and sequences.',
     [C + 'mountsource/compositing/subvolumes.py'],
     [('SubvolumesMountSource._find_mount_source / mount / unmount / list / lookup', C + 'mountsource/compositing/subvolumes.py')])

prop('C14', 'Prefix-removing and single-file views show exactly their part of the tree',
     'A source that is moved below a folder by removing a prefix from the requested paths shows at every path below that folder exactly what it shows at the rest of '
     'the path, for listing, lookup with every version, version counts and opening; the folders above it list only the way to it and nothing else exists. '
     'A single-file source shows exactly one file with one version, of exactly the given name, size and contents, in a folder listing only that file, '
     'and all file objects opened from it can be read independently.',
     ['inputs'], 'all prefixes, file names and query paths',
     'Tests check a few prefixes and paths.',
     [C + 'mountsource/compositing/removeprefix.py', C + 'mountsource/compositing/singlefile.py'],
     [('RemovePrefixMountSource._parse_path / lookup / list', C + 'mountsource/compositing/removeprefix.py'),
      ('SingleFileMountSource.lookup / list / open', C + 'mountsource/compositing/singlefile.py')])

prop('C15', 'Nested archives show their contents at their mount points',
     'With recursive mounting, an absolute path is served by the deepest mounted archive containing it, with the rest of the path '
     'resolved inside that archive; mount points appear as folders and everything else as without recursion. No archive is mounted deeper than the '
     'configured recursion depth (a compressed TAR counts its compression as one level), and an archive that cannot be opened stays visible as a plain file. '
     'The original file of an archive that lies directly in the mounted source stays reachable as an older version.',
     ['inputs', 'configurations'], 'all nesting structures, paths, recursion depths and version numbers',
     'Tests use fixed nested samples.',
     [C + 'mountsource/compositing/automount.py'],
     [('AutoMountLayer._find_mounted / _mount_recursively / _mount_file / _recursively_mount', C + 'mountsource/compositing/automount.py')])

prop('C16', 'Composed mounts serve each entry from its own source and keep it intact',
     'An entry looked up in any composition of mount sources is opened, read and queried for extended attributes through the very source '
     'that produced it, whatever other sources are composed. Using an entry, successfully or with an error at any point, leaves it unchanged so that it can be used again.',
     ['inputs', 'fault_sequences'], 'all compositions, all operations, an exception at every delegated call',
     'Tests rarely reuse an entry and never after an error.',
     [C + 'mountsource/compositing/union.py', C + 'mountsource/compositing/subvolumes.py',
      C + 'mountsource/compositing/versioning.py', C + 'mountsource/compositing/automount.py'],
     [('userdata pop/append around delegated calls', C + 'mountsource/compositing/*.py')],
     [('FileInfo.userdata', 'stack of per-layer data; top belongs to the outermost layer', C + 'mountsource/MountSource.py')])

prop('C17', 'The write overlay shows every modification and nothing else',
     'With a write overlay, after any sequence of creating, writing, truncating, renaming, linking, deleting and changing '
     'attributes, the mount behaves like a normal writable folder initialised with the archive: reads return the latest written contents, '
     'deleted and renamed-away entries stay invisible until created again, and unmodified entries are served from the archive. Folders list exactly the visible entries. '
     'Exceptions: a handle opened for reading before a file of the archive is first modified may keep showing the archive\'s contents; names '
     'that are hard links of one file keep attributes of their own; and renaming a folder that is not wholly in the overlay, hard-linking a file '
     'of the archive and renaming device files may be refused.',
     ['histories'], 'all sequences of file system operations on archive and overlay entries',
     'Tests run a fixed shell script of operations; the claim is over all histories.',
     ['ratarmount/WriteOverlay.py', 'ratarmount/FuseMount.py'],
     [('WritableFolderMountSource', 'ratarmount/WriteOverlay.py'), ('FuseMount readdir/_lookup/open', 'ratarmount/FuseMount.py')],
     [('files table', 'deleted flags and attribute overrides', '.ratarmount.overlay.sqlite')])

prop('C18', 'Mounted archives are never modified and overlay writes stay in the overlay',
     'No operation on the mount point ever changes a mounted archive or source folder: without a write overlay every '
     'modifying operation is refused as read-only, and with one all effects are confined to the overlay folder. The overlay\'s own bookkeeping '
     'files can neither be seen nor changed through the mount point, under any spelling of their path.',
     ['inputs', 'histories'], 'all operations, all paths including ones with dot-dot components and bookkeeping names',
     'Tests try no hostile paths and only a few operations.',
     ['ratarmount/WriteOverlay.py', 'ratarmount/FuseMount.py'],
     [('WritableFolderMountSource._realpath / _is_overlay_control path checks', 'ratarmount/WriteOverlay.py'),
      ('FuseMount modifying operations', 'ratarmount/FuseMount.py')])

prop('C19', 'Committing an overlay applies exactly its changes',
     'Committing a write overlay deletes from the archive exactly the entries deleted in the overlay and appends exactly '
     'the files, links and folders present in the overlay, so that mounting the committed archive shows the same names, types, contents and link targets as the overlay mount did; nothing is changed without confirmation. '
     'Changes of permissions, owners and times of unchanged files are not committed. Entries are found as name, ./name and /name, every folder of the archive has an entry of its own. '
     'The bookkeeping files are never added to the archive, names with special characters included.',
     ['inputs', 'histories'], 'all overlay contents',
     'One scripted case is tested; file names and overlay shapes are unbounded.',
     ['ratarmount/WriteOverlay.py'], [('commit_overlay', 'ratarmount/WriteOverlay.py')])

prop('C20', 'FUSE handles stay distinct and reads use their own file and offset',
     'Every successful open returns a handle no other open file uses, every read or write through a handle affects only the file and '
     'offset it was given for, and a released handle is closed exactly once and never confused with another. Paths that do not exist are reported as such, and '
     'directory listings contain every visible name exactly once.',
     ['histories', 'schedules'], 'all sequences of open/create/read/write/release over any number of handles',
     'Tests open a few files one after another.',
     ['ratarmount/FuseMount.py'], [('FuseMount.open / create / read / write / release / _add_new_handle', 'ratarmount/FuseMount.py')],
     [('openedFiles / lastFileHandle', 'handle table', 'FuseMount')])

prop('C21', 'Split archives are joined completely and in numeric order',
     'A file that is part of a numbered sequence (decimal, letters or hexadecimal suffixes, with or without zero padding) is joined with exactly '
     'the consecutive members of that sequence in numeric order starting at the first one. Files of other names, gaps, and other numbering widths are never mixed in, '
     'and a file that starts no sequence is left alone.',
     ['inputs'], 'all sets of file names in a folder, all suffix formats and sequence lengths',
     'Tests list a few suffix sets.',
     [C + 'compressions.py'],
     [('check_for_sequence / check_for_split_file_in / format_number', C + 'compressions.py')])

prop('C22', 'Format detection leaves files untouched and honours priorities',
     'Detecting the format or compression of a file never changes the read position a later consumer sees, even when a detector fails. '
     'Among available backends the user\'s priority order decides first, then the defaults; a compression suffix is stripped at most once and only for known suffixes; archives are offered only to backends whose format check passed.',
     ['inputs', 'configurations'], 'all file contents and positions, all priority lists and backend availabilities',
     'Tests use sample files at position 0 with default priorities.',
     [C + 'compressions.py', C + 'formats.py', C + 'mountsource/factory.py'],
     [('might_be_format / detect_formats', C + 'formats.py'), ('find_available_backend / strip_suffix / detect_compression', C + 'compressions.py')])

prop('C23', 'Checksums are those of the whole file',
     'Every computed checksum equals the reference algorithm applied to the file\'s complete contents, independent of how '
     'the file object splits its reads and of which and how many algorithms are computed together. Progress reports never exceed the file size.',
     ['inputs'], 'all contents, sizes, read fragmentations and algorithm sets',
     'Tests hash a few fixed byte strings.',
     [C + 'hashing.py'], [('compute_hashes, OpenSubtitles/smplayer hash', C + 'hashing.py')])

prop('C24', 'AR and SQLAR members are mapped to their recorded contents',
     'Every member of an AR archive is listed once under its recorded name, including long names in both the GNU and BSD variants, '
     'with its recorded size, times, owner and mode, and reads exactly its own bytes (members of thin archives are links to the recorded file). In SQLAR archives members in folders without an own entry are reachable, each folder lists exactly its direct children, whatever characters their names contain, and every listed entry can be looked up.',
     ['inputs'], 'all archive layouts and names',
     'Tests read a few sample archives with ordinary names.',
     [C + 'mountsource/formats/ar.py', C + 'mountsource/formats/sqlar.py'],
     [('ARMountSource parsing', C + 'mountsource/formats/ar.py'), ('SQLARMountSource.list / lookup / open', C + 'mountsource/formats/sqlar.py')])

prop('C25', 'Data stored as database blobs is read back unchanged',
     'A byte stream written in any sequence of chunks into a blob table is read back byte for byte, in order and with its exact length, through any sequence of seeks and '
     'reads. No stored blob exceeds the configured blob size.',
     ['inputs', 'histories'], 'all chunk sequences, blob sizes and read patterns',
     'Tests use a few chunk sizes.',
     [C + 'SQLiteBlobFile.py'],
     [('WriteSQLiteBlobs / SQLiteBlobsFile / SQLiteBlobFile', C + 'SQLiteBlobFile.py')])

prop('C26', 'All given mount sources are mounted and the mount never reads itself',
     'Mounting several sources side by side gives every source its own distinct non-empty name and loses none of them. Control-file command lines are '
     'split and joined without losing or altering arguments, and when a folder is mounted lazily onto itself or mounts are controlled at run time, index locations that lie inside the mount point are never used.',
     ['inputs', 'configurations'], 'all lists of mount sources, all command lines, all mount points and index locations',
     'Tests use two or three sources.',
     ['ratarmount/FuseMount.py', C + 'utils.py'],
     [('FuseMount._create_multi_mount / split_command_line / _path_provided_by_us', 'ratarmount/FuseMount.py')])

prop('C27', 'A folder source mirrors the folder',
     'For a mounted folder, listing, lookup, version count and opening agree with the operating system for every path below it: the '
     'same names, types (listings of types alone only tell folders, links and the rest apart), sizes, link targets and contents, and nothing for paths that do not exist or lead through a link. Existing targets of relative links that leave the folder are shown in place of the link. The same holds for a folder mounted with an index, with all links shown as links and names that are valid text. Entries obtained from a listing can be opened like those obtained by lookup.',
     ['inputs'], 'all folder contents, names and link targets',
     'Tests mostly use folders through unions with a few files.',
     [C + 'mountsource/formats/folder.py'],
     [('FolderMountSource', C + 'mountsource/formats/folder.py')])

prop('C28', 'Any member name survives indexing',
     'A member whose name or link target contains any bytes, including ones that are not valid in the chosen encoding (one that extends ASCII), is indexed '
     'without failing or affecting other members, and the name under which it is listed looks up that same member. Bytes that are not valid are shown '
     'escaped; different names that are escaped to the same text are versions of one entry. Names that cannot be stored in an index do not exist in it, '
     'and asking for them disturbs no other source. Extended attribute values are returned byte for byte.',
     ['inputs'], 'all byte strings as names and attribute values',
     'Tests contain a few undecodable names.',
     [C + 'SQLiteIndex.py', C + 'mountsource/formats/tar.py'],
     [('SQLiteIndex.set_file_info(s) / _escape_invalid_characters / setxattrs / get_xattr', C + 'SQLiteIndex.py')])

prop('C29', 'Members of ZIP, RAR, ASAR and libarchive archives are mapped faithfully',
     'Every member of a ZIP, RAR or ASAR archive, or of an archive opened with libarchive, is listed under its recorded name with its recorded '
     'size, type, permissions and modification time (or none if it has no valid one), folders without an own entry are reachable, symbolic links have '
     'their recorded target and hard links show the file they refer to. Of several members with the same name the last one is shown. '
     'Every listed member can be looked up and, where its contents are in the archive, reads exactly its recorded bytes. A member with unusual metadata never keeps '
     'the other members from being mounted, and files without a valid ASAR header are rejected.',
     ['inputs'], 'all archive layouts, names, dates, modes and link targets',
     'Tests read a few sample archives with ordinary names, valid dates and plain files.',
     [C + 'mountsource/formats/zip.py', C + 'mountsource/formats/rar.py', C + 'mountsource/formats/asar.py', C + 'mountsource/formats/libarchive.py'],
     [('ZipMountSource._convert_to_row', C + 'mountsource/formats/zip.py'),
      ('RarMountSource._convert_to_file_info / open / lookup / versions', C + 'mountsource/formats/rar.py'),
      ('ASARMountSource._convert_to_row, find_asar_header', C + 'mountsource/formats/asar.py'),
      ('ArchiveEntry.convert_to_row', C + 'mountsource/formats/libarchive.py')])

prop('C30', 'Streamed (libarchive) members behave like files',
     'A member opened with libarchive, whose contents can only be streamed forward, behaves like a file holding its recorded contents for every sequence of '
     'seeks and reads: each read returns exactly the bytes at the position, '
     'seeking backwards starts over, and positions outside of the file are clamped to its start and end. Any number of '
     'members may be open and read alternately, also from several threads: no archive reader is ever used for two open members and '
     'at most a fixed number of unused readers are kept.',
     ['inputs', 'histories', 'schedules'], 'all contents, sequences of seeks and reads, and interleavings of open members',
     'Tests read members front to back, one at a time, that fit into the first buffer.',
     [C + 'mountsource/formats/libarchive.py'],
     [('LibarchiveFile._refill_buffer / read1 / read / seek / tell', C + 'mountsource/formats/libarchive.py'),
      ('IterableArchive callbacks, LibarchiveMountSource.open and its cache of archives', C + 'mountsource/formats/libarchive.py')],
     [('_buffer / _bufferOffset / _bufferIO', 'the buffered part of the member and the position in it', 'LibarchiveFile')])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for e in P:
        f.write(json.dumps(e) + '\n')
print(len(P))
