#!/usr/bin/env python3
"""Writes properties.jsonl (edit here, not there)."""
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,obs=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
BC="file_systems/common/blockcache/blockcache.go"
BS="file_systems/common/basicstream/basicstream.go"
CO="utilities/compression/"
F8="file_systems/fat8/"
FT="file_systems/fat/"
DR="driver/"
bcstate=[("loaded/dirty bitmaps","which blocks are held in memory and which of those differ from the backing storage",BC),("cached bytes","the in-memory copy of every block",BC)]
p("C01","Block cache reads return the latest write, else the backing storage",
  "Reading any in-range bytes through a block cache returns, for every byte, the value most recently written through the cache, or the backing storage's content where nothing was written. Loading, reading, marking and flushing blocks never change what later reads return, and a write changes exactly the bytes it was given. A read fills exactly the caller's buffer and reports that length, also when the buffer is not a whole number of blocks.",
  ["inputs","histories"],"all block sizes, cache sizes, contents, buffer lengths, start blocks and all histories of cache operations",
  "Tests use a handful of fixed cache shapes and whole-block buffers; coherence has to hold for every history of loads, writes, marks and flushes and every partial-block length.",
  [BC],[("loaded and dirty bitmaps",BC),("load-before-use of a block range",BC)],bcstate,["ReadAt","GetSlice","Data","WriteAt"])
p("C02","Flushing a block cache persists every dirty block and touches no other",
  "After a successful flush the backing storage equals what reads through the cache return, for every block that was modified or marked dirty. A flush writes only dirty blocks, each with its full current content, and a flush that fails reports an error and leaves every block it did not write dirty, so retrying persists it. Flushing or loading an empty cache succeeds.",
  ["inputs","histories","fault_sequences"],"all cache states, all failing positions of the backing store's write",
  "Tests flush one small cache with an always-succeeding backing store; no test fails a flush half way or checks which blocks are written.",
  [BC],[("dirty bitmap driven flush loop",BC)],bcstate,["Flush"])
p("C03","Out-of-range block cache requests fail cleanly for every start and length",
  "A block cache request whose range is not inside the cache fails with the argument-out-of-range error, without calling the backing storage, without changing the cache or the caller's buffer and without crashing, for every start block and every length including those whose byte size overflows. The minimum-blocks computation is the exact ceiling of size over block size for every size. A request that lies inside the cache is never refused as out of range.",
  ["inputs"],"every 64-bit start block, block count and byte count, every block size >= 1",
  "Tests probe two or three boundary values; overflow makes the check pass only for huge values no test uses.",
  [BC],[("bounds check before any access",BC),("ceiling division",BC)])
p("C04","Resizing a block cache preserves its prefix and zero-fills growth",
  "After a successful resize the cache has exactly the requested number of blocks, every byte below the smaller of the two sizes reads as before, and every added block reads as zeros and is written to the backing storage by the next flush. A resize refused by the backing storage reports that error and leaves the cache unchanged. Blocks that were dirty or not yet loaded before a resize are still dirty or not yet loaded after it.",
  ["inputs","histories","fault_sequences"],"all cache states, all new sizes, success or failure of the backing store's resize",
  "No test resizes a cache with a mix of dirty, clean and unloaded blocks, or fails the resize.",
  [BC],[("copying data and both bitmaps",BC),("marking new blocks dirty",BC)],bcstate,["Resize"])
p("C05","A stream-backed block cache maps block i to byte offset i*blocksize",
  "A cache wrapped around a stream reads and writes block i as exactly the bytes from i*blocksize to (i+1)*blocksize of that stream, including blocks added by growing the cache. If the stream cannot supply or accept a whole block the operation fails instead of silently using partial data. Resizing is refused with the documented error when it was not allowed (not permitted) or when the stream cannot be resized (not supported), and otherwise sets the stream's length to blocks times blocksize.",
  ["inputs","histories","fault_sequences"],"all block sizes, stream lengths, block numbers, short reads and failures of the stream",
  "Tests wrap only in-memory slices of exactly the right size, which never read short and never grow.",
  [BC],[("seek to block offset",BC),("full-block transfer",BC),("resize permission selection",BC)])
p("C06","Stream reads return exactly the file bytes at the offset, and EOF only at end",
  "Reading n bytes at an offset returns min(n, size-offset) bytes equal to the file's content there, with end-of-file reported exactly when fewer than n bytes are returned for a non-empty request. Reads never expose bytes at or beyond the file's size, a sequential read advances the position by exactly the number of bytes it returned, and a positional read leaves it alone. A negative offset is an error, never a crash.",
  ["inputs","histories"],"all sizes, block sizes, positions, offsets and buffer lengths",
  "Tests read fixed lengths from block-multiple files; sizes inside a block, EOF in mid-buffer and negative offsets are not sampled.",
  [BS],[("clamping to the file size",BS),("offset to block conversion",BS)])
p("C07","Stream writes behave like a POSIX file write",
  "A successful write of n bytes at an offset makes exactly those bytes readable there, leaves every other existing byte unchanged, grows the size to max(old size, offset+n), and after sync the backing storage holds the data. Bytes between the old end and the offset of a write past the end read as zeros. A sequential write advances the position by the bytes written, a positional write leaves it alone, and an empty write changes nothing.",
  ["inputs","histories"],"all sizes, block sizes, offsets and buffer contents, all histories of writes",
  "The existing tests contain no write at all; correctness depends on arithmetic on block boundaries and on dirty marking that only shows after a later sync.",
  [BS,BC],[("grow before write",BS),("dirty marking of written blocks",BS)])
p("C08","Truncation sets the exact size, keeps the prefix and never resurrects data",
  "Truncating a stream to a size sets its size to exactly that value, keeps every byte below the smaller of the two sizes, and makes every byte added by growth read as zero, even when the file was shortened earlier. The position is not moved. A negative size is refused with the invalid-argument error, and a failure to resize the backing storage is reported and leaves size and content unchanged.",
  ["inputs","histories","fault_sequences"],"all old and new sizes, block sizes and contents",
  "No test truncates at all; stale bytes only become visible by a shrink followed by a growth within the same block.",
  [BS,BC],[("block count from size",BS),("zeroing of slack bytes",BS)])
p("C09","Streams enforce access mode, append and sync flags; seeks are exact",
  "A stream opened without read access never returns data and one opened without write access never changes data or size: both fail with the not-permitted error. With append set every sequential write lands at the current end and positional writes are refused; with truncate-on-open the stream starts empty; with synchronous set, successful writes and truncations are flushed before they return. A seek moves the position to start, current or end plus the offset, or fails without moving it when the result would be negative or the origin is unknown.",
  ["inputs","histories"],"all flag combinations, positions, sizes, offsets and origins",
  "Tests exercise two flag values and no append, sync or truncate streams.",
  [BS,"flags.go"],[("flag checks at the start of each operation",BS),("seek arithmetic",BS)])
p("C10","Bulk stream copies move every byte and report every error",
  "Copying from a reader into a stream writes every byte the reader delivered, in order, and returns their number; copying a stream into a writer delivers every remaining byte in order. An error from the source other than end-of-file, or any error or short write from the destination, is returned, also when it coincides with end-of-file.",
  ["inputs","histories","fault_sequences"],"all contents, chunkings and failure positions of source and destination",
  "There are no tests for either operation; failures combined with the final chunk are not reachable with well-behaved readers.",
  [BS],[("copy loops with error checks",BS)])
p("C11","RLE8 compression round-trips every byte sequence",
  "Decompressing the RLE8 compression of any byte sequence yields that sequence exactly, for every run length including exactly 2, 257, 258 and multiples of the maximum run. The compressor reports the number of bytes it wrote.",
  ["inputs"],"all byte sequences of any length",
  "Tests try a few strings; runs that end exactly on an encoding boundary next to equal bytes are a measure-zero sample.",
  [CO+"rle8.go",CO+"rle_grouper.go"],[("run splitting at the maximum run length",CO+"rle8.go")])
p("C12","RLE decoders decode exactly, and report truncation and I/O errors",
  "The RLE8 decoder's output is exactly the format's meaning of its input for every input. Input that ends where a repeat count is required is reported as an unexpected end of file; any read error other than end-of-file and any write error is returned; and on success the returned count is the number of bytes produced.",
  ["inputs","fault_sequences"],"all byte sequences, well-formed or not, and all failure positions",
  "Tests decode a few well-formed samples.",
  [CO+"rle8.go"],[("pair detection and repeat counts",CO+"rle8.go")])
p("C13","Recursive RLE round-trips every byte sequence",
  "Decompressing the recursive run-length encoding of any byte sequence yields that sequence exactly, for every run length, including runs whose extra length is a multiple of 255. The decompressor reports a truncated repeat count as an unexpected end of file instead of inventing data, and both directions return the number of bytes written.",
  ["inputs"],"all byte sequences of any length",
  "There is no test of the recursive decoder.",
  [CO+"rle8.go"],[("count bytes summed until one is below 255",CO+"rle8.go")])
p("C14","Run grouping yields exactly the maximal runs of the input",
  "Successive runs returned by the run grouper concatenate to exactly the input, every run has length at least one, and neighbouring runs have different bytes. End of input is reported as end-of-file, with the last run or with no run after it, and any other read error is passed on with no run.",
  ["inputs","fault_sequences"],"all byte sequences and all read failures",
  "Tests enumerate a few sequences.",
  [CO+"rle_grouper.go"],[("one byte look-ahead and unread",CO+"rle_grouper.go")])
p("C15","Image compression round-trips and surfaces every failure",
  "Decompressing a compressed image yields the original bytes for every image, both to a writer and to memory. The compressor returns the number of bytes accepted by the output and the decompressor the number of bytes produced. Failures of the input, of the output or of the compressed format are returned as errors, never as silently truncated data.",
  ["inputs","fault_sequences"],"all images, all failure positions of input and output",
  "Tests compress one small sample and never fail the output.",
  [CO+"compression.go"],[("close error check",CO+"compression.go"),("counting writer",CO+"compression.go")])
p("C16","FAT8 geometry is defined exactly for the known disk sizes and self-consistent",
  "A FAT8 geometry exists exactly for 640, 1898 and 2002 blocks and every other count is an error. In each, two clusters make a track, the FAT has one entry per cluster rounded up to whole sectors, and directory entries, information sector and the three FAT copies occupy the directory track, in that order, without overlap and ending exactly at its end. The directory track lies inside the image.",
  ["inputs","configurations"],"every block count",
  "Tests try one invalid and two valid counts and compare two fields.",
  [F8+"common.go"],[("geometry table and derived layout",F8+"common.go")])
p("C17","FAT8 file names encode to nine bytes and decode back",
  "Every accepted file name encodes to exactly nine bytes: the upper-cased stem padded to six and the upper-cased extension padded to three. A stem over six or an extension over three bytes is refused with the name-too-long error and an empty name with invalid-argument. Decoding the encoding of an accepted name without padding-ambiguous spaces or a trailing period gives back the upper-cased name, and decoding never crashes.",
  ["inputs"],"all byte strings as names, all nine-byte (and shorter) raw names",
  "Tests use four ASCII names.",
  [F8+"common.go"],[("split at the first period and pad",F8+"common.go")])
p("C18","Formatting a FAT8 image produces exactly the specified layout",
  "A successful format leaves an image of the full physical size in which directory sectors are 0xFF, the information sector is zero, and three identical FAT copies mark every cluster free except the two clusters occupying the directory track, which are marked reserved. Nothing else on the new image is set. Formatting a mounted image, a size that is not a known geometry, or an image that cannot be resized or written is reported as an error.",
  ["inputs","configurations","fault_sequences"],"all sizes, all failures of the underlying file",
  "The existing format test compares the produced image with itself, and never fails the file.",
  [F8+"formattingdriver.go",F8+"iobase.go"],[("sector-wise writing of the directory track",F8+"formattingdriver.go")])
p("C19","FAT8 block and cluster I/O addresses exactly the right sectors, in bounds",
  "Reading or writing block b of a FAT8 image transfers exactly the bytes from 128*b, cluster n (counted from 1) is exactly the sectors from (n-1) times the cluster size, and a file's i-th cluster is its i-th listed cluster. What a cluster write stores, a cluster read returns. Requests outside the image or with a wrongly sized buffer are refused without touching the image, and every block of the image, including the last, is accessible.",
  ["inputs"],"all block and cluster numbers and counts, all geometries",
  "There is no test of block or cluster I/O.",
  [F8+"iobase.go"],[("bounds checks and block arithmetic",F8+"iobase.go")])
p("C20","Mounting a FAT8 image loads its FAT and free list faithfully",
  "Mounting succeeds exactly when the image has a known size (counted in whole 128-byte blocks) and its three FAT copies agree; disagreeing copies are reported as corruption. After a mount the free list holds exactly the clusters marked free among the valid clusters, each once, also after an unmount and remount, and flushing writes the in-memory FAT to all three copies. Mounting twice is refused.",
  ["inputs","histories","fault_sequences"],"all FAT contents, all mount/unmount histories",
  "There is no test of mounting.",
  [F8+"driver.go",F8+"iobase.go"],[("three-copy comparison",F8+"iobase.go"),("free list construction",F8+"driver.go")])
p("C21","FAT boot sector parsing is total, exact and validates what it accepts",
  "For every byte stream, parsing a FAT boot sector either returns an error or a description whose fields are the on-disk little-endian fields and whose derived values follow the FAT specification: FAT size, root directory sectors, first data sector, cluster count and FAT version. It never crashes, short input is an I/O error, and sector sizes, cluster sizes or layouts the specification forbids are reported as corruption. In every accepted description the metadata area fits within the volume.",
  ["inputs"],"all byte streams of any length",
  "There is no FAT test; corrupt headers that divide by zero or wrap around are outside any sample.",
  [FT+"common.go"],[("validation before arithmetic",FT+"common.go")])
p("C22","FAT directory entries decode every field exactly and never crash",
  "Decoding any 32 bytes yields each on-disk field at its specified offset, and the derived entry has the specified name (trimmed, period-joined, 0x05/0xE5 substitutions), size, first cluster, directory flag, permissions and block count. Shorter input is an error, a free entry is reported as not found, and no input crashes. A directory cluster decodes to exactly its entries up to the first free one.",
  ["inputs"],"all 32-byte records, all directory clusters",
  "There is no FAT test.",
  [FT+"dirent.go"],[("little-endian field extraction",FT+"dirent.go"),("name reconstruction",FT+"dirent.go")])
p("C23","FAT timestamps decode exactly and setters respect epoch and deletion",
  "Every on-disk date, time and hundredths value decodes to the date and time of day it denotes, to ten milliseconds. Setting an accessed, modified, created or deleted time before the format's epoch is refused and changes nothing; otherwise exactly that timestamp changes. Creation time is unavailable for deleted entries and deletion time for others, and setting the deletion time marks the entry deleted.",
  ["inputs"],"all 16-bit date and time values, all times",
  "There is no FAT test.",
  [FT+"dirent.go"],[("bit field extraction",FT+"dirent.go"),("epoch checks",FT+"dirent.go")])
p("C24","FAT cluster chains are followed exactly, and always terminate",
  "Listing a chain returns exactly the successive clusters up to the end-of-chain mark, in order, and indexed lookup returns the element at that position or an error past the end. A chain that leads to an invalid cluster or loops is reported as corruption after finitely many steps. Reading a cluster returns exactly its sectors, and reading a file returns exactly the first size bytes of its clusters in chain order.",
  ["inputs","histories"],"all FAT contents including cyclic and truncated chains, all file sizes",
  "There is no FAT test, and no sample of chains shows termination for all of them.",
  [FT+"driverbase.go"],[("chain walk with validity checks",FT+"driverbase.go")])
p("C25","FAT path lookup finds exactly the named entry; removal frees its clusters",
  "Resolving a path walks it component by component and yields the entry of exactly that name in the directory named by the preceding components; a missing component is not-found, descending through a non-directory is not-a-directory, and failures reading a directory are returned. Removing a file deletes its directory entry and then frees exactly the clusters of its chain, each once. A directory is never removed this way.",
  ["inputs","histories","fault_sequences"],"all directory contents, all paths, all failure positions",
  "There is no FAT test.",
  [FT+"driverbase.go"],[("component-wise lookup",FT+"driverbase.go"),("delete before free",FT+"driverbase.go")])
p("C26","Unix V6 inode decoding and mode conversion are exact and inverse",
  "Converting a supported mode to on-disk flags and back yields the same mode, the flags always mark the inode allocated, and unsupported file types are refused. Converting on-disk flags to a mode preserves permission, set-id and file-type bits for all 65536 values. An inode's status reports its 24-bit size, the exact number of 512-byte blocks, link count, owner, group and timestamps.",
  ["inputs"],"all 16-bit flags, all file modes, all inodes",
  "There is no Unix V6 test.",
  ["file_systems/unixv6/dirents.go"],[("bit-wise conversion","file_systems/unixv6/dirents.go")])
p("C27","Open, mount and stat flags mean exactly what their bits say",
  "Converting operating-system open flags keeps access mode (read, write or both), append, create, exclusive, truncate and sync, and adds nothing. Each flag query depends only on its own bits; read and write permission follow from the access mode alone; file status reports directory, regular file and symlink mutually exclusively; total sizes are block size times block count.",
  ["inputs"],"all flag values, all modes",
  "Tests do not cover flags.",
  ["flags.go","api.go"],[("bit masks","flags.go")])
p("C28","Error kinds survive wrapping and added messages",
  "An error derived from a library error by adding messages or wrapping other errors, any number of times, is still recognised as that error and as each wrapped error, and is not recognised as any unrelated library error. Its message is the original message followed by a colon and the added text. Converting an arbitrary error keeps library errors unchanged and preserves the identity of others.",
  ["inputs","histories"],"all derivation sequences",
  "One test derives one error once.",
  ["errors.go"],[("unwrap chain","errors.go")])
p("C29","Path normalisation is absolute, clean, idempotent and cwd-relative",
  "Normalising any path gives an absolute path without empty, dot or dot-dot components and without a trailing slash unless it is the root. An absolute path never depends on the working directory, a relative one is interpreted relative to it, and the empty path and dot denote the working directory. Normalising twice changes nothing.",
  ["inputs"],"all paths, all working directories",
  "There is no driver test.",
  [DR+"driver.go"],[("clean and join",DR+"driver.go")])
p("C30","A volume mounted without write permission is never modified",
  "On a driver whose mount flags lack write permission no operation, with any arguments or open flags, makes the file system implementation create, remove, link, resize, write or change attributes of anything. Operations that would modify the volume fail with the read-only file system error. Reading operations keep working.",
  ["inputs","histories"],"all operations, paths, flags and implementation behaviours",
  "There is no driver test.",
  [DR+"driver.go",DR+"file.go"],[("mount flag checks",DR+"driver.go")])
p("C31","Path lookup follows symlinks correctly and detects cycles",
  "Looking up a path resolves each component in the directory denoted by the preceding components; symlinks are followed relative to the directory containing them, except for a final component looked up without following. A cycle of symlinks is reported as a link cycle after finitely many steps, and descending through a non-directory is reported as not-a-directory. Operations reach the object the implementation returned for that path.",
  ["inputs","histories"],"all directory trees, links and paths",
  "There is no driver test.",
  [DR+"driver.go",DR+"fsobject.go"],[("component-wise lookup",DR+"driver.go"),("visited set",DR+"driver.go")])
p("C32","Directory listing and paging return every entry exactly once",
  "Listing a directory returns one entry per name the implementation lists, in order, with dot and dot-dot left out, and each entry reports that object's name and status. Reading an open directory in pages of n returns the same sequence in chunks of at most n, each entry once, then end-of-file; a non-positive n returns everything left without end-of-file. Listing a non-directory is an error.",
  ["inputs","histories"],"all directories, all page sizes and sequences of page sizes",
  "There is no driver test.",
  [DR+"driver.go",DR+"file.go",DR+"dirent.go"],[("result queue",DR+"file.go")])
p("C33","Removal never deletes more, or less, than was asked",
  "Removing a path unlinks exactly that object, and a directory only when it is empty; a non-empty directory is refused and the root is never removed. Recursive removal unlinks every descendant before its parent, and the directory itself, and stops with the error of the first failure. Symlinks inside are removed, never followed.",
  ["inputs","histories","fault_sequences"],"all trees, all failure positions",
  "There is no driver test.",
  [DR+"driver.go"],[("emptiness check",DR+"driver.go"),("depth-first removal",DR+"driver.go")])
p("C34","Creation is exclusive when asked and never clobbers existing objects",
  "Opening with create makes a missing file and opens an existing one; with create and exclusive an existing object is refused with the exists error and left untouched. Creating a directory or link over an existing object is refused with the exists error. Without create a missing file is reported as not found and nothing is created.",
  ["inputs","histories"],"all flag combinations, paths and tree states",
  "There is no driver test.",
  [DR+"driver.go"],[("existence checks before creation",DR+"driver.go")])
p("C35","Predefined disk geometries are unambiguous and sized exactly",
  "A geometry's total size is the exact number of bits of all its sectors, rounded up to whole bytes. Looking up a predefined geometry returns the entry with exactly that identifier and reports an error for every other name.",
  ["inputs","configurations"],"all geometries, all names",
  "There is no test of the disks package.",
  ["disks/disks.go"],[("size formula","disks/disks.go")])
p("C36","An open file reads and writes its own object, and leaves it at the right size",
  "A file opened through the driver starts with the size and contents its object has, at position 0. What is read from it is the object's content until it is written; every block written back goes to that same object, at its own place and with the bytes of the file, and changes no other byte. Growing and shrinking ask the object for sizes in bytes. After a successful Sync or Close nothing is left unwritten and the object's size is exactly the file's.",
  ["inputs","histories"],"all objects, block sizes, blocks, contents and new sizes",
  "There is no driver test.",
  [DR+"file.go"],[("block callbacks",DR+"file.go"),("exact size on sync",DR+"file.go")])
def main():
    out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
    with open(out,"w") as f:
        for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
if __name__=="__main__": main()
