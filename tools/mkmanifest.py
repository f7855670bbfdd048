#!/usr/bin/env python3
"""Writes MANIFEST.json: what is claimed, and how."""
import json
P=[json.loads(l) for l in open('/verif/properties.jsonl')]
PROOF="contract-based deductive verification (go/ssa symbolic execution, weakest-precondition obligations discharged by z3/cvc5), with a labelled bounded search for failing inputs"
C={} # id -> (technique, level, note)
def proof(ids,note):
    for i in ids.split(): C[i]=(PROOF,'proof',note)
proof('C01 C02 C03 C04','Every obligation of the contracts on blockcache.go is discharged for all inputs and iterations; callbacks and the bitmap library are assumed contracts; caches are at most 2^48 bytes.')
proof('C05','Client lemmas over the real WrapStream, New and callback closures, for every stream satisfying the assumed io contracts; caches are at most 2^48 bytes.')
proof('C06 C07 C08 C09 C10','Every obligation of the contracts on basicstream.go is discharged for all inputs and iterations, on top of the (separately discharged) contracts of the block cache; readers and writers are tapes.')
proof('C11 C12 C13 C14','Every obligation of the contracts on rle8.go and rle_grouper.go is discharged for all inputs and iterations, with the round trips as client lemmas; readers and writers are tapes under the assumed io, bufio and bytes contracts.')
proof('C15','Every obligation of the contracts on compression.go is discharged; compress/gzip, bufio and bytes.Buffer are assumed contracts, so the round trip through gzip itself is only searched (bounded).')
proof('C16 C17 C18 C19 C20','Every obligation of the contracts on file_systems/fat8 is discharged for all inputs and iterations; os.File, strings and bytes functions are assumed contracts.')
proof('C21 C22 C23','Every obligation of the contracts on the FAT boot sector, directory entry and timestamp code is discharged for all inputs; time.Date and the order of times are assumed pure functions, encoding/binary is modelled by the engine.')
proof('C24 C25','Every obligation of the contracts on the version-independent FAT driver is discharged for all inputs, tables and images; the version-specific driver behind the FATDriverCommon interface (which the repository does not contain) is an assumed contract.')
proof('C26','Every obligation of the contracts on the Unix V6 conversions is discharged for all inputs, with both round trips as client lemmas; time.Unix is an assumed pure function.')
proof('C27','Every obligation of the contracts on the flag and status methods is discharged for all inputs; io/fs.FileMode methods are assumed contracts, products are below 2^63.')
proof('C28','Every obligation of the contracts on the error types is discharged for all inputs, derivations of any length follow by induction; errors.Is and multierror are assumed; the distinctness of the error variables is checked exhaustively by the search.')
proof('C35','Every obligation of the contracts on size and lookup is discharged; filling the table has no inputs and is checked exhaustively by executing it (finite, not deductive).')
proof('C29','Every obligation of New, NormalizePath and Getwd is discharged for all paths, idempotence and independence of the working directory as client lemmas; path.Clean, path.Join and filepath.ToSlash are assumed pure functions with the documented algebra.')
proof('C30','Every obligation of every BaseDriver and File operation is discharged for all arguments and open flags: without write permission no changing method of the implementation is called; the implementation is an assumed contract, and the block callbacks of read-only files are shown never to resize or write.')
proof('C31','Every obligation of the path lookup and of the operations built on it is discharged for all paths and directory trees, against recursive equations for what a path denotes; the implementation and the text read from a link are assumed contracts, and that lookups end after finitely many steps is only searched (bounded).')
proof('C32','Every obligation of the listing and paging functions is discharged for all directories, page sizes and call sequences; the implementation is an assumed contract.')
proof('C33','Every obligation of Remove, RemoveAll and the functions below them is discharged for all trees; the implementation is an assumed contract.')
proof('C34','Every obligation of the creating operations is discharged for all paths, flags and modes; the implementation is an assumed contract.')
proof('C36','Every obligation of the client lemmas over NewFileFromObjectHandle and its block callbacks, and of Sync and Close, is discharged for all objects, blocks and contents; the object handle is an assumed contract, and what the stream and cache do in between is C01 to C10. That whole histories compose is also searched (bounded).')
NA={}
m={"version":1,"setup_cmd":"bash build.sh","checks":[],"not_applicable":[]}
for p in P:
    i=p['id']
    if i in C:
        t,l,n=C[i]
        m['checks'].append({"property":i,"quick_cmd":f"bash check.sh {i} quick","thorough_cmd":f"bash check.sh {i} thorough","technique":t,"level":l,"level_note":n})
    else:
        m['not_applicable'].append({"property":i,"reason":NA.get(i,"contracts for this property are still being written")})
m["hooks"]={"guard":"none","enable":"no hooks: contracts live in /verif/spec and are verified against /repo's unmodified source","source_commits":[]}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
