#!/usr/bin/env python3
"""Writes known-findings.txt from the fix commits of /repo and the list of open findings."""
import subprocess
M={ # commit -> (properties, what failed)
'4129e4f':('C01','ReadAt returned the size of whole blocks, not the bytes put into the buffer'),
'df11e9e':('C03','ranges whose byte size overflows were accepted and crashed, the last block was refused'),
'd82231b':('C02','Flush and LoadAll of an empty cache failed'),
'2678326':('C02','MarkBlockRangeDirty on a block that was not loaded made the next flush write zeros over it'),
'7aca009':('C05','blocks added by growing a stream-backed cache could not be read or written'),
'527171b':('C05','short reads from the stream were taken for whole blocks'),
'd495553':('C04','Resize crashed on sizes that overflow'),
'bbb7f5c':('C06','reading the tail of a stream did not advance the position'),
'b0e3516':('C06','ReadAt with a negative offset crashed'),
'54d4335':('C06','truncated backing storage was reported as the end of the file'),
'1d36230':('C08','growing a stream exposed data beyond the old end'),
'390d0f6':('C07','writes did not update the size nor reach the backing storage'),
'd4cd1f8':('C10','errors of the destination were not reported by bulk copies'),
'a25e226':('C13','DecompressRLERecursive compressed'),
'e22b487':('C19','the last block could not be accessed, offsets overflowed'),
'eb567b6':('C19','clusters were read from and written to the wrong sectors'),
'59a683d':('C28','an error wrapping a multierror.Error was not recognised as that error'),
'5166fff':('C23','timestamps on days when midnight does not exist in the local time zone decoded to the day before'),
'0644ad3':('C28','adding a message to an error made by NewError dropped its own message'),
'21c9411':('C20','mounting crashed on a new driver; the free list grew with every mount'),
'b8db436':('C18','formatting left old data in the image and ignored a failed resize'),
'76def21':('C18','formatting did not reserve the clusters of the directory track'),
'd35766a':('C17','file names were encoded to fewer or more than nine bytes'),
'04ddbd0':('C17','decoding a name of the wrong length crashed'),
'5f5bfcf':('C21','parsing a boot sector with zero fields crashed'),
'4667313':('C21','derived values of the boot sector did not follow the specification'),
'3233341':('C22','directory entries were decoded from the wrong offsets'),
'd8ab26a':('C23','decoding timestamps crashed, the hundredths field was ignored'),
'7377465':('C22','directories were not recognised as such'),
'245d7bf':('C22','an entry with a blank name crashed the driver'),
'539057d':('C23','setting the deletion time failed'),
'efd80c8':('C22','comparing files crashed'),
'fcbcb28':('C24','reading a cluster read one sector, from the wrong place'),
'7488575':('C24','listing a cluster chain did not terminate on loops and failed for valid chains'),
'd634219':('C24','an invalid cluster was returned as the first one of a chain'),
'e59e07c':('C25','reading a directory did not stop at the end of its chain'),
'f2fee12':('C25','path lookup did not find the named entry'),
'cb00d68':('C24','reading a file depended on the length of its chain instead of its size'),
'd45cf84':('C25','removing a file freed clusters that are not its own'),
'4f27e61':('C25','removing a file through a path ending with a slash or /. deleted from the wrong directory'),
'656703e':('C23','Chtimes accepted timestamps that cannot be stored'),
'0dd6734':('C31','object handles were lost by the wrapper'),
'f910380':('C31','looking up anything below the root did not terminate'),
'97ec8ad':('C29','the empty path denoted the root instead of the working directory'),
'5b8eed7':('C31','symlinks were resolved relative to the wrong directory and cycles not detected'),
'4395ca1':('C30','operations modified file systems mounted read-only'),
'9c8f53c':('C34','exclusive creation accepted existing objects'),
'220036d':('C33','removing a symlink removed its target; the root could be removed'),
'701e97c':('C33','RemoveAll did not remove the directory itself and followed symlinks'),
'ba46b73':('C34','creating directories clobbered objects and ignored errors'),
'0575166':('C34','hard links were created to directories and over existing objects'),
'd7d6ee0':('C32','the status of a directory entry crashed'),
'cc45c28':('C32','reading all remaining entries of a finished directory was an error'),
'14a10b3':('C07','objects were resized in blocks instead of bytes'),
'22e6d15':('C07','closing a file did not commit its exact size'),
'06ad15d':('C34','opening a missing file with file type bits in perm created a directory and failed'),
'2cd3dc2':('C07','a file truncated and grown back to its old size kept the size of whole blocks'),
'5015f99':('C34','WriteFile ignored errors of Close'),
}
OPEN=[]
out=["# Genuine defects of dargueta/disko found here. 'fixed:' lines suppress nothing.","# 'finding: property=<id> key=<key> <text>' lines name what is still broken."]
log=subprocess.run(['git','-C','/repo','log','--format=%h %s','--reverse'],capture_output=True,text=True).stdout.splitlines()
for l in log:
    h,s=l.split(' ',1)
    if not s.startswith('fix:'): continue
    p,w=M[h]
    out.append(f"fixed: property={p} {h} {w}")
out+=OPEN
open('/verif/known-findings.txt','w').write('\n'.join(out)+'\n')
