import json,subprocess
P={"new files have the permissions":"C02","overwriting a cached block is a use":"C23","fsync persists files that only the descriptor":"C03","writes use an open descriptor":"C01","long values in commands":"C14","a command followed by a NUL":"C14","blocks that are larger":"C17","blocks of one byte":"C01","unmounting does not destroy":"C17","the log parser finds":"C21","an operation that cannot stat":"C20","a truncate that cannot fill":"C20","a rename moves the cached names":"C20", # subject -> property
"sync, read and reuse every block of pages":"C01","do not dereference the end of the block map":"C17","report fsync failures":"C20",
"truncate drops the cached blocks":"C01","zero-filling inside LazyFS":"C11","report the failure of a write":"C20","a write never shrinks":"C19",
"truncate returns its own result":"C18","reads mixing cached":"C01","descriptors opened with O_TRUNC":"C01","configured clear faults happen":"C11",
"clearing the cache after an operation":"C11","crash faults on rename":"C10","torn write faults crash":"C12","torn-seq faults of different":"C13",
"torn-op persists exactly":"C12","invalid torn-seq faults of the config":"C15","a cache size without":"C15","protect the cache maps":"C18",
"evicted pages are written":"C09","writing part of a block that is being evicted":"C09","fsync persists the timestamps":"C02","utimens also":"C02",
"an unlink that fails":"C07","rename moves the cached":"C07","clearing the cache forgets every":"C05","listing a directory":"C02","the number of links":"C02",
"blocks of sizes that are not":"C02","commands are the lines":"C14","invalid fault commands":"C14","torn-op and torn-seq commands":"C14",
"the unsynced data report gives":"C16","the unsynced data report leaves":"C16","faults can be added":"C18","all the arguments":"C15","unmounting ends":"C15",
"the --files and":"C21","the log parser groups":"C21","the groups of the log":"C21","writing part of a block does not bring":"C01","removing a file by a name":"C07","crash patterns can have":"C10","relative fifo paths":"C15",
"metadata of a newly cached":"C19","a read does not see a truncate":"C19","the inode tells whether":"C19","an evicted page is not written into the file":"C19",
"configured faults count overlapping":"C11","writes through different hard links":"C19","names of a file removed at the same":"C19","the mount scripts quote":"C24","the mount scripts report unknown":"C24","the mount script ends with":"C24","the mount script accepts":"C24"}
out=[]
for l in subprocess.run("git -C /repo log --reverse --format='%h %s' bf80791..HEAD",shell=True,capture_output=True,text=True).stdout.splitlines():
    h,s=l.split(" ",1)
    s=s[len("fix: "):]
    m=[p for k,p in P.items() if s.startswith(k)]
    assert len(m)==1,(s,m)
    out.append(f"fixed: property={m[0]} {h} before this repair it was not so that: {s}")
d=json.load(open("/verif/known_findings.json")); d["fixed"]=out
json.dump(d,open("/verif/known_findings.json","w"),indent=1)
print(len(out))
