import json
T={}
def c(id,tech,level,note): T[id]=(tech,level,note)
base="Trusts the Go toolchain, rapid, the virtual clock of testing/synctest and the reference model in h/props/model.go. Absence of violations is only shown for the generated cases. "
lock="lockstep model-based property testing (rapid) of random histories against a reference model, on memory, bolt and redis, under a virtual clock"
fr="Redis is an in-process server written for this harness (h/fakeredis), reached through the real go-redis client. "
c("C03",lock,"exploration",base+fr)
c("C04",lock+", with steps placed 1 ms before and after every deadline","exploration",base+fr+"Server and client clocks differ by up to 3 s.")
c("C05",lock,"exploration",base+fr)
c("C06",lock,"exploration",base+fr)
c("C07","lockstep model-based property testing (rapid) with session limits 1..8, on memory and bolt","exploration",base)
c("C08","lockstep model-based property testing (rapid) with close/reopen steps under changing options","exploration",base+"The database file lies on tmpfs.")
c("C01","property-based generation of forged and malformed tokens, with an independent re-implementation of the token format as oracle","exploration","Trusts crypto/hmac and the Go toolchain; the oracle recomputes every signature independently. Absence of violations is only shown for the generated cases.")
c("C02","property-based generation of ids, keys and signing methods, with round-trip, uniqueness and independent-signature oracles","exploration","Trusts crypto/hmac. Repetition of tokens is looked for within the batches a run issues.")
c("C20","property-based generation of malformed tokens, identifiers, keys, encodings and call sequences, with no-panic, no-hang and no-effect oracles","exploration",base+fr)
c("C15","property-based generation of populations of sessions that are created, used and ended in every way; oracle: the store then holds what a fresh store with only the surviving sessions holds (bolt entries, redis keys, weak pointers into the memory store)","exploration",base+fr)
c("C16","property-based generation of aliasing: every buffer handed in or out is overwritten, and what the store gives later is compared with a copy","exploration",base+fr)
c("C17","lockstep model-based property testing of session handles over values of generated types, with an independent decoding of the provider's bytes as oracle","exploration",base)
c("C18","round-trip property testing of the coders and of stored values against the standard library's encoders, over generated types and values","exploration","Trusts encoding/json, encoding/gob and encoding/xml of the Go toolchain. Absence of violations is only shown for the generated cases.")
c("C19","property-based generation of histories over two stores sharing one server or database; oracle: each alone behaves as its own reference model","exploration",base+fr)
c("C21","property-based generation of configurations and login flows through the manager and middleware API, against a reference model","exploration",base+fr)
c("C09","property-based crash testing: at every write, growth and sync of the database file during a generated call an image of the file (also with random subsets of the unsynced writes lost or torn) is opened as a new store; oracle: everything read from it is as in the model before or after the call","exploration",base+"A copy of boltdb 1.3.1 with hooks at its file operations is linked instead of the original; the file system is assumed to keep synced data.")
c("C10","property-based fault injection: writes, syncs and growth of the database file fail during generated histories; oracle: reference model in which failed calls did nothing","exploration",base+"A copy of boltdb 1.3.1 with hooks at its file operations is linked instead of the original.")
c("C11","property-based generation of concurrent histories and schedules (deterministic scheduler at every lock and atomic operation); oracle: linearizability against the reference model; plus the same histories free-running under the race detector","exploration",base+"Interleavings are explored at the granularity of lock and atomic operations; what happens between them is left to the race detector.")
c("C12","property-based generation of concurrent histories of several clients and stores, and of schedules of their redis commands; oracle: linearizability against the reference model","exploration",base+fr)
c("C13","property-based fault injection: generated histories with generated lost requests, lost replies, timeouts, refused connections and refused commands; oracle: the set of reference models the faults leave possible","exploration",base+fr)
c("C14","property-based generation of histories and schedules around Close; oracle: reference model of a closed store, linearizability, deadlock and goroutine-leak detection, file writes and commands after Close","exploration",base+fr)
c("C22","property-based generation of several managers and stores with different options, alive and used at the same time, made and closed in any order; oracle: each behaves as its own reference model with its own options","exploration",base+fr+"The managers part runs in real time.")
c("C24","property-based generation of histories over a recording store of the harness, which answers as generated; oracle: what reached the store and what came back are what the caller and the store said","exploration",base)
c("C23","property-based generation of histories with signing methods of a user and of concurrent uses of the registry; oracle: the method itself, and a register per name; plus the registry under the race detector","exploration",base)
checks=[]
for k in sorted(T):
    t,l,n=T[k]
    checks.append({"property":k,"quick_cmd":"./check "+k,"thorough_cmd":"VERIF_TIER=thorough ./check "+k,"technique":t,"level":l,"level_note":n})
ids=[json.loads(l)["id"] for l in open('/verif/properties.jsonl')]
na=[{"property":i,"reason":"check under construction"} for i in ids if i not in T]
json.dump({"version":1,"setup_cmd":"./setup","checks":checks,"not_applicable":na,"notes":"See DESIGN.md."},open('/verif/MANIFEST.json','w'),indent=1)
