import json
MAPS=["int_map.go","string_map.go","bytes_map.go","arr_map.go","generic_map.go"]
SETS=["int_set.go","string_set.go","bytes_set.go","arr_set.go","generic_set.go"]
ALL=["amt.go"]+MAPS+SETS
STATE=[{"name":"root","meaning":"one container: hash seed, value count, total depth, 16 inline root slots, deletion scratch path","where":"amt.go: type root"},
       {"name":"link","meaning":"one trie slot: pointer to a branch array or a key-value, presence bitmap and type bitmap (integer keys are stored inline in the two bitmaps)","where":"amt.go: type link"}]
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None,state=STATE):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":state,"mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":observe,"hook_needed":hook}})
T="The tests insert the keys 0..999999 (as non-negative ints or their decimal strings) in ascending order into IntMap, IntSet, StringMap and StringSet with whatever hash seed the run drew; "
p("C01","Map lookups return the last value written for exactly that key",
  "For every map type (IntMap, StringMap, BytesMap, ArrMap, Map), after any sequence of Set, Mod and Del calls, Get, Val and Ptr of any key return the value most recently stored for an equal key and not deleted since, and report the key as missing otherwise. Writing, updating or deleting one key never changes, loses or invents the entry of another key, however the keys' hashes collide.",
  ["inputs","histories"],"all keys, values, operation histories and hash values (hash seeds)",
  T+"BytesMap, ArrMap and generic Map are exercised with a single key or not at all, negative and large integers never occur, and which hash prefixes collide is left to chance.",
  ["amt.go"]+MAPS,
  [("traversal by 4-bit hash digits","Ptr, Set, Mod, Del in *_map.go"),("conflict split into new branches until the digits differ","Set/Mod: 'replace with new branch until non-colliding'"),("slot shift / array reallocation","Set/Mod: 'array slot available' / 'array full or empty'; Del: 'shift items back'"),("collapse of single-valued branches","Del: 'replace single-valued branches'")],
  ["Get","Val","Ptr"])
p("C02","Set membership reflects exactly the keys added and not deleted",
  "For every set type (IntSet, StringSet, BytesSet, ArrSet, Set), after any sequence of Add and Del calls, Has reports true for a key exactly when an equal key was added and not deleted since. Adding or deleting one key never changes the membership of another, however the keys' hashes collide.",
  ["inputs","histories"],"all keys, operation histories and hash values (hash seeds)",
  T+"BytesSet, ArrSet and Set are exercised with at most one Add, and Del on them never runs.",
  ["amt.go"]+SETS,[("traversal, conflict split, slot shift, collapse","Has, Add, Del in *_set.go")],["Has"])
p("C03","Len always equals the number of distinct keys held",
  "At every point of every history, Len of a map or set equals the number of distinct keys present: storing a new key adds one, deleting a present key subtracts one, and every other call (updating a present key, re-adding, deleting a missing key, any lookup or iteration) leaves it unchanged.",
  ["inputs","histories"],"all keys, operation histories and hash values, all ten container types",
  T+"Len is read only after bulk phases, never after a re-add, a delete of a missing key, or on six of the ten types.",
  ALL,[("len counter updates","Set/Mod/Add: len++ on both insertion paths; Del: len--")],["Len"])
p("C04","All visits every entry exactly once and stops when told to",
  "All calls its callback exactly once for each key present, passing that key and (for maps) a pointer to that key's live value, and nothing else; the order is the same on every call while the container is unchanged. When the callback returns false, no further call is made.",
  ["inputs","histories"],"all contents and hash values, every stopping position, all ten container types",
  T+"iteration is only counted, never compared with the contents, and never stopped early.",
  ALL,[("recursive scan over presence/type bitmaps","intScan, stringScan, bytesScan, arrScan, scan, *SetScan")],["All"])
p("C05","Mod runs its callback once on the key's own value slot",
  "On every map type, Mod calls its callback exactly once, with true and a pointer to the current value when the key is present, and with false and a pointer to a zero value when it is missing; afterwards the key is present and holds whatever the callback left there. Mod is thus equivalent to a Get followed by a Set of the same key.",
  ["inputs","histories"],"all keys, values, prior contents and hash values, all five map types",
  "TestModify runs two Mod calls on a StringMap holding one key; no hash collision, no other map type.",
  ["amt.go"]+MAPS,[("Mod's three exits: update, split, insert","Mod in *_map.go")],["Mod","Get"])
p("C06","A Mod callback sees, and a panicking one leaves, an intact map",
  "While a Mod callback runs, and after one that panics, the map is unchanged from before the call except for the value the callback wrote through its pointer: lookups, Len, Dep and iteration made from inside the callback, or after recovering its panic, answer correctly for every key, and later operations work.",
  ["inputs","crash_points","histories"],"all keys, contents and hash values; the callback as the interruption point",
  "No test reads the map inside a callback or lets one panic; the damage needs a hash collision between the new key and a present one.",
  ["amt.go"]+MAPS,[("callback invoked before the trie is changed","Mod in *_map.go")],["Mod","Get","All","Len","Dep"])
p("C07","Value pointers stay live until their key is deleted",
  "A value pointer obtained from Ptr, Mod or All remains the storage of that key's value for as long as the key stays in the map, whatever is done to other keys: writes through it are seen by Get and All, and a later Set or Mod of that key is seen through it.",
  ["inputs","histories"],"all keys, values, operation histories and hash values, all five map types",
  "No test holds a pointer across another operation or writes through one.",
  ["amt.go"]+MAPS,[("values boxed once and moved only by pointer","Set/Mod: existing kv reused on split; Del: collapse copies the link, not the kv")],["Ptr","Get","All"])
p("C08","Dep is the true mean depth of the keys held",
  "Dep always equals the mean, over the keys present, of the key's depth in the trie, where a key's depth is the largest number of leading 4-bit hash digits it shares with any other key present (0 when it shares none), and is 0 for an empty container.",
  ["inputs","histories"],"all keys, operation histories and hash values, all ten container types",
  T+"Dep is only checked to be above 1 when full and 0 when empty.",
  ALL,[("dep counter updates on insert, split, delete and collapse","Set/Mod/Add/Del")],["Dep"])
p("C09","Structure depends only on the contents, not on the history",
  "Two containers of the same type with the same hash seed that hold the same keys have the same iteration order and the same Dep, whatever sequences of insertions, updates and deletions produced them; in particular inserting a new key and deleting it again restores both.",
  ["inputs","histories"],"all pairs of histories with equal final contents, all hash values, all ten container types",
  "TestCanonicalStructure compares one insertion order with itself on IntSet, with no deletion.",
  ALL,[("collapse of single-valued branches after deletion; minimal split depth on insertion","Del / Set / Add")],["All","Dep"])
p("C10","Initialised containers never panic, hang or touch foreign memory",
  "On an initialised container every operation with any key terminates without panicking, and every memory access it makes through unsafe pointers stays inside a live object of the container or its arguments.",
  ["inputs","histories"],"all keys, operation histories and hash values, all ten container types",
  T+"an out-of-bounds slot access through unsafe pointers goes unnoticed by a test unless it happens to corrupt something checked later.",
  ALL,[("link arrays of capacity 4, 8, 12, 16","newLinkArray in amt.go"),("slot index from population count of the presence bitmap","all operations")],["every exported operation"])
p("C11","Deleted and overwritten data is released",
  "Once a key has been deleted, the container no longer keeps that key, its value or anything reachable only through them alive, and once a value has been overwritten it no longer keeps the old value alive; a container emptied by deletions keeps none of its former entries alive.",
  ["inputs","histories"],"all keys, operation histories and hash values, all ten container types",
  "No test observes garbage collection; leftovers in unused slots or in deletion scratch never change a lookup.",
  ALL,[("scratch path cleared","Del: 'clear the path to prevent leaks'"),("arrays reallocated and slots shifted on deletion","Del: 'shift items back'")],["runtime.SetFinalizer on values","heap reachability"])
p("C12","Lookups and iteration are read-only",
  "Get, Val, Ptr, Has, Len, Dep, Nil and All never write to memory shared through the container, so any number of goroutines may run them on the same container at the same time.",
  ["inputs","schedules","histories"],"all keys, contents and hash values, all interleavings of readers, all ten container types",
  "No test runs two goroutines; a scratch write in a lookup is invisible to sequential tests.",
  ALL,[("traversal state kept in locals","Ptr, Has, scans")],["race detector","heap writes"])
p("C13","Containers are independent and copies of a handle alias",
  "Operations on one container never read or write the mutable state of another, so different containers may be used from different goroutines at the same time and never see each other's entries. A copy of a map or set value denotes the same container: changes made through either are seen through both.",
  ["inputs","schedules","histories"],"all keys, histories and interleavings on two containers, all ten container types",
  "The tests use two containers side by side once, sequentially, and copy a handle once.",
  ALL,[("all state hangs off one heap root per container","newRoot in amt.go"),("handles are a single pointer","type XMap struct{*root}")],["Get/Has/All through another handle","race detector"])
p("C14","Uninitialised handles behave as documented",
  "On a zero-value map or set, Nil is true, Len is 0, Dep is 0 and (maps) Val returns the zero value for any key, while every other operation panics without side effects; on a handle returned by a constructor Nil is false and Len and Dep are 0.",
  ["inputs"],"all keys, all ten container types",
  "Only Val and Nil of one nested StringMap are exercised on a zero-value handle.",
  ALL,[("nil checks","root.Len, root.Dep, Nil, Val")],["Nil","Len","Dep","Val","panics"])
p("C15","Key hashing is a consistent function of key, seed and repeat count",
  "HashBytes and the Hash methods of Int, String and Bytes terminate for every repeat count and return the hash, under the given seed, of the key's bytes written once plus once per repeat, so equal keys always hash equally and a string and a byte slice with the same bytes agree; Int, String and Bytes are usable as generic keys and their Equal is exactly equality of the represented value.",
  ["inputs"],"all keys up to the byte bound, all seeds, repeat counts across the 8-bit boundary",
  "The tests hash one key with repeat count 0.",
  ["generic_map.go","int_map.go","string_map.go","bytes_map.go"],[("write loop","HashBytes, Int.Hash, String.Hash, Bytes.Hash"),("Equal methods","String.Equal, Bytes.Equal, Int.Equal")],["HashBytes","Hash","Equal"],state=[])
p("C16","Keys stay distinct when whole 64-bit hashes collide",
  "When keys share all 16 digits of one or more successive 64-bit hashes, they are told apart by rehashing: every one of them can still be stored, looked up, enumerated, counted and deleted individually, at any depth, including past the point where the deletion path outgrows its scratch space.",
  ["inputs","histories"],"keys agreeing on 11 to 33 hash digits or more, all operation histories over them, all ten container types",
  "With a real 64-bit hash the tests never reach a depth of 12, let alone a second hash.",
  ALL,[("rehash every 16 levels","d%(64/4) branches in all operations"),("scratch path of 12 entries with append","Del")],["Get/Has","All","Len","Dep","Del"])
p("C17","Generic containers identify keys only through Equal and Hash",
  "Map and Set treat two keys as the same exactly when Equal says so, for any Equal that is an equivalence consistent with Hash, even if the keys differ in representation; Hash is only ever called with the container's own seed and with repeat counts that start at 0 and grow by one each time 16 hash digits are used up.",
  ["inputs","histories"],"all Hash functions and all Equal equivalences on a two-field key type, all histories",
  "TestGeneric adds one Bytes key.",
  ["generic_map.go","generic_set.go","amt.go"],[("Equal and Hash calls","Ptr/Set/Mod/Del, Has/Add/Del")],["calls to Hash/Equal","Get/Has"])
p("C18","Keys are stored and reported faithfully and callers' keys never modified",
  "Every key in the key type's domain (all 64-bit integers, strings and byte slices of any content including empty, arrays up to 64 bytes) is reported by All equal to the key inserted, and no operation ever writes to a key slice passed by the caller.",
  ["inputs","histories"],"all keys up to the byte bound, all histories and hash values",
  T+"negative or large integers, empty and binary keys never occur.",
  ALL,[("integer keys stored inline in the two 32-bit bitmap words","int_map.go, int_set.go"),("key slice retained","bytes_map.go, bytes_set.go")],["All","caller's slice"])
p("C19","Values of any type are stored and returned unchanged",
  "Maps hold values of every Go type without loss: zero-size values, multi-word structs, strings, pointers and nested maps come back from Get, Val, Ptr, Mod and All exactly as stored, and Get or Val of a missing key gives the type's zero value.",
  ["inputs","histories"],"value types of zero, one and several words with and without pointers; all values, keys and hash values",
  "The tests use int values everywhere and one nested map.",
  ["amt.go"]+MAPS,[("value boxed in a generic struct reached by unsafe.Pointer","intkv, strkv, byteskv, arrkv, kv")],["Get","Val","Ptr","Mod","All"])
p("C20","Live entries are always visible to the garbage collector",
  "Every entry of a container is reachable through properly typed pointers whenever an operation has returned or a callback is running, so a garbage collection at any such point neither frees nor corrupts any key or value still in the container.",
  ["inputs","histories","schedules"],"all histories, contents and hash values; a collection at any operation boundary or callback",
  "Whether a collection falls between two operations of a test is chance, and a hidden pointer only shows if one does.",
  ALL,[("bitmaps beside the pointer instead of pointer tagging","type link in amt.go"),("typed link arrays","newLinkArray")],["runtime.GC between operations"])
p("C21","Depth is of the order of log16(N)",
  "The mean depth of the N keys of a container is of the order of log16(N), so lookups stay fast as containers grow.",
  ["inputs","histories"],"probability over hash seeds, N unbounded",
  "The tests only require a mean depth above 1 at N = 1,000,000.",
  ALL,[("4 hash bits per level","all operations")],["Dep"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
