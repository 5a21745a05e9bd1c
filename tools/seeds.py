"""Planted bugs. edits: (file, scope, old, new[, nth]); scope is the start of the function's
declaration line ("" for the whole file); old must occur once in it unless nth is given."""

def D(args, main="main", build="", weak=None):
    d = {"main": main, "args": args, "build": build}
    if weak is not None:
        d["weak"] = weak
    return d

SEEDS = [
    dict(id="stringmap-set-rehash-count", property="C01",
         needs="a third key stored while the conflicting key sits exactly at depth 16 or 32, i.e. keys whose whole 64-bit hashes collide",
         breaks="Set of a string map rehashes the conflicting key one time too few at depths that are multiples of 16, so that key is filed under the wrong digits and can no longer be looked up",
         edits=[("string_map.go", "func (m StringMap[V]) Set(", "			chw.WriteString(ckey)\n		}\n", "			if cd == 0 || cd < d {\n				chw.WriteString(ckey)\n			}\n		}\n")],
         demo=D("-kind StringMap -c 16 -ops ssd")),
    dict(id="bytesmap-mod-shift", property="C16",
         needs="Mod of a missing key that conflicts with a key at depth 16 or deeper",
         breaks="the shift that brings the conflicting key's hash to the current level is not taken modulo 16, so past depth 16 Mod throws the conflicting key away or files it wrongly",
         edits=[("bytes_map.go", "func (m BytesMap[V]) Mod(", "chd := chw.Sum64() >> (4 * (d % (64 / 4)))", "chd := chw.Sum64() >> (4 * d)")],
         demo=D("-kind BytesMap -c 16 -ops mmd")),
    dict(id="intset-del-len-early", property="C03",
         needs="Del of a missing integer whose path ends at another key",
         breaks="Del decrements the count before it has compared the keys",
         edits=[("int_set.go", "func (s IntSet) Del(", "		if k := IntKey(item.pmap) | (IntKey(item.tmap) << 32); k != key { // key missing\n			return\n		}\n", "		s.len--\n		if k := IntKey(item.pmap) | (IntKey(item.tmap) << 32); k != key && s.len != 0 { // key missing\n			s.len++\n			return\n		}\n"),
                ("int_set.go", "func (s IntSet) Del(", "		l.tmap &^= bit\n		s.len--\n", "		l.tmap &^= bit\n")],
         demo=D("-kind IntSet -what lookup,len -keys 3 -ops sd")),
    dict(id="arrscan-nested-stop", property="C04",
         needs="a callback that returns false for an entry below the root level",
         breaks="All of an array map goes on after a callback in a nested level returned false",
         edits=[("arr_map.go", "func arrScan[", "		} else if !arrScan(item, do) {\n			return false\n		}\n", "		} else {\n			arrScan(item, do)\n		}\n")],
         demo=D("-kind ArrMap -what all")),
    dict(id="stringmap-mod-copy", property="C07",
         needs="a pointer kept from the Mod callback of an existing key",
         breaks="Mod of an existing key hands its callback a copy that is written back afterwards, so the pointer does not stay the storage of the value",
         edits=[("string_map.go", "func (m StringMap[V]) Mod(", "			mod(&ckv.v, true)\n", "			v := ckv.v\n			mod(&v, true)\n			ckv.v = v\n")],
         demo=D("alias", main="misc")),
    dict(id="map-mod-late-callback", property="C06",
         needs="a Mod callback, run for a missing key that takes a free slot, which looks at the map or panics",
         breaks="Mod of a generic map inserts the new entry and counts it before it runs the callback",
         edits=[("generic_map.go", "func (m Map[K, V]) Mod(", "	kv := &kv[K, V]{k: key}\n	mod(&kv.v, false)\n	count :=", "	kv := &kv[K, V]{k: key}\n	count :="),
                ("generic_map.go", "func (m Map[K, V]) Mod(", "	m.len++\n	m.dep += uint64(d)\n}", "	m.len++\n	m.dep += uint64(d)\n	mod(&kv.v, false)\n}")],
         demo=D("panic", main="misc", weak=True)),
    dict(id="bytesmap-set-rebox", property="C07",
         needs="a value pointer kept across a Set of the same key",
         breaks="Set of an existing key allocates a new entry instead of writing into the old one",
         edits=[("bytes_map.go", "func (m BytesMap[V]) Set(", "			ckv.v = value\n			return\n", "			item.ptr = unsafe.Pointer(&byteskv[V]{value, ckey})\n			return\n")],
         demo=D("alias", main="misc")),
    dict(id="arrmap-dep-mod16", property="C08",
         needs="two keys that share 16 or more digits",
         breaks="Set of an array map adds the depth modulo 16 to the total depth",
         edits=[("arr_map.go", "func (m ArrMap[K, V]) Set(", "m.dep += uint64(d) * 2", "m.dep += uint64(d%(64/4)) * 2")],
         demo=D("-kind ArrMap -c 17 -what dep -ops ssd -keys 8")),
    dict(id="bytesset-collapse-once", property="C09",
         needs="deleting one of two keys that share several digits",
         breaks="Del collapses only one level of a single-valued chain of branches, so structure depends on history",
         edits=[("bytes_set.go", "func (s BytesSet) Del(", "for count == 1 && l.pmap == l.tmap && d != 0 {", "if count == 1 && l.pmap == l.tmap && d != 0 {")],
         demo=D("-kind BytesSet -c 3 -what order -ops ssd")),
    dict(id="stringmap-del-scratch", property="C10",
         needs="Del of a key at depth 12 or more",
         breaks="the deletion path is written straight into its 12-entry scratch array: index out of range on deeper paths",
         edits=[("string_map.go", "func (m StringMap[V]) Del(", "path := m.path[:0]", "path := m.path[:]"),
                ("string_map.go", "func (m StringMap[V]) Del(", "path = append(path, pathLink{radix, l})", "path[d] = pathLink{radix, l}")],
         demo=D("-kind StringMap -c 12 -ops ssd")),
    dict(id="stringmap-spare-branch", property="C11",
         needs="a deletion that unlinks a collapsed branch, and no later collision that reuses it",
         breaks="Del keeps the array of a collapsed branch for reuse without clearing it, so the deleted entry stays reachable",
         edits=[("amt.go", "", "	_     [3]uint64    // pad to 64-byte alignment\n", "	spare unsafe.Pointer // branch array for reuse\n	_     [2]uint64      // pad to 64-byte alignment\n"),
                ("string_map.go", "func (m StringMap[V]) Del(", "			*l = *(*link)(l.ptr)\n", "			m.spare = src\n			*l = *(*link)(l.ptr)\n")],
         demo=D("-kind StringMap -c 1", main="leak", weak=True), fmt=True),
    dict(id="intset-has-counter", property="C12",
         needs="two goroutines that look keys up in one set",
         breaks="Has counts its calls in the shared root",
         edits=[("amt.go", "", "	_     [3]uint64    // pad to 64-byte alignment\n", "	hits  uint64\n	_     [2]uint64 // pad to 64-byte alignment\n"),
                ("int_set.go", "func (s IntSet) Has(", "		return key == IntKey(item.pmap)|(IntKey(item.tmap)<<32) // key match/mismatch\n", "		if key != IntKey(item.pmap)|(IntKey(item.tmap)<<32) {\n			return false // key mismatch\n		}\n		s.hits++\n		return true // key match\n")],
         demo=D("readers IntSet", main="race", build="-race"), fmt=True),
    dict(id="intsetscan-normalise", property="C12",
         needs="two goroutines that iterate over one set",
         breaks="All rewrites the type bits of the branches it visits, with the value they already have",
         edits=[("int_set.go", "func intSetScan(", "	pmap, tmap := l.pmap, l.tmap\n", "	pmap := l.pmap\n	l.tmap &= pmap\n	tmap := l.tmap\n")],
         demo=D("readers IntSet", main="race", build="-race")),
    dict(id="bytesset-shared-scratch", property="C13",
         needs="deletions from two sets in two goroutines",
         breaks="the deletion path of all byte sets shares one package-level scratch array",
         edits=[("bytes_set.go", "func (s BytesSet) Del(", "path := s.path[:0]", "path := bytesSetPath[:0]"),
                ("bytes_set.go", "", "// BytesSet contains", "var bytesSetPath [12]pathLink // scratch for traversal path during deletion\n\n// BytesSet contains")],
         demo=D("two BytesSet", main="race", build="-race")),
    dict(id="linkarray-slab", property="C13",
         needs="insertions into two containers in two goroutines",
         breaks="small link arrays are cut from a package-level slab without synchronisation",
         edits=[("amt.go", "func newLinkArray(", "		return unsafe.Pointer(new([4]link))\n", "		if len(slab) == 0 {\n			slab = make([][4]link, 16)\n		}\n		arr := &slab[0]\n		slab = slab[1:]\n		return unsafe.Pointer(arr)\n"),
                ("amt.go", "", "// pathLink references", "var slab [][4]link // branch arrays allocated together\n\n// pathLink references")],
         demo=D("two StringMap", main="race", build="-race")),
    dict(id="arrmap-val-nil", property="C14",
         needs="Val of a map that was never initialised",
         breaks="Val of an uninitialised array map panics instead of returning the zero value",
         edits=[("arr_map.go", "func (m ArrMap[K, V]) Val(", "	if m.root != nil {\n		if ptr := m.Ptr(key); ptr != nil {\n			value = *ptr\n		}\n	}\n", "	if ptr := m.Ptr(key); ptr != nil {\n		value = *ptr\n	}\n")],
         demo=D("zero", main="misc")),
    dict(id="string-hash-wrap", property="C15",
         needs="a repeat count of 16 or more",
         breaks="String.Hash takes the repeat count modulo 16",
         edits=[("string_map.go", "func (k String) Hash(", "for i := uint(0); i <= iter; i++ {", "for i := uint(0); i <= iter%(64/4); i++ {")],
         demo=D("hash", main="misc")),
    dict(id="int-hash-32bit", property="C15",
         needs="integers outside the 32-bit range",
         breaks="Int.Hash hashes the key truncated to 32 bits, so distinct keys have equal hashes for ever and a map over them never ends an insertion",
         edits=[("int_map.go", "func (i Int) Hash(", "b := intbytes(IntKey(i))", "b := intbytes(IntKey(int32(i)))")],
         demo=D("hash", main="misc")),
    dict(id="set-del-iter", property="C17",
         needs="Del of a key at depth 16 or more",
         breaks="Del of a generic set asks for the hash with the depth as repeat count",
         edits=[("generic_set.go", "func (s Set[K]) Del(", "hd = key.Hash(s.seed, uint(d>>4))", "hd = key.Hash(s.seed, uint(d))")],
         demo=D("-kind Set -c 16 -ops ssd -iters 2")),
    dict(id="map-del-identity", property="C17",
         needs="a key type whose Equal is coarser than ==",
         breaks="Del of a generic map compares keys as interface values instead of with Equal",
         edits=[("generic_map.go", "func (m Map[K, V]) Del(", "if !key.Equal((*kv[K, V])(item.ptr).k) { // key missing", "if any(key) != any((*kv[K, V])(item.ptr).k) { // key missing")],
         demo=D("-kind Map")),
    dict(id="bytesmap-append-key", property="C18",
         needs="a conflict at depth 16 or more with a key whose slice has spare capacity",
         breaks="Set builds the repeated conflicting key by appending to the caller's slice, which writes into its spare capacity",
         edits=[("bytes_map.go", "func (m BytesMap[V]) Set(", "		chw.SetSeed(m.seed)\n", "		chw.SetSeed(m.seed)\n		rep := ckey[:0]\n"),
                ("bytes_map.go", "func (m BytesMap[V]) Set(", "			chw.Write(ckey)\n		}\n		chd", "			rep = append(rep, ckey...)\n		}\n		chw.Write(rep)\n		chd")],
         demo=D("spare", main="misc", weak=True)),
    dict(id="intscan-sign", property="C18",
         needs="an integer key whose low half has its top bit set and whose high half is not all ones",
         breaks="All of an integer map sign-extends the low half of the key",
         edits=[("int_map.go", "func intScan[", "IntKey(item.pmap) | (IntKey(item.tmap) << 32)", "IntKey(int32(item.pmap)) | (IntKey(item.tmap) << 32)")],
         demo=D("intkeys", main="misc")),
    dict(id="bytesmap-set-if-changed", property="C19",
         needs="values where == is not identity (a negative zero) or not defined (slices)",
         breaks="Set skips the store when the new value compares equal to the old one, and panics for values that cannot be compared",
         edits=[("bytes_map.go", "func (m BytesMap[V]) Set(", "			ckv.v = value\n			return\n", "			if any(ckv.v) != any(value) {\n				ckv.v = value\n			}\n			return\n")],
         demo=D("values", main="misc")),
    dict(id="stringmap-get-nil", property="C19",
         needs="a map of interface values that stores a nil interface",
         breaks="Get reports a key whose value is a nil interface as missing",
         edits=[("string_map.go", "func (m StringMap[V]) Get(", "if ptr := m.Ptr(key); ptr != nil {", "if ptr := m.Ptr(key); ptr != nil && any(*ptr) != nil {")],
         demo=D("ifaces", main="misc")),
    dict(id="intmap-noscan-value", property="C20",
         needs="values that hold pointers, a colliding insertion and a garbage collection",
         breaks="Set allocates the entry of a colliding key in memory the collector does not scan",
         edits=[("int_map.go", "func (m IntMap[V]) Set(", "				val := &intkv[V]{value}\n", "				val := (*intkv[V])(unsafe.Pointer(&make([]uint64, unsafe.Sizeof(value)/8+1)[0]))\n				val.v = value\n")],
         demo=D("-kind IntMap -c 1 -live", main="leak", weak=True)),
    dict(id="bytesmap-mod-nilkey", property="C05",
         needs="Mod of an existing nil key",
         breaks="Mod reports an existing key as missing when the stored key slice is nil",
         edits=[("bytes_map.go", "func (m BytesMap[V]) Mod(", "mod(&ckv.v, true)", "mod(&ckv.v, ckey != nil)")],
         demo=D("empty", main="misc")),
    dict(id="stringset-add-rootlike", property="C10",
         needs="five keys that share 16 digits and differ in the next",
         breaks="Add takes branches at depths that are multiples of 16 for the root and writes past the end of their arrays",
         edits=[("string_set.go", "func (s StringSet) Add(", "|| d == 0 { // array slot available", "|| d&0xF == 0 { // array slot available")],
         demo=D("-kind StringSet -c 16 -ops sssd -what lookup,len,all,gc", build="-gcflags=all=-d=checkptr")),
    dict(id="bytesscan-copy", property="C04",
         needs="a callback that writes through the pointer All passes",
         breaks="All passes a pointer to a copy of the value",
         edits=[("bytes_map.go", "func bytesScan[", "			kv := (*byteskv[V])(item.ptr)\n", "			kv := *(*byteskv[V])(item.ptr)\n")],
         demo=D("alias", main="misc")),
    dict(id="arrmap-mod-count-early", property="C06",
         needs="a Mod callback for a missing key that panics or asks for Len",
         breaks="Mod counts the new key before it runs the callback",
         edits=[("arr_map.go", "func (m ArrMap[K, V]) Mod(", "	kv := &arrkv[K, V]{k: key}\n	mod(&kv.v, false)\n	count :=", "	m.len++\n	m.dep += uint64(d)\n	kv := &arrkv[K, V]{k: key}\n	mod(&kv.v, false)\n	count :="),
                ("arr_map.go", "func (m ArrMap[K, V]) Mod(", "	l.tmap |= bit\n	m.len++\n	m.dep += uint64(d)\n}", "	l.tmap |= bit\n}")],
         demo=D("panic", main="misc", weak=True)),
    dict(id="intmap-ptr-period", property="C16",
         needs="a lookup of a key at depth 16 or more",
         breaks="Ptr rehashes every 32 levels instead of every 16",
         edits=[("int_map.go", "func (m IntMap[V]) Ptr(", "if d%(64/4) != 0 { // hash bits available", "if d%(128/4) != 0 { // hash bits available")],
         demo=D("-kind IntMap -c 16")),
    dict(id="arrmap-half-hash", property="C18",
         needs="array keys that differ only past byte 32",
         breaks="every operation of an array map hashes only the first half of the key's bytes, so such keys can never be told apart by hashing",
         edits=[("arr_map.go", f, "hw.Write(kb[:])\n	hd, l", "hw.Write(kb[:32])\n	hd, l") for f in ("func (m ArrMap[K, V]) Ptr(", "func (m ArrMap[K, V]) Set(", "func (m ArrMap[K, V]) Mod(", "func (m ArrMap[K, V]) Del(")]
              + [("arr_map.go", f, "				hw.Write(kb[:])\n				hd = ", "				hw.Write(kb[:32])\n				hd = ") for f in ("func (m ArrMap[K, V]) Ptr(", "func (m ArrMap[K, V]) Set(", "func (m ArrMap[K, V]) Mod(", "func (m ArrMap[K, V]) Del(")]
              + [("arr_map.go", f, "chw.Write(ckb[:])\n		}", "chw.Write(ckb[:32])\n		}") for f in ("func (m ArrMap[K, V]) Set(", "func (m ArrMap[K, V]) Mod(")]
              + [("arr_map.go", f, "				hw.Write(kb[:])\n				chw.Write(ckb[:])", "				hw.Write(kb[:32])\n				chw.Write(ckb[:32])") for f in ("func (m ArrMap[K, V]) Set(", "func (m ArrMap[K, V]) Mod(")],
         demo=D("longkeys", main="misc")),
    dict(id="intset-last-added", property="C02",
         needs="Add of a key, Del of it, and Add of it again with nothing in between",
         breaks="Add returns at once when the key is the one added last, and Del does not forget it",
         edits=[("amt.go", "", "	_     [3]uint64    // pad to 64-byte alignment\n", "	last  int64\n	_     [2]uint64 // pad to 64-byte alignment\n"),
                ("int_set.go", "func (s IntSet) Add(", "	kb := intbytes(key)\n", "	if s.len != 0 && s.last == key { // added just now\n		return\n	}\n	s.last = key\n	kb := intbytes(key)\n"),
                ("int_set.go", "func (s IntSet) Del(", "	kb := intbytes(key)\n", "	if s.len == 1 {\n		s.last = 0\n	}\n	kb := intbytes(key)\n")],
         demo=D("-kind IntSet -ops sd -what lookup,len"), fmt=True),
    dict(id="arrmap-mod-order", property="C05",
         needs="Mod of a missing key that conflicts with another, where the next digit and the rest of the hash order the two differently",
         breaks="the two entries of the new branch are ordered by their whole remaining hashes instead of the digit",
         edits=[("arr_map.go", "func (m ArrMap[K, V]) Mod(", "kbit < cbit {", "hd < chd {")],
         demo=D("-kind ArrMap -ops mmd")),
    dict(id="map-mod-detach", property="C06",
         needs="a Mod callback for an existing key that looks the key up, or that panics",
         breaks="the value is taken out of the map while the callback runs",
         edits=[("generic_map.go", "func (m Map[K, V]) Mod(", "			mod(&ckv.v, true)\n			return\n", "			var zero V\n			v := ckv.v\n			ckv.v = zero\n			mod(&v, true)\n			ckv.v = v\n			return\n")],
         demo=D("alias", main="misc")),
    dict(id="bytesset-nil-empty", property="C14",
         needs="Nil of a set returned by the constructor that holds no keys",
         breaks="Nil is true for an initialised set without keys",
         edits=[("bytes_set.go", "func (s BytesSet) Nil(", "return s.root == nil", "return s.Len() == 0")],
         demo=D("zero", main="misc")),
    dict(id="set-del-collapse-branch", property="C02",
         needs="a deletion that leaves a branch with one entry that is itself a branch",
         breaks="Del collapses a branch whose only entry is another branch and marks it as a key",
         edits=[("generic_set.go", "func (s Set[K]) Del(", "for count == 1 && l.pmap == l.tmap && d != 0 {", "for count == 1 && d != 0 {")],
         demo=D("-kind Set -c 2 -ops ssd")),
    dict(id="intmap-del-collapse-depth", property="C09",
         needs="deleting one of two keys that collide in the first digit",
         breaks="Del never collapses a branch into the root level",
         edits=[("int_map.go", "func (m IntMap[V]) Del(", "for count == 1 && l.pmap == l.tmap && d != 0 {", "for count == 1 && l.pmap == l.tmap && d > 1 {")],
         demo=D("-kind IntMap -c 1 -what dep -keys 3 -ops ssd")),
    dict(id="bytesmap-mod-slots", property="C10",
         needs="Mod of a missing key that becomes the fifth entry of a branch",
         breaks="a full array of 4 links is taken to have a free slot",
         edits=[("bytes_map.go", "func (m BytesMap[V]) Mod(", "if (count != 0 && count%4 != 0) || d == 0 {", "if (count != 0 && count%8 != 0) || d == 0 {")],
         demo=D("-kind BytesMap -c 1 -ops mmmd -what lookup,len,all,gc", build="-gcflags=all=-d=checkptr")),
    dict(id="arrset-scan-shared", property="C13",
         needs="iterations over two sets at the same time",
         breaks="All keeps the key it is about to report in a package-level variable",
         edits=[("arr_set.go", "func arrSetScan[", "			kv := (*arrkv[K, struct{}])(item.ptr)\n			if !do(kv.k) {\n", "			scanItem = item.ptr\n			if !do((*arrkv[K, struct{}])(scanItem).k) {\n"),
                ("arr_set.go", "", "func arrSetScan[", "var scanItem unsafe.Pointer // entry being visited\n\nfunc arrSetScan[")],
         demo=D("two ArrSet", main="race", build="-race")),

    # second series
    dict(id="arrmap-split-copy", property="C07",
         needs="a value pointer kept across the insertion of a conflicting key whose digit is the higher one",
         breaks="Set moves the conflicting entry into a fresh allocation when it sorts first in the new branch, so earlier pointers to its value go stale",
         edits=[("arr_map.go", "func (m ArrMap[K, V]) Set(", "pair[0].ptr, pair[1].ptr = unsafe.Pointer(ckv), unsafe.Pointer(kv)", "pair[0].ptr, pair[1].ptr = unsafe.Pointer(&arrkv[K, V]{ckv.v, ckey}), unsafe.Pointer(kv)")],
         demo=D("-kind ArrMap -what ptrs -ops ss")),
    dict(id="stringmap-all-stack", property="C12",
         needs="two goroutines that iterate over one map",
         breaks="All walks the map with an explicit stack kept in the root's scratch path",
         edits=[("string_map.go", "func (m StringMap[V]) All(", "	stringScan(&m.link, do)\n", """	stack := append(m.path[:0], pathLink{0, &m.link})
	for len(stack) > 0 {
		top := &stack[len(stack)-1]
		l, i := top.link, top.radix
		if i == uint8(bits.OnesCount32(l.pmap)) {
			*top = pathLink{}
			stack = stack[:len(stack)-1]
			continue
		}
		top.radix++
		pmap := l.pmap
		for ; i > 0; i-- {
			pmap &= pmap - 1
		}
		item := (*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(top.radix-1)*linkSize))
		if l.tmap&(pmap&-pmap) == 0 {
			stack = append(stack, pathLink{0, item})
		} else if kv := (*strkv[V])(item.ptr); !do(kv.k, &kv.v) {
			break
		}
	}
""")],
         demo=D("readers StringMap", main="race", build="-race")),
    dict(id="intmap-shared-hasher", property="C13",
         needs="deletions from two integer maps in two goroutines",
         breaks="Del of every integer map uses one package-level hasher",
         edits=[("int_map.go", "func (m IntMap[V]) Del(", "	var hw maphash.Hash\n", "	hw := &intDelHash\n"),
                ("int_map.go", "", "// IntMap maps", "var intDelHash maphash.Hash // reused by deletions\n\n// IntMap maps")],
         demo=D("two IntMap", main="race", build="-race")),
    dict(id="stringset-dep-nil", property="C14",
         needs="Dep of a set that was never initialised",
         breaks="Dep of an uninitialised string set panics",
         edits=[("string_set.go", "func (s StringSet) Dep(", "return s.root.Dep()", "if s.len == 0 { return 0 }; return float64(s.dep) / float64(s.len)")],
         demo=D("zero", main="misc")),
    dict(id="map-set-period4", property="C16",
         needs="keys whose first five whole hashes collide",
         breaks="Set of a generic map wraps the repeat count of the conflicting key at 4 while it splits a leaf",
         edits=[("generic_map.go", "func (m Map[K, V]) Set(", "ckey.Hash(m.seed, uint(d>>4))\n			}\n			kbit", "ckey.Hash(m.seed, uint(d>>4)&3)\n			}\n			kbit")],
         demo=D("-kind Map -c 66 -ops ssd -keys 6")),
    dict(id="intmap-mod-split-sign", property="C18",
         needs="Mod of a missing key that conflicts with a key outside the 32-bit range and sorts before it",
         breaks="the high half of the conflicting key is rebuilt from the sign of its low half in one of the two orders",
         edits=[("int_map.go", "func (m IntMap[V]) Mod(", "pair[1] = link{ptr: unsafe.Pointer(cval), pmap: uint32(ckey), tmap: uint32(ckey >> 32)}", "pair[1] = link{ptr: unsafe.Pointer(cval), pmap: uint32(ckey), tmap: uint32(int32(ckey) >> 31)}")],
         demo=D("-kind IntMap -ops mmd")),
    dict(id="intmap-ptr-low", property="C01",
         needs="a lookup, below the root level, of a missing key that shares its low half with a key on the same path",
         breaks="Ptr compares only the low halves of keys below the root level",
         edits=[("int_map.go", "func (m IntMap[V]) Ptr(", "if k := IntKey(item.pmap) | (IntKey(item.tmap) << 32); k == key { // key match", "if item.pmap == uint32(key) && (d != 0 || item.tmap == uint32(key>>32)) { // key match")],
         demo=D("-kind IntMap -low -c 1 -ops ssd")),
    dict(id="bytesmap-hot-entry", property="C11",
         needs="deleting the key inserted last while other keys stay",
         breaks="the root remembers the entry inserted last and Del does not forget it",
         edits=[("amt.go", "", "	_     [3]uint64    // pad to 64-byte alignment\n", "	hot   unsafe.Pointer // entry inserted last\n	_     [2]uint64    // pad to 64-byte alignment\n"),
                ("bytes_map.go", "func (m BytesMap[V]) Set(", "				kv := &byteskv[V]{value, key}\n", "				kv := &byteskv[V]{value, key}\n				m.hot = unsafe.Pointer(kv)\n")],
         demo=D("-kind BytesMap -c 1", main="leak", weak=True), fmt=True),
    dict(id="arrset-all-uninit", property="C14",
         needs="All of a set that was never initialised",
         breaks="All of an uninitialised array set returns silently instead of panicking",
         edits=[("arr_set.go", "func (s ArrSet[K]) All(", "	arrSetScan(&s.link, do)\n", "	if s.root != nil {\n		arrSetScan(&s.link, do)\n	}\n")],
         demo=D("zero", main="misc")),
    dict(id="set-has-intern", property="C12",
         needs="two goroutines that look up the same key",
         breaks="Has of a generic set stores the key it was given in place of the equal key it found",
         edits=[("generic_set.go", "func (s Set[K]) Has(", "		return key.Equal((*kv[K, struct{}])(item.ptr).k) // key match/mismatch\n", "		if !key.Equal((*kv[K, struct{}])(item.ptr).k) {\n			return false // key mismatch\n		}\n		(*kv[K, struct{}])(item.ptr).k = key // share the caller's memory\n		return true\n")],
         demo=D("readers Set", main="race", build="-race")),
    dict(id="root-dep-float32", property="C08",
         needs="a mean depth that a 32-bit float cannot represent, such as a third",
         breaks="Dep is computed in single precision",
         edits=[("amt.go", "func (r *root) Dep(", "return float64(r.dep) / float64(r.len)", "return float64(float32(r.dep) / float32(r.len))")],
         demo=D("-kind StringMap -what dep")),
    dict(id="set-del-collapse-16", property="C09",
         needs="deleting one of two keys whose whole first hash collides",
         breaks="Del stops collapsing branches at depths that are multiples of 16",
         edits=[("generic_set.go", "func (s Set[K]) Del(", "for count == 1 && l.pmap == l.tmap && d != 0 {", "for count == 1 && l.pmap == l.tmap && d&0xF != 0 {")],
         demo=D("-kind Set -c 17 -what order,lookup -ops ssd -keys 5")),
    dict(id="mapscan-skip-nil", property="C04",
         needs="an entry whose value has no bytes, or the fourth entry of a full branch",
         breaks="All reloads the type bits after the callback, from the child it just visited",
         edits=[("generic_map.go", "func mapScan[", "		} else if !mapScan(item, do) {\n			return false\n		}\n", "		} else if l := item; !mapScan(l, do) && l.pmap != 0 {\n			return l.tmap != l.pmap\n		}\n")],
         demo=D("-kind Map -what all -c 1")),
    dict(id="bytes-hash-prefix", property="C15",
         needs="byte-slice keys longer than 64 bytes",
         breaks="Bytes.Hash hashes at most 64 bytes of the key",
         edits=[("bytes_map.go", "func (k Bytes) Hash(", "		hw.Write(k)\n", "		if len(k) > 64 {\n			hw.Write(k[:64])\n			continue\n		}\n		hw.Write(k[:])\n")],
         demo=D("hash", main="misc")),
    dict(id="set-add-period", property="C16",
         needs="keys whose first three whole hashes collide",
         breaks="Add of a generic set rehashes the conflicting key with a repeat count that wraps at 2",
         edits=[("generic_set.go", "func (s Set[K]) Add(", "ckey.Hash(s.seed, uint(d>>4))\n			}\n			kbit", "ckey.Hash(s.seed, uint(d>>4)&1)\n			}\n			kbit")],
         demo=D("-kind Set -c 34 -ops ssd -keys 6")),
    dict(id="arrmap-mod-rehash-reset", property="C16",
         needs="Mod of a key at depth 32 or more",
         breaks="Mod of an array map starts its hasher afresh when it rehashes, so that the third hash repeats the second",
         edits=[("arr_map.go", "func (m ArrMap[K, V]) Mod(", "			} else { // rehash\n				hw.Write(kb[:])\n", "			} else { // rehash\n				hw.Reset()\n				hw.Write(append(kb[:], kb[:]...))\n"),],
         demo=D("-kind ArrMap -c 50 -ops mmd -keys 8")),
    dict(id="arrset-noscan-key", property="C20",
         needs="a key type that holds pointers (a struct with a string), a colliding insertion and a garbage collection",
         breaks="Add allocates the entry of a colliding key in memory the collector does not scan",
         edits=[("arr_set.go", "func (s ArrSet[K]) Add(", "				kv := &arrkv[K, struct{}]{k: key}\n", "				kv := (*arrkv[K, struct{}])(unsafe.Pointer(&make([]uint64, (unsafe.Sizeof(*ckv)+7)/8)[0]))\n				kv.k = key\n")],
         demo=D("", main="modgc")),

    # third series
    dict(id="arrmap-all-busy", property="C04",
         needs="an All whose callback panics, or one started from another's callback",
         breaks="All of an array map marks the root busy and returns at once when it already is; a callback that panics leaves the mark",
         edits=[("amt.go", "", "	_     [3]uint64    // pad to 64-byte alignment\n", "	busy  uint64       // set during iteration\n	_     [2]uint64    // pad to 64-byte alignment\n"),
                ("arr_map.go", "func (m ArrMap[K, V]) All(", "	arrScan(&m.link, do)\n", "	if m.busy != 0 {\n		return // already being visited\n	}\n	m.busy = 1\n	arrScan(&m.link, do)\n	m.busy = 0\n")],
         demo=D("iter", main="misc")),
    dict(id="setscan-depth-limit", property="C04",
         needs="keys whose whole 64-bit hashes collide",
         breaks="All of a generic set goes no deeper than 16 levels",
         edits=[("generic_set.go", "func (s Set[K]) All(", "	setScan(&s.link, do)\n", "	setScan(&s.link, 64/4, do)\n"),
                ("generic_set.go", "", "func setScan[K Key[K]](l *link, do func(K) bool) bool {", "func setScan[K Key[K]](l *link, levels int, do func(K) bool) bool {"),
                ("generic_set.go", "func setScan[", "} else if !setScan(item, do) {", "} else if levels != 0 && !setScan(item, levels-1, do) {")],
         demo=D("-kind Set -c 17 -what all -ops ssd -keys 5")),
    dict(id="bytesmap-mod-defer-count", property="C06",
         needs="a Mod callback that panics for a missing key that takes a free slot",
         breaks="Mod of a byte-slice map counts the new entry in a deferred function, which also runs when the callback panics",
         edits=[("bytes_map.go", "func (m BytesMap[V]) Mod(", "	kv := &byteskv[V]{k: key}\n	mod(&kv.v, false)\n	count :=", "	defer func() { m.len, m.dep = m.len+1, m.dep+uint64(d) }()\n	kv := &byteskv[V]{k: key}\n	mod(&kv.v, false)\n	count :="),
                ("bytes_map.go", "func (m BytesMap[V]) Mod(", "	l.pmap |= bit\n	l.tmap |= bit\n	m.len++\n	m.dep += uint64(d)\n", "	l.pmap |= bit\n	l.tmap |= bit\n")],
         demo=D("panic", main="misc")),
    dict(id="bytesmap-set-large-rebox", property="C07",
         needs="a value type of more than 64 bytes and a pointer to a value kept across Set of its key",
         breaks="Set of an existing key stores a value of more than 64 bytes in a new entry",
         edits=[("bytes_map.go", "func (m BytesMap[V]) Set(", "			ckv.v = value\n			return\n", "			if unsafe.Sizeof(value) > 64 {\n				item.ptr = unsafe.Pointer(&byteskv[V]{value, ckey})\n			} else {\n				ckv.v = value\n			}\n			return\n")],
         demo=D("bigvals", main="misc")),
    dict(id="map-ptr-trust-hash", property="C16",
         needs="a lookup of a missing key that shares more than 16 digits with a key of the map",
         breaks="past depth 16 Ptr takes a key for found without comparing it",
         edits=[("generic_map.go", "func (m Map[K, V]) Ptr(", "key.Equal(kv.k) { // key match", "d > 64/4 || key.Equal(kv.k) { // key match")],
         demo=D("-kind Map -c 18 -ops ssd -keys 5")),
    dict(id="set-del-trust-hash", property="C17",
         needs="Del of a missing key that shares at least 16 digits with a key of the set",
         breaks="Del of a generic set asks Equal only at depths below 16",
         edits=[("generic_set.go", "func (s Set[K]) Del(", "if !key.Equal((*kv[K, struct{}])(item.ptr).k) { // key missing", "if d < 64/4 && !key.Equal((*kv[K, struct{}])(item.ptr).k) { // key missing")],
         demo=D("-kind Set -c 17 -ops ssd -keys 5")),
    dict(id="intmap-zero-size", property="C19",
         needs="values of size zero, and a key that takes a free slot",
         breaks="Set of an integer map allocates nothing for zero-size values, so Ptr and Get report the key missing",
         edits=[("int_map.go", "func (m IntMap[V]) Set(", "			ptr:  unsafe.Pointer(&intkv[V]{value}),\n			pmap: uint32(key),\n			tmap: uint32(key >> 32),\n		}\n	} else {", "			ptr:  newIntVal(value),\n			pmap: uint32(key),\n			tmap: uint32(key >> 32),\n		}\n	} else {"),
                ("int_map.go", "", "// Set adds or updates the value for key.\nfunc (m IntMap", "func newIntVal[V any](value V) unsafe.Pointer {\n	if unsafe.Sizeof(value) == 0 {\n		return nil // nothing to store\n	}\n	return unsafe.Pointer(&intkv[V]{value})\n}\n\n// Set adds or updates the value for key.\nfunc (m IntMap")],
         demo=D("values", main="misc")),
    dict(id="root-dep-cache", property="C12",
         needs="two goroutines that call Dep",
         breaks="Dep keeps the mean it computed in the root",
         edits=[("amt.go", "", "	_     [3]uint64    // pad to 64-byte alignment\n", "	mean  [3]uint64    // mean depth, and the counts it was computed from\n"),
                ("amt.go", "func (r *root) Dep(", "	return float64(r.dep) / float64(r.len)\n", "	if r.mean[1] != r.dep || r.mean[2] != r.len {\n		r.mean = [3]uint64{math.Float64bits(float64(r.dep) / float64(r.len)), r.dep, r.len}\n	}\n	return math.Float64frombits(r.mean[0])\n"),
                ("amt.go", "", "	\"hash/maphash\"\n", "	\"hash/maphash\"\n	\"math\"\n")],
         demo=D("readers StringMap", main="race", build="-race")),
    dict(id="newroot-seed-lazy", property="C13",
         needs="two goroutines that each make a container",
         breaks="all containers share a seed that the first constructor makes, without synchronisation",
         edits=[("amt.go", "func newRoot(", "	r := &root{seed: maphash.MakeSeed()}\n", "	if hashSeed == (maphash.Seed{}) {\n		hashSeed = maphash.MakeSeed()\n	}\n	r := &root{seed: hashSeed}\n"),
                ("amt.go", "", "func newRoot()", "var hashSeed maphash.Seed // made by the first container\n\nfunc newRoot()")],
         demo=D("make BytesSet", main="race", build="-race")),
    dict(id="stringset-del-dep-once", property="C08",
         needs="a deletion that collapses two or more levels",
         breaks="Del of a string set corrects the depth for one collapsed level only",
         edits=[("string_set.go", "func (s StringSet) Del(", "			*l = *(*link)(l.ptr)\n			s.dep--\n			d--\n", "			if *l = *(*link)(l.ptr); d == uint(len(path)-1) {\n				s.dep--\n			}\n			d--\n")],
         demo=D("-kind StringSet -what dep -c 3 -ops ssd")),
    dict(id="intset-del-vacant", property="C03",
         needs="deletion of a key other than zero whose low half is zero",
         breaks="Del of an integer set takes a key with a zero low half for a vacant slot",
         edits=[("int_set.go", "func (s IntSet) Del(", "		if k := IntKey(item.pmap) | (IntKey(item.tmap) << 32); k != key { // key missing\n", "		if k := IntKey(item.pmap) | (IntKey(item.tmap) << 32); k != key || item.pmap == 0 && k != 0 { // key missing or slot vacant\n")],
         demo=D("-kind IntSet -low -half 0 -what lookup,len")),
    dict(id="stringmap-mod-hot", property="C01",
         needs="Mod of an existing key, its deletion, and a lookup",
         breaks="the root remembers the entry last updated by Mod, lookups try it first, and Del does not forget it",
         edits=[("amt.go", "", "	_     [3]uint64    // pad to 64-byte alignment\n", "	hot   unsafe.Pointer // entry last modified\n	_     [2]uint64    // pad to 64-byte alignment\n"),
                ("string_map.go", "func (m StringMap[V]) Mod(", "			mod(&ckv.v, true)\n", "			m.hot = item.ptr\n			mod(&ckv.v, true)\n"),
                ("string_map.go", "func (m StringMap[V]) Ptr(", "	var hw maphash.Hash\n", "	if kv := (*strkv[V])(m.hot); kv != nil && kv.k == key {\n		return &kv.v\n	}\n	var hw maphash.Hash\n")],
         demo=D("-kind StringMap -what lookup -ops smmdg -keys 3")),
    dict(id="arrset-path-words", property="C16",
         needs="a deletion at depth 12 or more, after which another container is used",
         breaks="Del of an array set keeps its traversal path in the root, capped at 12 levels",
         edits=[("arr_set.go", "func (s ArrSet[K]) Del(", "		path = append(path, pathLink{radix, l})\n", "		if d < 12 {\n			path = append(path, pathLink{radix, l})\n		} else {\n			copy(path, path[1:])\n			path[11] = pathLink{radix, l}\n		}\n"),
                ("arr_set.go", "func (s ArrSet[K]) Del(", "		path[d].link = nil\n		count := uint8(bits.OnesCount32(l.pmap))\n", "		if d > 11 {\n			path = append(make([]pathLink, d-11, d+1), path...)\n		}\n		path[d].link = nil\n		count := uint8(bits.OnesCount32(l.pmap))\n")],
         demo=D("-kind ArrSet -c 13 -ops ssd -keys 5")),
    dict(id="bytesset-add-modified", property="C02",
         needs="keys at depth 16 or more",
         breaks="Add of a byte-slice set takes a conflicting key whose digit at the current depth differs for one that was modified and replaces it; past depth 16 the digit it compares is the wrong one",
         edits=[("bytes_set.go", "func (s BytesSet) Add(", "chd := chw.Sum64() >> (4 * (d % (64 / 4)))", "chd := chw.Sum64() >> (4 * d)")],
         demo=D("-kind BytesSet -c 17 -ops ssd -keys 5")),
]
