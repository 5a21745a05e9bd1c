package main

import (
	"fmt"
	"strings"
)

const outsideText = "longer histories, wider or deeper structures than listed; schedules beyond the footprint argument for two parties; more than about 300 levels; changing a container while All runs over it, or from inside a Mod callback; user-supplied Hash or Equal methods that panic or are inconsistent; repeat counts near the largest uint"

var assumptions = []string{
	"hash/maphash is an arbitrary function of (seed, bytes written): equal inputs give equal outputs, nothing else is assumed",
	"distinct keys of a scenario differ within the first L+D+1 hash digits (the bounds); all other digits are unconstrained",
	"the Go compiler, runtime and garbage collector implement the language; go/ssa represents the source and z3 is right (sampled paths are replayed on the compiled code and compared)",
}

// Operation codes of the harness (see scen.go); an ops parameter lists them in octal, the
// first operation in the last digit.
const (
	oPut = iota
	oDel
	oMod
	oAny
	oPutDel
)

func seq(ops ...int) int {
	r := 0
	for i := len(ops) - 1; i >= 0; i-- {
		r = r<<3 | ops[i]
	}
	return r
}

var kindName = map[int]string{0: "IntMap", 1: "StringMap", 2: "BytesMap", 3: "ArrMap", 4: "Map", 5: "IntSet", 6: "StringSet", 7: "BytesSet", 8: "ArrSet", 9: "Set",
	10: "Map[String]", 11: "Map[Bytes]", 12: "Map[Int]", 13: "Set[String]", 14: "Set[Bytes]", 15: "Set[Int]", 16: "Map[two representations]", 17: "Set[two representations]",
	18: "Map[logging]", 19: "Set[logging]", 20: "ArrMap[64 bytes]", 21: "ArrSet[64 bytes]", 22: "ArrMap[struct with string]", 23: "ArrSet[struct with string]"}

var (
	maps    = []int{0, 1, 2, 3, 4}
	sets    = []int{5, 6, 7, 8, 9}
	all     = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}
	genMaps = []int{10, 11, 12}
	genSets = []int{13, 14, 15}
)

type jobList struct {
	js   []Job
	thor bool
}

// add appends a job; args are name, value pairs.
func (l *jobList) add(weight int, entry string, args ...interface{}) {
	j := Job{Entry: entry, Params: map[string]int64{}, Weight: weight}
	for i := 0; i < len(args); i += 2 {
		j.Params[args[i].(string)] = int64(args[i+1].(int))
	}
	j.name()
	l.js = append(l.js, j)
}

// level of effort in structural
const (
	light = iota
	medium
	full
)

// structural covers histories and shapes of one container type. op is the operation the
// scenarios end with (oAny: each of them); the structures they build before cover every
// exit of the insertion and deletion code: empty, occupied and branching slots, splits over
// several levels, full arrays of each size, shrinking, collapsing over several levels, and the
// crossing into further hashes.
func (l *jobList) structural(kind, chk, op, effort int, extra ...interface{}) {
	add := func(w int, e string, args ...interface{}) {
		args = append([]interface{}{"kind", kind, "chk", chk}, args...)
		l.add(w, e, append(args, extra...)...)
	}
	// free histories
	if effort >= medium || l.thor {
		add(12, "Free", "D", 2, "n", 3, "ops", seq(oAny, oAny, op))
	} else {
		add(5, "Free", "D", 2, "n", 3, "ops", seq(oPut, oAny, op))
	}
	if effort >= full || l.thor {
		add(20, "Free", "D", 1, "n", 4, "ops", seq(oPut, oPut, oPut, op))
		add(12, "Free", "D", 1, "n", 4, "ops", seq(oPut, oPut, oDel, op))
	}
	// below a spine with a sibling at each level
	add(4, "Free", "L", 2, "D", 2, "n", 3, "ops", seq(oPut, oPut, op), "sib", 1)
	add(4, "Free", "L", 2, "D", 2, "n", 3, "ops", seq(oPut, oPut, op), "sib", 2)
	if effort >= medium || l.thor {
		add(2, "Free", "L", 3, "D", 1, "n", 3, "ops", seq(oPut, oPut, op), "sib", 4)
	}
	// across the end of the first hash, and the scratch path's 12 entries
	add(4, "Free", "L", 14, "D", 3, "n", 3, "ops", seq(oPut, oPut, op))
	if effort >= medium || l.thor {
		add(3, "Free", "L", 12, "D", 2, "n", 3, "ops", seq(oPut, oPut, op), "sib", 13)
		add(3, "Free", "L", 17, "D", 1, "n", 3, "ops", seq(oPut, oPut, op), "sib", 10)
	}
	// across the ends of further hashes
	add(2, "Free", "L", 32, "D", 1, "n", 3, "ops", seq(oPut, oPut, op))
	add(1, "Free", "L", 64, "D", 1, "n", 2, "ops", seq(oPut, op))
	if l.thor {
		add(4, "Free", "L", 256, "D", 1, "n", 2, "ops", seq(oPut, op))
	}
	// wide nodes: full arrays of each size, at the root and below
	for _, c := range []int{3, 4, 8, 12, 15, 16} {
		if effort == light && !l.thor && (c == 3 || c == 15) {
			continue
		}
		o := op
		if c == 15 && op == oAny && !l.thor {
			o = oPut
		}
		add(c*c/12+1, "Wide", "L", 1, "D", 1, "c", c, "n", 1, "ops", seq(o), "ord", c%4)
	}
	if effort >= medium || l.thor {
		add(3, "Wide", "L", 0, "D", 1, "c", 6, "n", 1, "ops", seq(op), "ord", 3)
		add(12, "Wide", "L", 0, "D", 1, "c", 16, "n", 1, "ops", seq(op), "ord", 2)
	}
	// branches and entries side by side
	add(2, "Wide", "L", 1, "D", 2, "c", 3, "sub", 5, "n", 1, "ops", seq(op), "sib", 1, "ord", 3)
	if effort >= medium || l.thor {
		add(3, "Wide", "L", 1, "D", 2, "c", 4, "sub", 10, "n", 1, "ops", seq(op), "ord", 1)
		add(3, "Wide", "L", 1, "D", 2, "c", 3, "sub", 7, "n", 1, "ops", seq(op))
		add(2, "Wide", "L", 16, "D", 1, "c", 4, "sub", 2, "n", 1, "ops", seq(op), "sib", 15)
	}
	// shrink, then change again: dels lists the positions (from 1) of the entries deleted
	add(1, "Wide", "L", 1, "D", 1, "c", 3, "dels", 0x1, "n", 1, "ops", seq(op))
	add(1, "Wide", "L", 1, "D", 1, "c", 3, "dels", 0x32, "n", 1, "ops", seq(op), "sib", 1)
	add(2, "Wide", "L", 1, "D", 1, "c", 5, "dels", 0x3, "n", 1, "ops", seq(op), "ord", 1)
	if effort >= medium || l.thor {
		add(4, "Wide", "L", 1, "D", 1, "c", 9, "dels", 0x91, "n", 1, "ops", seq(op), "ord", 2)
		add(4, "Wide", "L", 0, "D", 1, "c", 6, "dels", 0x4216, "n", 1, "ops", seq(op), "ord", 3)
		add(4, "Wide", "L", 1, "D", 2, "c", 3, "sub", 2, "dels", 0x23, "n", 1, "ops", seq(op), "ord", 3)
	}
	if effort >= full || l.thor {
		add(8, "Wide", "L", 1, "D", 1, "c", 13, "dels", 0x5d, "n", 1, "ops", seq(op), "ord", 1)
		add(4, "Wide", "L", 1, "D", 1, "c", 13, "dels", 0x12973d64b, "n", 1, "ops", seq(op))
		add(4, "Wide", "L", 1, "D", 1, "c", 5, "n", 2, "ops", seq(oDel, oPut), "ord", 1)
	}
	if !l.thor {
		return
	}
	// thorough
	any := oAny
	if op != oAny {
		any = oPutDel
	}
	add(100, "Free", "D", 2, "n", 4, "ops", seq(oPut, any, any, op))
	add(200, "Free", "D", 1, "n", 5, "ops", seq(oPut, oPut, oPut, any, op))
	add(40, "Free", "L", 2, "D", 2, "n", 3, "ops", seq(any, any, op), "sib", 1)
	add(40, "Free", "L", 3, "D", 2, "n", 4, "ops", seq(oPut, oPut, oDel, op), "sib", 3)
	for _, L := range []int{11, 13, 15, 16, 29, 31, 32, 47} {
		add(20, "Free", "L", L, "D", 2, "n", 3, "ops", seq(any, any, op))
		add(20, "Free", "L", L, "D", 2, "n", 3, "ops", seq(oPut, oPut, op), "sib", L-1)
	}
	for c := 2; c <= 16; c++ {
		for ord := 0; ord < 4; ord++ {
			add(c*c/8, "Wide", "L", 1, "D", 2, "c", c, "n", 1, "ops", seq(op), "ord", ord, "sib", 1)
		}
		if c <= 9 {
			add(c*c/4, "Wide", "L", 0, "D", 1, "c", c, "n", 2, "ops", seq(oDel, oPut), "ord", c%4)
			add(c*c/4, "Wide", "L", 1, "D", 1, "c", c, "n", 2, "ops", seq(oDel, oDel), "ord", c%4)
			add(c*c/4, "Wide", "L", 1, "D", 1, "c", c, "n", 2, "ops", seq(oPut, op), "ord", c%4)
		}
		for d := 1; d <= c && d < 16; d++ {
			add(c*c/12, "Wide", "L", 1, "D", 1, "c", c, "dels", d, "n", 1, "ops", seq(op), "ord", d%4)
			if d > 1 {
				add(c*c/12, "Wide", "L", 1, "D", 1, "c", c, "dels", d|(d/2)<<4, "n", 1, "ops", seq(op), "ord", d%4)
			}
		}
	}
	for sub := 1; sub < 16; sub++ {
		add(10, "Wide", "L", 1, "D", 2, "c", 4, "sub", sub, "n", 1, "ops", seq(op), "ord", sub%4)
	}
	for _, sub := range []int{1, 2, 4, 7} {
		add(20, "Wide", "L", 0, "D", 2, "c", 3, "sub", sub, "n", 2, "ops", seq(oDel, oDel))
	}
}

// small is for the containers that share their code with one covered in full.
func (l *jobList) small(kind, chk, op int, extra ...interface{}) {
	add := func(w int, e string, args ...interface{}) {
		args = append([]interface{}{"kind", kind, "chk", chk}, args...)
		l.add(w, e, append(args, extra...)...)
	}
	add(4, "Free", "D", 2, "n", 3, "ops", seq(oPut, oPut, op))
	add(4, "Free", "L", 15, "D", 2, "n", 3, "ops", seq(oPut, oPut, op))
	add(3, "Wide", "L", 1, "D", 1, "c", 4, "n", 1, "ops", seq(op))
	if l.thor {
		add(12, "Free", "D", 2, "n", 3, "ops", seq(oAny, oAny, op))
		add(12, "Wide", "L", 1, "D", 1, "c", 12, "n", 1, "ops", seq(op))
	}
}

// breadth runs one scenario for other lengths of keys (klens: digits counting from 1, see
// lengths in the harness) and for the other types of keys.
func (l *jobList) breadth(kinds []int, weight int, entry string, args ...interface{}) {
	for _, k := range kinds {
		if k == 1 || k == 2 || k == 6 || k == 7 {
			for _, n := range []int{0x13, 0x3, 0x9, 0xf} {
				l.add(weight, entry, append([]interface{}{"kind", k, "klens", n}, args...)...)
			}
		}
	}
	if kinds[0] < 5 {
		l.gens(append([]int{20, 22}, genMaps...), weight, entry, args...)
	}
	if kinds[len(kinds)-1] >= 5 {
		l.gens(append([]int{21, 23}, genSets...), weight, entry, args...)
	}
}

func (l *jobList) gens(kinds []int, weight int, entry string, args ...interface{}) {
	for _, k := range kinds {
		l.add(weight, entry, append([]interface{}{"kind", k}, args...)...)
	}
}

// values runs the scenario Values for the listed types of values on every map type.
func (l *jobList) values(ts []int, args ...interface{}) {
	for _, t := range ts {
		for _, k := range maps {
			l.add(3, "Values", append([]interface{}{"kind", k, "t", t, "D", 1, "n", 3}, args...)...)
		}
	}
}

const (
	cLookup = 1
	cLen    = 2
	cAll    = 4
	cDep    = 8
	cStop   = 16
	cAbsent = 64
)

// history programs for C09: pairs with the same contents in the end. 1..7 puts key 0..6,
// 9..F deletes it; read from the right.
var programs2 = [][2]int{
	{0x21, 0x12},    // two orders
	{0x1, 0xA21},    // insert and delete another
	{0x1, 0xA12},    //
	{0x2, 0x912},    //
	{0x1, 0x191},    // delete and insert again
	{0x0, 0x9A12},   // empty again
	{0x12, 0x2A12},  //
	{0x12, 0x1912},  //
	{0x12, 0x11212}, // updates
}

var programs3 = [][2]int{
	{0x321, 0x123},
	{0x321, 0x312},
	{0x321, 0x132},
	{0x21, 0xB321},
	{0x21, 0xB123},
	{0x21, 0xB312},
	{0x1, 0xBA321},
	{0x1, 0xAB132},
	{0x321, 0x2A132},
	{0x0, 0xA9B321},
	{0x21, 0x2BA3121},
	{0x31, 0xA2A123},
}

func (l *jobList) history(kind int) {
	add := func(w int, e string, args ...interface{}) {
		l.add(w, e, append([]interface{}{"kind", kind}, args...)...)
	}
	for _, p := range programs2 {
		add(1, "History", "D", 2, "n", 2, "pa", p[0], "pb", p[1])
	}
	add(1, "History", "L", 15, "D", 2, "n", 2, "pa", 0x1, "pb", 0xA12)
	for i, p := range programs3 {
		add(2, "History", "D", 2, "n", 3, "pa", p[0], "pb", p[1])
		if l.thor || i%4 == 0 {
			add(2, "History", "L", 14, "D", 3, "n", 3, "pa", p[0], "pb", p[1])
			add(2, "History", "L", 2, "D", 2, "n", 3, "pa", p[0], "pb", p[1])
		}
	}
	for _, c := range []int{3, 4, 5, 8, 12} {
		add(c, "HistoryWide", "L", 1, "D", 1, "c", c, "ord", 1, "at", c/2)
		add(c, "HistoryWide", "L", 1, "D", 1, "c", c, "ord", 2, "at", c, "sib", 1)
	}
	add(4, "HistoryWide", "L", 1, "D", 2, "c", 3, "sub", 5, "at", 5)
	add(4, "HistoryWide", "L", 1, "D", 2, "c", 2, "sub", 1, "at", 3, "rev", 1)
	add(4, "HistoryWide", "L", 12, "D", 3, "c", 2, "at", 2, "rev", 1, "sib", 13)
	add(4, "HistoryWide", "L", 13, "D", 1, "c", 2, "at", 2, "rev", 1, "sib", 12)
	if l.thor {
		for c := 1; c <= 15; c++ {
			for ord := 0; ord < 4; ord++ {
				for _, at := range []int{0, c / 2, c} {
					add(c, "HistoryWide", "L", 1, "D", 1, "c", c, "ord", ord, "at", at, "rev", 1)
					add(c, "HistoryWide", "L", 0, "D", 2, "c", c, "ord", ord, "at", at)
				}
			}
		}
		for sub := 1; sub < 16; sub++ {
			add(4, "HistoryWide", "L", 1, "D", 2, "c", 4, "sub", sub, "at", 4)
		}
		for _, p := range [][2]int{{0x4321, 0x1234}, {0x21, 0xBC4321}, {0x321, 0xC1423}, {0x31, 0xAC1234}, {0x4321, 0x3B1234}} {
			add(30, "History", "D", 2, "n", 4, "pa", p[0], "pb", p[1])
			add(30, "History", "L", 14, "D", 2, "n", 4, "pa", p[0], "pb", p[1])
		}
	}
}

// modified: retained key slices that the caller changed.
func (l *jobList) modified(kind, op int) {
	add := func(w int, args ...interface{}) {
		l.add(w, "Modified", append([]interface{}{"kind", kind, "op", op}, args...)...)
	}
	add(3, "D", 2, "n", 1)
	add(3, "D", 1, "n", 2)
	add(3, "L", 2, "D", 1, "n", 1, "sib", 2)
	add(3, "L", 14, "D", 2, "n", 1)
	if l.thor {
		add(30, "D", 2, "n", 3)
		add(30, "L", 14, "D", 2, "n", 2, "sib", 14)
		add(30, "L", 3, "D", 2, "n", 2, "sib", 3)
	}
}

func (l *jobList) hold(kind, hold int) {
	add := func(w int, args ...interface{}) {
		l.add(w, "Hold", append([]interface{}{"kind", kind, "hold", hold, "chk", 7}, args...)...)
	}
	isMap := kind < 5
	add(2, "D", 1, "n", 1, "m", 2, "ops", seq(oAny, oAny), "empty", 1)
	add(4, "D", 2, "n", 2, "m", 1, "ops", seq(oAny), "empty", 2)
	add(9, "D", 1, "n", 2, "m", 2, "ops", seq(oDel, oAny))
	add(4, "L", 1, "D", 2, "n", 3, "m", 1, "ops", seq(oDel))
	add(4, "L", 2, "D", 1, "n", 2, "m", 1, "ops", seq(oAny), "empty", 1)
	add(4, "L", 13, "D", 3, "n", 2, "m", 1, "ops", seq(oAny), "empty", 1)
	add(4, "L", 11, "D", 1, "n", 2, "m", 2, "ops", seq(oDel, oDel))
	add(2, "L", 1, "D", 1, "c", 4, "m", 1, "ops", seq(oAny))
	add(2, "L", 1, "D", 1, "c", 5, "m", 2, "ops", seq(oDel, oDel), "ord", 1)
	add(4, "L", 1, "D", 1, "c", 8, "m", 1, "ops", seq(oAny), "ord", 2)
	add(4, "L", 1, "D", 1, "c", 9, "m", 1, "ops", seq(oDel), "ord", 3, "empty", 1)
	add(8, "L", 0, "D", 1, "c", 12, "m", 1, "ops", seq(oPutDel))
	add(8, "L", 1, "D", 1, "c", 13, "m", 1, "ops", seq(oDel), "ord", 1)
	add(2, "L", 1, "D", 2, "c", 3, "sub", 5, "m", 1, "ops", seq(oDel), "empty", 1)
	add(2, "L", 1, "D", 1, "c", 2, "m", 2, "ops", seq(oDel, oDel), "sib", 1, "empty", 2)
	if hold&2 != 0 && isMap {
		add(5, "D", 2, "n", 2, "m", 1, "ops", seq(oMod), "inside", 1)
		add(5, "L", 14, "D", 2, "n", 2, "m", 1, "ops", seq(oMod), "inside", 1)
		add(5, "L", 1, "D", 1, "c", 4, "m", 1, "ops", seq(oMod), "inside", 1)
	}
	if l.thor {
		add(60, "D", 2, "n", 2, "m", 2, "ops", seq(oAny, oAny), "empty", 1)
		add(60, "D", 1, "n", 3, "m", 2, "ops", seq(oDel, oAny), "empty", 2)
		add(60, "L", 15, "D", 2, "n", 3, "m", 2, "ops", seq(oDel, oPutDel), "empty", 1)
		for c := 2; c <= 16; c++ {
			for ord := 0; ord < 4; ord++ {
				add(c*2, "L", 1, "D", 1, "c", c, "m", 1, "ops", seq(oAny), "ord", ord, "sib", 1)
				add(c*2, "L", 1, "D", 1, "c", c, "m", 2, "ops", seq(oDel, oDel), "ord", ord, "empty", 1+ord%2)
			}
		}
		for sub := 1; sub < 16; sub++ {
			add(10, "L", 1, "D", 2, "c", 4, "sub", sub, "m", 1, "ops", seq(oAny), "empty", 1)
		}
		if hold&2 != 0 && isMap {
			for c := 1; c <= 15; c++ {
				add(5, "L", 1, "D", 2, "c", c, "sub", 3&(1<<uint(c)-1), "m", 2, "ops", seq(oMod, oMod), "inside", 1)
			}
		}
	}
}

func jobsFor(prop, tier string) []Job {
	l := &jobList{thor: tier == "thorough"}
	switch prop {
	case "C01", "C02":
		ks, gs := maps, append(append([]int{}, genMaps...), 22)
		if prop == "C02" {
			ks, gs = sets, append(append([]int{}, genSets...), 23)
		}
		for _, k := range ks {
			l.structural(k, cLookup, oAny, full)
			l.add(2, "Free", "kind", k, "chk", cLookup|cAbsent, "D", 2, "n", 2, "ops", seq(oPut, oAny))
			l.add(2, "Free", "kind", k, "chk", cLookup|cAbsent, "L", 15, "D", 2, "n", 2, "ops", seq(oPut, oPut))
			l.add(2, "Wide", "kind", k, "chk", cLookup|cAbsent, "L", 1, "D", 1, "c", 4, "n", 1, "ops", seq(oPutDel))
			if l.thor {
				l.add(100, "Free", "kind", k, "chk", cLookup|cAbsent, "D", 2, "n", 3, "ops", seq(oAny, oAny, oAny))
			}
		}
		for _, k := range gs {
			l.small(k, cLookup, oAny)
		}
		l.breadth(ks, 3, "Free", "chk", cLookup, "D", 1, "n", 3, "ops", seq(oPut, oAny, oAny))
		l.breadth(ks, 3, "Free", "chk", cLookup, "L", 16, "D", 1, "n", 3, "ops", seq(oPut, oPut, oAny))
		if prop == "C01" {
			l.values([]int{0, 1, 5, 6, 9, 11}, "ops", seq(oPut, oAny, oAny))
		}
	case "C03":
		for _, k := range all {
			l.structural(k, cLen, oAny, light)
			l.add(6, "Free", "kind", k, "chk", cLen, "D", 1, "n", 3, "ops", seq(oAny, oAny, oAny), "each", 1)
			l.add(2, "Free", "kind", k, "chk", cLen|cLookup, "D", 2, "n", 2, "ops", seq(oPut, oAny), "each", 1)
		}
		l.breadth(all, 3, "Free", "chk", cLen, "D", 1, "n", 3, "ops", seq(oPut, oAny, oAny), "each", 1)
		l.breadth(all, 3, "Free", "chk", cLen, "L", 16, "D", 1, "n", 3, "ops", seq(oPut, oPut, oAny), "each", 1)
		for _, k := range maps {
			l.add(3, "ModIn", "kind", k, "chk", cLen, "D", 1, "n", 2, "m", 1, "ops", seq(oAny))
		}
		l.values([]int{0, 3, 9}, "ops", seq(oPut, oAny, oAny))
	case "C04":
		for _, k := range all {
			l.structural(k, cAll|cStop, oAny, light)
			// reads, writes through the pointers and panics in the callback
			l.add(3, "InAll", "kind", k, "chk", cAll|cLookup|cLen, "D", 2, "n", 2)
			l.add(6, "InAll", "kind", k, "chk", cAll|cLookup|cLen, "D", 1, "n", 2, "m", 1, "ops", seq(oAny))
			l.add(3, "InAll", "kind", k, "chk", cAll|cLookup|cLen, "L", 14, "D", 2, "n", 2)
			l.add(6, "InAll", "kind", k, "chk", cAll|cLookup|cLen, "L", 1, "D", 1, "c", 4)
			if l.thor {
				l.add(20, "InAll", "kind", k, "chk", cAll|cLookup|cLen, "D", 2, "n", 3)
				l.add(20, "InAll", "kind", k, "chk", cAll|cLookup|cLen, "L", 1, "D", 2, "c", 3, "sub", 2, "m", 1, "ops", seq(oAny))
				l.add(20, "InAll", "kind", k, "chk", cAll|cLookup|cLen, "L", 0, "D", 1, "c", 8)
			}
		}
		for _, k := range append(genMaps, genSets...) {
			l.add(4, "Free", "kind", k, "chk", cAll|cStop, "D", 2, "n", 3, "ops", seq(oPut, oPut, oAny))
		}
		l.breadth(all, 3, "Free", "chk", cAll|cStop, "D", 1, "n", 3, "ops", seq(oPut, oPut, oAny))
		l.breadth(all, 3, "Free", "chk", cAll|cStop, "L", 15, "D", 2, "n", 3, "ops", seq(oPut, oPut, oPut))
		l.values([]int{0, 3, 5, 9}, "ops", seq(oPut, oPut, oAny))
	case "C05":
		for _, k := range maps {
			l.structural(k, cLookup|cAll|cLen, oMod, medium)
			l.add(4, "Free", "kind", k, "chk", cLookup|cAll|cLen, "D", 2, "n", 3, "ops", seq(oMod, oMod, oMod), "each", 1)
			l.add(4, "ModPure", "kind", k, "chk", cLookup|cLen, "D", 2, "n", 1, "m", 2)
			l.add(4, "ModPure", "kind", k, "chk", cLookup|cLen, "D", 2, "n", 2, "m", 1)
			l.add(4, "ModPure", "kind", k, "chk", cLookup|cLen, "L", 15, "D", 2, "n", 2, "m", 1)
			l.add(4, "ModPure", "kind", k, "chk", cLookup|cLen, "L", 1, "D", 1, "c", 4, "m", 1)
			if l.thor {
				l.add(60, "ModPure", "kind", k, "chk", cLookup|cLen, "D", 2, "n", 2, "m", 2)
				l.add(60, "ModPure", "kind", k, "chk", cLookup|cLen, "L", 1, "D", 1, "c", 8, "m", 2)
			}
		}
		l.modified(2, oMod)
		// empty keys, as nil and as empty slices
		for _, k := range []int{1, 2, 10, 11} {
			for _, n := range []int{0x000, 0x010} {
				l.add(3, "RawKeys", "kind", k, "lens", n, "chk", 7, "D", 1, "n", 3, "ops", seq(oPut, oMod, oMod))
				l.add(3, "RawKeys", "kind", k, "lens", n, "chk", 7, "D", 1, "n", 3, "ops", seq(oMod, oAny, oMod))
			}
		}
		for _, k := range genMaps {
			l.small(k, cLookup, oMod)
			l.add(4, "ModPure", "kind", k, "chk", cLookup|cLen, "D", 2, "n", 2, "m", 1)
		}
		l.breadth(maps, 3, "ModPure", "chk", cLookup|cLen, "D", 1, "n", 1, "m", 2)
		l.breadth(maps, 3, "ModPure", "chk", cLookup|cLen, "L", 16, "D", 1, "n", 2, "m", 1)
		for t := 0; t <= 19; t++ {
			l.values([]int{t}, "ops", seq(oMod, oMod, oAny))
		}
	case "C06":
		for _, k := range maps {
			chk := cLookup | cLen | cAll | cDep
			add := func(w int, args ...interface{}) {
				l.add(w, "ModIn", append([]interface{}{"kind", k, "chk", chk}, args...)...)
			}
			add(4, "D", 2, "n", 1, "m", 1, "ops", seq(oAny))
			add(4, "D", 2, "n", 2, "m", 0)
			add(6, "D", 1, "n", 2, "m", 1, "ops", seq(oDel))
			add(6, "D", 1, "n", 3, "m", 0)
			add(4, "L", 2, "D", 2, "n", 2, "m", 0, "sib", 2)
			add(4, "L", 14, "D", 3, "n", 2, "m", 0)
			add(4, "L", 14, "D", 3, "n", 1, "m", 1, "ops", seq(oPutDel))
			for _, c := range []int{3, 4, 8, 12, 15} {
				add(c/2, "L", 1, "D", 1, "c", c, "m", 0, "ord", c%4)
			}
			add(4, "L", 1, "D", 2, "c", 3, "sub", 5, "m", 0)
			add(4, "L", 0, "D", 1, "c", 5, "m", 0)
			if l.thor {
				add(60, "D", 2, "n", 2, "m", 1, "ops", seq(oAny))
				add(60, "L", 14, "D", 3, "n", 2, "m", 1, "ops", seq(oAny))
				for c := 2; c <= 16; c++ {
					add(60, "L", 1, "D", 1, "c", c, "m", 0, "ord", 2, "sib", 1)
				}
				for c := 3; c <= 9; c++ {
					add(60, "L", 1, "D", 1, "c", c, "m", 1, "ops", seq(oPutDel), "ord", 1)
				}
				for sub := 1; sub < 16; sub++ {
					add(10, "L", 1, "D", 2, "c", 4, "sub", sub, "m", 0)
				}
			}
		}
		l.breadth(maps, 3, "ModIn", "chk", cLookup|cLen|cAll|cDep, "D", 1, "n", 2, "m", 0)
		l.breadth(maps, 3, "ModIn", "chk", cLookup|cLen|cAll|cDep, "L", 16, "D", 1, "n", 2, "m", 0)
	case "C07":
		for _, k := range maps {
			add := func(w int, args ...interface{}) {
				l.add(w, "Pointers", append([]interface{}{"kind", k}, args...)...)
			}
			for how := 0; how < 3; how++ {
				add(4, "how", how, "D", 2, "n", 2, "m", 1, "ops", seq(oAny))
				add(2, "how", how, "L", 1, "D", 1, "c", 4, "m", 1, "ops", seq(oAny), "ord", how)
				add(3, "how", how, "L", 14, "D", 2, "n", 2, "m", 1, "ops", seq(oAny))
			}
			add(6, "how", 0, "D", 1, "n", 2, "m", 2, "ops", seq(oDel, oPut))
			add(6, "how", 1, "D", 1, "n", 1, "m", 2, "ops", seq(oMod, oAny), "take", 1)
			add(6, "how", 2, "L", 1, "D", 2, "n", 3, "m", 1, "ops", seq(oDel))
			for _, c := range []int{3, 5, 8, 9, 12} {
				add(c/2, "how", c%3, "L", 1, "D", 1, "c", c, "m", 1, "ops", seq(oPutDel), "ord", c%4)
			}
			add(3, "how", 0, "L", 1, "D", 2, "c", 3, "sub", 5, "m", 1, "ops", seq(oDel), "sib", 1)
			if l.thor {
				for how := 0; how < 3; how++ {
					add(60, "how", how, "D", 2, "n", 2, "m", 2, "ops", seq(oAny, oAny))
					add(60, "how", how, "L", 14, "D", 2, "n", 2, "m", 2, "ops", seq(oPutDel, oAny))
					for c := 2; c <= 15; c++ {
						add(c, "how", how, "L", 1, "D", 1, "c", c, "m", 2, "ops", seq(oDel, oPut), "ord", c%4)
					}
				}
				for sub := 1; sub < 16; sub++ {
					add(10, "how", sub%3, "L", 1, "D", 2, "c", 4, "sub", sub, "m", 1, "ops", seq(oAny))
				}
			}
		}
		for how := 0; how < 3; how++ {
			l.breadth(maps, 3, "Pointers", "how", how, "D", 1, "n", 2, "m", 1, "ops", seq(oAny))
		}
		l.breadth(maps, 3, "Pointers", "how", 0, "L", 16, "D", 1, "n", 2, "m", 1, "ops", seq(oAny))
		for t := 1; t <= 19; t++ {
			if t != 18 {
				l.values([]int{t}, "ops", seq(oPut, oAny, oAny), "ptrs", 1)
			}
		}
	case "C08":
		for _, k := range all {
			l.structural(k, cDep, oAny, light)
			l.add(6, "Free", "kind", k, "chk", cDep, "D", 1, "n", 3, "ops", seq(oAny, oAny, oAny), "each", 1)
		}
		l.breadth(all, 3, "Free", "chk", cDep, "D", 1, "n", 3, "ops", seq(oPut, oAny, oAny), "each", 1)
		l.breadth(all, 3, "Free", "chk", cDep, "L", 16, "D", 1, "n", 3, "ops", seq(oPut, oPut, oAny))
	case "C09":
		for _, k := range all {
			l.history(k)
		}
		for _, p := range [][2]int{{0x21, 0x12}, {0x1, 0xA21}, {0x1, 0x191}, {0x12, 0x11212}} {
			l.breadth(all, 3, "History", "D", 2, "n", 2, "pa", p[0], "pb", p[1])
			l.breadth(all, 3, "History", "L", 15, "D", 2, "n", 2, "pa", p[0], "pb", p[1])
		}
		for _, k := range all {
			for _, L := range []int{16, 31, 32, 64, 256} {
				l.add(4, "History", "kind", k, "L", L, "D", 1, "n", 2, "pa", 0x1, "pb", 0xA12)
				if L < 60 {
					l.add(4, "History", "kind", k, "L", L, "D", 1, "n", 3, "pa", 0x321, "pb", 0x213)
				}
			}
		}
	case "C10":
		for _, k := range all {
			add := func(w int, args ...interface{}) {
				l.add(w, "Safe", append([]interface{}{"kind", k}, args...)...)
			}
			add(4, "D", 2, "n", 1, "m", 2, "ops", seq(oAny, oAny))
			add(6, "D", 2, "n", 2, "m", 1, "ops", seq(oAny))
			add(6, "D", 1, "n", 3, "m", 1, "ops", seq(oDel))
			add(3, "L", 2, "D", 2, "n", 2, "m", 1, "ops", seq(oAny), "sib", 2)
			add(4, "L", 13, "D", 3, "n", 2, "m", 1, "ops", seq(oAny), "sib", 5)
			add(4, "L", 30, "D", 3, "n", 2, "m", 1, "ops", seq(oDel))
			add(4, "L", 15, "D", 1, "c", 4, "m", 1, "ops", seq(oAny))
			add(4, "L", 16, "D", 1, "c", 4, "m", 1, "ops", seq(oPutDel))
			for _, c := range []int{4, 8, 12, 15, 16} {
				add(c/2, "L", 1, "D", 1, "c", c, "m", 1, "ops", seq(oAny), "ord", c%4)
			}
			for _, c := range []int{5, 9, 13} {
				add(c/2, "L", 1, "D", 1, "c", c, "m", 1, "ops", seq(oDel), "ord", c%4)
			}
			add(2, "L", 1, "D", 1, "c", 5, "m", 2, "ops", seq(oDel, oPut))
			add(8, "L", 0, "D", 1, "c", 16, "m", 1, "ops", seq(oPutDel))
			add(3, "L", 1, "D", 2, "c", 3, "sub", 5, "m", 1, "ops", seq(oAny), "sib", 1)
			if l.thor {
				add(60, "D", 2, "n", 2, "m", 2, "ops", seq(oAny, oAny))
				add(60, "D", 1, "n", 3, "m", 2, "ops", seq(oAny, oAny))
				for _, L := range []int{11, 12, 13, 14, 15, 16, 31, 32, 47, 63, 100} {
					add(20, "L", L, "D", 2, "n", 2, "m", 1, "ops", seq(oAny), "sib", L-1)
				}
				for c := 2; c <= 16; c++ {
					add(c*2, "L", 1, "D", 1, "c", c, "m", 2, "ops", seq(oDel, oAny), "ord", c%4)
					add(c*2, "L", 1, "D", 1, "c", c, "m", 1, "ops", seq(oAny), "ord", (c+1)%4, "sib", 1)
				}
			}
		}
		l.modified(2, oPut)
		l.modified(7, oPut)
		for _, k := range maps {
			l.add(3, "Values", "kind", k, "t", 0, "D", 1, "n", 3, "ops", seq(oPut, oPut, oAny), "quiet", 1)
		}
		l.breadth(all, 3, "Safe", "D", 1, "n", 2, "m", 1, "ops", seq(oAny))
		l.breadth(all, 3, "Safe", "L", 16, "D", 1, "n", 2, "m", 1, "ops", seq(oAny))
		for _, k := range all {
			for _, L := range []int{47, 64, 130, 239, 240, 255, 256, 300} {
				l.add(4, "Safe", "kind", k, "L", L, "D", 1, "n", 1, "m", 1, "ops", seq(oAny))
			}
		}
		l.values([]int{5, 8, 9, 10, 11, 12}, "ops", seq(oPut, oPut, oAny), "quiet", 1)
	case "C11":
		for _, k := range all {
			l.hold(k, 1)
		}
	case "C12":
		for _, k := range all {
			add := func(w int, args ...interface{}) {
				l.add(w, "Readers", append([]interface{}{"kind", k, "chk", 7}, args...)...)
			}
			add(3, "D", 2, "n", 2)
			add(3, "D", 1, "n", 1)
			add(3, "L", 14, "D", 2, "n", 2)
			add(3, "D", 1, "n", 1, "m", 1, "ops", seq(oAny))
			add(3, "L", 1, "D", 1, "c", 4)
			add(5, "L", 1, "D", 1, "c", 8, "ord", 2)
			add(3, "L", 1, "D", 2, "c", 3, "sub", 5, "sib", 1)
			if l.thor {
				add(30, "D", 2, "n", 3)
				add(30, "L", 31, "D", 2, "n", 2)
				add(30, "D", 1, "n", 2, "m", 1, "ops", seq(oAny))
				for c := 5; c <= 16; c++ {
					add(c, "L", 0, "D", 1, "c", c, "ord", c%4)
				}
			}
		}
		for _, k := range append(genMaps, genSets...) {
			l.add(3, "Readers", "kind", k, "chk", 7, "D", 1, "n", 2)
		}
		l.breadth(all, 3, "Readers", "D", 1, "n", 2)
		l.breadth(all, 3, "Readers", "L", 16, "D", 1, "n", 2)
		for _, k := range all {
			for _, L := range []int{32, 64, 256} {
				l.add(4, "Readers", "kind", k, "L", L, "D", 1, "n", 1, "chk", 7)
			}
		}
	case "C13":
		for _, k := range all {
			k2 := (k + 1) % 10
			ops := seq(oAny, oAny)
			indep := func(w int, args ...interface{}) {
				l.add(w, "Indep", append([]interface{}{"kind", k, "chk", 3}, args...)...)
			}
			l.add(2, "Fresh", "kind", k, "kind2", k)
			l.add(2, "Fresh", "kind", k, "kind2", k2)
			indep(10, "kind2", k, "D", 1, "n", 1, "ops", ops)
			indep(10, "kind2", k2, "D", 1, "n", 1, "ops", ops)
			indep(10, "kind2", (k+5)%10, "D", 1, "n", 1, "ops", seq(oPutDel, oPutDel))
			indep(6, "kind2", k, "L", 14, "D", 2, "n", 1, "ops", seq(oPut, oDel))
			indep(6, "kind2", k, "L", 15, "D", 1, "n", 1, "ops", seq(oPut, oMod))
			indep(6, "kind2", k, "L", 1, "D", 1, "n", 2, "ops", seq(oDel, oDel))
			indep(6, "kind2", k2, "L", 13, "D", 1, "n", 2, "ops", seq(oDel, oDel))
			for _, c := range []int{4, 8, 12} {
				indep(c, "kind2", k, "L", 1, "D", 1, "c", c, "n", 1, "ops", seq(oPut, oPut))
				if c < 12 || l.thor {
					indep(c, "kind2", k, "L", 1, "D", 1, "c", c+1, "n", 1, "ops", seq(oDel, oDel))
				}
				if l.thor {
					indep(60, "kind2", k, "L", 1, "D", 1, "c", c, "c2", 4, "ops", seq(oPut, oPut))
				}
			}
			indep(8, "kind2", k, "L", 1, "D", 1, "c", 4, "c2", 4, "ops", seq(oPut, oPut), "chk", 1)
			indep(4, "kind2", k2, "L", 1, "D", 2, "c", 3, "sub", 5, "n", 1, "ops", seq(oPutDel, oDel))
			l.add(3, "Alias", "kind", k, "chk", 7, "D", 1, "n", 1, "m", 1, "ops", seq(oAny))
			l.add(3, "Alias", "kind", k, "chk", 7, "D", 2, "n", 0, "m", 2, "ops", seq(oPut, oAny))
			l.add(3, "Alias", "kind", k, "chk", 7, "L", 1, "D", 1, "c", 4, "m", 1, "ops", seq(oAny))
			if l.thor {
				l.add(100, "Indep", "kind", k, "kind2", k, "chk", 7, "D", 1, "n", 2, "ops", ops)
				l.add(100, "Indep", "kind", k, "kind2", k2, "chk", 7, "D", 1, "n", 2, "ops", seq(oPut, oDel))
				l.add(60, "Alias", "kind", k, "chk", 7, "D", 1, "n", 2, "m", 2, "ops", ops)
			}
		}
		l.breadth(maps, 3, "Indep", "kind2", 2, "chk", 3, "D", 1, "n", 1, "ops", seq(oAny, oPut))
		l.breadth(sets, 3, "Indep", "kind2", 7, "chk", 3, "D", 1, "n", 1, "ops", seq(oAny, oPutDel))
		for _, k := range append(append(append([]int{}, genMaps...), genSets...), 20, 21, 22, 23) {
			l.add(2, "Fresh", "kind", k, "kind2", k)
			l.add(3, "Indep", "kind", k, "kind2", k, "chk", 3, "D", 1, "n", 1, "ops", seq(oAny, oAny))
			l.add(3, "Alias", "kind", k, "chk", 7, "D", 1, "n", 1, "m", 1, "ops", seq(oAny))
		}
	case "C14":
		for _, k := range append(append(append([]int{}, all...), genMaps...), genSets...) {
			n := 5
			if k < 5 || k >= 10 && k <= 12 {
				n = 8
			}
			for op := 0; op < n; op++ {
				l.add(1, "Zero", "kind", k, "op", op)
			}
		}
	case "C15":
		iters := []int{0, 1, 2, 3, 15, 254, 255, 256, 257, 300}
		if l.thor {
			iters = append(iters, 4, 5, 6, 7, 8, 16, 127, 128, 511, 512, 600, 1000)
		}
		for _, it := range iters {
			l.add(1, "Hashing", "what", 3, "iter", it)
			lens := [][2]int{{0, 0}, {3, 3}, {2, 4}, {8, 8}}
			if it > 20 {
				lens = [][2]int{{0, 1}, {3, 3}}
			} else if it < 3 {
				lens = append(lens, [][2]int{{1, 0}, {16, 16}, {33, 33}, {65, 65}, {129, 128}, {300, 300}}...)
			}
			if l.thor && it < 20 {
				lens = append(lens, [][2]int{{1, 1}, {7, 8}, {16, 16}, {31, 32}, {64, 64}, {0, 5}}...)
			}
			for what := 0; what < 3; what++ {
				for _, n := range lens {
					l.add(1, "Hashing", "what", what, "iter", it, "n", n[0], "n2", n[1])
				}
			}
		}
	case "C16":
		for _, k := range all {
			chk := cLookup | cLen | cAll | cDep
			for _, L := range []int{11, 12, 13, 15, 16, 17, 31, 32, 33} {
				w := 3 + L/10
				if !l.thor && L > 17 {
					l.add(w, "Free", "kind", k, "chk", chk, "L", L, "D", 1, "n", 2, "ops", seq(oPut, oAny))
					o := oDel
					if L == 32 && k < 5 {
						o = oAny
					}
					l.add(w, "Free", "kind", k, "chk", chk, "L", L, "D", 1, "n", 3, "ops", seq(oPut, oPut, o))
					continue
				}
				op := oAny
				if !l.thor && L != 16 {
					op = oPutDel
				}
				l.add(w, "Free", "kind", k, "chk", chk, "L", L, "D", 2, "n", 3, "ops", seq(oPut, oPut, op), "sib", (L*7)%(L+1))
				if l.thor {
					l.add(w, "Free", "kind", k, "chk", chk, "L", L, "D", 3, "n", 3, "ops", seq(oAny, oAny, oAny))
					l.add(w, "Free", "kind", k, "chk", chk, "L", L, "D", 1, "n", 4, "ops", seq(oPut, oPut, oDel, oPutDel), "sib", L)
				}
			}
			// deeper: each further hash, up to the fifth
			for _, L := range []int{47, 48, 63, 64, 79, 80, 96, 127, 128, 239, 240, 254, 255, 256, 300} {
				l.add(6, "Free", "kind", k, "chk", chk, "L", L, "D", 1, "n", 2, "ops", seq(oPut, oAny))
			}
			for _, L := range []int{48, 64, 130} {
				if L == 130 && !l.thor {
					continue
				}
				D := 1
				if l.thor {
					D = 2
				}
				l.add(6, "Free", "kind", k, "chk", chk, "L", L, "D", D, "n", 3, "ops", seq(oPut, oPut, oAny))
			}
			l.add(8, "Wide", "kind", k, "chk", chk, "L", 15, "D", 1, "c", 4, "n", 1, "ops", seq(oAny), "sib", 13)
			l.add(8, "Wide", "kind", k, "chk", chk, "L", 16, "D", 1, "c", 4, "n", 1, "ops", seq(oAny), "ord", 2)
			l.add(8, "Wide", "kind", k, "chk", chk, "L", 16, "D", 1, "c", 5, "n", 1, "ops", seq(oDel), "ord", 1)
			if l.thor {
				l.add(30, "Wide", "kind", k, "chk", chk, "L", 31, "D", 1, "c", 8, "n", 1, "ops", seq(oAny), "sib", 16)
				l.add(30, "Wide", "kind", k, "chk", chk, "L", 16, "D", 2, "c", 3, "sub", 5, "n", 1, "ops", seq(oAny), "sib", 16)
				for _, L := range []int{47, 48, 63, 64, 100, 200} {
					l.add(60, "Free", "kind", k, "chk", chk, "L", L, "D", 2, "n", 3, "ops", seq(oPut, oPut, oAny))
				}
			}
		}
		for _, k := range append(genMaps, genSets...) {
			l.add(3, "Free", "kind", k, "chk", 7, "L", 15, "D", 2, "n", 3, "ops", seq(oPut, oPut, oPutDel))
		}
		l.breadth(all, 3, "Free", "chk", cLookup|cLen|cAll|cDep, "L", 16, "D", 1, "n", 3, "ops", seq(oPut, oPut, oAny))
		l.breadth(all, 3, "Free", "chk", cLookup|cLen|cAll|cDep, "L", 32, "D", 1, "n", 2, "ops", seq(oPut, oAny))
	case "C17":
		for _, k := range []int{16, 17} {
			chk := cLookup | cLen | cAll
			l.structural(k, chk, oAny, full)
			l.add(10, "Free", "kind", k, "chk", cLookup|cAbsent, "D", 2, "n", 2, "ops", seq(oPut, oAny))
		}
		for set := 0; set < 2; set++ {
			add := func(w int, args ...interface{}) {
				l.add(w, "HashUse", append([]interface{}{"set", set}, args...)...)
			}
			add(10, "D", 2, "n", 3, "ops", seq(oAny, oAny, oAny))
			add(10, "L", 14, "D", 3, "n", 3, "ops", seq(oPut, oAny, oAny))
			add(10, "L", 30, "D", 3, "n", 3, "ops", seq(oPut, oPut, oAny))
			add(10, "L", 47, "D", 2, "n", 2, "ops", seq(oPut, oAny))
			for _, L := range []int{31, 32, 63, 64, 80, 128, 240, 256, 300} {
				add(5, "L", L, "D", 1, "n", 2, "ops", seq(oPut, oAny))
			}
			if l.thor {
				add(60, "D", 2, "n", 4, "ops", seq(oPut, oPut, oAny, oAny))
				for _, L := range []int{12, 13, 15, 16, 28, 31, 32, 63, 100} {
					add(60, "L", L, "D", 3, "n", 3, "ops", seq(oAny, oAny, oAny))
				}
			}
		}
		for _, k := range append(append([]int{}, genMaps...), genSets...) {
			l.structural(k, cLookup|cLen, oAny, light)
		}
	case "C18":
		strs := []int{1, 2, 6, 7}
		gens := []int{10, 11, 13, 14}
		lens := []int{0x000, 0x111, 0x210, 0x222, 0x01, 0x777, 0x887, 0x990, 0xaab, 0xbbb, 0xccc, 0xdde, 0xeee, 0xff7, 0xfff}
		for i, k := range append(append([]int{}, strs...), gens...) {
			for j, n := range lens {
				if !l.thor && i >= 4 && j%3 != 0 {
					continue
				}
				op := oPut
				if k != 6 && k != 7 && k < 13 && j%2 == 1 {
					op = oMod
				}
				l.add(3, "RawKeys", "kind", k, "lens", n, "chk", 7, "D", 1, "n", 3, "ops", seq(oPut, op, oPut))
			}
			for _, L := range []int{15, 16, 32} {
				l.add(3, "RawKeys", "kind", k, "lens", 0x777, "chk", 7, "L", L, "D", 1, "n", 3, "ops", seq(oPut, oPut, oPutDel))
				if k != 6 && k != 7 && k < 13 {
					l.add(3, "RawKeys", "kind", k, "lens", 0x777, "chk", 7, "L", L, "D", 1, "n", 3, "ops", seq(oPut, oPut, oMod))
				}
			}
			l.add(5, "RawKeys", "kind", k, "lens", 0x210, "chk", 7, "D", 1, "n", 3, "ops", seq(oPut, oPut, oAny))
			if l.thor {
				for a := 0; a < 16; a++ {
					l.add(5, "RawKeys", "kind", k, "lens", a|(a+1)&15<<4|a<<8, "chk", 7, "D", 2, "n", 3, "ops", seq(oPut, oAny, oAny))
				}
				l.add(60, "RawKeys", "kind", k, "lens", 0x2102, "chk", 7, "D", 1, "n", 4, "ops", seq(oPut, oPut, oPut, oAny))
			}
		}
		for _, k := range []int{0, 3, 5, 8, 12, 15, 20, 21, 22, 23} {
			l.add(5, "RawKeys", "kind", k, "chk", 7, "D", 1, "n", 3, "ops", seq(oPut, oPut, oAny))
			if k < 20 {
				l.add(5, "RawKeys", "kind", k, "chk", 7, "D", 2, "n", 3, "ops", seq(oPut, oPut, oPut))
				l.add(5, "RawKeys", "kind", k, "chk", 7, "L", 15, "D", 2, "n", 3, "ops", seq(oPut, oPut, oPut))
			}
			if l.thor {
				l.add(60, "RawKeys", "kind", k, "chk", 7, "D", 2, "n", 4, "ops", seq(oPut, oPut, oPut, oAny))
				l.add(20, "RawKeys", "kind", k, "chk", 7, "L", 16, "D", 2, "n", 3, "ops", seq(oPut, oAny, oAny))
			}
		}
		// inline integers in wide and deep places
		for _, k := range []int{0, 5} {
			for _, c := range []int{4, 5, 8, 12} {
				l.add(c/2, "Wide", "kind", k, "chk", cAll|cLookup, "L", 1, "D", 1, "c", c, "n", 1, "ops", seq(oPutDel), "ord", c%4)
			}
			l.add(3, "Wide", "kind", k, "chk", cAll|cLookup, "L", 1, "D", 2, "c", 3, "sub", 5, "n", 1, "ops", seq(oAny))
		}
	case "C19":
		for t := 0; t <= 19; t++ {
			for _, k := range maps {
				l.add(4, "Values", "kind", k, "t", t, "D", 1, "n", 3, "ops", seq(oPut, oAny, oAny))
				if t == 0 || t == 6 {
					l.add(4, "Values", "kind", k, "t", t, "L", 15, "D", 2, "n", 3, "ops", seq(oPut, oMod, oAny))
				}
				if l.thor {
					l.add(20, "Values", "kind", k, "t", t, "D", 2, "n", 3, "ops", seq(oAny, oAny, oAny))
					l.add(20, "Values", "kind", k, "t", t, "L", 15, "D", 2, "n", 3, "ops", seq(oAny, oAny, oAny))
					l.add(60, "Values", "kind", k, "t", t, "D", 1, "n", 4, "ops", seq(oPut, oPut, oMod, oAny))
				}
			}
		}
	case "C20":
		for _, k := range all {
			l.hold(k, 2)
		}
	}
	return l.js
}

// boundsText describes the bounds of a run from its jobs.
func boundsText(prop, tier string) string {
	js := jobsFor(prop, tier)
	type rng struct{ lo, hi int64 }
	by := map[string]map[string]*rng{}
	kinds := map[int64]bool{}
	var order []string
	for _, j := range js {
		m := by[j.Entry]
		if m == nil {
			m = map[string]*rng{}
			by[j.Entry] = m
			order = append(order, j.Entry)
		}
		kinds[j.Params["kind"]] = true
		for _, k := range []string{"L", "D", "n", "m", "c", "iter", "t"} {
			x := j.Params[k]
			r := m[k]
			if r == nil {
				m[k] = &rng{x, x}
				continue
			}
			if x < r.lo {
				r.lo = x
			}
			if x > r.hi {
				r.hi = x
			}
		}
	}
	what := map[string]string{"L": "shared hash digits", "D": "further digits within which distinct keys differ", "n": "free keys/operations", "m": "operations after the build-up", "c": "occupied slots of a wide node", "iter": "repeat count", "t": "value type number"}
	var out []string
	for _, e := range order {
		s := e + ":"
		for _, k := range []string{"L", "D", "n", "m", "c", "iter", "t"} {
			r := by[e][k]
			if r == nil || r.hi == 0 {
				continue
			}
			if r.lo == r.hi {
				s += fmt.Sprintf(" %s %d (%s);", k, r.lo, what[k])
			} else {
				s += fmt.Sprintf(" %s %d..%d (%s);", k, r.lo, r.hi, what[k])
			}
		}
		out = append(out, strings.TrimSuffix(s, ";"))
	}
	var ks []string
	for k := int64(0); k < 32; k++ {
		if kinds[k] {
			ks = append(ks, kindName[int(k)])
		}
	}
	return fmt.Sprintf("%d scenarios. %s. Containers: %s. All keys, values and hash digits are symbolic 64-bit (keys of strings and slices: up to 8 arbitrary bytes).", len(js), strings.Join(out, ". "), strings.Join(ks, ", "))
}
