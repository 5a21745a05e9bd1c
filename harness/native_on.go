//go:build native

package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/maphash"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"time"

	"amtverif/v"
)

type replay struct {
	Property string
	Entry    string
	Job      string
	Params   map[string]int64
	Inputs   map[string]string
	Hashes   []struct {
		Seed  uint64
		Bytes string
		Val   string
	}
	Obs []struct{ Name, Val string }
}

// nativeMain replays the models in the file given as argument (a JSON list) one after another
// and prints one result line per model.
func nativeMain() {
	data, err := os.ReadFile(os.Args[1])
	if err != nil {
		fmt.Println("ERROR", err)
		os.Exit(3)
	}
	var rs []replay
	if err := json.Unmarshal(data, &rs); err != nil {
		fmt.Println("ERROR", err)
		os.Exit(3)
	}
	debug.SetMemoryLimit(2 << 30)
	v.PinHook = maphash.VerifPin
	v.LastHook = maphash.VerifLast
	v.QuietHook = maphash.VerifQuiet
	progress := make(chan bool, 1)
	go func() {
		for {
			select {
			case <-progress:
			case <-time.After(20 * time.Second):
				fmt.Println("RESULT hang no progress for 20 s")
				os.Exit(0)
			}
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
		}
	}()
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 3<<30 {
				fmt.Println("RESULT hang memory exhausted")
				os.Exit(0)
			}
		}
	}()
	for i := range rs {
		fmt.Println("RESULT", one(&rs[i]))
		progress <- true
	}
}

func one(r *replay) (res string) {
	table := map[uint64]map[string]uint64{}
	for _, h := range r.Hashes {
		b, _ := hex.DecodeString(h.Bytes)
		x, _ := strconv.ParseUint(h.Val, 10, 64)
		if table[h.Seed] == nil {
			table[h.Seed] = map[string]uint64{}
		}
		table[h.Seed][string(b)] = x
	}
	maphash.VerifReset(table)
	in := map[string]uint64{}
	for k, s := range r.Inputs {
		in[k], _ = strconv.ParseUint(s, 10, 64)
	}
	v.Reset(r.Params, in)
	guard, passed, nilTurn, hashLog = false, nil, 0, nil
	putKey, putVal, delKey = nil, nil, nil
	f := entries[r.Entry]
	if f == nil {
		return "error no entry " + r.Entry
	}
	defer func() {
		if p := recover(); p != nil {
			switch p := p.(type) {
			case v.AssertFailed:
				res = "violation assert " + p.Msg
			case v.AssumeFailed:
				res = "assume"
			default:
				res = fmt.Sprintf("violation panic %v", p)
			}
			return
		}
		if v.Failure != "" {
			res = "violation assert " + v.Failure
			return
		}
		// compare the observations
		if len(v.Observed) != len(r.Obs) {
			res = fmt.Sprintf("mismatch %d observations, %d predicted", len(v.Observed), len(r.Obs))
			return
		}
		for i, o := range v.Observed {
			if want, _ := strconv.ParseUint(r.Obs[i].Val, 10, 64); o.Name != r.Obs[i].Name || o.Val != want {
				res = fmt.Sprintf("mismatch observation %d: %s=%d, predicted %s=%d", i, o.Name, o.Val, r.Obs[i].Name, want)
				return
			}
		}
		res = fmt.Sprintf("ok %d", len(v.Observed))
	}()
	f()
	return
}
