package main

import (
	"encoding/hex"
	"strconv"
)

// Replay is everything a native run needs to take the same path.
type Replay struct {
	Property string            `json:"property,omitempty"`
	Entry    string            `json:"entry"`
	Job      string            `json:"job"`
	Params   map[string]int64  `json:"params"`
	Inputs   map[string]string `json:"inputs"`
	Hashes   []HashRec         `json:"hashes"`
	Obs      []ObsRec          `json:"obs,omitempty"`
	Expect   string            `json:"expect,omitempty"`
	Msg      string            `json:"msg,omitempty"`
	Where    string            `json:"where,omitempty"`
}

type HashRec struct {
	Seed  uint64 `json:"seed"`
	Bytes string `json:"bytes"`
	Val   string `json:"val"`
	// Foreign: content only the code under test hashed
	Foreign bool `json:"foreign,omitempty"`
}

type ObsRec struct {
	Name string `json:"name"`
	Val  string `json:"val"`
}

func (x *Exec) replay(s *State) *Replay {
	r := &Replay{Entry: x.entry, Job: x.job, Params: x.params, Inputs: map[string]string{}}
	for _, in := range s.inputs {
		r.Inputs[in.name] = strconv.FormatUint(x.eval(s, in.t), 10)
	}
	for _, u := range s.ufs {
		bs := make([]byte, len(u.args))
		for i, a := range u.args {
			bs[i] = byte(x.eval(s, a))
		}
		r.Hashes = append(r.Hashes, HashRec{u.seed, hex.EncodeToString(bs), strconv.FormatUint(x.eval(s, u.res), 10), *u.foreign})
	}
	for _, o := range s.obs {
		r.Obs = append(r.Obs, ObsRec{o.name, strconv.FormatUint(x.eval(s, o.t), 10)})
	}
	return r
}
