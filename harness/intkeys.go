//go:build !noint

package main

import amt "github.com/wdamron/amt"

// Generic containers over amt.Int.

func toAI(k Key) amt.Int   { return amt.Int(k.x) }
func fromAI(k amt.Int) Key { return Key{uint64(k), 8} }

func newMapInt() Cont {
	return genMap[amt.Int]{m: amt.NewMap[amt.Int, uint64](), to: toAI, from: fromAI}
}
func newSetInt() Cont { return genSet[amt.Int]{s: amt.NewSet[amt.Int](), to: toAI, from: fromAI} }

func zeroMapInt() Cont { return genMap[amt.Int]{to: toAI, from: fromAI} }
func zeroSetInt() Cont { return genSet[amt.Int]{to: toAI, from: fromAI} }
