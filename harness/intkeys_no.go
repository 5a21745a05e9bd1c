//go:build noint

package main

// For a tree in which amt.Int does not implement amt.Key[amt.Int] (C15 reports that; the
// jobs over these containers are left out).

func newMapInt() Cont  { panic("amt.Int is not usable as a generic key") }
func newSetInt() Cont  { panic("amt.Int is not usable as a generic key") }
func zeroMapInt() Cont { panic("amt.Int is not usable as a generic key") }
func zeroSetInt() Cont { panic("amt.Int is not usable as a generic key") }
