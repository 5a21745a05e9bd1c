//go:build !native

package main

func nativeMain() { panic("build with -tags native and the hash/maphash stand-in") }
