package main

var entries = map[string]func(){
	"Free":        Free,
	"Wide":        Wide,
	"ModIn":       ModIn,
	"ModPure":     ModPure,
	"Pointers":    Pointers,
	"History":     History,
	"HistoryWide": HistoryWide,
	"Readers":     Readers,
	"Indep":       Indep,
	"Fresh":       Fresh,
	"Alias":       Alias,
	"Zero":        Zero,
	"Hashing":     Hashing,
	"HashUse":     HashUse,
	"Hold":        Hold,
	"RawKeys":     RawKeys,
	"Values":      Values,
	"Safe":        Safe,
	"Modified":    Modified,
	"InAll":       InAll,
}
