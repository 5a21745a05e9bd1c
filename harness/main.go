package main

func main() { nativeMain() }
