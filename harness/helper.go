package main

import (
	"fmt"
	"os"
)

var helpers = map[string]func(arg string){}

func runHelper(name, arg string) {
	h := helpers[name]
	if h == nil {
		fmt.Fprintln(os.Stderr, "no such helper")
		os.Exit(9)
	}
	h(arg)
}
