//go:build linux && cgo

// Command svbhost runs svbmon from a plugin: svbhost FILE ARGUMENTS...
package main

import (
	"fmt"
	"os"
	"plugin"
)

func main() {
	p, err := plugin.Open(os.Args[1])
	if err == nil {
		var s plugin.Symbol
		if s, err = p.Lookup("Run"); err == nil {
			os.Args = append(os.Args[:1], os.Args[2:]...)
			s.(func())()
			return
		}
	}
	fmt.Fprintln(os.Stderr, "svbhost:", err)
	os.Exit(4)
}
