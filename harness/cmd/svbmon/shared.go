//go:build verifshared

package main

import "C"

import "os"

// SvbRun is called by shared.c, whose arguments os.Args holds.
//
//export SvbRun
func SvbRun() {
	os.Args = append(os.Args[:1], os.Args[2:]...)
	Run()
}
