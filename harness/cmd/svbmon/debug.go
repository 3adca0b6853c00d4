//go:build go1.24

// Without this, seeding the default random source would have no effect.
//
//go:debug randseednop=0
package main
