//go:build !race

package checks

const raceBuild = false
