//go:build verifalloc
