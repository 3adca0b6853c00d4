//go:build !linux || mips || mips64

package rt

const lockThreads = false

func gettid() int            { return 0 }
func (r *Run) watch() func() { return func() {} }
