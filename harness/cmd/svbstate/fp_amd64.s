#include "textflag.h"

// func mxcsr() uint32
TEXT ·mxcsr(SB), NOSPLIT, $0-4
	STMXCSR ret+0(FP)
	RET
