#include "textflag.h"

// func vsG() uintptr: the address of the current goroutine's descriptor
TEXT ·vsG(SB),NOSPLIT,$0-8
	MOVQ (TLS), AX
	MOVQ AX, ret+0(FP)
	RET
