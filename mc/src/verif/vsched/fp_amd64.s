#include "textflag.h"

// func framePCs(pcs *[6]uintptr)
TEXT ·framePCs(SB), NOSPLIT|NOFRAME, $0-8
	MOVQ pcs+0(FP), DI
	MOVQ BP, AX
	MOVQ $6, CX
loop:
	TESTQ AX, AX
	JZ done
	MOVQ 8(AX), DX
	MOVQ DX, (DI)
	ADDQ $8, DI
	MOVQ (AX), AX
	DECQ CX
	JNZ loop
done:
	RET
