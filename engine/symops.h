// Operation and type codes shared by the instrumentation pass, the runtime and the driver.
#ifndef SYMOPS_H
#define SYMOPS_H
enum { SYT_F32 = 132, SYT_F64 = 164 };   // otherwise: integer bit width 1..64
enum {
	SYO_ADD = 1, SYO_SUB, SYO_MUL, SYO_UDIV, SYO_SDIV, SYO_UREM, SYO_SREM, SYO_SHL, SYO_LSHR, SYO_ASHR, SYO_AND, SYO_OR, SYO_XOR,
	SYO_FADD = 20, SYO_FSUB, SYO_FMUL, SYO_FDIV, SYO_FREM, SYO_FMIN, SYO_FMAX, SYO_POW, SYO_COPYSIGN,
	SYO_UMIN = 30, SYO_UMAX, SYO_SMIN, SYO_SMAX, SYO_USUBSAT,
	SYO_FNEG = 40, SYO_FABS, SYO_SQRT, SYO_FLOOR, SYO_CEIL, SYO_FTRUNC, SYO_ROUND, SYO_CTTZ, SYO_CTLZ, SYO_CTPOP, SYO_IABS,
	SYO_ZEXT = 60, SYO_SEXT, SYO_TRUNC, SYO_FPEXT, SYO_FPTRUNC, SYO_SITOFP, SYO_UITOFP, SYO_FPTOSI, SYO_FPTOUI, SYO_BITCAST,
	SYO_CONST = 80, SYO_VAR, SYO_ITE, SYO_CMP, SYO_EXTRACTB, SYO_CONCATB, SYO_UF, SYO_ROUNDTEXT, SYO_NOT,
	SYO_ANDB, SYO_ORB
};
#endif
