/* Contracts of the callees that nearly every function under proof relies on.
 * stub_f is the contract of f: it is substituted for calls to f (goto-instrument
 * --replace-calls) and is itself proved against f's body in the unit named beside it. */
#ifndef C_BASE_H
#define C_BASE_H
#include "nujel-private.h"
#include <math.h>

/* ---- symbols used as exception kinds: distinct objects -------------------------- */
#ifndef FW_NATIVE
static lSymbol fw_syms[24];
static void fw_init(void){
	lSymFloatNaN=&fw_syms[0]; lSymFloatInf=&fw_syms[1]; lSymTypeError=&fw_syms[2]; lSymOutOfBounds=&fw_syms[3];
	lSymIOError=&fw_syms[4]; lSymArityError=&fw_syms[5]; lSymDivisionByZero=&fw_syms[6]; lSymReadError=&fw_syms[7];
	lSymOOM=&fw_syms[8]; lSymUnmatchedOpeningBracket=&fw_syms[9]; lSymUnboundVariable=&fw_syms[10];
	lSymNotSupportedOnPlatform=&fw_syms[11]; lSymVMError=&fw_syms[12]; lSymPrototype=&fw_syms[13];
}
/* lPairAllocRaw: a fresh zeroed pair, nothing else visible (proved in allocator units) */
lPair *stub_lPairAllocRaw(){ lPair *p = __CPROVER_allocate(sizeof(lPair), 1); return p; }
lTree *stub_lTreeAllocRaw(){ return __CPROVER_allocate(sizeof(lTree), 1); }
lTreeRoot *stub_lTreeRootAllocRaw(){ return __CPROVER_allocate(sizeof(lTreeRoot), 1); }
lClosure *stub_lClosureAllocRaw(){ return __CPROVER_allocate(sizeof(lClosure), 1); }
lBuffer *stub_lBufferAllocRaw(){ return __CPROVER_allocate(sizeof(lBuffer), 1); }
lBufferView *stub_lBufferViewAllocRaw(){ return __CPROVER_allocate(sizeof(lBufferView), 1); }
lArray *stub_lArrayAllocRaw(){ return __CPROVER_allocate(sizeof(lArray), 1); }
lBytecodeArray *stub_lBytecodeArrayAllocRaw(){ return __CPROVER_allocate(sizeof(lBytecodeArray), 1); }
/* lValString: a fresh string value; its text is irrelevant to the callers under proof */
lVal stub_lValString(const char *s){ (void)s; lBuffer *b = __CPROVER_allocate(sizeof(lBuffer), 1); return lValAlloc(ltString, b); }
/* the formatted-message exceptions: kind as documented, message text irrelevant (proved in c22_exc) */
lVal stub_lValExceptionType(lVal v, lType T){ (void)T; return lValException(lSymTypeError, "", v); }
lVal stub_lValExceptionArity(lVal v, int n){ (void)n; return lValException(lSymArityError, "", v); }
/* libm: uninterpreted, the same arguments give the same result */
#define FW_UN1(f) double __CPROVER_uninterpreted_##f(double); double f(double x){ return __CPROVER_uninterpreted_##f(x); }
#define FW_UN2(f) double __CPROVER_uninterpreted_##f(double,double); double f(double x,double y){ return __CPROVER_uninterpreted_##f(x,y); }
FW_UN1(sqrt) FW_UN1(cbrt) FW_UN1(sin) FW_UN1(cos) FW_UN1(tan) FW_UN2(pow) FW_UN2(fmod) FW_UN2(atan2)
#else
#define FW_NTYPES X(lArray) X(lClosure) X(lTree) X(lTreeRoot) X(lBytecodeArray) X(lBuffer) X(lBufferView) X(lPair)
#define X(T) static uint fw_mark_##T;
FW_NTYPES
#undef X
static bool fw_marked;
void fw_native_init(void){ lInit(); fw_marked = true;
	#define X(T) fw_mark_##T = T##Max;
	FW_NTYPES
	#undef X
}
/* every native run starts from the heap left by lInit */
static void fw_init(void){
	#define X(T) if(fw_marked){ T##Max = fw_mark_##T; T##FFree = NULL; T##Active = fw_mark_##T; }
	FW_NTYPES
	#undef X
	lGCShouldRunSoon = false;
}
#endif

static inline bool fin(double d){ return !isnan(d) && !isinf(d); }
static inline bool isI(lVal a){ return a.type == ltInt; }
static inline bool isF(lVal a){ return a.type == ltFloat; }
static inline bool isNum(lVal a){ return isI(a) || isF(a); }
static inline double asD(lVal a){ return isI(a) ? (double)a.vInt : a.vFloat; }
static inline bool sameVal(lVal a, lVal b){ return a.type == b.type && (isF(a) ? a.vFloat == b.vFloat : a.type == ltBool ? a.vBool == b.vBool : a.type == ltNil ? true : a.vInt == b.vInt); }

/* The type invariant of a value as far as these units need it: floats are finite. */
static inline lVal fw_int(const char *n){ lVal v = {0}; v.type = ltInt; v.vInt = fw_i64(n); return v; }
static inline lVal fw_float(const char *n){ lVal v = {0}; v.type = ltFloat; v.vFloat = fw_f64(n); ASSUME(fin(v.vFloat)); return v; }
/* a value that is neither a number nor nil */
static inline lVal fw_other(const char *n){ lVal v = {0}; v.vInt = 0;
	uint64_t t = fw_range(n, 0, ltFileHandle > ltType ? ltFileHandle : ltType); ASSUME(t == ltBool || t == ltSymbol || t == ltKeyword || t == ltPair || t == ltArray || t == ltTree || t == ltLambda || t == ltString || t == ltBuffer || t == ltNativeFunc || t == ltType || t == ltEnvironment || t == ltMacro || t == ltBufferView || t == ltBytecodeArr || t == ltFileHandle);
	v.type = t; return v; }
#define K_INT 0
#define K_FLOAT 1
#define K_OTHER 2
#define K_NIL 3
static inline lVal fw_kind(int k, const char *n){ lVal nil = {0}; return k == K_INT ? fw_int(n) : k == K_FLOAT ? fw_float(n) : k == K_OTHER ? fw_other(n) : nil; }

static inline const lSymbol *excKind(lVal e){ return (e.vList && e.vList->car.type == ltKeyword) ? e.vList->car.vSymbol : NULL; }
#endif
