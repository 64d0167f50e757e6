//@ prop: C13
//@ main: lib/vm.c
//@ cases: OP=1|2|3|4|5|6
//@ stub: lPairAllocRaw lValString lGarbageCollect lValExceptionType lValExceptionArity lTreeInsert lGetClosureSym lSetClosureSym
//@ unwind: 11
//@ cbmc: --max-field-sensitivity-array-size 600
//@ timeout: 250
//@ inv: lib/vm.c lBytecodeEval lClosure*cc=c#0 @assigns cc t sp ctx @havoc cc = z_anyscope(); @inv Z_SCOPE_INV(cc) @body Z_SCOPE_NEXT;
//@ inv: lib/vm.c lBytecodeEval while(t)#0 @assigns t sp ctx @havoc t = z_any(); @inv Z_TREE_INV(t) && z_csame() @body Z_TREE_NEXT;
//@ inv: lib/vm.c lBytecodeEval lClosure*cc=c#1 @assigns cc t t->value ctx @havoc cc = z_anyscope(); @inv Z_SCOPE_INV(cc) @body Z_SCOPE_NEXT;
//@ inv: lib/vm.c lBytecodeEval while(t)#1 @assigns t t->value ctx @havoc t = z_any(); @inv Z_TREE_INV(t) && z_csame() @body Z_TREE_NEXT;
//@ fallback: at most 3 scopes with at most 3 variables each
//@ assume: the assigning instructions find the literal at any index as they do at 77 (8-bit) and 300 (16-bit)
//@ funcs: lBytecodeEval
//@ assume: a bytecode array's literals at the places of variable names are symbols
/* The variable instructions: the name is the literal at an 8-bit or 16-bit index. */
#include "nujel-private.h"
#include "lazy.h"
#ifndef FW_NATIVE
static lTree ins_r; static lTree *ins_t; static const lSymbol *ins_s; static lVal ins_v; static int ins_n;
lTree *stub_lTreeInsert(lTree *t, const lSymbol *s, lVal v){ ins_t = t; ins_s = s; ins_v = v; ins_n++; return &ins_r; }
static lClosure *get_c; static const lSymbol *get_s; static lVal get_r; static int get_n;
lVal stub_lGetClosureSym(lClosure *c, const lSymbol *s){ get_c = c; get_s = s; get_n++; return get_r; }
static lClosure *set_c; static const lSymbol *set_s; static lVal set_v; static int set_n;
bool stub_lSetClosureSym(lClosure *c, const lSymbol *s, lVal v){ set_c = c; set_s = s; set_v = v; set_n++; return z_has; }
#endif
#include FW_MAIN
#include "vm.h"
#define EXT (OP == 2 || OP == 4 || OP == 6)
void harness(void){
	fw_init();
#ifdef FW_NATIVE
	z_s = &lSymbolList[fw_range("s", 0, 30)];
#else
	z_s = z_sym("s");
#endif
#ifdef FW_LOOPS
	z_has = fw_u64("has") & 1; z_val = any_val("vt", "v"); ASSUME(z_val.type != ltException);
#endif
	lClosure *c = z_start();
#ifdef FW_LOOPS
	c = FW_ALLOC(sizeof(lClosure)); memset(c, 0, sizeof *c); c->type = closureCall; c->parent = &z_outer; c->data = (fw_u64("d") & 1) ? &z_root : NULL; z_c = c;
#endif
	lTree *od = c->data; lClosure *op = c->parent;
	/* the instruction's literals: only the two it may use exist */
#ifdef FW_NATIVE
	uint i = EXT ? fw_range("i", 0, 65534) : fw_range("i", 0, 254);
#else
	uint i = OP == 3 ? 77 : OP == 4 ? 300 : EXT ? fw_range("i", 0, 65534) : fw_range("i", 0, 254);
#endif
	uint j = i + 1;
#ifdef FW_NATIVE
	lVal *lits = FW_ALLOC(sizeof(lVal) * 65536);
#else
	lVal *lits = (lVal *)FW_ALLOC(sizeof(lVal) * 2) - i;
#endif
	lVal nv = any_val("nt", "n"); ASSUME(nv.type != ltException);
	lits[i] = lValSymS(z_s); int nops = 0; lits[j] = nv;
	lBytecodeOp *ops = FW_ALLOC(8);
	if(OP >= 3){ ops[nops++] = EXT ? lopPushValExt : lopPushVal; if(EXT) ops[nops++] = j >> 8; ops[nops++] = j & 255; }
	ops[nops++] = OP == 1 ? lopGetVal : OP == 2 ? lopGetValExt : OP == 3 ? lopSetVal : OP == 4 ? lopSetValExt : OP == 5 ? lopDefVal : lopDefValExt;
	if(EXT) ops[nops++] = i >> 8; ops[nops++] = i & 255; ops[nops++] = lopRet;
	lVal bound = z_val; bool has = z_has;
#ifndef FW_NATIVE
	get_r = has ? bound : lValException(lSymUnboundVariable, "", lValSymS(z_s));
#endif
	lVal r = vm_run_in(c, ops, nops, lits, 65536);
	if(OP <= 2){
		if(has) CHECK("the variable instruction yields the innermost binding", raw_same(r, bound));
		else CHECK("an unbound variable raises :unbound-variable", r.type == ltException && excKind(r) == lSymUnboundVariable);
#ifdef FW_LOOPS
		CHECK("looking up a variable changes nothing", z_same() && z_csame());
#endif
#ifndef FW_NATIVE
		if(OP == 2) CHECK("the variable is looked up from the scope at hand", get_n == 1 && get_c == c && get_s == z_s);
#endif
	} else if(OP <= 4){
		if(has) CHECK("set! yields the value", raw_same(r, nv)); else CHECK("assigning an unbound variable raises :unbound-variable", r.type == ltException && excKind(r) == lSymUnboundVariable);
#ifndef FW_NATIVE
		if(OP == 4) CHECK("the variable is assigned from the scope at hand", set_n == 1 && set_c == c && set_s == z_s && raw_same(set_v, nv));
#endif
#ifdef FW_LOOPS
		if(OP == 3 && has){ CHECK("the innermost binding gets the value", z_last && z_last->key == z_s && raw_same(z_last->value, nv));
			CHECK("its place in the scope stays", z_last->left == z_copy.left && z_last->right == z_copy.right && z_copy.key == z_s); 
#if OP == 3
		REACH("assigned");
#endif
		}
#else
#ifdef FW_NATIVE
		if(has) CHECK("the innermost binding gets the value", raw_same(z_bind->value, nv));
		CHECK("nothing else is assigned", z_same_but(z_bind));
#else
		if(OP == 3){ if(has) CHECK("the innermost binding gets the value", raw_same(z_bind->value, nv)); CHECK("nothing else is assigned", z_same_but(z_bind)); }
#endif
#endif
	} else {
		CHECK("def yields the value", raw_same(r, nv));
#ifdef FW_NATIVE
		CHECK("the variable is bound in the scope at hand", raw_same(lTreeRef(c->data, z_s), nv));
#else
		CHECK("the variable is bound in the scope at hand", ins_n == 1 && ins_t == od && ins_s == z_s && raw_same(ins_v, nv) && c->data == &ins_r);
#endif
	}
	if(OP <= 4) CHECK("the scope keeps its variables and its parent", c->data == od);
	CHECK("the scope stays inside its parent", c->parent == op);
	REACH("end");
}
