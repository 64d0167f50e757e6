/* An unbounded search tree / chain of scopes that comes into being as a loop visits it: every node the cursor reaches is
 * an arbitrary node of a search tree in which the symbol `z_s` is (z_in) or is not bound, every scope an arbitrary scope
 * of a chain whose innermost binding of `z_s` (if any: z_has) holds z_val. */
#ifndef C_LAZY_H
#define C_LAZY_H
#include "coll.h"
static const lSymbol *z_s; static bool z_has; static lVal z_val;
#ifdef FW_LOOPS
static lTree z_otherL, z_otherR, z_root;   /* "some subtree": only the addresses are used */
static lTree *z_last; static lTree z_copy; /* the node visited last, and what it looked like */
static bool z_in;                          /* the tree of the scope being searched contains z_s */
static lTree *z_t, *z_tn;                  /* where the cursor has to be now, and in the next round */
static lTree *z_node(void){
	lTree *t = __CPROVER_allocate(sizeof(lTree), 0); _Bool l, r; u32 k; ASSUME(k < SYM_MAX);
	t->left = l ? &z_otherL : NULL; t->right = r ? &z_otherR : NULL; t->key = &lSymbolList[k];
	z_tn = z_s < t->key ? t->left : t->right;
	if(t->key == z_s) ASSUME(z_in && raw_same(t->value, z_val));
	else ASSUME(IMPLIES(z_tn == NULL, !z_in));
	z_last = t; z_copy = *t; return t; }
/* any tree cursor a search may have reached */
static lTree *z_any(void){ _Bool b; z_last = NULL; if(b){ ASSUME(!z_in); z_tn = NULL; return z_t = NULL; } return z_t = z_node(); }
static bool z_same(void){ return z_last == NULL || (z_last->left == z_copy.left && z_last->right == z_copy.right && z_last->key == z_copy.key && raw_same(z_last->value, z_copy.value) && z_last->height == z_copy.height && z_last->flags == z_copy.flags); }
#define Z_TREE_INV(c) ((c) == z_t && ((c) != NULL || !z_in) && z_same())
#define Z_TREE_NEXT z_t = z_tn
/* scopes */
static lClosure z_outer;                   /* "the scope around": only its address is used */
static lClosure *z_c, *z_cn, *z_lastc; static lClosure z_ccopy;
static lClosure *z_scope(void){
	lClosure *c = __CPROVER_allocate(sizeof(lClosure), 0); _Bool p, d, in;
	c->parent = p ? &z_outer : NULL; c->data = d ? &z_root : NULL;
	z_in = in; ASSUME(IMPLIES(!d, !in) && IMPLIES(in, z_has) && IMPLIES(!in && !p, !z_has));
	z_cn = c->parent; z_t = c->data; z_last = NULL;
	z_lastc = c; z_ccopy = *c; return c; }
static lClosure *z_anyscope(void){ _Bool b; z_last = NULL; z_lastc = NULL; if(b){ ASSUME(!z_has); z_cn = NULL; return z_c = NULL; } return z_c = z_scope(); }
static bool z_csame(void){ return z_lastc == NULL || (z_lastc->parent == z_ccopy.parent && z_lastc->data == z_ccopy.data && z_lastc->type == z_ccopy.type); }
#define Z_SCOPE_INV(c) ((c) == z_c && ((c) != NULL || !z_has) && z_csame() && z_same())
#define Z_SCOPE_NEXT z_c = z_cn
/* the scope a search starts in */
static lClosure *z_start(void){ z_c = &z_outer; return z_c; }
#else
/* without loop contracts: up to 3 scopes with up to 3 variables each; z_bind is the innermost binding of z_s */
#ifdef FW_NATIVE
#define Z_SC 300   /* the random search takes deeper chains */
#define Z_ALL 0
#else
#define Z_SC 3
#define Z_ALL 1
#endif
static lTree *z_bind, *z_nodes[3 * Z_SC]; static lTree z_old[3 * Z_SC]; static lClosure *z_sc[Z_SC]; static lClosure z_oldc[Z_SC]; static int z_nsc;
static lClosure *z_start(void){
	int n = fw_range("scopes", 1, fw_range("deep", 0, 1) ? Z_SC : 3); z_nsc = Z_ALL ? Z_SC : n; lClosure *up = NULL; z_bind = NULL; z_has = false;
	for(int i = 0; i < z_nsc; i++){
		u64 shape = fw_range("shape", 0, 7); lTree *m = FW_ALLOC(sizeof(lTree)), *l = FW_ALLOC(sizeof(lTree)), *r = FW_ALLOC(sizeof(lTree));
		i64 km = fw_range("km", 1, 1000), kl = fw_range("kl", 0, km - 1), kr = fw_range("kr", km + 1, 1001);
		memset(m, 0, sizeof *m); memset(l, 0, sizeof *l); memset(r, 0, sizeof *r);
		m->key = &lSymbolList[km]; l->key = &lSymbolList[kl]; r->key = &lSymbolList[kr]; m->height = 2; l->height = r->height = 1;
		m->value = any_val("mt", "m"); l->value = any_val("lt", "l"); r->value = any_val("rt", "r");
		ASSUME(m->value.type != ltException && l->value.type != ltException && r->value.type != ltException);
		if(shape & 2) m->left = l; if(shape & 4) m->right = r;
		lClosure *c = FW_ALLOC(sizeof(lClosure)); memset(c, 0, sizeof *c); c->parent = up; c->data = (shape & 1) ? m : NULL; c->type = i ? closureLet : closureCall;
		z_nodes[3 * i] = m; z_nodes[3 * i + 1] = l; z_nodes[3 * i + 2] = r; z_sc[i] = c;
		if(i < n){ up = c; if(shape & 1){ lTree *b = m->key == z_s ? m : (shape & 2) && l->key == z_s ? l : (shape & 4) && r->key == z_s ? r : NULL; if(b){ z_bind = b; z_has = true; z_val = b->value; } } }
	}
	for(int i = 0; i < 3 * z_nsc; i++) z_old[i] = *z_nodes[i];
	for(int i = 0; i < z_nsc; i++) z_oldc[i] = *z_sc[i];
	return up; }
static bool z_csame(void){ bool r = true; for(int i = 0; i < z_nsc; i++) if(z_sc[i]->parent != z_oldc[i].parent || z_sc[i]->data != z_oldc[i].data || z_sc[i]->type != z_oldc[i].type) r = false; return r; }
static bool z_same_but(lTree *b){ bool r = true; for(int i = 0; i < 3 * z_nsc; i++) if(z_nodes[i]->left != z_old[i].left || z_nodes[i]->right != z_old[i].right || z_nodes[i]->key != z_old[i].key || (z_nodes[i] != b && !raw_same(z_nodes[i]->value, z_old[i].value))) r = false; return r; }
#endif
#ifdef FW_NATIVE
static const lSymbol *z_sym(const char *n){ return &lSymbolList[fw_range(n, 0, 1001)]; }
#else
static const lSymbol *z_sym(const char *n){ return &lSymbolList[fw_range(n, 0, SYM_MAX - 1)]; }
#endif
#endif
