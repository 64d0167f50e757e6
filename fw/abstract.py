"""Uninterpreted-function abstraction of expensive machine arithmetic, done mechanically on the
preprocessed translation unit (real code + contract) on every run:
   64-bit  a*b  a/b  a%b  and double  a+b a-b a*b a/b   with two non-constant operands
become calls of uninterpreted functions (same arguments -> same result; * and double + are commutative; nothing else known).
An obligation proved under every interpretation of these functions holds for the real ones.
A failure under the abstraction is never reported: it is re-decided on the exact program.
"""
import json, subprocess, sys, re
INT = {'long': 's', 'long long': 's', 'unsigned long': 'u', 'unsigned long long': 'u'}
PRE = '''
typedef unsigned long fw_abs_u64; typedef long fw_abs_i64;
fw_abs_u64 __CPROVER_uninterpreted_fwmul(fw_abs_u64, fw_abs_u64);
fw_abs_u64 __CPROVER_uninterpreted_fwudiv(fw_abs_u64, fw_abs_u64);
fw_abs_u64 __CPROVER_uninterpreted_fwurem(fw_abs_u64, fw_abs_u64);
fw_abs_i64 __CPROVER_uninterpreted_fwsdiv(fw_abs_i64, fw_abs_i64);
fw_abs_i64 __CPROVER_uninterpreted_fwsrem(fw_abs_i64, fw_abs_i64);
double __CPROVER_uninterpreted_fwfadd(double, double);
double __CPROVER_uninterpreted_fwfsub(double, double);
double __CPROVER_uninterpreted_fwfmul(double, double);
double __CPROVER_uninterpreted_fwfdiv(double, double);
static inline fw_abs_u64 fw_abs_mulc(fw_abs_u64 a, fw_abs_u64 b){ return a < b ? __CPROVER_uninterpreted_fwmul(a, b) : __CPROVER_uninterpreted_fwmul(b, a); }
static inline int fw_abs_lt(double a, double b){ union { double d; fw_abs_u64 u; } x, y; x.d = a; y.d = b; return x.u < y.u; }
static inline double fw_abs_faddc(double a, double b){ return fw_abs_lt(a, b) ? __CPROVER_uninterpreted_fwfadd(a, b) : __CPROVER_uninterpreted_fwfadd(b, a); }
static inline double fw_abs_fmulc(double a, double b){ return fw_abs_lt(a, b) ? __CPROVER_uninterpreted_fwfmul(a, b) : __CPROVER_uninterpreted_fwfmul(b, a); }
'''
CLANGPRE = '''
#define __CPROVER_assume(c) ((void)(c))
void *__CPROVER_allocate(unsigned long, int);
void __CPROVER_input(const char *, ...);
void __CPROVER_assert(int, const char *);
'''
def const(n):
    k = n.get('kind')
    if k in ('IntegerLiteral', 'UnaryExprOrTypeTraitExpr', 'CharacterLiteral', 'FloatingLiteral'): return True
    if k in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr', 'UnaryOperator', 'ConstantExpr', 'BinaryOperator'):
        return bool(n.get('inner')) and all(const(x) for x in n['inner'])
    if k == 'DeclRefExpr' and n.get('referencedDecl', {}).get('kind') == 'EnumConstantDecl': return True
    return False

def pure(n):
    if n.get('kind') in ('CallExpr', 'CompoundAssignOperator', 'StmtExpr'): return False
    if n.get('kind') == 'UnaryOperator' and n.get('opcode') in ('++', '--'): return False
    if n.get('kind') == 'BinaryOperator' and n.get('opcode') == '=': return False
    return all(pure(x) for x in n.get('inner', []) if x)

def rng(n, src):
    r = n['range']; b, e = r['begin'], r['end']
    if 'offset' not in b or 'offset' not in e: return None
    return b['offset'], e['offset'] + e['tokLen']

def nm(x): return x if x.startswith('fw_abs') else '__CPROVER_uninterpreted_' + x

def fn_for(op, t):
    if t in INT:
        s = INT[t]
        return {'*': ('fw_abs_mulc', 'fw_abs_u64'), '/': ('fwsdiv', 'fw_abs_i64') if s == 's' else ('fwudiv', 'fw_abs_u64'),
                '%': ('fwsrem', 'fw_abs_i64') if s == 's' else ('fwurem', 'fw_abs_u64')}.get(op)
    if t == 'double':
        return {'+': ('fw_abs_faddc', 'double'), '-': ('fwfsub', 'double'), '*': ('fw_abs_fmulc', 'double'), '/': ('fwfdiv', 'double')}.get(op)

def abstract(i_path, out_path):
    """preprocessed file -> rewritten file; returns number of rewritten operations"""
    pre = out_path + '.pre.h'; open(pre, 'w').write(CLANGPRE)
    p = subprocess.run(['clang', '-std=gnu99', '-w', '-Wno-error', '-Wno-implicit-function-declaration', '-Wno-int-conversion', '-fsyntax-only', '-x', 'c', '-include', pre,
                        '-Xclang', '-ast-dump=json', i_path], capture_output=True)
    ast = json.loads(p.stdout)
    src = open(i_path, 'rb').read()
    ins = []  # (pos, order, text, delete)
    cnt = 0
    stack = [(ast, 0)]
    while stack:
        n, d = stack.pop()
        if not isinstance(n, dict): continue
        for c in n.get('inner', []): stack.append((c, d + 1))
        k = n.get('kind')
        if k not in ('BinaryOperator', 'CompoundAssignOperator'): continue
        op = n['opcode']
        if k == 'CompoundAssignOperator':
            if len(op) != 2: continue
            t = n.get('computeResultType', n['type']); lt = n['type']
            t = t.get('desugaredQualType', t['qualType']); lt = lt.get('desugaredQualType', lt['qualType'])
            if t != lt: continue
            f = fn_for(op[0], t)
        else:
            t = n['type']; t = t.get('desugaredQualType', t['qualType'])
            f = fn_for(op, t)
        if not f: continue
        a, b = n['inner']
        if const(a) or const(b): continue
        ra, rb = rng(a, src), rng(b, src)
        if not ra or not rb: continue
        mid = src[ra[1]:rb[0]].decode()
        if mid.strip() not in (op,): 
            mid2 = re.sub(r'\n#[^\n]*\n', '\n', mid)
            if mid2.strip() != op: continue
        cnt += 1
        ty = lt if k == 'CompoundAssignOperator' else t
        if k == 'CompoundAssignOperator':
            if not pure(a): cnt -= 1; continue
            lhs = src[ra[0]:ra[1]].decode()
            ins.append((ra[1], rb[0], 0, f' = ({ty}){nm(f[0])}(({f[1]})({lhs}), ({f[1]})('))
            ins.append((rb[1], rb[1], -d, '))'))
        else:
            ins.append((ra[0], ra[0], d, f'(({ty}){nm(f[0])}(({f[1]})('))
            ins.append((ra[1], rb[0], 0, f'), ({f[1]})('))
            ins.append((rb[1], rb[1], -d, ')))'))
    # at equal positions: closings (innermost first), then openings (outermost first)
    def key(x): return (x[0], 0 if x[3].startswith(')') and x[0] == x[1] else 1, x[2])
    ins.sort(key=key)
    out, pos = [PRE.replace('\n', ' ').encode() + b'\n#line 1\n'], 0
    for s, e, _, t in ins:
        out.append(src[pos:s]); out.append(t.encode()); pos = max(e, pos)
    out.append(src[pos:])
    open(out_path, 'wb').write(b''.join(out))
    return cnt
if __name__ == '__main__': print(abstract(sys.argv[1], sys.argv[2]))
