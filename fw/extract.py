"""Mechanical source preparation, redone from /repo's working tree on every run.

What it changes / drops (nothing else):
 * GNU computed goto through a constant label table,  `goto *T[e];`  becomes
   `{ idx = (e); goto disp; }` with ONE dispatch point  `disp: switch(idx){case i: goto T[i]; ...}`
   generated from the initialiser of T in order.  CBMC mishandles computed gotos whose operand
   has side effects; the rewrite is the definition of the construct and reads the real table.
   An index outside the table is an explicit obligation.
 * units with loop contracts get a copy of their file with the clauses (//@ loop: in the unit) behind the
   loop header: add_loop_contracts.  A loop invariant is an annotation, it does not change what the code does.
 * units with //@ rec: F G get a copy in which the body of F calls the contract of G (stub_G) instead of G itself;
   with G = F that is the induction hypothesis of a recursive function: contract_calls.
 * units with //@ inv: get a copy in which the loop is cut at its head in the usual way: the head first checks the
   invariant, gives every variable the loop assigns an arbitrary value and assumes the invariant; reached again, it
   checks the invariant (and the measure) and stops.  The condition and the body stay as they are: add_invariants.
   Refused (and the bounded form used) when the loop assigns something that the annotation does not list.
 * nothing else: every function body is the text in /repo.
"""
import re, os, sys

TABLE = re.compile(r'static\s+(?:const\s+)?void\s*\*\s*(?:const\s+)?(\w+)\s*\[\s*\]\s*=\s*\{((?:\s*&&\s*\w+\s*,?|/\*.*?\*/|//[^\n]*\n|\s)*)\}\s*;', re.S)

def computed_goto(src):
    out, n = src, 0
    for m in list(TABLE.finditer(src)):
        name = m.group(1)
        labs = re.findall(r'&&\s*(\w+)', m.group(2))
        if not labs:
            continue
        n += 1
        idx, dsp = f'fw_idx{n}', f'fw_disp{n}'
        disp = (f'unsigned {idx} = 0; if(0){{ {dsp}: switch({idx}){{' +
                ''.join(f' case {i}: goto {l};' for i, l in enumerate(labs)) +
                ' default: CHECK("opcode is inside the dispatch table", 0); ASSUME(0); } }')
        disp += '\n' * m.group(0).count('\n')
        out = out.replace(m.group(0), disp)
        out = re.sub(r'goto\s*\*\s*' + name + r'\s*\[((?:[^\[\]]|\[[^\]]*\])*)\]\s*;',
                     lambda k: '{ %s = (%s); goto %s; }' % (idx, k.group(1), dsp), out)
    return out

def prepare(src_path, dst_path):
    s = open(src_path, encoding='utf-8', errors='replace').read()
    t = computed_goto(s)
    if t != s:
        t = '#include "fw.h"\n#line 1\n' + t
    os.makedirs(os.path.dirname(dst_path), exist_ok=True)
    open(dst_path, 'w', encoding='utf-8').write(t)
    return t != s

def blank(s):
    """comments, strings and character literals replaced by blanks of the same length"""
    return re.sub(r'/\*.*?\*/|//[^\n]*|"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'', lambda m: re.sub(r'[^\n]', ' ', m.group(0)), s, flags=re.S)

def match(s, i):
    """index after the bracket that closes s[i]"""
    o = s[i]; c = {'(': ')', '{': '}', '[': ']'}[o]; d = 0
    while i < len(s):
        d += s[i] == o; d -= s[i] == c; i += 1
        if d == 0: return i
    raise ValueError('unbalanced')

def add_loop_contracts(src, loops):
    """loops: (function, ordinal, clauses).  The clauses go behind the header of the loop, nothing else changes.
    Raises LookupError when there is no such function or loop (then the unit falls back to its bounded form)."""
    b = blank(src); ins = []
    for fn, n, text in loops:
        body = None
        for m in re.finditer(r'\b' + re.escape(fn) + r'\s*\(', b):
            e = match(b, m.end() - 1); k = re.match(r'\s*\{', b[e:])
            if k: body = (e + k.end() - 1, match(b, e + k.end() - 1))
        if not body: raise LookupError('no function ' + fn)
        heads = [m for m in re.finditer(r'\b(for|while)\s*\(|\b(do)\s*\{', b) if body[0] <= m.start() < body[1]]
        # the while of a do-while ends a loop instead of starting one
        heads = [m for m in heads if not (m.group(1) == 'while' and re.match(r'\s*;', b[match(b, m.end() - 1):]) and b[:m.start()].rstrip().endswith('}'))]
        if isinstance(n, str):   # TEXT#k: the k-th loop whose head contains TEXT
            tx, _, n = n.rpartition('#'); n = int(n)
            heads = [m for m in heads if m.group(2) != 'do' and tx in re.sub(r'\s+', '', b[m.start():match(b, m.end() - 1)])]
        if n >= len(heads): raise LookupError(f'{fn} has no loop {n}')
        ins.append((match(b, heads[n].end() - 1), ' ' + text + ' '))
    for at, text in sorted(ins, reverse=True): src = src[:at] + text + src[at:]
    return src

def contract_calls(src, recs):
    """recs: (function, callee): in the body of function, calls of callee become calls of its contract stub_callee"""
    for fn, callee in recs:
        b = blank(src); body = None
        for m in re.finditer(r'\b' + re.escape(fn) + r'\s*\(', b):
            e = match(b, m.end() - 1); k = re.match(r'\s*\{', b[e:])
            if k: body = (e + k.end() - 1, match(b, e + k.end() - 1), m.start())
        if not body: raise LookupError('no function ' + fn)
        at = [m.start() for m in re.finditer(r'\b' + re.escape(callee) + r'\s*\(', b) if body[0] <= m.start() < body[1]]
        if not at: raise LookupError(f'{fn} does not call {callee}')
        for a in reversed(at): src = src[:a] + 'stub_' + src[a:]
    return src

ASSIGN = re.compile(r'(?:(?:\+\+|--)\s*\(?\s*([A-Za-z_]\w*))|(?:([A-Za-z_]\w*)((?:\s*(?:->|\.)\s*\w+|\s*\[(?:[^\[\]]|\[[^\]]*\])*\])*)\s*\)?\s*(?:\+\+|--|(?:[-+*/%&|^]|<<|>>)?=(?!=)))')
DECL = re.compile(r'(?:^|[;{}(])\s*(?:const\s+|static\s+|unsigned\s+|signed\s+)*[A-Za-z_]\w*\s+\**\s*(?:const\s+)?([A-Za-z_]\w*)\s*(?=[=;,\[])')
KEYW = {'return', 'else', 'case', 'goto', 'sizeof'}

def assigned(text):
    """(names written by the statement text, names declared in it)"""
    w, decl = set(), set()
    for m in DECL.finditer(text):
        h = re.match(r'[;{}(]?\s*(\w+)', m.group(0)).group(1)
        if h not in KEYW: decl.add(m.group(1))
    for m in ASSIGN.finditer(text): w.add(m.group(1) or m.group(2))
    return w, decl

def add_invariants(src, invs):
    """invs: (function, ordinal, clauses dict: assigns havoc inv dec body)"""
    b = blank(src); ins = []
    for num, (fn, n, cl) in enumerate(invs):
        body = None
        for m in re.finditer(r'\b' + re.escape(fn) + r'\s*\(', b):
            e = match(b, m.end() - 1); k = re.match(r'\s*\{', b[e:])
            if k: body = (e + k.end() - 1, match(b, e + k.end() - 1))
        if not body: raise LookupError('no function ' + fn)
        heads = [m for m in re.finditer(r'\b(for|while)\s*\(|\b(do)\s*\{', b) if body[0] <= m.start() < body[1]]
        heads = [m for m in heads if not (m.group(1) == 'while' and re.match(r'\s*;', b[match(b, m.end() - 1):]) and b[:m.start()].rstrip().endswith('}'))]
        if isinstance(n, str):   # TEXT#k: the k-th loop whose head contains TEXT
            tx, _, n = n.rpartition('#'); n = int(n)
            heads = [m for m in heads if m.group(2) != 'do' and tx in re.sub(r'\s+', '', b[m.start():match(b, m.end() - 1)])]
        if n >= len(heads): raise LookupError(f'{fn} has no loop {n}')
        h = heads[n]; isdo = h.group(2) == 'do'
        if isdo:
            bs = h.end() - 1; de = match(b, bs); k = re.match(r'\s*while\s*\(', b[de:])
            if not k: raise LookupError(f'{fn}: loop {n} has no condition')
            o = de + k.end() - 1; c = match(b, o); be = b.index(';', c) + 1
        else:
            o = h.end() - 1; c = match(b, o); k = re.match(r'\s*', b[c:]); bs = c + k.end()
            be = match(b, bs) if b[bs] == '{' else b.index(';', bs) + 1
        if b[bs] != '{' and re.match(r'(if|for|while|switch|do)\b', b[bs:]): raise LookupError(f'{fn}: loop {n} has no simple body')
        w, decl = assigned(b[o:c] + b[bs:be] if not isdo else b[bs:be])
        lst = cl.get('assigns', '').split()
        extra = w - set(lst) - decl
        if extra: raise LookupError(f'{fn}: loop {n} assigns {sorted(extra)}')
        hav = cl.get('havoc') or ' '.join(f'{{ __typeof__({x}) fw_h; {x} = fw_h; }}' for x in lst)
        dec = cl.get('dec'); it = f'fw_it{num}'; tag = f'{fn} loop {n}'
        head = (f'({{ if({it} == 0){{ CHECK("invariant of {tag} holds at the start", ({cl["inv"]})); {hav} ASSUME({cl["inv"]}); {it} = 1; ' + (f'{it}d = ({dec}); ' if dec else '') +
                f'}} else {{ CHECK("invariant of {tag} is preserved", ({cl["inv"]})); ' + (f'CHECK("{tag} makes progress", {it}d >= 0 && ({dec}) < {it}d); ' if dec else '') + 'ASSUME(0); } 1; })')
        pre = f'{{ int {it} = 0; long {it}d = 0; (void){it}d; '
        if isdo:
            ins += [(h.start(), pre), (bs + 1, ' (void)' + head + '; ' + cl.get('body', ''))]
        elif h.group(1) == 'while':
            ins += [(h.start(), pre), (o + 1, head + ' && ('), (c - 1, ')')]
        else:
            d, semi = 0, []
            for i in range(o, c):
                d += b[i] in '([{'; d -= b[i] in ')]}'
                if b[i] == ';' and d == 1: semi.append(i)
            empty = not b[semi[0] + 1:semi[1]].strip()
            # the declaration of a for statement stays inside it, so the head sees its variables
            ins += [(h.start(), pre), (semi[0] + 1, ' ' + head + ('' if empty else ' && (')), (semi[1], '' if empty else ')')]
        if cl.get('body') and not isdo: ins.append((bs + 1, ' ' + cl['body'] + ' ') if b[bs] == '{' else (bs, ''))
        ins.append((be, ' }'))
    for at, text in sorted(ins, key=lambda x: -x[0]): src = src[:at] + text + src[at:]
    return src

def infinite(src, specs):
    """specs: (array, size macro): the table's declaration loses its size (the solver treats it as a function from index to
    element, with arbitrary initial contents) and every subscript of it becomes an obligation: 0 <= index < size"""
    for name, size in specs:
        src, n = re.subn(r'^(\w[\w\s]*?)\b' + name + r'\s*\[\s*' + size + r'\s*\]\s*;', r'extern \1' + name + '[__CPROVER_constant_infinity_uint];', src, flags=re.M)
        if n != 1: raise LookupError(f'{n} declarations of {name}[{size}]')
        b = blank(src); ins = []
        for m in re.finditer(r'\b' + name + r'\s*\[', b):
            e = match(b, m.end() - 1)
            if '__CPROVER' in src[m.end():e] or re.search(r'sizeof\s*\(?\s*$', b[:m.start()]): continue
            ins += [(m.end(), 'fw_ix("' + name + '", '), (e - 1, f', {size})')]
        for at, t in sorted(ins, key=lambda x: -x[0]): src = src[:at] + t + src[at:]
    return src

def split_args(s, i):
    """s[i] == '(' ; returns (list of top level args, index after ')')"""
    depth, args, cur, k, q = 0, [], '', i, None
    while k < len(s):
        ch = s[k]
        if q:
            cur += ch
            if ch == '\\':
                k += 1; cur += s[k]
            elif ch == q:
                q = None
        elif ch in '"\'':
            q = ch; cur += ch
        elif ch in '([{':
            depth += 1
            if depth > 1: cur += ch
        elif ch in ')]}':
            depth -= 1
            if depth == 0:
                args.append(cur.strip()); return args, k + 1
            cur += ch
        elif ch == ',' and depth == 1:
            args.append(cur.strip()); cur = ''
        else:
            cur += ch
        k += 1
    return args, k

def natives(repo):
    """Map Nujel-level names to the C functions registered for them, from the sources."""
    res = {}
    for d in ('lib', 'bin'):
        p = os.path.join(repo, d)
        for f in sorted(os.listdir(p)):
            if not f.endswith('.c'): continue
            s = open(os.path.join(p, f), errors='replace').read()
            var = {m.group(1): m.group(2) for m in re.finditer(r'lClass\s*\*\s*(\w+)\s*=\s*&\s*lClassList\[(\w+)\]', s)}
            for m in re.finditer(r'\blAddNative(\w*)\s*\(', s):
                if s[:m.start()].rstrip().endswith('lVal'):  # a declaration
                    continue
                a, _ = split_args(s, m.end() - 1)
                kind = m.group(1)
                try:
                    if kind.startswith('Func'):
                        nm = re.match(r'"((?:[^"\\]|\\.)*)"', a[0])
                        if nm and re.match(r'^\w+$', a[3]): res.setdefault(nm.group(1), (a[3], f'{d}/{f}'))
                    else:
                        T = a[0]; t = re.search(r'lClassList\[(\w+)\]', T)
                        T = t.group(1) if t else var.get(T, T)
                        nm = re.search(r'"((?:[^"\\]|\\.)*)"', a[1])
                        nm = nm.group(1) if nm else a[1]
                        pre = 'static ' if kind.startswith('Static') else ''
                        if re.match(r'^\w+$', a[3]): res.setdefault(f'{pre}{T}:{nm}', (a[3], f'{d}/{f}'))
                except IndexError:
                    pass
    return res

if __name__ == '__main__':
    for k, v in natives(sys.argv[1]).items(): print(k, *v)
