#!/usr/bin/env python3
"""Contract checker driver:  run.py <PROPERTY>  [--unit name] [--case substr] [-v]

For every unit of the property it (1) prepares the sources from /repo's working tree,
(2) compiles the unit together with the real code with goto-cc, (3) substitutes callee
contracts, (4) discharges all obligations with CBMC (SAT) and/or cvc5, (5) runs the
reachability (anti-vacuity) twin, (6) replays any counterexample natively on the real code.
Exit 0: held.  Exit 1: VIOLATION.  Exit 2: nothing could be decided (tool problem)."""
import sys, os, re, json, subprocess, time, shutil, itertools, threading, tempfile, signal
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import extract, abstract
REPO = os.environ.get('FW_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()
EVID = os.environ.get('FW_EVID', f'{VERIF}/evidence')
BUDGET = 820 if TIER == 'quick' else 3300
MEM = 7 * 1024**3
NPAR = int(os.environ.get('FW_JOBS', '8'))
verbose = '-v' in sys.argv
CFLAGS = ['-std=gnu99', '-D_GNU_SOURCE']
NUNITS = 1

class Unit: pass

def parse_unit(path):
    u = Unit(); u.path = path; u.name = os.path.splitext(os.path.basename(path))[0]
    u.d = {}; u.cases = []; u.nf = []
    for line in open(path):
        m = re.match(r'//@\s*([\w-]+)\s*:\s*(.*?)\s*$', line)
        if not m: continue
        k, v = m.groups()
        if k == 'cases':
            n, vs = v.split('=', 1); ns = [x.strip() for x in n.split(',')]
            u.cases.append([list(zip(ns, [y.strip() for y in x.split(',')])) for x in vs.split('|')])
        elif k == 'nf':
            mm = re.match(r'(\w+)\s+"(.*)"\s+(\w+)$', v); u.nf.append(mm.groups())
        else:
            u.d.setdefault(k, []).append(v)
    u.props = ' '.join(u.d.get('prop', [])).split()
    return u

def one(u, k, default=None):
    return u.d[k][-1] if k in u.d else default

def words(u, k):
    return ' '.join(u.d.get(k, [])).split()

def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    os.setsid()

procs = set(); plock = threading.Lock()
def sh(cmd, timeout, env=None, stop=None, cwd=None, limit_mem=True):
    """returns (rc|None on timeout, stdout, stderr)"""
    fo = tempfile.TemporaryFile(); fe = tempfile.TemporaryFile()
    p = subprocess.Popen(cmd, stdout=fo, stderr=fe, stdin=subprocess.DEVNULL, preexec_fn=limit if limit_mem else os.setsid, env=env, cwd=cwd)
    with plock: procs.add(p)
    end = time.time() + timeout; rc = None
    while True:
        try:
            rc = p.wait(0.02 if time.time() - (end - timeout) < 2 else 0.2); break
        except subprocess.TimeoutExpired:
            if time.time() > end or (stop is not None and stop.is_set()):
                try: os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError: pass
                p.wait(); rc = None; break
    with plock: procs.discard(p)
    fo.seek(0); fe.seek(0)
    return rc, fo.read().decode('utf-8', 'replace'), fe.read().decode('utf-8', 'replace')

def fail(msg):
    print('ERROR: ' + msg, flush=True)

class Ctx: pass

def build_shared(ctx):
    """compile every library source once with goto-cc, from the prepared copies"""
    b = ctx.build
    os.makedirs(b, exist_ok=True)
    src = {}
    for d in ('lib', 'bin'):
        os.makedirs(f'{b}/x/{d}', exist_ok=True)
        for f in sorted(os.listdir(f'{REPO}/{d}')):
            if f.endswith('.h'): shutil.copy(f'{REPO}/{d}/{f}', f'{b}/x/{d}/{f}')
            elif f.endswith('.c'):
                extract.prepare(f'{REPO}/{d}/{f}', f'{b}/x/{d}/{f}')
                src[f'{d}/{f}'] = f'{b}/x/{d}/{f}'
    # third-party sources used by the library (read in place)
    ctx.src = src
    if os.path.isdir(f'{REPO}/third-party'): shutil.copytree(f'{REPO}/third-party', f'{b}/x/third-party')
    ctx.inc = ['-I', HERE, '-I', f'{VERIF}/contracts', '-I', f'{b}/x/lib', '-I', f'{b}/x', '-I', REPO, '-include', f'{HERE}/fw.h']
    ctx.nat = extract.natives(REPO)
    ctx.gobj = {}
    ctx.lib = [k for k in src if k.startswith('lib/')]
    lock = threading.Lock()
    def comp(k):
        o = f'{b}/{k.replace("/", "_")}.gb'
        rc, out, err = sh(['goto-cc', *CFLAGS, *ctx.inc, '-c', src[k], '-o', o], 120)
        if rc == 0:
            with lock: ctx.gobj[k] = o
        else: fail(f'goto-cc {k}: {err[-400:]}')
    for tp in ('third-party/fasthash/fasthash.c', 'third-party/getopt/getopt.c'):
        pass
    for root, _, fs in os.walk(f'{REPO}/third-party'):
        for f in fs:
            if f.endswith('.c') and 'fasthash' in f:
                k = os.path.relpath(os.path.join(root, f), REPO); src[k] = os.path.join(root, f); ctx.lib.append(k)
    with ThreadPoolExecutor(NPAR) as ex: list(ex.map(comp, ctx.lib))

def symbols(gb):
    rc, out, err = sh(['goto-instrument', '--list-goto-functions', '--json-ui', gb], 60)
    names = set()
    try:
        for m in json.loads(out):
            for f in m.get('functions', []): names.add(f['name'])
    except Exception:
        names = set(re.findall(r'"name":\s*"([^"]+)"', out))
    return names

def compile_case(ctx, u, case, reach, tag, absn=False, both=False, loops=False):
    """-> path of instrumented goto binary or raises"""
    b = ctx.build
    defs = [f'-D{n}={v}' for n, v in case]
    for macro, nm, dflt in u.nf:
        fn = ctx.nat.get(nm, (dflt, None))[0]
        defs.append(f'-D{macro}={fn}')
    mains = words(u, 'main')
    for i, m in enumerate(mains):
        mm = m; path = ctx.src[mm]
        inf = [x.split() for x in u.d.get('infinite', [])]
        inf = [(n, k) for fl, n, k in inf if fl == mm]
        if inf:
            txt = extract.infinite(open(path).read(), inf)
            path = re.sub(r'\.c$', f'.{u.name}.{tag}.I.c', path); open(path, 'w').write('#include "fw.h"\n#line 1\n' + txt)
        if loops:
            txt = org = open(path).read()
            S = lambda f: ctx.subst(u, case, f)
            ls = [x.split(None, 3) for x in u.d.get('loop', [])]
            ls = [(S(f), int(k), c) for fl, f, k, c in ls if fl == mm]
            if ls: txt = extract.add_loop_contracts(txt, ls)
            ls = [x.split(None, 3) for x in u.d.get('inv', [])]
            ls = [(S(f), int(k) if k.isdigit() else k, dict(y.split(None, 1) for y in re.split(r'\s@(?=\w+ )', ' ' + c.strip()) if y.strip())) for fl, f, k, c in ls if fl == mm]
            if ls: txt = extract.add_invariants(txt, ls)
            ls = [x.split() for x in u.d.get('rec', [])]
            ls = [(S(f), S(g)) for fl, f, g in ls if fl == mm]
            if ls: txt = extract.contract_calls(txt, ls)
            if txt != org:
                path = re.sub(r'\.c$', f'.{u.name}.{tag}.L.c', path)
                open(path, 'w').write('#include "fw.h"\n#line 1\n' + txt)
        defs.append(f'-DFW_MAIN{"" if i == 0 else i + 1}="{path}"')
    if loops: defs.append('-DFW_LOOPS')
    if reach: defs.append('-DFW_REACH')
    if both: defs.append('-DFW_BOTH')
    base = f'{b}/{u.name}.{tag}{".r" if reach else ""}{".a" if absn else ""}{".L" if loops else ""}'
    obj = base + '.o.gb'
    if absn:
        rc, out, err = sh(['gcc', '-E', *CFLAGS, *defs, *ctx.inc, u.path, '-o', base + '.i'], 60)
        if rc != 0: raise RuntimeError('preprocess: ' + err[-1500:])
        n = abstract.abstract(base + '.i', base + '.abs.c')
        if n == 0: raise RuntimeError('nothing to abstract')
        rc, out, err = sh(['goto-cc', *CFLAGS, '-c', base + '.abs.c', '-o', obj], 120)
    else: rc, out, err = sh(['goto-cc', *CFLAGS, *defs, *ctx.inc, '-c', u.path, '-o', obj], 120)
    if rc != 0: raise RuntimeError('goto-cc: ' + err[-1500:])
    link = [ctx.gobj[k] for k in ctx.lib if k not in mains and k in ctx.gobj] if 'nolink' not in u.d and 'infinite' not in u.d else []
    for k in words(u, 'link'):
        if k not in ctx.gobj: 
            o = f'{b}/{k.replace("/", "_")}.{u.name}.{tag}.gb'
            sh(['goto-cc', *CFLAGS, *ctx.inc, '-c', ctx.src[k], '-o', o], 120); link.append(o)
    gb = base + '.l.gb'
    rc, out, err = sh(['goto-cc', '--function', one(u, 'entry', 'harness'), obj, *link, '-o', gb], 120)
    if rc != 0: raise RuntimeError('goto-cc link: ' + err[-1500:])
    stubs = words(u, 'stub') + (words(u, 'cstub') if loops else [])
    cur = gb
    if stubs:
        syms = symbols(gb)
        rep = []
        for s in stubs:
            if s in syms and f'stub_{s}' in syms: rep += ['--replace-calls', f'{s}:stub_{s}']
            elif loops and s in words(u, 'cstub'): raise RuntimeError(f'callee {s} not present')
            else: ctx.notes.append(f'{u.name}: callee {s} not present; contract stub unused')
        if rep:
            nxt = base + '.s.gb'
            rc, out, err = sh(['goto-instrument', *rep, cur, nxt], 120)
            if rc != 0: raise RuntimeError('replace-calls: ' + (err + out)[-1500:])
            cur = nxt
    if loops and 'loop' in u.d:
        nxt = base + '.u.gb'
        rc, out, err = sh(['goto-instrument', '--drop-unused-functions', cur, nxt], 120)
        if rc == 0: cur = nxt
        nxt = base + '.lc.gb'
        rc, out, err = sh(['goto-instrument', '--apply-loop-contracts', cur, nxt], 200)
        if rc != 0: raise RuntimeError('loop contracts: ' + (err + out)[-1500:])
        cur = nxt
    if 'dfcc' in u.d:
        nxt = base + '.d.gb'
        args = ['--dfcc', one(u, 'entry', 'harness')]
        for w in words(u, 'dfcc'):
            k, v = w.split('=', 1)
            v = ctx.subst(u, case, v)
            args += [{'enforce': '--enforce-contract', 'replace': '--replace-call-with-contract', 'rec': '--enforce-contract-rec'}[k], v]
        if 'loop-contracts' in u.d: args.append('--apply-loop-contracts')
        rc, out, err = sh(['goto-instrument', *args, cur, nxt], 200)
        if rc != 0: raise RuntimeError('dfcc: ' + (err + out)[-1500:])
        cur = nxt
    nxt = base + '.f.gb'
    rc, out, err = sh(['goto-instrument', '--drop-unused-functions', cur, nxt], 120)
    if rc == 0: cur = nxt
    nxt = base + '.g.gb'
    rc, out, err = sh(['goto-instrument', '--slice-global-inits', cur, nxt], 120)
    if rc == 0: cur = nxt
    return cur

RESLINE = re.compile(r'^\[(\S+)\] (?:file \S+ )?(?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$')
def parse_cbmc(out):
    res, fil, fn = [], '', ''
    for l in out.splitlines():
        m = RESLINE.match(l)
        if m:
            p, line, d, st = m.groups()
            res.append(dict(property=p, line=line or '', description=d, status=st, function=p.split('.')[0], file=fil))
            continue
        m = re.match(r'^(\S.*) function (\S+)$', l)
        if m: fil = m.group(1)
    done = 'VERIFICATION SUCCESSFUL' in out or 'VERIFICATION FAILED' in out
    return (res if done else None), []

def trace_of(ctx, u, gb, prop_id, flags, deadline):
    """re-run for one failed obligation, with a trace -> (inputs, readable trace)"""
    lim = max(5, min(240, deadline - time.time()))
    solvers = [x for x in (words(u, 'solver') or ['sat'])]
    rc, out, err = sh(['cbmc', gb, *flags, '--property', prop_id, '--trace', *solver_args('sat' if 'sat' in solvers else solvers[0])], lim)
    ins = [(m.group(1), int(m.group(2).replace(' ', ''), 2)) for m in re.finditer(r'^\s*INPUT ([^:\n]+): .*?\(([01 ]+)\)\s*$', out, re.M)]
    st = []
    for m in re.finditer(r'^State \d+ (?:file (\S+) )?(?:function (\S+) )?(?:line (\d+) )?.*\n-+\n\s+(.*)$', out, re.M):
        if m.group(4).startswith('INPUT') or len(m.group(4)) > 200 or 'goto_symex$$' in m.group(4) or re.search(r'\.\$(pad|anon\d+\.(?!vInt|vFloat|vBool))|\$anon\d+=', m.group(4)): continue
        st.append(f'    {m.group(2)}:{m.group(3)}  {m.group(4)}')
    return ins, st[-120:]

IGN = re.compile(r'^(malloc|calloc|realloc|alloca|__builtin_alloca)\.assertion|\.no-body\.')

def classify(res):
    ok, bad, unw, nobody = [], [], [], []
    for r in res:
        p = r['property']; st = r['status']
        if '.no-body.' in p:
            if st == 'FAILURE': nobody.append(p.split('.no-body.')[1])
            continue
        if IGN.search(p): continue
        if r['description'].startswith('REACH '): continue
        if '.unwind.' in p or '.recursion' in p:
            if st == 'FAILURE': unw.append(r)
            continue
        if st in ('SUCCESS', 'FAILURE'): (ok if st == 'SUCCESS' else bad).append(r)
    return ok, bad, unw, nobody

def solver_args(s):
    return {'sat': [], 'cvc5': ['--cvc5'], 'z3': ['--z3'], 'kissat': ['--external-sat-solver', 'kissat'], 'cadical': ['--sat-solver', 'cadical']}[s]

def run_cbmc(ctx, u, gb, reach, deadline, unwind=None):
    flags = ['--no-standard-checks', '--drop-unused-functions', '--object-bits', one(u, 'object-bits', '10')]
    extra = words(u, 'cbmc')
    uw = unwind or one(u, 'unwind')
    if uw: flags += ['--unwind', str(uw)]
    if 'unwindset' in u.d: flags += ['--unwindset', ','.join(words(u, 'unwindset'))]
    solvers = words(u, 'solver') or ['sat']
    if reach:
        flags += ['--no-unwinding-assertions']
        extra = [e for e in extra if not e.endswith('-check')]
        solvers = words(u, 'reach-solver') or ['sat']
    else:
        flags += ['--unwinding-assertions']
    stop = threading.Event(); u.lastflags = [*flags, *extra]
    def go(s):
        t = time.time()
        lim = min(float(one(u, 'timeout', '300')), max(5, deadline - time.time()))
        rc, out, err = sh(['cbmc', gb, *flags, *extra, *solver_args(s)], lim, stop=stop)
        dt = time.time() - t
        if rc is None: return ('timeout', s, dt, None, [])
        res, msgs = parse_cbmc(out)
        if res is None or rc not in (0, 10): return ('error', s, dt, None, [out.strip()[-300:], err[-500:]])
        # after a failed memory-safety obligation CBMC leaves its dependants open; they count only if nothing failed
        if any(r['status'] not in ('SUCCESS', 'FAILURE') for r in res) and not any(r['status'] == 'FAILURE' and not r['description'].startswith('REACH ') and '.no-body.' not in r['property'] for r in res): return ('error', s, dt, None, ['undetermined obligations'])
        stop.set()
        return ('done', s, dt, res, msgs)
    if len(solvers) == 1: rs = [go(solvers[0])]
    else:
        with ThreadPoolExecutor(len(solvers)) as ex: rs = list(ex.map(go, solvers))
    for r in rs:
        if r[0] == 'done': return r
    return rs[0] if rs[0][0] == 'error' and all(r[0] == 'error' for r in rs) else ('timeout', solvers[0], max(r[2] for r in rs), None, sum((r[4] for r in rs), []))

def native_build(ctx, u, case, tag):
    b = ctx.build; exe = f'{b}/{u.name}.{tag}.native'
    if os.path.exists(exe): return exe
    defs = [f'-D{n}={v}' for n, v in case] + ['-DFW_NATIVE']
    for macro, nm, dflt in u.nf: defs.append(f'-D{macro}={ctx.nat.get(nm, (dflt, None))[0]}')
    mains = words(u, 'main')
    for i, m in enumerate(mains): defs.append(f'-DFW_MAIN{"" if i == 0 else i + 1}="{REPO}/{m}"' if not m.startswith('third') else '')
    srcs = [k for k in ctx.lib if k not in mains] if 'nolink' not in u.d else []
    srcs += words(u, 'link')
    inc = ['-I', HERE, '-I', f'{VERIF}/contracts', '-I', f'{REPO}/lib', '-I', REPO, '-include', f'{HERE}/fw.h']
    base = ['gcc', '-std=gnu99', '-D_GNU_SOURCE', '-O1', '-g', '-w', '-fwrapv', '-fsanitize=address', '-DFW_NATIVE']
    def obj(src, o, defs):
        rc, out, err = sh([*base, *defs, *inc, '-c', src, '-o', o], 200, limit_mem=False)
        if rc != 0: raise RuntimeError('native build: ' + err[-800:])
        return o
    with ctx.nlock:   # the library sources are compiled once, unmodified and straight from the tree
        objs = []
        for k in srcs + ['native.c', 'native_stub.c']:
            if k == 'native_stub.c' and 'nolink' in u.d: continue
            if k not in ctx.nobj: ctx.nobj[k] = obj(f'{HERE}/{k}' if k.startswith('native') else f'{REPO}/{k}', f'{b}/n_{k.replace("/", "_")}.o', [])
            objs.append(ctx.nobj[k])
    uo = obj(u.path, exe + '.o', defs)
    rc, out, err = sh([*base, uo, *objs, '-lm', '-o', exe], 200, limit_mem=False)
    if rc != 0: raise RuntimeError('native build: ' + err[-800:])
    return exe

def native_run(exe, ctx, inputs=None, fuzz=None, timeout=60):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:allocator_may_return_null=1', VERIF_SEED=str(SEED))
    args = [exe]
    if fuzz: env['FW_FUZZ'] = str(fuzz)
    else:
        f = exe + '.in'
        open(f, 'w').write(''.join(f'{n} {v}\n' for n, v in inputs)); args.append(f)
    wd = tempfile.mkdtemp(prefix='fwreplay')
    try: rc, out, err = sh(args, timeout, env=env, cwd=wd, limit_mem=False)
    finally: shutil.rmtree(wd, ignore_errors=True)
    return rc, out, err

def hit(o): return 'REPLAY: FAILED' in o or 'REPLAY: CRASH' in o or 'ERROR: AddressSanitizer: ' in o

def trace_inputs(r): return r.get('inputs', [])

def name_of(r):
    d = r['description']
    if d.startswith(('CHECK ', 'REACH ')): return d.split(' ', 1)[1]
    return f"{d} [{r['function']}]"

def searched(J, out, err):
    m = re.search(r'REPLAY: (FAILED|CRASH) (.*)', out)
    J['status'] = 'violated'; J['bad'] = [(m.group(2) if m else 'memory safety', None)]; J['replayed'] = out + err[-3000:]

def run_job(ctx, u, case):
    tag = re.sub(r'[^\w=]+', '_', '_'.join(f'{n}={v}' for n, v in case)) or 'x'
    J = dict(unit=u.name, case=tag, status='undecided', ok=0, bad=[], solver=None, time=0.0, notes=[], bounded=one(u, 'bounded'))
    if time.time() - T0 > BUDGET: J['notes'].append('budget exhausted'); return J
    deadline = T0 + BUDGET
    st = None
    if '--fuzz' in sys.argv:   # development aid: only the native random search, on the given tree
        if 'noreplay' in u.d or 'nofuzz' in u.d: J['status'] = 'held'; return J
        rc, out, err = native_run(native_build(ctx, u, case, tag), ctx, fuzz=one(u, 'fuzz', '300000'), timeout=60)
        if hit(out + err) or rc != 0: print(J['unit'], J['case'], rc, out, err[-800:], flush=True)
        J['status'] = 'held'; return J
    both = 'noreach' not in u.d and 'reach-solver' not in u.d and set(words(u, 'solver') or ['sat']) <= {'sat'}
    if any(k in u.d for k in ('loop', 'inv', 'rec', 'cstub')) and 'FW_NOLOOPS' not in os.environ:
        try:
            gb = compile_case(ctx, u, case, False, tag, both=both, loops=True)
            st, s, dt, res, msgs = run_cbmc(ctx, u, gb, False, deadline)
            J['time'] += dt; J['solver'] = s
            if st == 'done':
                ok, bad, unw, nobody = classify(res)
                if bad or unw:
                    J['notes'].append('not proved with the loop contracts: ' + ', '.join(sorted({name_of(r) for r in bad + unw}))[:900])
                    if verbose: print('  loop contracts:', u.name, tag, [(name_of(r), r['line']) for r in bad + unw][:12], flush=True)
                    st = None
            else: J['notes'].append(f'loop contracts: {st} ' + '; '.join(m for m in msgs if m)[-300:]); st = None
        except Exception as e: J['notes'].append('loop contracts: ' + str(e)[-300:]); st = None
        if verbose and st is None: print('  loop contracts not used:', u.name, tag, J['notes'], flush=True)
        if st is None: J['bounded'] = 'fallback, loop contracts did not apply: ' + one(u, 'fallback', '')
        if st is None and 'noreplay' not in u.d and 'nofuzz' not in u.d:
            try:
                rc, out, err = native_run(native_build(ctx, u, case, tag), ctx, fuzz=one(u, 'fuzz', '300000'), timeout=60)
                if hit(out + err): searched(J, out, err); st = 'found'
            except Exception as e: J['notes'].append(str(e)[-300:])
    if st is None and 'abstract' in u.d:
        try:
            gb = compile_case(ctx, u, case, False, tag, absn=True, both=both)
            st, s, dt, res, msgs = run_cbmc(ctx, u, gb, False, deadline)
            J['time'] += dt; J['solver'] = s + '+uf'
            if st != 'done' or classify(res)[1] or classify(res)[2]: J['notes'].append(f'not decided under the arithmetic abstraction ({st})'); st = None
        except Exception as e: J['notes'].append('abstraction: ' + str(e)[-200:]); st = None
        if st is None and 'noreplay' not in u.d and 'nofuzz' not in u.d:
            try:
                rc, out, err = native_run(native_build(ctx, u, case, tag), ctx, fuzz=one(u, 'fuzz', '300000'), timeout=40)
                if hit(out + err): searched(J, out, err); st = 'found'
            except Exception as e: J['notes'].append(str(e)[-300:])
    if st is None:
        try:
            gb = compile_case(ctx, u, case, False, tag, both=both)
        except Exception as e:
            J['notes'].append('build: ' + str(e)); return J
        st, s, dt, res, msgs = run_cbmc(ctx, u, gb, False, deadline)
        J['time'] += dt; J['solver'] = s
    if st == 'done':
        ok, bad, unw, nobody = classify(res)
        if unw and not bad:
            # more iterations than the complete unwinding foresees: retry with a larger bound
            big = str(int(one(u, 'unwind', '8')) * 3)
            st2, s2, dt2, res2, msgs2 = run_cbmc(ctx, u, gb, False, deadline, unwind=big)
            J['time'] += dt2
            if st2 == 'done':
                ok, bad, unw, nobody = classify(res2)
        J['nobody'] = sorted(set(nobody))
        J['ok'] = len(ok); J['names'] = sorted({name_of(r) for r in ok if r.get('description', '').startswith('CHECK ')})
        if bad:
            J['status'] = 'violated'
            J['total'] = len(ok) + len(bad)
            seen = set()
            for r in bad:
                n = name_of(r)
                if n in seen: continue
                seen.add(n); J['bad'].append((n, r))
            J['bad'].sort(key=lambda x: not x[1]['description'].startswith('CHECK '))
            for n, r in J['bad'][:2]:
                r['inputs'], r['steps'] = trace_of(ctx, u, gb, r['property'], u.lastflags, deadline)
        elif unw:
            J['status'] = 'undecided'; J['notes'].append('loop bound exceeded: ' + ', '.join(sorted({r['function'] for r in unw})))
            if ok: J['status'] = 'bounded-ok'
        elif not ok: J['notes'].append('no obligations generated'); J['status'] = 'vacuous'
        else: J['status'] = 'held'
    elif st != 'found':
        J['notes'].append(f'{st}: ' + '; '.join(m for m in msgs if m)[-600:])
    if J['status'] in ('undecided', 'bounded-ok') and 'noreplay' not in u.d and 'nofuzz' not in u.d and st == 'timeout':
        # counterexample search on the real code, so a changed tree whose proof does not finish is still judged
        try:
            exe = native_build(ctx, u, case, tag)
            rc, out, err = native_run(exe, ctx, fuzz=one(u, 'fuzz', '300000'), timeout=60)
            J['notes'].append('native search: ' + out.strip().splitlines()[-1] if out.strip() else 'native search: -')
            if hit(out + err): searched(J, out, err)
        except Exception as e: J['notes'].append(str(e)[-300:])
    if J['status'] == 'held' and 'noreach' not in u.d:
        try:
            if not both:
                gbr = compile_case(ctx, u, case, True, tag)
                st, s, dt, res, msgs = run_cbmc(ctx, u, gbr, True, deadline)
                J['time'] += dt
            if st == 'done':
                reach = [r for r in res if r.get('description', '').startswith('REACH ')]
                dead = {name_of(r) for r in reach if r['status'] == 'SUCCESS'} - {name_of(r) for r in reach if r['status'] == 'FAILURE'}
                J['reach'] = len(reach)
                if not reach: J['status'] = 'vacuous'; J['notes'].append('no reachability marker')
                elif dead:
                    J['status'] = 'violated'; J['bad'] = [('unreachable: ' + d, None) for d in sorted(dead)]; J['noinput'] = True
            else: J['notes'].append(f'reach {st}: ' + '; '.join(msgs)[-300:])
        except Exception as e: J['notes'].append('reach build: ' + str(e))
    if J['status'] == 'violated' and 'replayed' not in J and not J.get('noinput'):
        J['replay_out'] = ''
        if 'noreplay' not in u.d:
            try:
                exe = native_build(ctx, u, case, tag)
                for n, r in J['bad'][:2]:
                    ins = trace_inputs(r) if r else []
                    rc, out, err = native_run(exe, ctx, inputs=ins)
                    J['replay_out'] += f'--- obligation {n}: inputs {ins}\n{out}{err[-1500:]}\n'
                    if rc is None: J['replay_out'] += 'replay timed out\n'
                    elif hit(out + err): J['replayed'] = J['replay_out']; break
                if 'replayed' not in J and 'nofuzz' not in u.d:
                    rc, out, err = native_run(exe, ctx, fuzz=one(u, 'fuzz', '300000'), timeout=40)
                    J['replay_out'] += '--- native search from the failed obligation\n' + out + err[-1000:]
                    if hit(out + err): J['replayed'] = J['replay_out']
            except Exception as e: J['replay_out'] += 'replay not possible: ' + str(e)[-800:]
    if verbose or J['status'] != 'held':
        print(f"  [{J['status']}] {J['unit']} {J['case']} ok={J['ok']} reach={J.get('reach')} {J['solver']} {J['time']:.1f}s {[b[0] for b in J['bad']]} {J['notes']} nobody={J.get('nobody')}", flush=True)
    return J

def main():
    prop = sys.argv[1]
    uf = sys.argv[sys.argv.index('--unit') + 1] if '--unit' in sys.argv else None
    cf = sys.argv[sys.argv.index('--case') + 1] if '--case' in sys.argv else None
    units = []
    for f in sorted(os.listdir(f'{VERIF}/units')):
        if f.endswith('.c'):
            u = parse_unit(f'{VERIF}/units/{f}')
            if prop not in u.props: continue
            if uf and u.name != uf: continue
            if one(u, 'tier') == 'thorough' and TIER != 'thorough': continue
            units.append(u)
    if not units: fail(f'no units for {prop}'); sys.exit(2)
    ctx = Ctx(); ctx.notes = []; ctx.nobj = {}; ctx.nlock = threading.Lock()
    ctx.build = tempfile.mkdtemp(prefix=f'fw_{prop}_')
    ctx.subst = lambda u, case, v: dict({m: ctx.nat.get(n, (d, None))[0] for m, n, d in u.nf}, **dict(case)).get(v, v)
    try:
        build_shared(ctx)
        jobs = []
        for u in units:
            for case in itertools.product(*u.cases): 
                if cf and cf not in str(case): continue
                jobs.append((u, [y for c in case for y in c]))
        jobs.sort(key=lambda j: -float(one(j[0], 'cost', '1')))
        with ThreadPoolExecutor(NPAR) as ex: R = list(ex.map(lambda j: run_job(ctx, *j), jobs))
        rc = report(prop, ctx, units, R)
    finally:
        if '--keep' in sys.argv: print('build:', ctx.build)
        else: shutil.rmtree(ctx.build, ignore_errors=True)
    sys.exit(rc)

def known():
    p = f'{VERIF}/known_findings.jsonl'
    return [json.loads(l) for l in open(p) if l.strip()] if os.path.exists(p) else []

def report(prop, ctx, units, R):
    kf = [k for k in known() if k.get('property') == prop and k.get('kind') == 'finding']
    rdir = f'{EVID}/replays'; os.makedirs(rdir, exist_ok=True)
    viol = []
    for J in R:
        if J['status'] != 'violated': continue
        rest = []
        for n, r in J['bad']:
            hit = [k for k in kf if k['unit'] == J['unit'] and k['obligation'] == n and k.get('case', J['case']) == J['case']]
            if hit: print(f"KNOWN-FINDING: property={prop} {hit[0]['what']}")
            else: rest.append((n, r))
        if rest: J['bad'] = rest; viol.append(J)
        else: J['status'] = 'known'
    for J in R:
        if J['status'] == 'vacuous': viol.append(dict(J, bad=[('vacuous unit: ' + '; '.join(J['notes']), None)], noinput=True)) if False else None
    for J in viol:
        path = f"{rdir}/{prop}-{J['unit']}-{J['case']}.txt"
        with open(path, 'w') as f:
            f.write(f"property {prop}\nunit {J['unit']} case {J['case']} (source: units/{J['unit']}.c)\n")
            for n, r in J['bad']:
                f.write(f'failed obligation: {n}\n')
                if r:
                    f.write(f"  obligation id {r['property']} at {r['file']}:{r['line']}\n")
                    f.write('  counterexample inputs: ' + ', '.join(f'{a}={b}' for a, b in trace_inputs(r)) + '\n')
                    f.write('\n'.join(r.get('steps', [])) + '\n')
            f.write('\nreplay on the real code:\n' + (J.get('replayed') or J.get('replay_out') or 'none') + '\n')
        J['path'] = path
    undec = [J for J in R if J['status'] in ('undecided', 'vacuous')]
    obl = sum(J['ok'] + len(J['bad']) for J in R if not J.get('bounded'))
    bobl = sum(J['ok'] + len(J['bad']) for J in R if J.get('bounded'))
    dis = sum(J['ok'] for J in R if not J.get('bounded') and J['status'] in ('held', 'bounded-ok', 'violated', 'known'))
    for J in R: 
        if J['status'] == 'vacuous': print(f"UNDECIDED: {J['unit']} {J['case']}: {J['notes']}")
        if J['status'] == 'undecided': print(f"UNDECIDED: {J['unit']} {J['case']}: {' '.join(J['notes'])[:500]}")
    assumptions = []
    for u in units:
        for a in u.d.get('assume', []):
            if a not in assumptions: assumptions.append(a)
    nb = sorted({x for J in R for x in J.get('nobody', [])})
    if nb: assumptions.append('external functions without a body (result unconstrained, no side effects): ' + ', '.join(nb))
    funcs = sorted({f for u in units for f in words(u, 'funcs')})
    st = {}
    for J in R:
        if not J.get('bounded'): st[J['solver'] or '-'] = st.get(J['solver'] or '-', 0) + J['ok']
    bounded = sorted({f"{J['unit']}: {J['bounded']}" for J in R if J.get('bounded')})
    lvl = 'proof'
    ev = dict(property=prop, tier=TIER, seed=SEED, level=lvl, coverage=dict(
        obligations=obl, discharged=dis, jobs=len(R), held=sum(J['status'] in ('held',) for J in R),
        reachability_markers=sum(J.get('reach', 0) or 0 for J in R),
        checker_cmd=f'python3 fw/run.py {prop}', trusted_base=['CBMC 6.11.0 (goto-cc, goto-instrument, symbolic execution)', 'MiniSat / cvc5 1.1.2 back ends', 'fw/extract.py source preparation'],
        functions_under_contract=funcs, obligations_by_backend=st, solver_seconds=round(sum(J['time'] for J in R), 1),
        bounded_not_counted_as_proved=bounded, bounded_obligations=bobl, undecided=[f"{J['unit']} {J['case']}: {' '.join(J['notes'])[:300]}" for J in undec],
        units=[dict(unit=J['unit'], case=J['case'], status=J['status'], obligations=J['ok'] + len(J['bad']), solver=J['solver'], seconds=round(J['time'], 2)) for J in R],
        notes=sorted(set(ctx.notes))),
        assumptions=assumptions, wall_s=round(time.time() - T0, 1), violations=len(viol))
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(f'{EVID}/{prop}.json', 'w'), indent=1)
    held = sum(J['status'] in ('held', 'bounded-ok', 'known') for J in R)
    print(f'{prop}: {len(R)} jobs, {held} held, {len(viol)} violated, {len(undec)} undecided, {dis}/{obl} obligations, {time.time() - T0:.1f}s')
    if viol:
        withr = [J for J in viol if J.get('replayed')]
        for J in (withr or viol)[:5]:
            print(f"VIOLATION property={prop} replay={J['path']}" + ('' if J.get('replayed') else ' no-failing-input-found'))
        return 1
    if not held: return 2
    return 0

if __name__ == '__main__':
    def term(*a):
        for p in list(procs):
            try: os.killpg(p.pid, signal.SIGKILL)
            except Exception: pass
        os._exit(3)
    signal.signal(signal.SIGTERM, term); signal.signal(signal.SIGINT, term)
    main()
