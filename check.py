#!/usr/bin/env python3
"""Driver: contract-based deductive verification of /repo's current sources.

usage: check.py Cxx [quick|thorough] [--unit NAME] [--keep] [-v]
       check.py --replay FILE

Every run regenerates everything from /repo's working tree.  See DESIGN.md.
"""
import sys, os, re, json, glob, subprocess, time, shutil, tempfile, hashlib, resource, threading
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
CON = os.path.join(HERE, 'contracts')
NCPU = int(os.environ.get('VERIF_JOBS', '8'))
MANGLE = None       # filled from the headers (RCPR_SYM prefix)
START = time.time()
BUDGET = float(os.environ.get('VERIF_BUDGET', '780'))   # stay well below 900 s
VERBOSE = False
PROP = None

def log(*a):
    if VERBOSE:
        print('#', *a, file=sys.stderr, flush=True)

def left():
    return BUDGET - (time.time() - START)

class ToolError(Exception):
    pass

def run(cmd, timeout=None, cwd=None, env=None, mem_gb=8, inp=None):
    """run a command, own process group, with time and memory limits"""
    def pre():
        os.setsid()
        if mem_gb:
            b = int(mem_gb * (1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (b, b))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env,
                         preexec_fn=pre, stdin=subprocess.DEVNULL)
    try:
        out, err = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        rc = 'timeout'
    return rc, out.decode('utf8', 'replace'), err.decode('utf8', 'replace'), time.time() - t0

# --------------------------------------------------------------------------
# building from /repo's working tree
# --------------------------------------------------------------------------
def gen_config(inc):
    """what cmake's configure_file does for config.h.cmake (Linux, defaults)"""
    os.makedirs(os.path.join(inc, 'rcpr'), exist_ok=True)
    cm = open(os.path.join(REPO, 'CMakeLists.txt')).read()
    m = re.search(r'PROJECT\(\s*rcpr\s+VERSION\s+(\d+)\.(\d+)\.(\d+)', cm, re.I)
    if not m:
        raise ToolError('project version not found in CMakeLists.txt')
    t = open(os.path.join(REPO, 'config.h.cmake')).read()
    for k, v in zip(('RCPR_VERSION_MAJOR', 'RCPR_VERSION_MINOR', 'RCPR_VERSION_REL'), m.groups()):
        t = t.replace('@%s@' % k, v)
    on = {'RCPR_VTABLE_CHECK_ASSERT', 'RCPR_FIBER_FOUND', 'HAS_PSOCK_ASYNC'}
    def rep(mm):
        return '#define %s' % mm.group(1) if mm.group(1) in on else '/* #undef %s */' % mm.group(1)
    t = re.sub(r'#cmakedefine\s+(\w+)', rep, t)
    open(os.path.join(inc, 'rcpr', 'config.h'), 'w').write(t)

def repo_sources():
    out = []
    for root, _d, files in os.walk(os.path.join(REPO, 'src')):
        rel = os.path.relpath(root, REPO)
        if 'platform/kqueue' in rel or 'platform/poll' in rel:
            continue
        for f in files:
            if f.endswith('.c'):
                out.append(os.path.join(rel, f))
    return sorted(out)

class Build:
    def __init__(self, work):
        self.work = work
        self.inc = os.path.join(work, 'inc')
        gen_config(self.inc)
        self.iflags = ['-I', os.path.join(REPO, 'include'), '-I', self.inc]
        self.lock = threading.Lock()
        self.gb = {}
        self.san = {}
        self.defs = {}
        self.undef = {}
        self.pool = ThreadPoolExecutor(NCPU)

    def oname(self, src, ext):
        return os.path.join(self.work, 'obj', src.replace('/', '_') + ext)

    def native_all(self):
        """compile every source natively: gives symbol tables for the link closure"""
        os.makedirs(os.path.join(self.work, 'obj'), exist_ok=True)
        srcs = repo_sources()
        def one(s):
            rc, o, e, _ = run(['gcc', '-w', '-O0', '-c', *self.iflags, os.path.join(REPO, s), '-o', self.oname(s, '.o')], 120)
            return s, rc, e
        for s, rc, e in self.pool.map(one, srcs):
            if rc != 0:
                raise ToolError('cannot compile %s: %s' % (s, e[-400:]))
        rc, o, e, _ = run(['nm', '-A', '--format=posix'] + [self.oname(s, '.o') for s in srcs], 60)
        rev = {self.oname(s, '.o'): s for s in srcs}
        for line in o.splitlines():
            m = re.match(r'(\S+?):\s+(\S+)\s+(\S)', line)
            if not m:
                continue
            s = rev[m.group(1)]
            if m.group(3) == 'U':
                self.undef.setdefault(s, set()).add(m.group(2))
            elif m.group(3) in 'TDBRVWGSC':
                self.defs.setdefault(m.group(2), s)

    def nm(self, obj):
        rc, o, e, _ = run(['nm', '--format=posix', obj], 60)
        U, D = set(), set()
        for line in o.splitlines():
            f = line.split()
            if len(f) >= 2:
                (U if f[1] == 'U' else D).add(f[0])
        return U, D

    def closure(self, U, D):
        need, seen, todo = set(), set(D), list(U)
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            s = self.defs.get(x)
            if s and s not in need:
                need.add(s)
                todo.extend(self.undef.get(s, ()))
        return sorted(need)

    def goto(self, src):
        with self.lock:
            fut = self.gb.get(src)
            if fut is None:
                def go():
                    out = self.oname(src, '.gb')
                    rc, o, e, _ = run(['goto-cc', *self.iflags, '-c', os.path.join(REPO, src), '-o', out], 120)
                    if rc != 0:
                        raise ToolError('goto-cc %s: %s' % (src, (o + e)[-400:]))
                    return out
                fut = self.gb[src] = self.pool.submit(go)
        return fut

    def sanobj(self, src):
        with self.lock:
            fut = self.san.get(src)
            if fut is None:
                def go():
                    out = self.oname(src, '.san.o')
                    rc, o, e, _ = run(['gcc', '-w', '-g', '-O0', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
                                       '-c', *self.iflags, os.path.join(REPO, src), '-o', out], 120)
                    if rc != 0:
                        raise ToolError('gcc -fsanitize %s: %s' % (src, e[-400:]))
                    return out
                fut = self.san[src] = self.pool.submit(go)
        return fut

# --------------------------------------------------------------------------
# harness files
# --------------------------------------------------------------------------
class Unit:
    pass

def blank(txt):
    """same text with comments and literals blanked out, same length"""
    return re.sub(r'/\*.*?\*/|//[^\n]*|"(?:[^"\\\n]|\\.)*"|\'(?:[^\'\\\n]|\\.)*\'', lambda m: re.sub(r'[^\n]', ' ', m.group(0)), txt, flags=re.S)

def match(txt, i, o, c):
    n = 0
    for j in range(i, len(txt)):
        if txt[j] == o:
            n += 1
        elif txt[j] == c:
            n -= 1
            if n == 0:
                return j
    raise ToolError('unbalanced source text')

def body_of(b, fn):
    for m in re.finditer(r'(?:RCPR_SYM\(\s*%s\s*\)|\b%s)\s*\(' % (re.escape(fn), re.escape(fn)), b):
        i = match(b, m.end() - 1, '(', ')') + 1
        k = re.match(r'\s*\{', b[i:])
        if k:
            s = i + k.end() - 1
            return s, match(b, s, '{', '}')
    raise ToolError('definition of %s not found' % fn)

def locals_of(gb, f, src):
    """[(name, line)] of the parameters and local variables of f"""
    rc, o, e, _ = run(['goto-instrument', '--show-symbol-table', '--json-ui', gb], 60)
    out = []
    try:
        for d in json.loads(o):
            for n, sy in d.get('symbolTable', {}).items():
                if not n.startswith(f + '::') or sy.get('isType') or sy.get('isStaticLifetime') or '$' in n:
                    continue
                loc = sy.get('location', {}).get('namedSub', {})
                if not loc.get('file', {}).get('id', '').endswith(os.path.basename(src)):
                    continue
                out.append((n.rsplit('::', 1)[1], int(loc.get('line', {}).get('id', 0))))
    except (ValueError, KeyError) as ex:
        raise ToolError('symbol table: %s' % ex)
    return sorted(set(out))

def modified_locals(b, s, e, head, end, names):
    """locals in scope at the loop [head,end) that it assigns or takes the address of"""
    out = []
    text = b[head:end]
    for v, line in names:
        i = 0
        for _ in range(line - 1):
            i = b.index('\n', i) + 1
        m = re.search(r'\b%s\b' % re.escape(v), b[i:])
        if not m or i + m.start() > head:
            continue
        if i > s:
            depth, k = 0, i + m.start()     # end of the enclosing block
            while k < e and depth >= 0:
                depth += (b[k] == '{') - (b[k] == '}')
                k += 1
            if k <= head:
                continue
        w = re.escape(v)
        if re.search(r'(?<![\w.>])%s\s*(?:=(?!=)|\+\+|--|[-+*/%%&|^]=|<<=|>>=)|(?:\+\+|--)\s*\(?\s*%s\b(?!\s*(?:->|\.|\[))|&\s*%s\b(?!\s*(?:->|\[))' % (w, w, w), text):
            if v not in out:
                out.append(v)
    return out

EXTRA = set()       # functions whose loops change a local no invariant speaks about
def instrument(txt, cuts, recs, locs=None):
    """in-place ghost annotation: call v_cut_<fn>_<k>(&locals..) at the head of each loop of fn named in
    cuts = {fn: [[locals..] | null, ...one per loop]}; rename self-calls of the functions in recs to v_rec_<fn>.
    Nothing is dropped from the source."""
    decl = ''
    edits = []
    b = blank(txt)
    for fn, loops in cuts.items():
        s, e = body_of(b, fn)
        found = [m for m in re.finditer(r'\b(while|for|do)\b', b[s:e])]
        tails, doend = set(), {}                # the "while" that ends a do loop is no loop of its own
        for m in found:
            if m.group(1) == 'do':
                q = s + m.end()
                while b[q] in ' \n\t':
                    q += 1
                if b[q] != '{':
                    raise ToolError('cut of %s does not attach: do loop without a block' % fn)
                doend[m.start()] = (q, match(b, q, '{', '}'))
                w = re.compile(r'\s*while\b').match(b, doend[m.start()][1] + 1)
                if not w:
                    raise ToolError('cut of %s does not attach: do loop' % fn)
                tails.add(w.end() - 5 - s)
        found = [m for m in found if m.start() not in tails]
        if len(found) != len(loops):
            raise ToolError('cut of %s does not attach: %d loops in the source, %d invariants' % (fn, len(found), len(loops)))
        for k, (m, vs) in enumerate(zip(found, loops)):
            if vs is None:
                continue
            for v in vs:
                if not re.search(r'\b%s\b' % re.escape(v), b[:e]):
                    raise ToolError('cut of %s does not attach: local "%s" is gone' % (fn, v))
            if m.group(1) == 'do':
                i = j = doend[m.start()][0]
            else:
                i = b.index('(', s + m.end())
                j = match(b, i, '(', ')')
            call = 'v_cut_%s_%d(%s)' % (fn, k, ', '.join('(void*)&(%s)' % v for v in vs))
            decl += '_Bool v_cut_%s_%d(%s); ' % (fn, k, ', '.join(['void*'] * len(vs)) or 'void')
            # locals the loop changes that the invariant does not speak about: arbitrary at the loop head
            if m.group(1) == 'do':
                end = doend[m.start()][1]
            else:
                q = j + 1
                while b[q] in ' \n\t':
                    q += 1
                end = match(b, q, '{', '}') if b[q] == '{' else b.index(';', q)
            for v in modified_locals(b, s, e, m.start() + s, end, (locs or {}).get(fn, [])):
                if v not in vs:
                    EXTRA.add(fn)
                    call += ' && ({ __typeof__(%s) v_any; %s = v_any; 1; })' % (v, v)
            if m.group(1) == 'do':
                edits.append((i + 1, i + 1, ' (void)(%s); ' % call))
            elif m.group(1) == 'while':
                edits.append((i + 1, i + 1, call + ' && ('))
                edits.append((j, j, ')'))
            else:
                d, semi = 0, []
                for q in range(i, j):
                    d += (b[q] in '([{') - (b[q] in ')]}')
                    if b[q] == ';' and d == 1:
                        semi.append(q)
                if len(semi) != 2:
                    raise ToolError('cut of %s does not attach: for header' % fn)
                cond = txt[semi[0] + 1:semi[1]].strip() or '1'
                edits.append((semi[0] + 1, semi[1], ' %s && (%s)' % (call, cond)))
    for fn in recs:
        s, e = body_of(b, fn)
        n = 0
        for m in re.finditer(r'(?:RCPR_SYM\(\s*%s\s*\)|\b%s)(?=\s*\()' % (re.escape(fn), re.escape(fn)), b[s:e]):
            edits.append((s + m.start(), s + m.end(), 'v_rec_' + fn))
            n += 1
        if n == 0:
            raise ToolError('%s does not call itself any more' % fn)
        decl += 'int v_rec_%s(); ' % fn
    for i, j, r in sorted(edits, reverse=True):
        txt = txt[:i] + r + txt[j:]
    return decl, txt

def load_units():
    units = []
    for path in sorted(glob.glob(os.path.join(CON, '*.c'))):
        txt = open(path).read()
        pend = None
        for m in re.finditer(r'^//@\s*(\{(?:.*?)\})\s*$\s*|^(?://: )?void\s+H_(\w+)\s*\(void\)|^CASEUNIT\(\s*(\d+)\s*,\s*(\w+)\s*\)', txt, re.M | re.S):
            if m.group(1):
                try:
                    pend = json.loads(re.sub(r'\n//@?', '\n', m.group(1)))
                except ValueError as e:
                    raise ToolError('bad unit annotation in %s: %s: %s' % (path, e, m.group(1)[:200]))
            else:
                if pend is None:
                    continue
                u = Unit()
                u.file = path
                u.area = os.path.basename(path)[:-2]
                u.name = m.group(2) or m.group(4)
                u.cases = int(m.group(3)) if m.group(3) else 0
                u.props = pend['props']
                u.fn = pend.get('fn')              # function whose contract is enforced
                u.plain = pend.get('plain', u.fn is None)
                u.replace = pend.get('replace', [])
                u.loops = pend.get('loops', {})
                u.bound = pend.get('bound')        # text: this unit is bounded, not a proof
                u.unwind = pend.get('unwind', 10)
                u.bunwind = pend.get('bunwind', u.unwind)
                u.flags = pend.get('flags', [])
                u.bflags = pend.get('bflags', u.flags)
                u.unwindset = pend.get('unwindset', {})
                u.timeout = pend.get('timeout', 150)
                u.tier = pend.get('tier', 'quick')
                u.wrap = pend.get('wrap', [])
                u.assumes = pend.get('assumes', [])
                u.defs = pend.get('defs', [])
                u.tdefs = pend.get('tdefs', [])    # extra -D in the thorough tier
                u.cover = pend.get('cover', [])    # functions this unit speaks about
                u.companion = pend.get('companion', False)   # extra search beside a proof of the same function
                u.uncut = pend.get('uncut', False) # a cut unit that is also meaningful without the cut
                u.native = pend.get('native', 0)   # N>0: also run N native random cases
                u.cuts = pend.get('cuts', {})      # loops discharged by an invariant checked at the loop head
                u.split = pend.get('split', False) # one prover run per obligation
                u.recs = pend.get('recs', [])      # self-calls replaced by the function's own contract
                u.stubs = pend.get('stubs', [])    # callees replaced by their contracts (harness functions v_c_<fn>)
                units.append(u)
                pend = None
    return units

def spec_labels(txt, fn):
    """labels of the clauses of SPEC_<fn>, in order"""
    m = re.search(r'#define\s+SPEC_%s\(E\)((?:.*\\\n)*.*)' % re.escape(fn), txt)
    if not m:
        return []
    return re.findall(r'\bE\(\s*"((?:[^"\\]|\\.)*)"', m.group(1))

def mangled(fn):
    return fn[1:] if fn.startswith('=') else MANGLE + fn

def find_mangle(b):
    src = os.path.join(b.work, 'mangle.c')
    open(src, 'w').write('#include <rcpr/function_decl.h>\nVMANGLE RCPR_SYM(x)\n')
    rc, o, e, _ = run(['gcc', '-E', '-P', *b.iflags, src], 30)
    m = re.search(r'VMANGLE\s+(\w+)', o)
    if rc != 0 or not m:
        raise ToolError('cannot determine symbol mangling: ' + e[-200:])
    return m.group(1)[:-1]

class Area:
    """one harness file (with one set of -D) compiled in one mode and linked with its closure"""
    def __init__(self, b, path, defs):
        self.b, self.path, self.defs = b, path, defs
        self.tag = os.path.basename(path)[:-2] + ('_' + hashlib.md5(' '.join(defs).encode()).hexdigest()[:6] if defs else '')
        self.txt = open(path).read()
        self.lock = threading.Lock()
        self.linked = {}
        self.native_exe = {}
        obj = os.path.join(b.work, 'h_%s.o' % self.tag)
        rc, o, e, _ = run(['gcc', '-w', '-O0', '-DMODE_N', *defs, *b.iflags, '-I', CON, '-I', os.path.join(REPO, 'src'), '-c', path, '-o', obj], 120)
        if rc != 0:
            raise ToolError('harness %s does not compile against the tree: %s' % (path, e[-1500:]))
        U, D = b.nm(obj)
        # functions the harness defines for CBMC (system stubs) are __wrap_ natively
        self.srcs = b.closure(U, D)

    def gb(self, mode):
        with self.lock:
            if mode in self.linked:
                return self.linked[mode]
            b = self.b
            h = os.path.join(b.work, 'h_%s_%s.gb' % (self.tag, mode))
            rc, o, e, _ = run(['goto-cc', '-DMODE_' + mode, *self.defs, *b.iflags, '-I', CON, '-I', os.path.join(REPO, 'src'),
                               '-c', self.path, '-o', h], 120)
            if rc != 0:
                raise ToolError('goto-cc harness %s: %s' % (self.path, (o + e)[-1500:]))
            objs = [f.result() for f in [b.goto(s) for s in self.srcs]]
            out = os.path.join(b.work, 'l_%s_%s.gb' % (self.tag, mode))
            rc, o, e, _ = run(['goto-cc', '--function', 'v_entry', h, *objs, '-o', out], 120)
            if rc != 0:
                raise ToolError('goto-cc link %s: %s' % (self.path, (o + e)[-1500:]))
            self.linked[mode] = out
            return out

    def gb_cut(self, u):
        """the deductive-mode binary with ghost loop-head calls in the functions of u.cuts"""
        b = self.b
        main = self.gb('P')
        key = json.dumps([u.cuts, u.recs], sort_keys=True)
        with self.lock:
            if key in self.linked:
                return self.linked[key]
            per = {}
            for fn in list(u.cuts) + list(u.recs):
                src = b.defs.get(mangled(fn.split(':')[-1]))
                if ':' in fn:
                    src = fn.split(':')[0]
                if not src:
                    raise ToolError('function %s not found in the tree' % fn)
                c = per.setdefault(src, ({}, []))
                if fn in u.cuts:
                    c[0][fn.split(':')[-1]] = u.cuts[fn]
                if fn in u.recs:
                    c[1].append(fn.split(':')[-1])
            h = os.path.join(b.work, 'h_%s_P.gb' % self.tag)
            tag = hashlib.md5(key.encode()).hexdigest()[:8]
            objs = []
            for s in self.srcs:
                if s not in per:
                    objs.append(b.goto(s).result())
            for s, (cu, re_) in per.items():
                sgb = b.goto(s).result()
                locs = {fn: locals_of(sgb, mangled(fn) if has_function(sgb, mangled(fn)) else fn, s) for fn in cu}
                decl, txt = instrument(open(os.path.join(REPO, s)).read(), cu, re_, locs)
                f = os.path.join(b.work, 'cut_%s_%s_%s' % (self.tag, tag, os.path.basename(s)))
                open(f, 'w').write('#include <stdbool.h>\n' + decl + '\n#line 1 "%s"\n' % os.path.join(REPO, s) + txt)
                rc, o, e, _ = run(['goto-cc', *b.iflags, '-I', os.path.join(REPO, os.path.dirname(s)), '-c', f, '-o', f + '.gb'], 120)
                if rc != 0:
                    raise ToolError('goto-cc of the annotated %s: %s' % (s, (o + e)[-400:]))
                objs.append(f + '.gb')
            out = os.path.join(b.work, 'l_%s_%s.gb' % (self.tag, tag))
            rc, o, e, _ = run(['goto-cc', '--function', 'v_entry', h, *objs, '-o', out], 120)
            if rc != 0:
                raise ToolError('goto-cc link %s: %s' % (self.path, (o + e)[-1500:]))
            self.linked[key] = out
            return out

    def exe(self):
        with self.lock:
            if 'x' in self.native_exe:
                return self.native_exe['x']
            b = self.b
            out = os.path.join(b.work, 'x_%s' % self.tag)
            objs = [f.result() for f in [b.sanobj(s) for s in self.srcs]]
            wraps = sorted(set(re.findall(r'\bSYSFN\(\s*(\w+)\s*\)', self.txt)))
            rc, o, e, _ = run(['gcc', '-w', '-g', '-O0', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-DMODE_N', *self.defs,
                               *b.iflags, '-I', CON, '-I', os.path.join(REPO, 'src'), self.path, *objs,
                               *['-Wl,--wrap=' + w for w in wraps], '-Wl,--unresolved-symbols=ignore-all', '-lpthread', '-o', out], 240, mem_gb=0)
            if rc != 0:
                raise ToolError('native link %s: %s' % (self.path, e[-1500:]))
            self.native_exe['x'] = out
            return out

# --------------------------------------------------------------------------
# running one unit
# --------------------------------------------------------------------------
NATENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:max_malloc_fill_size=65536:malloc_fill_byte=190:detect_stack_use_after_return=0:allocator_may_return_null=1',
              UBSAN_OPTIONS='halt_on_error=1:exitcode=98:print_stacktrace=1')

def native(exe, unit, case, feed=None, seed=None, count=1, timeout=20):
    env = dict(NATENV)
    env['V_UNIT'] = unit
    if PROP:
        env['V_PROP'] = PROP
    if case is not None:
        env['V_CASE'] = str(case)
    if feed is not None:
        env['V_FEED'] = ','.join('%x' % v for v in feed)
    else:
        env['V_SEED'] = str(seed)
        env['V_COUNT'] = str(count)
    return run([exe], timeout, env=env, mem_gb=0)

def parse_cbmc(out):
    try:
        data = json.loads(out)
    except ValueError:
        return None, 'unparsable cbmc output: ' + out[-300:], None
    res, status, msgs = None, None, []
    for d in data:
        if 'result' in d:
            res = d['result']
        if 'cProverStatus' in d:
            status = d['cProverStatus']
        if d.get('messageType') == 'ERROR':
            msgs.append(d.get('messageText', ''))
    return res, '; '.join(msgs), status

def cbmc(gb, entry, flags, unwind, unwindset, timeout, trace=False, u_object_bits=8):
    cmd = ['cbmc', gb, '--function', entry, '--json-ui', '--unwind', str(unwind), '--unwinding-assertions',
           '--object-bits', str(u_object_bits), *([] if '--malloc-may-fail' in flags else ['--no-malloc-may-fail']), '--drop-unused-functions', '--sat-solver', 'cadical', '--slice-formula' if not trace else '--verbosity', *([] if not trace else ['4'])] + list(flags)
    if not trace:
        cmd += ['--verbosity', '4']
    if unwindset:
        cmd += ['--unwindset', ','.join('%s:%d' % kv for kv in unwindset.items())]
    if trace:
        cmd += ['--trace']
    rc, o, e, dt = run(cmd, timeout, mem_gb=12)
    log("%.1fs" % dt, " ".join(cmd))
    if rc == 'timeout':
        return None, 'timeout after %ds' % timeout, dt
    res, msg, st = parse_cbmc(o)
    if res is None:
        return None, 'cbmc gave no result (rc=%s): %s %s' % (rc, msg, e[-300:]), dt
    return res, '', dt

def cbmc_split(gb, entry, flags, unwind, unwindset, timeout):
    """as cbmc, the obligations discharged in separate runs side by side"""
    rc, o, e, dt = run(['cbmc', gb, '--function', entry, '--json-ui', '--show-properties', '--object-bits', '8', '--unwind', str(unwind), '--unwinding-assertions', '--drop-unused-functions'] + [f for f in flags if f != '--malloc-may-fail'], 60)
    props = []
    try:
        for d in json.loads(o):
            props += [(p['name'], p.get('description', '')) for p in d.get('properties', [])]
    except (ValueError, KeyError):
        return cbmc(gb, entry, flags, unwind, unwindset, timeout)
    solo = [n for n, d in props if '.assertion.' in n and not d.startswith('REACH ')]
    rest = [n for n, d in props if n not in set(solo)]
    groups = [[n] for n in solo] + [rest[i::k] for k in [max(4, len(rest) // 30)] for i in range(k) if rest[i::k]]
    t0 = time.time()
    def go(g):
        return cbmc(gb, entry, list(flags) + [x for n in g for x in ('--property', n)], unwind, unwindset, max(5, timeout - (time.time() - t0)))
    want = set(n for n, _ in props)
    out, seen = [], set()
    with ThreadPoolExecutor(6) as ex:
        for res, msg, _ in ex.map(go, groups):
            if res is None:
                return None, msg, time.time() - t0
            for r in res:
                if r['property'] not in seen:
                    seen.add(r['property'])
                    out.append(r)
    return out, '', time.time() - t0

def feed_of(trace):
    out = []
    for st in trace:
        if st.get('stepType') == 'assignment' and st.get('lhs') == 'v_feed' and not st.get('hidden_'):
            fn = st.get('sourceLocation', {}).get('function', '')
            if not fn.startswith('nd_'):
                continue
            v = st.get('value', {})
            b = v.get('binary')
            if b is None:
                try:
                    out.append(int(re.sub(r'[uUlL]+$', '', v.get('data', '0'))) & ((1 << 64) - 1))
                except ValueError:
                    out.append(0)
            else:
                out.append(int(b, 2))
    return out

def classify(res, u, labels):
    """-> failures, reach_ok, reach_missing, passed_count"""
    fails, reach_hit, reach_all, ok, unk = [], set(), set(), 0, []
    for r in res:
        d = r.get('description', '')
        if d.startswith('REACH '):
            reach_all.add(d)
            if r['status'] == 'FAILURE':
                reach_hit.add(d)
            continue
        if r['status'] == 'SUCCESS':
            ok += 1
        elif r['status'] == 'FAILURE':
            m = re.search(r'\.postcondition\.(\d+)$', r['property'])
            if m and 'ensures clause' in d and int(m.group(1)) <= len(labels):
                d = 'postcondition "%s" of %s' % (labels[int(m.group(1)) - 1], u.fn)
            fails.append((r['property'], d, r))
        else:
            unk.append(r['property'])
    return fails, reach_hit, reach_all, ok, unk

def own(fails, prop):
    """drop failures of clauses tagged with other properties only: label '[C05,C06] text'"""
    out = []
    for f in fails:
        m = re.search(r'\[((?:C\d\d,?)+)\]', f[1])
        if m and prop not in m.group(1).split(','):
            continue
        out.append(f)
    return out

def loop_contracts(area, gb, u, wd):
    """build the --loop-contracts-file for this unit against the current tree"""
    rc, o, e, _ = run(['goto-instrument', '--show-loops', '--json-ui', gb], 60)
    loops = {}
    try:
        for d in json.loads(o):
            for l in d.get('loops', []):
                n = l['name'] if 'name' in l else l.get('id', '')
                f, i = n.rsplit('.', 1)
                loops.setdefault(f, set()).add(int(i))
    except (ValueError, KeyError) as ex:
        raise ToolError('show-loops: %s' % ex)
    rc, o, e, _ = run(['goto-instrument', '--show-symbol-table', '--json-ui', gb], 60)
    syms = set(re.findall(r'"name":\s*"((?:[^"\\])+)"', o))
    funcs = []
    for fn, ls in u.loops.items():
        f = mangled(fn)
        if len(loops.get(f, ())) != len(ls):
            raise ToolError('loop contract of %s does not attach: %d loops in the source, %d contracts' % (fn, len(loops.get(f, ())), len(ls)))
        out = []
        for i, l in enumerate(ls):
            text = ' '.join([l['inv'], l.get('assigns', ''), l.get('dec', '')])
            smap = dict(x.split(',') for x in l.get('vars', '').split(';') if x)
            smap = {k: f + '::' + v for k, v in smap.items()}
            for ident in set(re.findall(r'(?<![\w.>])[A-Za-z_]\w*', text)):
                if ident in smap or ident.startswith('__CPROVER') or ident in ('unsigned', 'long', 'char', 'int', 'sizeof', 'const', 'void', 'struct'):
                    continue
                c = [s for s in syms if s.startswith(f + '::') and s.rsplit('::', 1)[1] == ident]
                if not c and ident in syms:
                    c = [ident]
                if len(c) != 1:
                    if '->' + ident in text or '.' + ident in text:
                        continue
                    raise ToolError('loop contract of %s does not attach: local "%s" %s' % (fn, ident, 'is ambiguous: %s' % c if c else 'is gone'))
                smap[ident] = c[0]
            d = dict(loop_id=str(i), invariants=l['inv'], symbol_map=';'.join('%s,%s' % kv for kv in sorted(smap.items())))
            if 'assigns' in l:
                d['assigns'] = l['assigns']
            if 'dec' in l:
                d['decreases'] = l['dec']
            out.append(d)
        funcs.append({f: out})
    p = os.path.join(wd, 'loops.json')
    json.dump(dict(sources=[''], functions=funcs, output='OUTPUT'), open(p, 'w'))
    return p

class Result:
    pass

def search(area, u, case, r, fail):
    """directed search for a failing input: random native runs of the same harness on the real code"""
    try:
        exe = area.exe()
        seed0 = int(os.environ.get('VERIF_SEED', '1'))
        for k in range(4):
            if left() < 40:
                return
            rc, o, e, dt = native(exe, u.name, case, seed=seed0 * 1000 + k, count=20000, timeout=10)
            log(u.name, 'search', rc, (o + e)[-200:])
            if rc not in (0, 77, 'timeout'):
                m = re.search(r'V_FEED=(\S*)', o + e)
                lab = re.search(r'CHECK FAILED: (.*)', o + e)
                d = lab.group(1) if lab else 'run-time failure: ' + (re.search(r'(ERROR: AddressSanitizer[^\n]*|runtime error[^\n]*)', o + e) or [None, 'exit status %s' % rc])[1]
                r.confirmed = dict(feed=m.group(1).split(',') if m else [], seed=seed0 * 1000 + k, rc=rc, output=(o + e)[-4000:],
                                   obligation=fail[0] if fail else 'native.' + u.name, description=fail[1] if fail else d, failed=d)
                return
    except ToolError as ex:
        r.note += ' native search failed: %s' % ex

def run_unit(area, u, case, prop, tier):
    r = Result()
    r.unit, r.fn, r.case = u.name, u.fn, case
    r.hit, r.allreach = set(), set()
    r.status = None           # proved | bounded-ok | violation | known | error
    r.mode = 'P'
    r.obl = r.dis = 0
    r.solver_s = 0.0
    r.note = ''
    r.fails = []
    r.confirmed = None
    r.reach = 0
    t0 = time.time()
    wd = os.path.join(area.b.work, 'u_' + u.name + ('' if case is None else '__%d' % case))
    os.makedirs(wd, exist_ok=True)
    entry = 'H_' + u.name + ('' if case is None else '__%d' % case)
    labels = spec_labels(area.txt, u.fn) if u.fn else []
    pfail, perr = [], None
    # ---- exhaustive native enumeration (bounded stand-in)
    if u.native:
        r.mode = 'N'
        exe = area.exe()
        rc, o, e, dt = native(exe, u.name, case, feed=[0], timeout=min(u.timeout, max(10, left() - 20)))
        r.wall = time.time() - t0
        m = re.search(r'exhaustive cases (\d+)', o)
        if rc == 'timeout':
            raise ToolError('native enumeration did not finish in %ds' % u.timeout)
        if rc == 0 and m and int(m.group(1)) > 0:
            r.obl = r.dis = int(m.group(1))
            r.status = 'bounded-ok'
            return r
        lab = re.search(r'CHECK FAILED: (.*)', o + e)
        d = lab.group(1) if lab else 'run-time failure: ' + (re.search(r'(ERROR: AddressSanitizer[^\n]*|runtime error[^\n]*)', o + e) or [None, 'exit status %s' % rc])[1]
        fails = own([('native.' + u.name, d, {})], prop)
        if not fails:
            r.status, r.note = 'bounded-ok', 'stopped by a check of another property: ' + d
            return r
        r.fails = [(p, x, {}) for p, x, _ in fails]
        r.confirmed = dict(feed=['0'], rc=rc, output=(o + e)[-4000:], obligation='native.' + u.name, description=d)
        r.status = 'violation'
        return r
    # ---- deductive mode
    if not u.bound:
        try:
            gb = area.gb_cut(u) if u.cuts or u.recs else area.gb('P')
            if u.fn or u.replace or u.loops:
                out = os.path.join(wd, 'p.gb')
                cmd = ['goto-instrument', '--dfcc', entry]
                if u.fn:
                    if not has_function(gb, mangled(u.fn)):
                        raise ToolError('function %s not found in the tree' % u.fn)
                    cmd += ['--enforce-contract', mangled(u.fn)]
                for c in u.replace:
                    cmd += ['--replace-call-with-contract', mangled(c)]
                if u.loops:
                    cmd += ['--apply-loop-contracts', '--loop-contracts-file', loop_contracts(area, gb, u, wd)]
                entered = os.path.join(wd, 'e.gb')
                rc, o, e, dt = run(['goto-cc', '--function', entry, gb, '-o', entered], 120)
                if rc != 0:
                    raise ToolError('goto-cc entry rc=%s: %s' % (rc, (o + e)[-300:]))
                gb = entered
                rc, o, e, dt = run(cmd + [gb, out], 120)
                if rc != 0:
                    raise ToolError('goto-instrument rc=%s: %s' % (rc, (o + e)[-600:]))
                gb = out
            res, msg, dt = (cbmc_split if u.split else cbmc)(gb, entry, u.flags, u.unwind, u.unwindset, min(u.timeout, max(10, left() - 60)))
            r.solver_s += dt
            if res is None:
                raise ToolError(msg)
            fails, hit, allr, ok, unk = classify(res, u, labels)
            r.obl = ok + len(fails) + len(unk)
            r.dis = ok
            r.hit, r.allreach = hit, allr
            if any('unwinding assertion' in f[1] for f in fails):
                raise ToolError('unwinding assertion failed: ' + next(f[0] for f in fails if 'unwinding assertion' in f[1]))
            nb = [f for f in fails if 'no body for callee' in f[1]]
            if nb:
                raise ToolError(nb[0][1])
            att = [f for f in fails if f[1].startswith('ATTACH')]
            if fails and EXTRA & set(f.split(':')[-1] for f in u.cuts):
                raise ToolError('the loop invariant does not attach: the loop changes further locals')
            if att:
                raise ToolError('the contract does not attach: ' + att[0][1][7:])
            if not allr:
                raise ToolError('unit has no reachability check')
            if not fails and not unk and ok == 0:
                raise ToolError('no obligations generated')
            pfail = own(fails, prop)
            if not fails and not unk:
                r.status = 'proved'
                r.wall = time.time() - t0
                return r
            if fails and not pfail:
                # only clauses of other properties fail
                r.status = 'proved' if not unk else None
                r.note = 'only clauses of other properties failed: ' + '; '.join(f[1] for f in fails[:3])
                if r.status:
                    r.wall = time.time() - t0
                    return r
        except ToolError as ex:
            perr = str(ex)
            log(u.name, 'P error:', perr)
    if u.cuts or u.recs:
        # a loop-cut harness has no bounded reading: other units of the property give the bounded fallback;
        # one that also makes sense without the cut (uncut) is searched natively for a failing input
        r.fails = [(p, d, x.get('sourceLocation', {})) for p, d, x in pfail]
        if u.uncut and (pfail or perr):
            search(area, u, case, r, pfail[0] if pfail else None)
            if r.confirmed and not pfail:
                r.fails = [(r.confirmed['obligation'], r.confirmed['description'], {})]
        r.wall = time.time() - t0
        if pfail or r.confirmed:
            r.status = 'violation'
        else:
            r.status, r.note = 'fallback', 'not decided deductively (%s); the bounded units of the property apply' % (perr or 'no verdict')
        return r
    # ---- bounded mode with traces
    r.mode = 'B'
    berr, bfail, bok = None, [], 0
    try:
        gb = area.gb('B')
        unw = u.bunwind
        res, msg, dt = cbmc(gb, entry, u.bflags, unw, u.unwindset, min(u.timeout if u.bound else 200, max(10, left() - 40)))
        r.solver_s += dt
        if res is not None and any('unwinding assertion' in x.get('description', '') and x['status'] == 'FAILURE' for x in res):
            res2, msg2, dt = cbmc(gb, entry, u.bflags, unw * 2 + 2, u.unwindset, min(120, max(10, left() - 40)))
            r.solver_s += dt
            if res2 is not None:
                res, unw = res2, unw * 2 + 2
        if res is None:
            raise ToolError(msg)
        fails, hit, allr, bok, unk = classify(res, u, [])
        unwf = [f for f in fails if 'unwinding assertion' in f[1]]
        fails = [f for f in fails if 'unwinding assertion' not in f[1]]
        bfail = own(fails, prop)
        if u.bound:
            r.obl, r.dis = bok + len(fails) + len(unk), bok
            r.hit, r.allreach = hit, allr
            if not allr:
                raise ToolError('unit has no reachability check')
        if unwf and not bfail:
            bfail = [(p, 'does not terminate within %d iterations: %s' % (unw, d), x) for p, d, x in unwf]
            r.unwonly = True
    except ToolError as ex:
        berr = str(ex)
        log(u.name, 'B error:', berr)
    if bfail:
        # get traces and replay them on the real code
        try:
            exe = area.exe()
            tr, msg, dt = (None, '', 0)
            if any(x.get('property') for _, _, x in bfail):
                props = [x['property'] for _, _, x in bfail if x.get('property')][:6]
                fl = list(u.bflags)
                for p in props:
                    fl += ['--property', p]
                tr, msg, dt = cbmc(gb, entry, fl, unw, u.unwindset, min(200, max(10, left() - 30)), trace=True)
                r.solver_s += dt
            for x in tr or []:
                if x['status'] != 'FAILURE' or 'trace' not in x:
                    continue
                feed = feed_of(x['trace'])
                rc, o, e, dt = native(exe, u.name, case, feed=feed)
                log(u.name, 'replay', x['property'], 'feed', ['%x' % v for v in feed], '->', rc, (o + e)[-300:])
                if rc not in (0, 77):
                    r.confirmed = dict(feed=['%x' % v for v in feed], rc=rc, output=(o + e)[-4000:], obligation=x['property'], description=x['description'])
                    break
        except ToolError as ex:
            r.note += ' replay build failed: %s' % ex
    failing = pfail or bfail
    if failing and not r.confirmed:
        search(area, u, case, r, failing[0])
    r.wall = time.time() - t0
    r.fails = [(p, d, x.get('sourceLocation', {})) for p, d, x in failing]
    if r.confirmed:
        r.status = 'violation'
    elif pfail:
        r.status = 'violation'
    elif bfail:
        if getattr(r, 'unwonly', False):
            # only loop bounds: undecided, never an alarm without a hanging run
            r.status, r.note = 'bounded-ok', r.note + ' loop bound not closed'
        elif u.bound or perr:
            r.status = 'violation'
    elif berr and (u.bound or perr):
        r.status, r.note = 'error', '; '.join(x for x in (perr, berr) if x)
    elif u.bound:
        r.status = 'bounded-ok'
    elif perr:
        r.status, r.note = 'fallback', perr
    else:
        r.status, r.note = 'error', 'no verdict'
    return r

_fn_cache = {}
_fn_lock = threading.Lock()
def has_function(gb, f):
    with _fn_lock:
        if gb not in _fn_cache:
            rc, o, e, _ = run(['goto-instrument', '--list-goto-functions', gb], 60)
            _fn_cache[gb] = o
    return re.search(r'(?m)(^|\s|/\*\s*)%s\b' % re.escape(f), _fn_cache[gb]) is not None

# --------------------------------------------------------------------------
def known_findings():
    p = os.path.join(HERE, 'known-findings.json')
    return json.load(open(p)).get('findings', []) if os.path.exists(p) else []

def is_known(kf, prop, u, r):
    k = [f for f in kf if f['property'] == prop and f['unit'] == u.name and (f.get('case') in (None, r.case))]
    lab = set(d for _, d, _ in r.fails)
    return k if k and lab and all(any(re.search(f['match'], d) for f in k) for d in lab) else None

def check(prop, tier, only=None, keep=False):
    global MANGLE, PROP
    PROP = prop
    allu = [u for u in load_units() if prop in u.props and (tier == 'thorough' or u.tier == 'quick')]
    if only:
        allu = [u for u in allu if u.name in only]
    if not allu:
        print('no units for', prop)
        return 2
    kf = known_findings()
    base = os.path.join(HERE, '.work')
    os.makedirs(base, exist_ok=True)
    work = tempfile.mkdtemp(prefix=prop + '_', dir=base)
    try:
        b = Build(work)
        MANGLE = find_mangle(b)
        b.native_all()
        areas, errs = {}, []
        keys = []
        for u in allu:
            defs = tuple(['-D' + d for d in u.defs] + (['-D' + d for d in u.tdefs] if tier == 'thorough' else []) + ['-DPROP_' + prop, '-DTIER_' + tier.upper()])
            u.key = (u.file, defs)
            if u.key not in keys:
                keys.append(u.key)
        def mk(k):
            try:
                return k, Area(b, k[0], list(k[1]))
            except ToolError as ex:
                return k, ex
        with ThreadPoolExecutor(NCPU) as ex:
            for k, a in ex.map(mk, keys):
                if isinstance(a, ToolError):
                    errs.append(str(a))
                areas[k] = a
            def err(u, case, msg):
                r = Result()
                r.unit, r.fn, r.case, r.status, r.mode, r.obl, r.dis, r.solver_s, r.fails, r.confirmed, r.wall = u.name, u.fn, case, 'error', '-', 0, 0, 0.0, [], None, 0
                r.hit, r.allreach = set(), set()
                r.note = msg
                return r
            stop = dict(v=False)
            def go(job):
                u, case = job
                if stop['v']:
                    r = err(u, case, 'skipped: a violation is already confirmed')
                    r.status = 'skipped'
                    return u, r
                a = areas[u.key]
                if isinstance(a, ToolError):
                    return u, err(u, case, str(a))
                try:
                    r = run_unit(a, u, case, prop, tier)
                except ToolError as e2:
                    r = err(u, case, str(e2))
                log('%-44s %-10s %s obl=%d dis=%d %.1fs %s' % (u.name + ('' if case is None else '[%d]' % case), r.status, r.mode, r.obl, r.dis, r.wall, r.note[:300]))
                if r.status == 'violation' and r.confirmed and not is_known(kf, prop, u, r):
                    stop['v'] = True
                for f in r.fails:
                    log('      FAIL', f[0], '|', f[1], '|', f[2].get('file', ''), f[2].get('line', ''))
                return u, r
            jobs = []
            for u in sorted(allu, key=lambda u: (not u.bound, -u.timeout)):
                jobs += [(u, k) for k in range(u.cases)] if u.cases else [(u, None)]
            results = list(ex.map(go, jobs))
        # reachability is judged over all cases of a unit
        for u in allu:
            rs = [r for x, r in results if x is u]
            if stop['v'] or any(r.status in ('violation', 'error', 'skipped') for r in rs):
                continue
            hit = set().union(*[r.hit for r in rs])
            miss = sorted(set().union(*[r.allreach for r in rs]) - hit)
            if miss and not any(r.status == 'fallback' for r in rs):
                rs[0].status = 'violation'
                rs[0].fails = [('reachability', 'no longer reachable: ' + m[6:], {}) for m in miss]
                log(u.name, 'unreachable:', miss)
        return report(prop, tier, results, b, work)
    finally:
        if not keep:
            shutil.rmtree(work, ignore_errors=True)
        else:
            print('# kept', work)

def report(prop, tier, results, b, work):
    kf = known_findings()
    viol, errors, known = [], [], []
    for u, r in results:
        if r.status == 'violation':
            k = is_known(kf, prop, u, r)
            if k:
                known.append((u, r, k))
            else:
                viol.append((u, r))
        elif r.status == 'error':
            errors.append((u, r))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    us = []
    for u, _ in results:
        if u not in us:
            us.append(u)
    rs = {u: [r for x, r in results if x is u] for u in us}
    proved = [u for u in us if all(r.status == 'proved' for r in rs[u])]
    bounded = [u for u in us if all(r.status in ('bounded-ok', 'fallback', 'proved') for r in rs[u]) and u not in proved]
    assumptions = sorted(set(a for u, _ in results for a in u.assumes))
    fns = sorted(set(x for u, r in results for x in ([u.fn] if u.fn else []) + u.cover))
    cov = dict(
        obligations=sum(r.obl for u, r in results if not u.bound and r.status in ('proved', 'violation', 'error')),
        discharged=sum(r.dis for u, r in results if not u.bound and r.status in ('proved', 'violation', 'error')),
        checker_cmd='cd /verif && VERIF_TIER=%s python3 check.py %s %s' % (tier, prop, tier),
        trusted_base=TRUSTED + assumptions,
        backend='goto-instrument --dfcc (CBMC 6.11.0 code contracts) + cbmc with its built-in SAT back end (MiniSat 2.2.1)',
        solver_time_s=round(sum(r.solver_s for _, r in results), 2),
        functions_under_contract=sorted(set(u.fn for u in proved if u.fn)),
        functions_exercised=fns,
        units_proved=[dict(unit=u.name, function=u.fn, cases=len(rs[u]), obligations=sum(r.obl for r in rs[u]), solver_s=round(sum(r.solver_s for r in rs[u]), 2),
                           replaced_by_contract=u.replace, loop_contracts=sorted(u.loops)) for u in proved],
        units_bounded=[dict(unit=u.name, function=u.fn, bound=u.bound or ('fallback, unwind %d: %s' % (u.bunwind, '; '.join(sorted(set(r.note[:200] for r in rs[u] if r.note))))),
                            bounded_obligations_passed=sum(r.dis for r in rs[u]), solver_s=round(sum(r.solver_s for r in rs[u]), 2)) for u in bounded],
        reachability_witnesses=sum(len(r.hit) for _, r in results),
    )
    lvl = level_of(prop)
    if lvl == 'other' or (lvl == 'model_checking'):
        cov['explanation'] = 'Contract obligations and bounded stand-ins; see units_proved and units_bounded.'
    ev = dict(property=prop, tier=tier, seed=seed, level=lvl, coverage=cov,
              assumptions=assumptions + ['units listed under units_bounded are bounded checks, not proofs'] if bounded else assumptions,
              wall_s=round(time.time() - START, 2), violations=len(viol))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    for u, r, k in known:
        for f in k:
            print('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
    if viol:
        viol.sort(key=lambda x: 0 if x[1].confirmed else 1)
        u, r = viol[0]
        rd = os.path.join(HERE, 'replays', prop)
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, u.name + ('' if r.case is None else '_%d' % r.case) + '.json')
        json.dump(dict(property=prop, unit=u.name, case=r.case, harness=u.file, function=u.fn,
                       failed_obligations=[dict(obligation=p, description=d, location=l) for p, d, l in r.fails],
                       confirmed_on_real_code=r.confirmed,
                       how_to_replay='cd /verif && python3 check.py --replay ' + path if r.confirmed else
                       'no failing input found; the verifier no longer accepts the obligations above: python3 check.py %s quick --unit %s -v' % (prop, u.name),
                       other_violations=[dict(unit=u2.name, obligations=[d for _, d, _ in r2.fails], confirmed=bool(r2.confirmed)) for u2, r2 in viol[1:]],
                       note=r.note), open(path, 'w'), indent=1)
        for p, d, l in r.fails[:8]:
            print('failed obligation %s: %s (%s:%s)' % (p, d, l.get('file', '?'), l.get('line', '?')))
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if r.confirmed else ' no-failing-input-found'))
        return 1
    if errors:
        for u, r in errors:
            print('ERROR unit %s: %s' % (u.name, r.note[:600]))
        return 2
    print('OK property=%s proved_units=%d bounded_units=%d obligations=%d discharged=%d wall=%.1fs' % (
        prop, len(proved), len(bounded), cov['obligations'], cov['discharged'], time.time() - START))
    return 0

TRUSTED = ['CBMC 6.11.0: C front end, code-contract instrumentation (DFCC), symbolic execution, SAT back end',
           'CBMC library models of malloc, free, memcpy, memset, memmove, strlen and the like',
           'x86-64 LP64 data model; gcc and goto-cc give the sources the same meaning',
           'stub collaborators in contracts/common.h stand for any allocator or resource meeting its interface contract']

def level_of(prop):
    try:
        for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']:
            if c['property'] == prop:
                return c['level']
    except (OSError, ValueError, KeyError):
        pass
    return 'proof'

def replay(path):
    global MANGLE, PROP
    d = json.load(open(path))
    PROP = d['property']
    if not d.get('confirmed_on_real_code'):
        print('no failing input recorded; failed obligations:')
        print(json.dumps(d['failed_obligations'], indent=1))
        return 1
    us = [u for u in load_units() if u.name == d['unit']]
    work = tempfile.mkdtemp(prefix='replay_')
    try:
        b = Build(work)
        MANGLE = find_mangle(b)
        b.native_all()
        a = Area(b, us[0].file, ['-D' + x for x in us[0].defs] + ['-DPROP_' + d['property'], '-DTIER_QUICK'])
        rc, o, e, _ = native(a.exe(), us[0].name, d.get('case'), feed=[int(x, 16) for x in d['confirmed_on_real_code']['feed'] if x])
        print(o + e)
        print('exit', rc)
        return 0 if rc == 0 else 1
    finally:
        shutil.rmtree(work, ignore_errors=True)

def main():
    global VERBOSE
    a = sys.argv[1:]
    if a and a[0] == '--replay':
        return replay(a[1])
    if a and a[0] == '--setup':
        for tool in ('cbmc', 'goto-cc', 'goto-instrument', 'gcc', 'nm'):
            if not shutil.which(tool):
                print('missing tool', tool)
                return 1
        os.makedirs(os.path.join(HERE, '.work'), exist_ok=True)
        print('setup ok, %d units' % len(load_units()))
        return 0
    if '-v' in a:
        VERBOSE = True
        a.remove('-v')
    keep = '--keep' in a
    if keep:
        a.remove('--keep')
    only = []
    while '--unit' in a:
        i = a.index('--unit')
        only.append(a[i + 1])
        del a[i:i + 2]
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    if prop == 'C32':
        return subprocess.run(['python3-vt', os.path.join(HERE, 'asmcheck.py'), tier] + (['-v'] if VERBOSE else [])).returncode
    try:
        return check(prop, tier, only, keep)
    except ToolError as e:
        print('ERROR', e)
        return 2

if __name__ == '__main__':
    sys.exit(main())
