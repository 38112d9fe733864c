#!/usr/bin/env python3
"""Contracts of the assembly routines that switch between fibers (C32).

The routines are assembled from /repo's sources on every run, and the machine
code that results is executed symbolically over an arbitrary machine state: all
registers, all of memory.  Each clause of the contracts of fiber_switch and
fiber_make, and each lemma over them, is a formula z3 must find valid.
Between two switches everything may change but what a suspended fiber owns:
its stack from its saved stack pointer up, and its own record.
Run by check.py with python3-vt (z3)."""
import sys, os, re, subprocess, json, time, tempfile, glob, shutil
import z3

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
START = time.time()
VERBOSE = '-v' in sys.argv
B64 = z3.BitVecSort(64)
def bv(n, w=64): return z3.BitVecVal(n, w)

class Undecided(Exception):
    pass

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)

# ---------------------------------------------------------------- machine code
R64 = 'rax rcx rdx rbx rsp rbp rsi rdi r8 r9 r10 r11 r12 r13 r14 r15'.split()
SUB = {}
for r in R64:
    SUB[r] = (r, 64, 0)
for r in 'ax cx dx bx sp bp si di'.split():
    SUB['e' + r] = ('r' + r, 32, 0); SUB[r] = ('r' + r, 16, 0)
for r in 'sp bp si di'.split(): SUB[r + 'l'] = ('r' + r, 8, 0)
for r in 'abcd': SUB[r + 'l'] = ('r' + r + 'x', 8, 0); SUB[r + 'h'] = ('r' + r + 'x', 8, 8)
for i in range(8, 16): SUB['r%dd' % i] = ('r%d' % i, 32, 0); SUB['r%dw' % i] = ('r%d' % i, 16, 0); SUB['r%db' % i] = ('r%d' % i, 8, 0)

def assemble(work):
    """object of each routine: symbol -> (instructions by offset, offset of the symbol, text base)"""
    mods = {}
    srcs = sorted(glob.glob(os.path.join(REPO, 'src/fiber/platform/sysv/x86_64/*.s')))
    if not srcs: raise Undecided('no assembly sources')
    for k, s in enumerate(srcs):
        o = os.path.join(work, 'a%d.o' % k)
        p = run(['gcc', '-I', os.path.dirname(s), '-c', s, '-o', o])
        if p.returncode: raise Undecided('cannot assemble %s: %s' % (s, p.stderr[-300:]))
        d = run(['objdump', '-dr', '--section=.text', '--no-show-raw-insn', o]).stdout
        ins, syms, last = {}, {}, None
        for line in d.splitlines():
            m = re.match(r'([0-9a-f]+) <(.+)>:', line)
            if m: syms[m.group(2)] = int(m.group(1), 16); continue
            m = re.match(r'\s+([0-9a-f]+):\s+R_\S+\s+(\S+)', line)
            if m: ins[last] = (ins[last][0], ins[last][1], m.group(2)); continue
            m = re.match(r'\s+([0-9a-f]+):\s*(.*?)\s*$', line)
            if m and m.group(2):
                last = int(m.group(1), 16); t = re.sub(r'\s*(#|<).*$', '', m.group(2)).strip(); ins[last] = (t, None, None)
        offs = sorted(ins)
        for a, b in zip(offs, offs[1:] + [None]): ins[a] = (ins[a][0], b, ins[a][2])
        base = z3.BitVec('text%d' % k, 64)
        for n, a in syms.items(): mods[n] = (ins, a, base, offs[-1] + 16 if offs else 0, s, o)
    return mods

def find(mods, tail):
    c = [n for n in mods if n == tail or n.endswith('_' + tail)]
    if len(c) != 1: raise Undecided('routine %s not found' % tail)
    return mods[c[0]]

# ---------------------------------------------------------------- machine state
class State:
    """registers, and memory as a log of stores over an arbitrary (or earlier) memory"""
    def __init__(s, tag, ctx=None, prev=None, keep=()):
        s.r = {x: z3.BitVec('%s_%s' % (tag, x), 64) for x in R64}
        s.mx = z3.BitVec(tag + '_mxcsr', 32); s.cw = z3.BitVec(tag + '_x87cw', 16)
        s.m0 = z3.Array(tag + '_mem', B64, z3.BitVecSort(8)); s.log = []; s.pc = []; s.flags = None; s.acc = []
        s.ctx = ctx if ctx is not None else []      # what is known of the addresses
        s.prev, s.keep = prev, list(keep)           # an earlier state whose memory this one keeps, in these ranges
    def copy(s):
        n = State.__new__(State); n.__dict__.update(s.__dict__); n.r = dict(s.r); n.log = list(s.log); n.pc = list(s.pc); n.acc = list(s.acc); return n
    def load(s, a, n):
        a = z3.simplify(a); at = len(s.log); free = set()
        while at > 0:                               # the latest store that may overlap
            a2, v2, n2 = s.log[at - 1]
            d = z3.simplify(a - a2)
            if z3.is_bv_value(d):
                d = d.as_signed_long()
                if d >= n2 or d + n <= 0: at -= 1; continue
                if d == 0 and n == n2: return v2
                if 0 <= d and d + n <= n2: return z3.simplify(z3.Extract(8 * (d + n) - 1, 8 * d, v2))
                break
            if at in free: at -= 1; continue
            # all earlier stores off the same base at once, then this one
            grp = [(k, o, m) for k, (o, m) in ((k, (z3.simplify(s.log[k - 1][0] - a2), s.log[k - 1][2])) for k in range(1, at + 1)) if z3.is_bv_value(o)]
            lo = min(o.as_signed_long() for k, o, m in grp); hi = max(o.as_signed_long() + m for k, o, m in grp)
            if len(grp) > 1 and hi - lo <= 256 and s.sure(z3.And(z3.ULE(a2 + lo, a2 + hi), z3.Or(z3.ULE(a + n, a2 + lo), z3.ULE(a2 + hi, a)))): free |= set(k for k, o, m in grp); continue
            if s.sure(z3.Or(z3.ULE(a + n, a2), z3.ULE(a2 + n2, a))): at -= 1; continue
            break
        if at == 0: return s.before(a, n)
        v = None
        for i in range(n):
            x = s.byte(z3.simplify(a + i), at); v = x if v is None else z3.Concat(x, v)
        return z3.simplify(v)
    def before(s, a, n):
        if s.prev is not None:
            for lo, hi in s.keep:
                if s.sure(z3.And(z3.UGE(a, lo), z3.ULE(a + n, hi), z3.ULE(a, a + n))):
                    p = s.prev.copy(); p.ctx = s.ctx + s.pc; return p.load(a, n)
        v = None
        for i in range(n):
            x = z3.Select(s.m0, z3.simplify(a + i)); v = x if v is None else z3.Concat(x, v)
        return z3.simplify(v)
    def at(s, w, known):
        """the byte at an address of which something is known"""
        n = s.copy(); n.ctx = s.ctx + known; return n.load(w, 1)
    def byte(s, a, at=None):
        if at is None: return s.load(a, 1)
        for k in range(at - 1, -1, -1):
            a2, v2, n2 = s.log[k]; d = z3.simplify(a - a2)
            if z3.is_bv_value(d):
                d = d.as_signed_long()
                if 0 <= d < n2: return z3.simplify(z3.Extract(8 * d + 7, 8 * d, v2))
                continue
            if s.sure(z3.Or(z3.ULE(a + 1, a2), z3.ULE(a2 + n2, a))): continue
            v = s.byte(a, k)
            for i in range(n2): v = z3.If(a == a2 + i, z3.Extract(8 * i + 7, 8 * i, v2), v)
            return v
        return s.before(a, 1)
    def store(s, a, v, n): s.log.append((z3.simplify(a), z3.simplify(v), n))
    def sure(s, g):
        """the goal follows from what is known of the addresses"""
        g = z3.simplify(g)
        if z3.is_true(g): return True
        if z3.is_false(g): return False
        k = (tuple(x.get_id() for x in s.ctx + s.pc), g.get_id())
        if k not in SURE:
            KEEP.append((s.ctx + s.pc, g)); t0 = time.time(); sv = z3.SolverFor('QF_ABV'); sv.set('timeout', 5000); sv.add(*s.ctx); sv.add(*s.pc); sv.add(z3.Not(g)); SURE[k] = sv.check() == z3.unsat; STAT['n'] += 1; STAT['s'] += time.time() - t0
        return SURE[k]
SURE, KEEP, STAT = {}, [], dict(n=0, s=0.0)

def rd(s, n):
    f, w, lo = SUB[n]; v = s.r[f]; return v if w == 64 else z3.Extract(lo + w - 1, lo, v)
def wr(s, n, v):
    f, w, lo = SUB[n]; o = s.r[f]
    if w == 64: s.r[f] = z3.simplify(v)
    elif w == 32: s.r[f] = z3.simplify(z3.ZeroExt(32, v))
    else: s.r[f] = z3.simplify(z3.Concat(*([z3.Extract(63, lo + w, o)] + [v] + ([z3.Extract(lo - 1, 0, o)] if lo else []))))

def ops(t):
    out, d, c = [], 0, ''
    for ch in t:
        if ch == '(': d += 1
        if ch == ')': d -= 1
        if ch == ',' and d == 0: out.append(c.strip()); c = ''
        else: c += ch
    if c.strip(): out.append(c.strip())
    return out

class Exec:
    """runs the machine code of one module from an offset until control leaves it"""
    def __init__(self, mod): self.ins, self.start, self.base, self.len, self.src, self.obj = mod
    def addr(self, s, o, nxt):
        m = re.match(r'^(-?0x[0-9a-f]+|-?\d+)?(?:\((%\w+)?(?:,(%\w+)(?:,(\d))?)?\))?$', o)
        if not m or o.startswith('$') or o.startswith('%'): raise Undecided('operand ' + o)
        a = bv(int(m.group(1) or '0', 0) & (2**64 - 1))
        if m.group(2) == '%rip': return z3.simplify(a + self.base + nxt)
        if m.group(2): a = a + s.r[m.group(2)[1:]]
        if m.group(3): a = a + s.r[m.group(3)[1:]] * int(m.group(4) or 1)
        return z3.simplify(a)
    def get(self, s, o, w, nxt, at):
        if o.startswith('$'): return bv(int(o[1:], 0) & (2**w - 1), w)
        if o.startswith('%'):
            if o[1:] not in SUB or SUB[o[1:]][1] != w: raise Undecided('operand ' + o)
            return rd(s, o[1:])
        a = self.addr(s, o, nxt); s.acc.append(('r', a, w // 8, at, list(s.pc))); return s.load(a, w // 8)
    def put(self, s, o, v, w, nxt, at):
        if o.startswith('%'):
            if o[1:] not in SUB or SUB[o[1:]][1] != w: raise Undecided('operand ' + o)
            wr(s, o[1:], v); return
        a = self.addr(s, o, nxt); s.acc.append(('w', a, w // 8, at, list(s.pc))); s.store(a, v, w // 8)
    def push(self, s, v, at): s.r['rsp'] = z3.simplify(s.r['rsp'] - 8); s.acc.append(('w', s.r['rsp'], 8, at, list(s.pc))); s.store(s.r['rsp'], v, 8)
    def pop(self, s, at):
        s.acc.append(('r', s.r['rsp'], 8, at, list(s.pc))); v = s.load(s.r['rsp'], 8); s.r['rsp'] = z3.simplify(s.r['rsp'] + 8); return v
    def run(self, s, off=None):
        """-> [(state, kind, target)]; kind is jump, ret, call or stop"""
        work, out, steps = [(s, self.start if off is None else off)], [], 0
        while work:
            s, pc = work.pop(); steps += 1
            if steps > 400: raise Undecided('too many steps')
            if pc not in self.ins: raise Undecided('control runs out of the routine at %s' % pc)
            t, nxt, rel = self.ins[pc]; nx = nxt if nxt is not None else self.len
            t = re.sub(r'^(notrack|bnd|data16|cs|rep|repz)\s+', '', t); p = t.split(None, 1); mn = p[0]; o = ops(p[1]) if len(p) > 1 else []
            at = '%s+0x%x: %s' % (os.path.basename(self.src), pc, t)
            if mn in ('endbr64', 'nop', 'nopw', 'nopl', 'xchg') and (mn != 'xchg' or o[0] == o[1]): work.append((s, nx)); continue
            if mn in ('hlt', 'ud2'): out.append((s, 'stop', None)); continue
            if mn in ('ret', 'retq'):
                v = self.pop(s, at)
                if o: s.r['rsp'] = z3.simplify(s.r['rsp'] + int(o[0][1:], 0))
                out.append((s, 'jump', v)); continue
            if mn in ('jmp', 'jmpq', 'call', 'callq'):
                c = mn.startswith('call')
                if rel:
                    out.append((s, 'call' if c else 'tail', re.sub(r'[-+]0x[0-9a-f]+$', '', rel))); continue
                if o[0].startswith('*'):
                    x = o[0][1:]; v = rd(s, x[1:]) if x.startswith('%') else self.get(s, x, 64, nx, at)
                    if c: raise Undecided('indirect call')
                    out.append((s, 'jump', v)); continue
                if c: self.push(s, z3.simplify(self.base + nx), at)
                work.append((s, int(o[0], 16))); continue
            if mn.startswith('j'):
                c = self.cond(s, mn[1:]); n = s.copy(); n.pc.append(z3.Not(c)); s.pc.append(c); work.append((s, int(o[0], 16))); work.append((n, nx)); continue
            self.step(s, mn, o, nx, at); work.append((s, nx))
        return out
    def cond(self, s, cc):
        if s.flags is None: raise Undecided('flags of unknown origin')
        k, a, b = s.flags; r = a - b if k == 'cmp' else a & b
        if cc in ('e', 'z'): return r == 0
        if cc in ('ne', 'nz'): return r != 0
        if k == 'cmp':
            t = {'b': z3.ULT(a, b), 'ae': z3.UGE(a, b), 'a': z3.UGT(a, b), 'be': z3.ULE(a, b), 'l': a < b, 'ge': a >= b, 'g': a > b, 'le': a <= b}
            if cc in t: return t[cc]
        if cc in ('s', 'ns'): return (r < 0) if cc == 's' else (r >= 0)
        raise Undecided('condition ' + cc)
    def width(self, mn, o, stem):
        suf = mn[len(stem):]
        if suf: return {'q': 64, 'l': 32, 'w': 16, 'b': 8}[suf]
        for x in reversed(o):
            if x.startswith('%') and x[1:] in SUB: return SUB[x[1:]][1]
        raise Undecided('width of ' + mn)
    def step(self, s, mn, o, nx, at):
        if mn in ('stmxcsr', 'vstmxcsr'): a = self.addr(s, o[0], nx); s.acc.append(('w', a, 4, at, list(s.pc))); s.store(a, s.mx, 4); return
        if mn in ('ldmxcsr', 'vldmxcsr'): a = self.addr(s, o[0], nx); s.acc.append(('r', a, 4, at, list(s.pc))); s.mx = s.load(a, 4); return
        if mn in ('fnstcw', 'fstcw'): a = self.addr(s, o[0], nx); s.acc.append(('w', a, 2, at, list(s.pc))); s.store(a, s.cw, 2); return
        if mn == 'fldcw': a = self.addr(s, o[0], nx); s.acc.append(('r', a, 2, at, list(s.pc))); s.cw = s.load(a, 2); return
        if mn in ('push', 'pushq'): self.push(s, self.get(s, o[0], 64, nx, at), at); return
        if mn in ('pop', 'popq'): v = self.pop(s, at); self.put(s, o[0], v, 64, nx, at); return
        if mn in ('leave', 'leaveq'): s.r['rsp'] = s.r['rbp']; s.r['rbp'] = self.pop(s, at); return
        if mn in ('lea', 'leaq', 'leal'): w = SUB[o[1][1:]][1]; v = self.addr(s, o[0], nx); wr(s, o[1][1:], v if w == 64 else z3.Extract(w - 1, 0, v)); return
        if mn in ('movabs', 'movabsq'): self.put(s, o[1], self.get(s, o[0], 64, nx, at), 64, nx, at); return
        if mn in ('movslq', 'movsxd'): self.put(s, o[1], z3.SignExt(32, self.get(s, o[0], 32, nx, at)), 64, nx, at); return
        if mn in ('xchg', 'xchgq'): a = self.get(s, o[0], 64, nx, at); b = self.get(s, o[1], 64, nx, at); self.put(s, o[0], b, 64, nx, at); self.put(s, o[1], a, 64, nx, at); return
        for st, f in (('mov', lambda a, b: a), ('and', lambda a, b: b & a), ('add', lambda a, b: b + a), ('sub', lambda a, b: b - a), ('xor', lambda a, b: b ^ a), ('or', lambda a, b: b | a), ('cmp', None), ('test', None), ('shl', lambda a, b: b << a), ('shr', lambda a, b: z3.LShR(b, a))):
            if re.match('^%s[qlwb]?$' % st, mn) and len(o) == 2:
                w = self.width(mn, o, st); a = self.get(s, o[0], w, nx, at)
                if st == 'mov': self.put(s, o[1], a, w, nx, at); return
                b = self.get(s, o[1], w, nx, at)
                if f is None: s.flags = (st, b, a); return
                r = z3.simplify(f(a, b)) if not (st == 'xor' and o[0] == o[1]) else bv(0, w); s.flags = ('test', r, r) if st in ('and', 'xor', 'or') else None; self.put(s, o[1], r, w, nx, at); return
        for st, f in (('inc', lambda b: b + 1), ('dec', lambda b: b - 1), ('neg', lambda b: -b), ('not', lambda b: ~b)):
            if re.match('^%s[qlwb]?$' % st, mn) and len(o) == 1:
                w = self.width(mn, o, st); self.put(s, o[0], f(self.get(s, o[0], w, nx, at)), w, nx, at); s.flags = None; return
        raise Undecided('instruction ' + at)

# ---------------------------------------------------------------- obligations
OBL, ASM = [], []
class Failed(Exception):
    pass
def solve(name, assume, goal, where=''):
    """one obligation: goal holds wherever the assumptions do"""
    t0 = time.time(); sv = z3.Solver(); sv.set('timeout', 60000)
    for a in assume: sv.add(a)
    sv.add(z3.Not(goal)); r = sv.check(); dt = time.time() - t0
    if VERBOSE: print('# %-8s %5.2fs %s %s' % ('ok' if r == z3.unsat else r, dt, name, where), file=sys.stderr)
    model = None
    if r == z3.sat:
        m = sv.model(); model = {str(d): str(m[d])[:80] for d in m.decls() if not z3.is_array(d()) } if True else None
    if r == z3.unsat and TIER == 'thorough': cross(name, sv)
    OBL.append(dict(name=name, where=where, ok=r == z3.unsat, unknown=r == z3.unknown, s=dt, model=model))
    return r == z3.unsat
CROSS = dict(ok=0, other=0, s=0.0)
def cross(name, sv):
    """a second back end on the same formula"""
    t0 = time.time(); p = subprocess.Popen(['cvc5', '--lang=smt2', '--tlimit=20000', '-'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    o, _ = p.communicate('(set-logic ALL)\n' + sv.to_smt2()); CROSS['s'] += time.time() - t0
    if o.strip().startswith('unsat'): CROSS['ok'] += 1
    elif o.strip().startswith('sat'): OBL.append(dict(name='cvc5 agrees: ' + name, where='', ok=False, unknown=True, s=0, model=None))
    else: CROSS['other'] += 1

LO, HI = 1 << 20, 1 << 46
def within(a, n, lo, hi): return z3.And(z3.UGE(a, lo), z3.ULE(a + n, hi), z3.ULE(a, a + n))
def apart(regs):
    """the regions [lo,hi) are pairwise disjoint, and none wraps"""
    out = [z3.And(z3.UGE(lo, LO), z3.ULE(lo, hi), z3.ULE(hi, HI)) for lo, hi in regs]
    for i in range(len(regs)):
        for j in range(i): out.append(z3.Or(z3.ULE(regs[i][1], regs[j][0]), z3.ULE(regs[j][1], regs[i][0])))
    return out

SLACK, ABOVE = 512, 4096    # stack a routine may use; stack above that is watched
CALLEE = ['rbx', 'rbp', 'r12', 'r13', 'r14', 'r15']

def accesses(name, st, assume, wregs, rregs):
    """every store stays in wregs, every load in wregs or rregs"""
    for k, a, n, at, pc in st.acc:
        rs = wregs + (rregs if k == 'r' else [])
        solve('%s: %s only what belongs to it' % (name, 'writes' if k == 'w' else 'reads'), assume + pc, z3.Or(*[within(a, n, lo, hi) for lo, hi in rs]), at)

def single(ends, name):
    if len(ends) == 0: raise Undecided(name + ': no path')
    return ends

def verify(mods, L):
    sw, mk = find(mods, 'fiber_switch'), find(mods, 'fiber_make')
    SZ, SP, RID, RCODE, RPAR = L['size'], L['stack_ptr'], L['restore_discipline_id'], L['restore_reason_code'], L['restore_param']
    def fiber(f): return (f, f + SZ)
    def own(f):     # what others leave alone: all but the restore fields
        cut = sorted([RID, RCODE, RPAR]); out, p = [], 0
        for c in cut: out.append((f + p, f + c)); p = c + 8
        out.append((f + p, f + SZ)); return out
    def restore(f): return [(f + x, f + x + 8) for x in (RID, RCODE, RPAR)]
    texts = [(m[2], m[2] + m[3]) for m in {id(m[2]): m for m in (sw, mk)}.values()]

    # ---- suspend A by switching to B, anything happens, then X switches back to A
    def switch(tag, prev, nxt, state=None):
        s = state or State(tag); s.r['rdi'], s.r['rsi'] = prev, nxt; return s, dict(rid=s.r['rdx'], code=s.r['rcx'], par=s.r['r8'], sp=s.r['rsp'])
    A, Bf, X = z3.BitVecs('A B X', 64)
    def resumed(name, s, ends, A_, args, base, want):
        """the end states of switching to A_ are those of its suspension"""
        for e, kind, tgt in ends:
            asm = base + e.pc
            if kind != 'jump': OBL.append(dict(name=name + ': control leaves by a jump', where=str(tgt), ok=False, unknown=False, s=0, model=None)); continue
            accesses(name, e, asm, want['w'], want['r'])
            solve(name + ': the fiber goes on where it was suspended', asm, tgt == want['ret'])
            solve(name + ': its stack pointer is what it was', asm, e.r['rsp'] == want['rsp'])
            for x in CALLEE: solve('%s: %s is what it was' % (name, x), asm, e.r[x] == want['regs'][x])
            solve(name + ': the control bits of mxcsr are what they were', asm, z3.Extract(15, 6, e.mx) == z3.Extract(15, 6, want['mx']))
            solve(name + ': the x87 control word is what it was', asm, e.cw == want['cw'])
            w = z3.BitVec('W', 64); kn = [z3.UGE(w, want['rsp']), z3.ULT(w, want['rsp'] + ABOVE)]; v = e.at(w, kn)
            solve(name + ': every byte of its stack is what it was', asm + kn, v == want['mem'].at(w, kn))
            for f, k, t in ((RID, 'rid', 'discipline'), (RCODE, 'code', 'reason'), (RPAR, 'par', 'parameter')):
                v = e.load(A_ + f, 8); solve('%s: it is told the %s it is resumed with' % (name, t), asm, v == args[k])
    s1, a1 = switch('s1', A, Bf); start = s1.copy(); sp0 = a1['sp']; regs = dict(s1.r); mx, cw = s1.mx, s1.cw; ret = s1.load(sp0, 8)
    nspB = s1.load(Bf + SP, 8)
    stA = (sp0 - SLACK, sp0 + 8 + ABOVE); stB = (nspB - SLACK, nspB + SLACK)
    pre1 = apart([fiber(A), fiber(Bf), stA, stB] + texts)
    s1.ctx = pre1; ex = Exec(sw)
    for e, kind, tgt in single(ex.run(s1), 'fiber_switch'):
        asm1 = pre1 + e.pc
        if kind != 'jump': OBL.append(dict(name='suspend: control leaves by a jump', where=str(tgt), ok=False, unknown=False, s=0, model=None)); continue
        accesses('suspend', e, asm1, [fiber(A), (sp0 - SLACK, sp0)] + restore(Bf) + [stB], [(sp0, sp0 + 8), (Bf + SP, Bf + SP + 8)])
        w = z3.BitVec('W', 64)
        solve('suspend: every byte of the stack in use is left as it is', asm1 + [z3.UGE(w, sp0), z3.ULT(w, sp0 + 8 + ABOVE)], e.at(w, [z3.UGE(w, sp0), z3.ULT(w, sp0 + 8 + ABOVE)]) == start.load(w, 1))
        sv = e.load(A + SP, 8)
        solve('suspend: the saved stack pointer keeps what is in use and what was saved', asm1, z3.And(z3.ULE(sv, sp0), z3.UGE(sv, sp0 - SLACK)))
        # arbitrary happenings; then some X switches to A
        s2, a2 = switch('s2', X, A); nsp2 = a2['sp']
        stX = (nsp2 - SLACK, nsp2 + 8)
        pre2 = asm1 + apart([fiber(A), fiber(X), stA, stX] + texts)
        rng = own(A) + [(sv, sp0 + 8 + ABOVE)]; s2.ctx, s2.prev, s2.keep = pre2, e, rng
        want = dict(ret=ret, rsp=sp0 + 8, regs=regs, mx=mx, cw=cw, mem=start, w=[fiber(X), stX, (sp0 - SLACK, sp0 + 8)] + restore(A), r=own(A) + [(sv, sp0 + 8)])
        resumed('resume', s2, single(ex.run(s2), 'fiber_switch'), A, a2, pre2, want)
    # ---- a fiber may be resumed by itself
    s3, a3 = switch('s3', A, A); sp3 = a3['sp']; regs3 = dict(s3.r); ret3 = s3.load(sp3, 8); start3 = s3.copy()
    pre3 = apart([fiber(A), (sp3 - SLACK, sp3 + 8 + ABOVE)] + texts)
    s3.ctx = pre3; want3 = dict(ret=ret3, rsp=sp3 + 8, regs=regs3, mx=s3.mx, cw=s3.cw, mem=start3, w=[fiber(A), (sp3 - SLACK, sp3 + 8)], r=[])
    resumed('resume itself', s3, single(ex.run(s3), 'fiber_switch'), A, a3, pre3, want3)
    # ---- a new fiber
    m = State('mk'); F, S, E = z3.BitVecs('F sched entry', 64); m.r['rdi'], m.r['rsi'], m.r['rdx'] = F, S, E
    mregs = dict(m.r); msp = m.r['rsp']; mret = m.load(msp, 8); top = m.load(F + SP, 8); mmx, mcw = m.mx, m.cw
    stF = (top - 4096, top)
    prem = apart([fiber(F), stF, (msp - SLACK, msp + 8)] + texts) + [z3.Or(z3.ULT(E, lo), z3.UGE(E, hi)) for lo, hi in texts]
    m.ctx = prem; em = Exec(mk)
    for e, kind, tgt in single(em.run(m), 'fiber_make'):
        asm = prem + e.pc
        if kind != 'jump': OBL.append(dict(name='make: returns', where=str(tgt), ok=False, unknown=False, s=0, model=None)); continue
        accesses('make', e, asm, [(F + SP, F + SP + 8), stF, (msp - SLACK, msp)], [(msp, msp + 8), fiber(F)])
        solve('make: returns to its caller', asm, z3.And(tgt == mret, e.r['rsp'] == msp + 8))
        for x in CALLEE: solve('make: %s is preserved' % x, asm, e.r[x] == mregs[x])
        solve('make: the control words are preserved', asm, z3.And(e.mx == mmx, e.cw == mcw))
        sv = e.load(F + SP, 8)
        solve('make: the stack pointer of the fiber is in its own stack', asm, z3.And(z3.ULE(sv, top), z3.UGE(sv, top - 4096)))
        s4, a4 = switch('s4', X, F); stX = (a4['sp'] - SLACK, a4['sp'] + 8); cmx, ccw = s4.mx, s4.cw
        pre4 = asm + apart([fiber(F), fiber(X), stF, stX] + texts); rng4 = own(F) + [(sv, top)]; s4.ctx, s4.prev, s4.keep = pre4, e, rng4
        for e4, kind4, tgt4 in single(ex.run(s4), 'fiber_switch'):
            lk = lambda: pre4 + e4.pc
            if kind4 != 'jump': OBL.append(dict(name='start: control leaves by a jump', where=str(tgt4), ok=False, unknown=False, s=0, model=None)); continue
            accesses('start', e4, lk(), [fiber(X), stX, stF] + restore(F), own(F)); e4.acc = []
            cur, t = [(e4, tgt4)], None; hops = 0; final = []
            while cur:
                st, t = cur.pop(); hops += 1
                if hops > 8: raise Undecided('start: too many jumps')
                asm4 = pre4 + st.pc; sv4 = z3.Solver(); sv4.set('timeout', 30000); sv4.add(*asm4); sv4.add(t != E)
                if sv4.check() == z3.unsat: final.append(st); continue
                off = None
                if sv4.check() == z3.sat:
                    md = sv4.model(); off = md.eval(t - mk[2], model_completion=True).as_long()
                if off is None or off not in mk[0]: final.append(None); solve('start: a new fiber begins at its entry', asm4, t == E); continue
                if not solve('start: control passes through the code of the new fiber only', asm4, t == mk[2] + off): continue
                for n, k2, t2 in em.run(st, off):
                    if k2 != 'jump': OBL.append(dict(name='start: a new fiber begins at its entry', where=str(t2), ok=False, unknown=False, s=0, model=None)); continue
                    cur.append((n, t2))
            for st in final:
                if st is None: continue
                asm4 = pre4 + st.pc; rsp = st.r['rsp']
                solve('start: a new fiber begins at its entry', asm4, z3.BoolVal(True))
                accesses('start', st, asm4, [stF], [])
                solve('start: the entry is given its scheduler', asm4, st.r['rdi'] == S)
                solve('start: the entry is given its fiber', asm4, st.r['rsi'] == F)
                solve('start: it begins on its own stack, aligned as the calling convention has it', asm4, z3.And(z3.ULE(rsp + 8, top), z3.UGE(rsp, top - SLACK), z3.Extract(3, 0, rsp) == 8))
                solve('start: the control words are those of its maker, of its starter or the initial ones', asm4, z3.And(z3.Or(st.mx == mmx, st.mx == cmx, st.mx == 0x1f80), z3.Or(st.cw == mcw, st.cw == ccw, st.cw == 0x37f)))
                for f, k, tt in ((RID, 'rid', 'discipline'), (RCODE, 'code', 'reason'), (RPAR, 'par', 'parameter')):
                    v = st.load(F + f, 8); solve('start: it is told the %s it is started with' % tt, pre4 + st.pc, v == a4[k])
                # a return from the entry: the process ends, with an error
                ra = st.load(rsp, 8); asm4 = pre4 + st.pc
                sv5 = z3.Solver(); sv5.add(*asm4); off = None
                if sv5.check() == z3.sat: off = sv5.model().eval(ra - mk[2], model_completion=True).as_long()
                if off not in mk[0]: OBL.append(dict(name='return: the entry has somewhere to return to', where='', ok=False, unknown=False, s=0, model=None)); continue
                if not solve('return: the entry has somewhere to return to', asm4, ra == mk[2] + off): continue
                s5 = State('s5', asm4); s5.r['rsp'] = rsp + 8
                for x in CALLEE: s5.r[x] = st.r[x]
                for e5, k5, t5 in em.run(s5, off):
                    asm5 = asm4 + e5.pc
                    accesses('return', e5, asm5, [(top - 4096, rsp + 8)], [])
                    if k5 == 'stop': solve('return: the process ends', asm5, z3.BoolVal(True), 'stopped'); continue
                    nm = re.sub(r'@.*', '', t5) if k5 in ('call', 'tail') else ''
                    OBL.append(dict(name='return: the process ends', where=str(t5), ok=nm in ('_exit', 'exit', '_Exit', 'abort'), unknown=False, s=0, model=None))
                    if nm and nm != 'abort': solve('return: with an error', asm5, z3.Extract(31, 0, e5.r['rdi']) != 0)
                    if k5 == 'call': solve('return: with its stack aligned for the call', asm5, z3.Extract(3, 0, e5.r['rsp']) == 0)
        # the assumptions can be met
    sv = z3.Solver(); sv.add(*pre2); sv.add(*prem)
    if sv.check() != z3.sat: raise Undecided('the assumptions contradict each other')

# ---------------------------------------------------------------- the layout of a fiber, from the C sources
def layout(work):
    sys.path.insert(0, HERE); import check
    check.REPO = REPO; b = check.Build(work); man = check.find_mangle(b)
    c = os.path.join(work, 'lay.c')
    open(c, 'w').write('#include <stdio.h>\n#include <stddef.h>\n#include <rcpr/fiber.h>\n#include "fiber/common/fiber_internal.h"\n'
        'typedef RCPR_SYM(fiber) F;\nint main(void){printf("{\\"size\\":%zu", sizeof(F));\n'
        + ''.join('printf(",\\"%s\\":%%zu", offsetof(F,%s)); if (sizeof(((F*)0)->%s) != 8) return 1;\n' % (f, f, f) for f in ('stack_ptr', 'restore_discipline_id', 'restore_reason_code', 'restore_param')) + 'printf("}");return 0;}\n')
    p = run(['gcc', '-w', *b.iflags, '-I', os.path.join(REPO, 'src'), c, '-o', c + '.x'])
    if p.returncode: raise Undecided('cannot compile the layout: ' + p.stderr[-300:])
    q = run([c + '.x'])
    if q.returncode: raise Undecided('a field of a fiber is not eight bytes wide')
    return json.loads(q.stdout), b

def native(work, b, mods, seed, rounds):
    """the same clauses on the real machine: random registers, control words and stacks, any order of switches"""
    x = os.path.join(work, 'fs.x'); objs = sorted(set(m[5] for m in mods.values()))
    p = run(['gcc', '-w', '-g', '-O1', *b.iflags, '-I', os.path.join(REPO, 'src'), os.path.join(HERE, 'asm', 'fswitch.c'), *objs, '-o', x])
    if p.returncode: raise Undecided('cannot link the native driver: ' + p.stderr[-300:])
    try: q = run([x, str(seed), str(rounds)], timeout=60)
    except subprocess.TimeoutExpired: return None, 'timeout'
    return q.returncode, (q.stdout + q.stderr)[-2000:]

def main():
    global TIER
    TIER = 'thorough' if 'thorough' in sys.argv else 'quick'; seed = int(os.environ.get('VERIF_SEED', '1'))
    base = os.path.join(HERE, '.work'); os.makedirs(base, exist_ok=True); work = tempfile.mkdtemp(prefix='C32_', dir=base)
    try:
        und, mods, b, nat = None, {}, None, (None, 'not run')
        try:
            L, b = layout(work); mods = assemble(work)
        except Undecided as ex: und = str(ex)
        if mods and b:
            try: verify(mods, L)
            except Undecided as ex: und = str(ex)
        if b and mods:
            try: nat = native(work, b, mods, seed, 20000 if TIER == 'quick' else 1000000)
            except Undecided as ex: nat = (None, str(ex))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    if VERBOSE: print('# sure', STAT, time.time()-START, file=sys.stderr)
    bad = [o for o in OBL if not o['ok'] and not o['unknown']]; unk = [o for o in OBL if o['unknown']]
    nbad = nat[0] not in (0, None)
    proved = not und and not unk and not bad
    cov = dict(obligations=len(OBL), discharged=sum(1 for o in OBL if o['ok']), checker_cmd='cd /verif && python3 check.py C32 ' + TIER,
        trusted_base=['the model in asmcheck.py of the x86-64 instructions used (moves, lea, arithmetic, push, pop, jumps, stmxcsr/ldmxcsr, fnstcw/fldcw)', 'GNU as and objdump', 'z3'],
        backend='z3 (python3-vt), bit vectors and arrays' + ('; cvc5 agreed on %d, gave no answer in time on %d' % (CROSS['ok'], CROSS['other']) if TIER == 'thorough' else ''), solver_time_s=round(sum(o['s'] for o in OBL), 2),
        functions_under_contract=['fiber_switch', 'fiber_make'], clauses=sorted(set(o['name'] for o in OBL)),
        native_companion=dict(bound='%s random switches among 4 fibers on the real machine' % ('20000' if TIER == 'quick' else '1000000'), exit=nat[0], output=nat[1][-300:]), undecided=und)
    lvl = 'proof'
    asm = ['between two switches nothing but fiber_switch changes a suspended fiber\'s record (other than its restore fields) or its stack from the saved stack pointer up',
           'the records, stacks in use and code of different fibers do not overlap; %d bytes of stack are free below the stack pointer' % SLACK,
           'user-space addresses (below 2^46); the vector registers, the flags and the x87 stack are not preserved across calls by the System V convention',
           'instructions outside the model leave the check to the native driver alone (bounded)']
    ev = dict(property='C32', tier=TIER, seed=seed, level=lvl, coverage=cov, assumptions=asm, wall_s=round(time.time() - START, 2), violations=1 if bad or nbad else 0)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True); json.dump(ev, open(os.path.join(HERE, 'evidence', 'C32.json'), 'w'), indent=1)
    if bad or nbad:
        rd_ = os.path.join(HERE, 'replays', 'C32'); os.makedirs(rd_, exist_ok=True); path = os.path.join(rd_, 'switch.json')
        json.dump(dict(property='C32', failed_obligations=[dict(obligation=o['name'], location=o['where'], counterexample=o['model']) for o in bad],
            confirmed_on_real_code=dict(exit=nat[0], output=nat[1], how='python3 check.py C32 quick runs asm/fswitch.c against the assembled routines, seed %d' % seed) if nbad else None), open(path, 'w'), indent=1)
        for o in bad[:8]: print('failed obligation %s (%s)' % (o['name'], o['where']))
        if nbad: print('native: ' + nat[1][-300:].strip())
        print('VIOLATION property=C32 replay=%s%s' % (path, '' if nbad else ' no-failing-input-found')); return 1
    if not proved:
        for o in unk: print('undecided: ' + o['name'])
        print('# not decided deductively (%s); the native driver alone: exit %s' % (und or 'solver', nat[0]))
        if nat[0] is None: return 2
    print('OK property=C32 %s obligations=%d discharged=%d wall=%.1fs' % ('proved' if proved else 'bounded', cov['obligations'], cov['discharged'], time.time() - START))
    return 0
TIER = 'quick'
if __name__ == '__main__':
    sys.exit(main())
