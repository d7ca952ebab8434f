"""Abstract interpretation of the assembled entry points (x86-64).

The object gas produces from the current source is decoded (objdump) and
interpreted over the same terms and memory model as the LLVM IR analysis:
registers hold terms, memory is a write log per object, an undecided condition
forks the path.  Calls are events handed to a client, which also models what
the callee may change."""
import re, subprocess
from build import Broken
import build
from terms import *
import irai
from irai import St

GPR = ['rax', 'rbx', 'rcx', 'rdx', 'rsi', 'rdi', 'rbp', 'rsp'] + ['r%d' % i for i in range(8, 16)]
_sub = {}
for _r in GPR:
    _sub[_r] = (_r, 64, 0)
    if _r[1].isdigit():
        _sub[_r + 'd'] = (_r, 32, 0)
        _sub[_r + 'w'] = (_r, 16, 0)
        _sub[_r + 'b'] = (_r, 8, 0)
    else:
        _sub['e' + _r[1:]] = (_r, 32, 0)
        _sub[_r[1:]] = (_r, 16, 0)
        if _r[2] == 'x':
            _sub[_r[1] + 'l'] = (_r, 8, 0)
            _sub[_r[1] + 'h'] = (_r, 8, 8)
        else:
            _sub[_r[1:] + 'l'] = (_r, 8, 0)
SYSV_SAVED = ('rbx', 'rbp', 'r12', 'r13', 'r14', 'r15')
MS_SAVED = SYSV_SAVED + ('rsi', 'rdi')
CC = {'e': 'e', 'z': 'e', 'ne': 'ne', 'nz': 'ne', 'a': 'a', 'nbe': 'a', 'ae': 'ae', 'nb': 'ae', 'nc': 'ae', 'b': 'b', 'nae': 'b', 'c': 'b',
      'be': 'be', 'na': 'be', 'g': 'g', 'nle': 'g', 'ge': 'ge', 'nl': 'ge', 'l': 'l', 'nge': 'l', 'le': 'le', 'ng': 'le', 's': 's', 'ns': 'ns'}
BIG = 1 << 40


class Ins:
    __slots__ = ('addr', 'mn', 'ops', 'pre', 'file', 'line', 'fn', 'size', 'reloc', 'text', 'obj')

    def __repr__(self):
        return '%s:%s (%s+%#x: %s)' % (self.file, self.line, self.fn, self.addr - self.obj.start(self.fn), self.text)


class Obj:
    """a decoded object file"""

    def __init__(self, unit):
        self.unit = unit
        self.path = build.get().obj(unit)
        self.ins = {}
        self.syms = {}          # name -> address in .text
        self.undef = set()
        self._symbols()
        self._decode()

    def _run(self, *cmd):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode:
            raise Broken('%s: %s' % (cmd[0], r.stderr[-300:]))
        return r.stdout

    def _symbols(self):
        secs = {}
        for l in self._run('readelf', '-SW', self.path).split('\n'):
            m = re.match(r'\s*\[\s*(\d+)\]\s+(\S+)\s+\S+\s+\S+\s+\S+\s+([0-9a-f]+)', l)
            if m:
                secs[int(m.group(1))] = (m.group(2), int(m.group(3), 16))
                if m.group(2) == '.text':
                    self.textalign = int(l.split()[-1])
        self.sizes = {}
        self.globals = set()
        self.vis = {}
        for l in self._run('readelf', '-sW', self.path).split('\n'):
            p = l.split()
            if len(p) >= 8 and p[0].rstrip(':').isdigit():
                val, size, typ, bind, vis, ndx, name = int(p[1], 16), int(p[2], 0), p[3], p[4], p[5], p[6], p[7]
                if ndx == 'UND':
                    self.undef.add(name)
                elif ndx.isdigit() and typ not in ('SECTION', 'FILE'):
                    if secs[int(ndx)][0] != '.text':
                        continue
                    self.syms[name] = val
                    self.sizes[name] = size
                    self.vis[name] = vis
                    if bind == 'GLOBAL':
                        self.globals.add(name)
        self.textsize = [s for n, s in secs.values() if n == '.text'][0]

    def start(self, name):
        return self.syms.get(name, 0)

    def _decode(self):
        out = self._run('objdump', '-dr', '-l', '-z', '-M', 'suffix', '--no-show-raw-insn', '-j', '.text', self.path)
        fn = '?'
        f = ln = None
        last = None
        order = []
        for l in out.split('\n'):
            m = re.match(r'([0-9a-f]+) <([^>]+)>:', l)
            if m:
                fn = m.group(2)
                continue
            m = re.match(r'(\S+\.\w+):(\d+)', l)
            if m and not l.startswith('\t'):
                f, ln = m.group(1), int(m.group(2))
                i = f.find('src/')
                f = f[i:] if i >= 0 else f
                continue
            m = re.match(r'\s+([0-9a-f]+): (R_\S+)\s+(\S+)', l)
            if m and last is not None and l.startswith('\t\t'):
                last.reloc = (m.group(2), m.group(3))
                continue
            m = re.match(r'\s*([0-9a-f]+):\t(.*)', l)
            if not m:
                continue
            I = Ins()
            I.obj = self
            I.addr = int(m.group(1), 16)
            t = m.group(2).split('#')[0].strip()
            I.text = t
            I.fn, I.file, I.line = fn, f, ln
            I.reloc = None
            w = t.split(None, 1)
            pre = []
            while w and w[0] in ('rep', 'repz', 'repnz', 'notrack', 'data16', 'bnd', 'cs', 'ds', 'lock'):
                pre.append(w[0])
                w = w[1].split(None, 1) if len(w) > 1 else []
            I.pre = tuple(pre)
            I.mn = w[0] if w else 'nop'
            I.ops = self._ops(w[1]) if len(w) > 1 else []
            self.ins[I.addr] = I
            order.append(I.addr)
            last = I
        for a, b in zip(order, order[1:] + [self.textsize]):
            self.ins[a].size = b - a

    def _ops(self, s):
        r = []
        d = 0
        cur = ''
        for c in s:
            if c == '(':
                d += 1
            if c == ')':
                d -= 1
            if c == ',' and d == 0:
                r.append(cur)
                cur = ''
            else:
                cur += c
        r.append(cur)
        return [self._op(x.strip()) for x in r]

    def _op(self, x):
        ind = x.startswith('*')
        if ind:
            x = x[1:]
        if x.startswith('$'):
            return ('i', int(x[1:], 16 if 'x' in x else 10))
        if x.startswith('%') and '(' not in x and ':' not in x:
            return ('*r' if ind else 'r', x[1:])
        m = re.match(r'([0-9a-f]+) <([^>]+)>$', x)
        if m:
            return ('t', int(m.group(1), 16))
        if re.match(r'[0-9a-f]+$', x) and not ind:
            return ('t', int(x, 16))
        m = re.match(r'(?:%\w+:)?(-?(?:0x)?[0-9a-f]*)(?:\(([^)]*)\))?$', x)
        if not m:
            raise Broken('operand %s' % x)
        d = m.group(1)
        disp = int(d, 16) if d not in ('', '-') else 0
        p = [q.strip().lstrip('%') for q in (m.group(2) or '').split(',')]
        base = p[0] if p[0] else None
        idx = p[1] if len(p) > 1 and p[1] not in ('', 'riz') else None
        sc = int(p[2]) if len(p) > 2 and p[2] else 1
        return ('*m' if ind else 'm', disp, base, idx, sc)


class AsmClient:
    def init_load(self, st, base, off, n, isptr, inst):
        return None

    def on_call(self, m, st, target, I):
        """target: symbol name or term; returns the states after the call (st.loc changed)"""
        raise Broken('unexpected call at %s' % I)

    def on_jump_out(self, m, st, target, I):
        """jump to a symbol of another object or to an address that is not in this text"""
        raise Broken('jump out of the object at %s' % I)

    def on_indirect(self, m, st, target, I):
        pass

    def on_ret(self, m, st, I):
        pass

    def on_ins(self, m, st, I):
        pass


class Machine:
    """interprets one object"""

    def __init__(self, obj, client):
        self.o = obj
        self.c = client
        self.ai = irai.AI([], client)
        self.steps = 0
        self.max_steps = 60000
        self.text = sym('@text(%s)' % obj.unit, 64, True, 4096)
        self.visited = set()
        self.indirect = {}       # (ins addr) -> set of targets
        self.calls = set()
        self.rets = []

    # -- registers
    def get(self, st, r):
        if r in _sub:
            b, w, s = _sub[r]
            v = st.loc[b]
            if s:
                v = lshr(v, const(64, s), st.f)
            return trunc(v, w) if w < 64 else v
        raise Broken('register %s' % r)

    def set(self, st, r, v):
        b, w, s = _sub[r]
        if w == 64:
            st.loc[b] = v
        elif w == 32:
            st.loc[b] = st.f.zext(v, 64)
        else:
            m = ((1 << w) - 1) << s
            old = bitop('and', st.loc[b], const(64, ((1 << 64) - 1) & ~m), st.f)
            nv = st.f.zext(v, 64)
            st.loc[b] = add(old, mulc(nv, 1 << s))

    def width(self, r):
        return _sub[r][1]

    # -- memory
    def ea(self, st, op, I):
        _, disp, base, idx, sc = op
        if base == 'rip':
            if I.reloc:
                raise Broken('relocated memory operand at %s' % I)
            return addc(self.text, I.addr + I.size + disp)
        t = const(64, disp)
        if base:
            t = add(t, self.get(st, base))
        if idx:
            t = add(t, mulc(self.get(st, idx), sc))
        return st.f.norm(t)

    def load(self, st, addr, n, I):
        b, off = self.ai.split(st, addr)
        if b is None:
            raise Broken('load from unknown address at %s' % I)
        self.c_access(st, b, off, n, I, False)
        r = self.ai.read(st, b, off, n, n == 8, None)
        if len(r) != 1:
            raise Broken('ambiguous load at %s' % I)
        return r[0][1]

    def store(self, st, addr, n, v, I):
        b, off = self.ai.split(st, addr)
        if b is None:
            raise Broken('store to unknown address at %s' % I)
        self.c_access(st, b, off, n, I, True)
        self.ai.write(st, b, st.f.norm(off), n, v)

    def c_access(self, st, b, off, n, I, w):
        f = getattr(self.c, 'on_access', None)
        if f:
            f(self, st, b, off, n, I, w)

    # -- running
    def start_state(self):
        st = St()
        for r in GPR:
            st.loc[r] = sym('$r.' + r, 64)
        for i in range(16):
            st.loc['xmm%d' % i] = (sym('$x%d.lo' % i, 64), sym('$x%d.hi' % i, 64))
        st.loc['x87'] = ()
        st.loc['fl'] = None
        stk = sym('$stk', 64, True, 16)
        st.loc['rsp'] = addc(stk, -8)
        self.ai.write(st, stk, const(64, -8), 8, sym('$retaddr', 64))
        return st

    def run(self, entry, st):
        todo = [(st, self.o.syms[entry] if isinstance(entry, str) else entry)]
        while todo:
            st, pc = todo.pop()
            todo.extend(self.step(st, pc))

    def step(self, st, pc):
        I = self.o.ins.get(pc)
        if I is None:
            raise Broken('%s: no instruction at %#x' % (self.o.unit, pc))
        self.steps += 1
        if self.steps > self.max_steps:
            raise Broken('%s: too many steps (a loop?)' % self.o.unit)
        self.visited.add(pc)
        self.c.on_ins(self, st, I)
        nx = pc + I.size
        mn, ops = I.mn, I.ops
        if mn.startswith('j') or mn in ('callq', 'call', 'retq', 'ret', 'jmp', 'jmpq'):
            return self.control(st, I, nx)
        self.exec(st, I)
        return [(st, nx)]

    def control(self, st, I, nx):
        mn = I.mn
        f = st.f
        if mn in ('ret', 'retq'):
            if I.ops:
                raise Broken('ret with operand at %s' % I)
            a = st.loc['rsp']
            ra = self.load(st, a, 8, I)
            st.loc['rsp'] = addc(a, 8)
            self.rets.append((st, ra, I))
            self.c.on_ret(self, st, ra, I)
            return []
        op = I.ops[0]
        tgt = None
        if op[0] == 't':
            tgt = op[1]
            if I.reloc:
                name, ad = re.match(r'([^+-]+)([+-]0x[0-9a-f]+)?$', I.reloc[1]).groups()
                a = int(ad, 16) if ad else 0
                if name == '.text':
                    tgt = a + 4
                elif name in self.o.syms:
                    tgt = self.o.syms[name] + a + 4
                else:
                    tgt = name
        elif op[0] == '*r':
            tgt = self.get(st, op[1])
        elif op[0] == '*m':
            ad = self.ea(st, ('m',) + op[1:], I)
            tgt = self.load(st, ad, 8, I)
        else:
            raise Broken('control operand at %s' % I)
        if isinstance(tgt, T):
            tgt = f.norm(tgt)
            d = sub(tgt, self.text)
            if isc(d):
                self.indirect.setdefault(I.addr, set()).add(cv(d))
                self.c.on_indirect(self, st, cv(d), I)
                tgt = cv(d)
        if mn in ('call', 'callq'):
            self.calls.add(I.addr)
            if isinstance(tgt, int):
                n = [k for k, v in self.o.syms.items() if v == tgt]
                if n:
                    tgt = n[0]
                else:
                    raise Broken('local call at %s' % I)
            outs = self.c.on_call(self, st, tgt, I)
            return [(s, nx) for s in outs]
        if mn in ('jmp', 'jmpq'):
            if isinstance(tgt, int):
                return [(st, tgt)]
            self.c.on_jump_out(self, st, tgt, I)
            return []
        cc = CC.get(mn[1:])
        if cc is None or not isinstance(tgt, int):
            raise Broken('branch %s' % I)
        outs = []
        for s, v in self.ai.decide(st, self.cond(st, cc, I)):
            outs.append((s, tgt if v else nx))
        return outs

    def cond(self, st, cc, I):
        fl = st.loc['fl']
        if fl is None:
            raise Broken('condition without flags at %s' % I)
        f = st.f
        if fl[0] == 'sub':
            x, y = f.norm(fl[1]), f.norm(fl[2])
            if cc in ('e', 'ne'):
                r = eqb(x, y, f)
                return r if cc == 'e' else notb(r)
            if cc in ('a', 'be'):
                r = ltb(y, x, False, f)
                return r if cc == 'a' else notb(r)
            if cc in ('b', 'ae'):
                r = ltb(x, y, False, f)
                return r if cc == 'b' else notb(r)
            if cc in ('g', 'le'):
                r = ltb(y, x, True, f)
                return r if cc == 'g' else notb(r)
            if cc in ('l', 'ge'):
                r = ltb(x, y, True, f)
                return r if cc == 'l' else notb(r)
            x = sub(x, y)
        else:
            x = f.norm(fl[1])
            z = const(x.w, 0)
            if fl[0] == 'logic':
                if cc in ('b',):
                    return FALSE
                if cc in ('ae',):
                    return TRUE
                if cc in ('a', 'be'):
                    r = eqb(x, z, f)
                    return notb(r) if cc == 'a' else r
                if cc in ('l', 'ge'):
                    r = ltb(x, z, True, f)
                    return r if cc == 'l' else notb(r)
                if cc in ('g', 'le'):
                    r = ltb(z, x, True, f)
                    return r if cc == 'g' else notb(r)
        z = const(x.w, 0)
        if cc in ('e', 'ne'):
            r = eqb(x, z, f)
            return r if cc == 'e' else notb(r)
        if cc in ('s', 'ns'):
            r = ltb(x, z, True, f)
            return r if cc == 's' else notb(r)
        raise Broken('condition %s at %s' % (cc, I))

    # -- operands
    def rd(self, st, op, w, I):
        if op[0] == 'i':
            return const(w, op[1])
        if op[0] == 'r':
            v = self.get(st, op[1])
            return v if v.w == w else trunc(v, w)
        if op[0] == 'm':
            return self.load(st, self.ea(st, op, I), w // 8, I)
        raise Broken('operand of %s' % I)

    def wr(self, st, op, w, v, I):
        v = st.f.norm(v)
        if op[0] == 'r':
            self.set(st, op[1], v)
        elif op[0] == 'm':
            self.store(st, self.ea(st, op, I), w // 8, v, I)
        else:
            raise Broken('operand of %s' % I)

    W = {'b': 8, 'w': 16, 'l': 32, 'q': 64}

    def exec(self, st, I):
        mn, ops, f = I.mn, I.ops, st.f
        isx = any(o[0] == 'r' and o[1].startswith('xmm') for o in ops)
        if mn in ('endbr64', 'nop', 'pause', 'vzeroupper') or mn.startswith('nop'):
            return
        if mn in ('xchgw', 'xchgl', 'xchg', 'xchgq') and len(ops) == 2 and ops[0] == ops[1]:
            return
        if isx:
            return self.sse(st, I)
        m = re.match(r'mov([bwlq])$', mn)
        if m or mn == 'movabsq':
            w = self.W[m.group(1)] if m else 64
            self.wr(st, ops[1], w, self.rd(st, ops[0], w, I), I)
            return
        m = re.match(r'mov([zs])([bwl])([wlq])$', mn)
        if m:
            a, b = self.W[m.group(2)], self.W[m.group(3)]
            v = self.rd(st, ops[0], a, I)
            self.wr(st, ops[1], b, f.zext(v, b) if m.group(1) == 'z' else f.sext(v, b), I)
            return
        if mn == 'cltq':
            st.loc['rax'] = f.sext(trunc(st.loc['rax'], 32), 64)
            return
        m = re.match(r'lea([lq])$', mn)
        if m:
            v = self.ea(st, ops[0], I)
            w = self.W[m.group(1)]
            self.wr(st, ops[1], w, trunc(v, w) if w < 64 else v, I)
            return
        m = re.match(r'(add|sub|and|or|xor)([bwlq])$', mn)
        if m:
            op, w = m.group(1), self.W[m.group(2)]
            x, y = self.rd(st, ops[1], w, I), self.rd(st, ops[0], w, I)
            if op == 'xor' and ops[0] == ops[1]:
                r = const(w, 0)
            else:
                r = add(x, y) if op == 'add' else sub(x, y) if op == 'sub' else bitop(op, x, y, f)
            st.loc['fl'] = ('sub', x, y) if op == 'sub' else ('arith', r) if op == 'add' else ('logic', r)
            self.wr(st, ops[1], w, r, I)
            return
        m = re.match(r'(cmp|test)([bwlq])$', mn)
        if m:
            w = self.W[m.group(2)]
            x, y = self.rd(st, ops[1], w, I), self.rd(st, ops[0], w, I)
            st.loc['fl'] = ('sub', x, y) if m.group(1) == 'cmp' else ('logic', x if x is y else bitop('and', x, y, f))
            return
        m = re.match(r'(inc|dec|neg|not)([bwlq])$', mn)
        if m:
            w = self.W[m.group(2)]
            x = self.rd(st, ops[0], w, I)
            r = {'inc': lambda: addc(x, 1), 'dec': lambda: addc(x, -1), 'neg': lambda: neg(x), 'not': lambda: addc(neg(x), -1)}[m.group(1)]()
            if m.group(1) != 'not':
                st.loc['fl'] = ('arith', r)
            self.wr(st, ops[0], w, r, I)
            return
        m = re.match(r'(shl|sal|shr|sar)([bwlq])$', mn)
        if m and (len(ops) == 1 or ops[0][0] == 'i'):
            w = self.W[m.group(2)]
            k = ops[0][1] if len(ops) == 2 else 1
            x = self.rd(st, ops[-1], w, I)
            kk = const(w, k)
            r = shl(x, kk, f) if m.group(1) in ('shl', 'sal') else lshr(x, kk, f) if m.group(1) == 'shr' else ashr(x, kk, f)
            st.loc['fl'] = ('arith', r)
            self.wr(st, ops[-1], w, r, I)
            return
        if mn in ('pushq', 'push'):
            v = self.rd(st, ops[0], 64, I)
            st.loc['rsp'] = addc(st.loc['rsp'], -8)
            self.store(st, st.loc['rsp'], 8, v, I)
            return
        if mn in ('popq', 'pop'):
            v = self.load(st, st.loc['rsp'], 8, I)
            st.loc['rsp'] = addc(st.loc['rsp'], 8)
            self.wr(st, ops[0], 64, v, I)
            return
        if mn in ('leave', 'leaveq'):
            st.loc['rsp'] = st.loc['rbp']
            st.loc['rbp'] = self.load(st, st.loc['rsp'], 8, I)
            st.loc['rsp'] = addc(st.loc['rsp'], 8)
            return
        if mn in ('fldt', 'fstpt'):
            a = self.ea(st, ops[0], I)
            x = st.loc['x87']
            if mn == 'fldt':
                if len(x) >= 8:
                    raise Broken('x87 stack overflow at %s' % I)
                st.loc['x87'] = (self.load(st, a, 10, I),) + x
            else:
                if not x:
                    self.problem(st, I, 'x87 stack underflow')
                    x = (sym('$x87.empty', 80),)
                self.store(st, a, 10, x[0], I)
                st.loc['x87'] = x[1:]
            return
        if mn == 'fstp' and ops == [('r', 'st(0)')] or mn == 'fstp' and not ops:
            st.loc['x87'] = st.loc['x87'][1:]
            return
        if mn in ('fxch', 'fxchg'):
            x = st.loc['x87']
            if len(x) >= 2:
                st.loc['x87'] = (x[1], x[0]) + x[2:]
                return
        m = re.match(r'movs([bwlq])$', mn)
        if m and I.pre and I.pre[0].startswith('rep'):
            n = f.norm(mulc(st.loc['rcx'], self.W[m.group(1)] // 8))
            self.copy(st, st.loc['rdi'], st.loc['rsi'], n, I)
            st.loc['rdi'] = add(st.loc['rdi'], n)
            st.loc['rsi'] = add(st.loc['rsi'], n)
            st.loc['rcx'] = const(64, 0)
            return
        m = re.match(r'movs([bwlq])$', mn)
        if m and not I.pre:
            k = self.W[m.group(1)] // 8
            v = self.load(st, st.loc['rsi'], k, I)
            self.store(st, st.loc['rdi'], k, v, I)
            st.loc['rdi'] = addc(st.loc['rdi'], k)
            st.loc['rsi'] = addc(st.loc['rsi'], k)
            return
        m = re.match(r'cmov(\w+?)([wlq])?$', mn)
        raise Broken('instruction not modelled: %s' % I)

    def problem(self, st, I, msg):
        g = getattr(self.c, 'on_problem', None)
        if g:
            g(self, st, I, msg)
        else:
            raise Broken('%s at %s' % (msg, I))

    def copy(self, st, d, s, n, I):
        f = st.f
        db, do = self.ai.split(st, d)
        sb, so = self.ai.split(st, s)
        if db is None or sb is None:
            raise Broken('copy between unknown addresses at %s' % I)
        if isc(n) and cv(n) <= 64:
            k = 0
            vals = []
            while k < cv(n):
                c = min(8, cv(n) - k)
                vals.append((k, c, self.load(st, addc(s, k), c, I)))
                k += c
            for k, c, v in vals:
                self.store(st, addc(d, k), c, v, I)
            return
        self.c_access(st, sb, so, n, I, False)
        self.c_access(st, db, do, n, I, True)
        st.mem[db] = st.mem.get(db, ()) + (('cp', do, n, sb, so, st.mem.get(sb, ())),)

    def xr(self, st, op, n, I):
        """n bytes of an sse operand: list of 64-bit (or narrower) terms"""
        if op[0] == 'r' and op[1].startswith('xmm'):
            lo, hi = st.loc[op[1]]
            return (lo, hi) if n == 16 else (trunc(lo, n * 8),)
        if op[0] == 'r':
            return (trunc(self.get(st, op[1]), n * 8) if n < 8 else self.get(st, op[1]),)
        a = self.ea(st, op, I)
        if n == 16:
            return (self.load(st, a, 8, I), self.load(st, addc(a, 8), 8, I))
        return (self.load(st, a, n, I),)

    SSE = {'movd': 4, 'movq': 8, 'movss': 4, 'movsd': 8, 'movdqa': 16, 'movaps': 16, 'movapd': 16, 'movdqu': 16, 'movups': 16, 'movupd': 16,
           'movl': 4, 'movlps': 8, 'movlpd': 8}

    def sse(self, st, I):
        mn, ops, f = I.mn, I.ops, st.f
        n = self.SSE.get(mn)
        if n is None:
            if mn in ('xorps', 'pxor', 'xorpd') and ops[0] == ops[1]:
                st.loc[ops[0][1]] = (const(64, 0), const(64, 0))
                return
            raise Broken('instruction not modelled: %s' % I)
        s, d = ops
        if mn in ('movdqa', 'movaps', 'movapd'):
            for o in ops:
                if o[0] == 'm':
                    a = self.ea(st, o, I)
                    if not self.aligned(st, a, 16):
                        self.problem(st, I, 'aligned vector access to a misaligned address')
        v = self.xr(st, s, n, I)
        if d[0] == 'r' and d[1].startswith('xmm'):
            if n == 16:
                st.loc[d[1]] = v
            elif s[0] == 'r' and s[1].startswith('xmm') and mn in ('movss', 'movsd'):
                lo, hi = st.loc[d[1]]
                if n == 8:
                    st.loc[d[1]] = (v[0], hi)
                else:
                    old = bitop('and', lo, const(64, 0xffffffff00000000), f)
                    st.loc[d[1]] = (add(old, f.zext(v[0], 64)), hi)
            elif mn in ('movlps', 'movlpd'):
                st.loc[d[1]] = (v[0], st.loc[d[1]][1])
            else:
                st.loc[d[1]] = (f.zext(v[0], 64) if n < 8 else v[0], const(64, 0))
            return
        if d[0] == 'r':
            self.set(st, d[1] if n == 8 else [k for k, x in _sub.items() if x == (_sub[d[1]][0], 32, 0)][0], v[0])
            return
        a = self.ea(st, d, I)
        if n == 16:
            self.store(st, a, 8, v[0], I)
            self.store(st, addc(a, 8), 8, v[1], I)
        else:
            self.store(st, a, n, v[0], I)

    def aligned(self, st, t, n):
        return alignment(t) % n == 0

    # -- what a callee may change
    def clobber_regs(self, st, keep, tag):
        for r in GPR:
            if r not in keep and r != 'rsp':
                st.loc[r] = sym('%s.%s' % (tag, r), 64)
        for i in range(16):
            if 'xmm%d' % i not in keep:
                st.loc['xmm%d' % i] = (sym('%s.x%d.lo' % (tag, i), 64), sym('%s.x%d.hi' % (tag, i), 64))
        st.loc['fl'] = None

    def clobber_mem(self, st, base, lo, n, tag):
        """bytes [lo, lo+n) of base are unknown afterwards"""
        lo = lo if isinstance(lo, T) else const(64, lo)
        n = n if isinstance(n, T) else const(64, n)
        st.mem[base] = st.mem.get(base, ()) + (('cp', lo, n, sym('%s.%s' % (tag, show(base)), 64, True), lo, ()),)


# ------------------------------------------------------------------ CFI
def cfi(obj):
    """[(start, end, kind, rows)]: rows = [(pc, cfa register, offset, {register: offset from cfa})]"""
    out = subprocess.run(['readelf', '-wF', obj.path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True).stdout
    fdes = []
    sec = None
    cols = None
    cur = None
    cie = {}
    for l in out.split('\n'):
        m = re.match(r'Contents of the (\S+) section', l)
        if m:
            sec = m.group(1)
            continue
        m = re.match(r'([0-9a-f]+) [0-9a-f]+ ([0-9a-f]+) (CIE|FDE)', l)
        if m:
            cur = None
            if m.group(3) == 'CIE':
                cur = (0, 0, sec, [])
                cie[sec] = cur
            if m.group(3) == 'FDE':
                r = re.search(r'pc=([0-9a-f]+)\.\.([0-9a-f]+)', l)
                cur = (int(r.group(1), 16), int(r.group(2), 16), sec, [])
                fdes.append(cur)
            cols = None
            continue
        p = l.split()
        if p and p[0] == 'LOC':
            cols = p[1:]
            continue
        if p and cols and cur is not None and re.match(r'[0-9a-f]{8,}$', p[0]):
            d = dict(zip(cols, p[1:]))
            m = re.match(r'(\w+)\+(\d+)$', d['CFA'])
            rr = {}
            for k, v in d.items():
                if k == 'CFA':
                    continue
                m2 = re.match(r'c([+-]\d+)$', v)
                if m2:
                    rr['ra' if k == 'ra' else k] = int(m2.group(1))
                elif v not in ('u', 's'):
                    rr[k] = v
            cur[3].append((int(p[0], 16), m.group(1) if m else d['CFA'], int(m.group(2)) if m else 0, rr))
    for s, e, sec, rows in fdes:
        if not rows and sec in cie and cie[sec][3]:
            x = cie[sec][3][0]
            rows.append((s,) + x[1:])
    return [x for x in fdes if x[2] == '.eh_frame']      # what is there at run time


def cfi_row(fdes, pc, call=False):
    for s, e, sec, rows in fdes:
        if s <= pc < e:
            r = None
            for x in rows:
                if x[0] <= pc:
                    r = x
            return r
    return None
