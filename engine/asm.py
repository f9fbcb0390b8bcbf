"""Inline assembly of the ARM kernels: instructions with their operands, what each reads and writes, and the control-flow graph."""
import re

A64 = dict(
    dst='eor and orr orn bic add sub addp mul smax smin umax umin smaxp sminp scvtf ucvtf fmul fadd fsub fmax fmin mov mvn neg movi mvni xtn sqxtn uqxtn sqxtun fcvtns fcvtzs fcvtas fcvtms frintn ushll ushll2 sshll sshll2 '
        'uxtl uxtl2 sxtl sxtl2 uzp1 uzp2 zip1 zip2 trn1 trn2 ext rev16 rev32 rev64 sqsub uqsub sqadd uqadd uaddlp saddlp cnt addv cmgt cmge cmlt cmle cmeq cmhi cmhs shl ushr sshr lsl lsr asr dup not abs sxtw uxtw sxtb uxtb '
        'smull umull madd msub csel cset csinc umov smov fmov sqrdmulh sqdmulh srshr urshr srshl sshl ushl tbl saddlv uaddlv smaxv sminv umaxv uminv faddp uaddw saddw uaddl saddl adr ldr ldrb ldrh ldrsb ldrsh ldrsw ldur subs adds ands csetm csneg csinv ubfx sbfx ror clz rbit',
    rmw='uadalp sadalp sri sli sqxtn2 xtn2 uqxtn2 sqxtun2 ins bit bif bsl mla mls fmla fmls smlal umlal smlal2 umlal2 uaba saba usra ssra ursra srsra sdot udot movk bfi bfxil tbx shrn2 rshrn2 sqrshrn2',
    two='ldp ldpsw', load='ld1 ld2 ld3 ld4 ld1r ld2r ld3r ld4r', store='st1 st2 st3 st4', store2='str strb strh stur stp', flagonly='cmp cmn tst ccmp ccmn fcmp', none='nop prfm', branch='b br')
A32 = dict(
    dst='veor vand vorr vbic vcnt vpadd vpaddl vmov vmvn vneg vabs vshl vshr vmax vmin vpmax vpmin vcvt vcvtr vmul vadd vsub vqrshrn vqshrn vshrn vrshrn vqmovn vqmovun vmovn vmovl vshll vqadd vqsub vdup vceq vcgt vcge vclt vcle vtst vext vrev16 vrev32 vrev64 vtbl vrshr vaddl vaddw vmull '
        'add sub rsb mov mvn and orr eor bic lsl lsr asr ror mul ssat usat sxtb uxtb sxth uxth ldr ldrb ldrh ldrsb ldrsh adds subs ands clz vrhadd vhadd',
    rmw='vpadal vsri vsli vbit vbif vbsl vmla vmls vfma vmlal vaba vsra vrsra movt vtbx bfi', two='', load='vld1 vld2 vld3 vld4 vldr vldm vldmia', store='vst1 vst2 vst3 vst4 vstr', store2='str strb strh', flagonly='cmp cmn tst teq', none='nop pld it ite itt itte itet', branch='b')
SWAP = 'vswp vtrn vzip vuzp'.split()
COND = 'eq ne cs hs cc lo mi pl vs vc hi ls ge lt gt le al'.split()


class Unknown(Exception):
    pass


def tab(d):
    return {m: k for k, s in d.items() for m in s.split()}


T64, T32 = tab(A64), tab(A32)
RMEMW = {'str', 'strb', 'strh', 'stur', 'stp'}


def condition(text, consts):
    e = re.sub(r'%c\[(\w+)\]', lambda m: str(consts[m.group(1)]), text)
    e = e.replace('||', ' or ').replace('&&', ' and ')
    e = re.sub(r'!(?!=)', ' not ', e)
    if not re.fullmatch(r'[\d\s()<>=!+*/-]*((or|and|not)[\d\s()<>=!+*/-]*)*', e):
        raise Unknown('condition ' + text)
    return bool(eval(e))


def lines(template, consts):
    """source lines of the template after the assembler's conditionals"""
    out, stack = [], []
    for raw in re.split(r'[\n;]', template):
        s = re.sub(r'//.*|@.*', '', raw).replace('\t', ' ').strip()
        if not s:
            continue
        live = all(x[0] for x in stack)
        if s.startswith('.if '):
            c = condition(s[4:], consts)
            stack.append([c, c])
        elif s.startswith('.elseif'):
            c = not stack[-1][1] and condition(s[7:], consts)
            stack[-1] = [c, stack[-1][1] or c]
        elif s == '.else':
            stack[-1] = [not stack[-1][1], True]
        elif s == '.endif':
            stack.pop()
        elif live:
            out.append(s)
    return out


def split(s):
    """operands at the top level"""
    out, d, cur = [], 0, ''
    for c in s:
        if c in '[{(':
            d += 1
        if c in ']})':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


class Ins:
    """one instruction: mnemonic, operands, registers and operands read/written, flags, memory"""
    def __init__(s, text, arch):
        s.text, s.arch = text, arch
        m = re.match(r'([a-zA-Z0-9_.]+)\s*(.*)$', text)
        if not m:
            raise Unknown(text)
        s.mn, s.ops = m.group(1).lower(), split(m.group(2))
        s.cond, s.suffix = None, ''
        s.reads, s.writes, s.mem = [], [], []     # mem: (kind, base, offset text, writeback)
        s.merge = []     # registers only some lanes of which are written
        s.rflags = s.wflags = False
        s.kind = s.classify()
        s.effects()

    def classify(s):
        t = T64 if s.arch == 'aarch64' else T32
        base = s.mn
        if base in ('bl', 'blr', 'blx', 'ret', 'svc'):
            raise Unknown('call ' + s.text)
        if base in ('cbz', 'cbnz', 'tbz', 'tbnz'):
            return 'cbranch'
        m = re.match(r'b\.?(%s)$' % '|'.join(COND), base)
        if m and base not in ('bic',):
            s.cond = m.group(1)
            return 'branch'
        if s.arch != 'aarch64' and '.' in base:
            base, _, s.suffix = base.partition('.')
        if base in t:
            s.base = base
            if base == 'vmrs':
                raise Unknown(s.text)
            return t[base]
        if s.arch != 'aarch64':
            m = re.match(r'(\w+?)(%s)$' % '|'.join(COND), base)
            if m and m.group(1) in t:
                s.base, s.cond = m.group(1), m.group(2)
                return t[s.base]
            if base in SWAP:
                s.base = base
                return 'swap'
        raise Unknown('instruction ' + s.text)

    def reg(s, o):
        """register or operand named by o: ('r',n) general, ('v',n) vector, ('op',name), with the lanes touched"""
        o = o.strip()
        m = re.match(r'%([a-zA-Z]?)\[(\w+)\](.*)$', o)
        if m:
            return ('op', m.group(2))
        if s.arch == 'aarch64':
            m = re.match(r'[xw](\d+)$', o)
            if m:
                return ('r', int(m.group(1)))
            if o in ('xzr', 'wzr'):
                return None
            if o in ('sp', 'wsp'):
                return ('r', 'sp')
            m = re.match(r'[vqdshb](\d+)(\..*)?$', o)
            if m:
                return ('v', int(m.group(1)))
        else:
            m = re.match(r'r(\d+)$', o)
            if m:
                return ('r', int(m.group(1)))
            if o in ('sp', 'lr', 'pc', 'ip', 'fp'):
                return ('r', o)
        return None

    def regs(s, o):
        """all registers of an operand (32-bit ARM: the d registers a vector name covers)"""
        if o.startswith('{'):
            out = []
            body = re.sub(r'\}.*$', '', o[1:])
            for p in split(body):
                m = re.match(r'([vdq])(\d+)(\.\w+)?\s*-\s*[vdq](\d+)', p)
                if m:
                    for i in range(int(m.group(2)), int(m.group(4)) + 1):
                        out += s.regs(m.group(1) + str(i) + (m.group(3) or ''))
                else:
                    out += s.regs(p)
            return out
        if s.arch != 'aarch64':
            m = re.match(r'q(\d+)$', o)
            if m:
                return [('d', 2 * int(m.group(1))), ('d', 2 * int(m.group(1)) + 1)]
            m = re.match(r'd(\d+)(\[.*\])?$', o)
            if m:
                return [('d', int(m.group(1)))]
            m = re.match(r's(\d+)$', o)
            if m:
                return [('d', int(m.group(1)) // 2)]
        r = s.reg(o)
        return [r] if r else []

    def address(s, i, kind):
        """operand i is a memory reference; a following immediate or register is the post-increment"""
        o = s.ops[i]
        m = re.match(r'\[(.*)\](!?)$', o)
        if not m:
            raise Unknown('address ' + s.text)
        parts = split(m.group(1))
        if parts[0].startswith('%') is False and ':' in parts[0]:
            parts[0] = parts[0].split(':')[0]
        base = s.reg(parts[0])
        if base is None:
            raise Unknown('base ' + s.text)
        s.reads.append(base)
        off = parts[1] if len(parts) > 1 else '#0'
        for p in parts[1:]:
            s.reads += s.regs(p.split()[0])
        post = s.ops[i + 1] if i + 1 < len(s.ops) else None
        wb = bool(m.group(2)) or post is not None
        if wb:
            s.writes.append(base)
            if post:
                s.reads += s.regs(post)
        s.mem.append((kind, base, off if not wb or m.group(2) else '#0', post or ('!' if m.group(2) else None)))

    def effects(s):
        k = s.kind
        o = s.ops
        if k in ('none',):
            if s.mn.startswith('it'):
                s.rflags = True
            return
        if k == 'branch':
            s.target = o[0]
            s.rflags = s.cond is not None and s.cond != 'al'
            if not re.match(r'\w+[fb]?$', o[0]):
                raise Unknown(s.text)
            return
        if k == 'cbranch':
            s.target = o[-1]
            s.cond = 'reg'
            s.reads += s.regs(o[0])
            return
        if s.cond:
            s.rflags = True
        if s.base in ('csel', 'cset', 'csetm', 'csinc', 'csneg', 'csinv', 'ccmp', 'ccmn'):
            s.rflags = True
            o = o[:-1]
        if k == 'flagonly':
            s.wflags = True
            for x in o:
                s.reads += s.regs(x.split()[0])
            return
        if s.base in ('subs', 'adds', 'ands') or k == 'flags':
            s.wflags = True
        if k == 'load':
            s.address(1, 'load')
            s.writes += s.regs(o[0])
            if re.search(r'\]?\}\[\d+\]|\w\[\d+\]', o[0]):
                s.merge += s.regs(o[0])
            return
        if k in ('store', 'store2'):
            n = 2 if s.base == 'stp' else 1
            for x in o[:n]:
                s.reads += s.regs(x)
            s.address(n, 'store')
            return
        if k == 'two':
            s.writes += s.regs(o[0]) + s.regs(o[1])
            s.address(2, 'load')
            return
        if k == 'swap':
            s.reads += s.regs(o[0]) + s.regs(o[1])
            s.writes += s.regs(o[0]) + s.regs(o[1])
            return
        if s.base.startswith('ldr') or s.base == 'ldur':
            s.writes += s.regs(o[0])
            if len(o) > 1 and o[1].startswith('['):
                s.address(1, 'load')
            return
        d = s.regs(o[0])
        if not d and o[0] not in ('xzr', 'wzr'):
            raise Unknown('destination of ' + s.text)
        if re.search(r'\.\w+\[\d+\]$', o[0]) or re.search(r'^d\d+\[\d+\]$', o[0]):
            s.merge += d
        elif k == 'rmw' or s.cond:
            s.reads += d
        for x in o[1:]:
            x = x.split()[0]
            s.reads += s.regs(x)
        if s.arch != 'aarch64' and len(o) == 2 and s.base in ('add', 'sub', 'and', 'orr', 'eor', 'lsl', 'lsr', 'asr', 'mul', 'rsb', 'bic', 'vadd', 'vsub', 'vmul', 'veor', 'vand', 'vorr', 'vmax', 'vmin', 'vpadd', 'vshl', 'vshr', 'vqadd', 'vqsub'):
            s.reads += d
        s.writes += d

    def __repr__(s):
        return s.text


class Asm:
    """an asm statement in one instantiation"""
    def __init__(s, stmt, arch, consts):
        _, s.line, s.template, outs, ins, s.clobbers, s.volatile = stmt[:7]
        s.arch = arch
        s.outs = {n: (c, e) for c, e, n in outs}
        s.ins = {n: (c, e) for c, e, n in ins}
        s.unnamed = [n for c, e, n in list(outs) + list(ins) if not n]
        s.code, s.labels = [], {}
        for l in lines(s.template, consts):
            while True:
                m = re.match(r'(\w+):\s*(.*)$', l)
                if not m:
                    break
                s.labels.setdefault(m.group(1), []).append(len(s.code))
                l = m.group(2)
            if not l or l.startswith('.p2align') or l.startswith('.align') or l.startswith('.balign'):
                continue
            s.code.append(Ins(l, arch))
        s.succ = []
        n = len(s.code)
        for i, c in enumerate(s.code):
            nx = [i + 1]
            if c.kind in ('branch', 'cbranch'):
                t = s.goto(c.target, i)
                nx = [t] if c.cond in (None, 'al') else [i + 1, t]
            s.succ.append(nx)

    def goto(s, t, at):
        m = re.match(r'(\w+?)([fb])$', t)
        if m and m.group(1) in s.labels:
            c = s.labels[m.group(1)]
            c = [x for x in c if x > at] if m.group(2) == 'f' else [x for x in c if x <= at]
            if c:
                return min(c) if m.group(2) == 'f' else max(c)
        if t in s.labels:
            return s.labels[t][0]
        raise Unknown('label ' + t)

    def reach(s):
        seen, todo = set(), [0]
        while todo:
            i = todo.pop()
            if i in seen or i >= len(s.code):
                continue
            seen.add(i)
            todo += s.succ[i]
        return seen


def statements(n):
    if isinstance(n, list):
        if n and n[0] == 'asm':
            yield n
            return
        for x in n:
            if isinstance(x, (list, dict)):
                yield from statements(x)
    elif isinstance(n, dict):
        for x in n.values():
            if isinstance(x, (list, dict)):
                yield from statements(x)


def constants(stmt):
    out = {}
    for c, e, n in stmt[4]:
        if c == 'i':
            while e[0] in ('cast', 'paren'):
                e = e[3]
            if e[0] == 'int':
                out[n] = int(e[1])
            elif e[0] == 'bool':
                out[n] = int(e[1])
            elif e[0] in ('enum',):
                out[n] = int(e[2])
            elif e[0] == 'gvar':
                raise Unknown('constant operand ' + n)
            else:
                raise Unknown('constant operand ' + n)
    return out
