"""C18: detected pointer increments are the distance the addresses of a block really move."""
import copy
import io
import re

from symx.runner import Case
from kerncraft import incore_model

ASSUMPTIONS = ['OSACA parses assembly correctly (AArch64: apart from shifts of added registers, '
               'which it drops)',
               'registers in addresses are changed by the block with constants only, or '
               'recomputed from such', 'a block is executed again and again',
               'increments are neither zero nor cancel each other']

_lines = {}
_parsers = {}


def parse(isa, text):
    """instruction forms of OSACA, fresh copies"""
    from osaca.parser import get_parser
    from osaca.semantics import ISASemantics
    if isa not in _parsers:
        from osaca import osaca
        p = get_parser(isa, syntax='att')
        model = osaca.MachineModel(arch='csx' if isa == 'x86' else 'a64fx')
        _parsers[isa] = p, osaca.ArchSemantics(p, machine_model=model), ISASemantics(p)
    p, arch, sem = _parsers[isa]
    res = []
    for n, l in enumerate(text):
        if (isa, l) not in _lines:
            f = p.parse_line(l, 1)
            arch.normalize_instruction_forms([f])
            sem.assign_src_dst(f)
            _lines[isa, l] = f
        f = copy.deepcopy(_lines[isa, l])
        f.line_number = n + 1
        res.append(f)
    return res


def fill(form, values):
    """exchange placeholder immediates for (symbolic) values"""
    seen = set()

    def visit(o):
        if id(o) in seen or o is None or isinstance(o, (str, int, float, bool)):
            return
        seen.add(id(o))
        if isinstance(o, dict):
            for k, v in o.items():
                if str(v) in values and not isinstance(v, (dict, list)):
                    o[k] = values[str(v)]
                else:
                    visit(v)
        elif isinstance(o, (list, tuple)):
            for v in o:
                visit(v)
        elif type(o).__module__.startswith('osaca.parser'):
            for k, v in list(vars(o).items()):
                if k in ('_value', 'value') and str(v) in values:
                    setattr(o, k, values[str(v)])
                else:
                    visit(v)
    visit(form.operands)
    visit(form.semantic_operands)
    return form


# ---------------------------------------------------------------- meaning of the instructions
class X86:
    isa = 'x86'
    label, jump = '.L3:', 'jne .L3'

    @staticmethod
    def address(text, regs, val):
        m = re.match(r'([^(]*)\(([^)]*)\)$', text)
        disp, inner = m.groups()
        if 'rip' in inner:
            return None
        parts = [p.strip() for p in inner.split(',')] + ['', '']
        a = val(disp) if disp else 0
        if parts[0]:
            a = a + regs[parts[0]]
        if parts[1]:
            a = a + regs[parts[1]] * (int(parts[2]) if parts[2] else 1)
        return a

    @classmethod
    def step(cls, text, regs, val):
        """executes one instruction, returns [(is store, address)]"""
        mn, _, rest = text.partition(' ')
        ops = [o.strip() for o in re.split(r',(?![^(]*\))', rest)] if rest else []
        acc = []
        for n, o in enumerate(ops):
            if '(' in o and not mn.startswith('lea'):
                a = cls.address(o, regs, val)
                last = n == len(ops) - 1
                if a is not None:
                    rmw = last and mn.startswith(('add', 'inc', 'dec', 'sub'))
                    if not last or rmw:
                        acc.append((False, a))
                    if last:
                        acc.append((True, a))
        if not ops or '(' in ops[-1]:
            return acc
        d = ops[-1]
        if mn == 'incq':
            regs[d] = regs[d] + 1
        elif mn == 'decq':
            regs[d] = regs[d] - 1
        elif mn in ('addq', 'subq'):
            v = val(ops[0][1:]) if ops[0][0] == '$' else regs[ops[0]]
            regs[d] = regs[d] + v if mn == 'addq' else regs[d] - v
        elif mn == 'imulq':
            regs[d] = regs[d] * val(ops[0][1:])
        elif mn == 'leaq':
            regs[d] = cls.address(ops[0], regs, val)
        elif mn == 'movq':
            regs[d] = regs[ops[0]] if ops[0] in regs else regs['@' + d]
        return acc


class A64:
    isa = 'aarch64'
    label, jump = '.L3:', 'bne .L3'

    @staticmethod
    def reg(r):
        return r.replace('w', 'x') if r[0] == 'w' else r

    @classmethod
    def shifted(cls, ops, regs, val):
        o = ops[0]
        v = regs[cls.reg(o)] if re.match(r'([xw]\d+|sp)$', o) else val(o.lstrip('#'))
        if len(ops) > 1:
            v = v * 2 ** int(ops[1].split()[-1].lstrip('#'))
        return v

    @classmethod
    def step(cls, text, regs, val):
        mn, _, rest = text.partition(' ')
        m = re.match(r'([^\[]*)\[([^\]]*)\](!?)(?:\s*,\s*(\S+))?$', rest)
        if m:
            inner = [x.strip() for x in m.group(2).split(',')]
            base = cls.reg(inner[0])
            off = cls.shifted(inner[1:], regs, val) if len(inner) > 1 else 0
            a = regs[base] + off
            if m.group(3):
                regs[base] = a
            if m.group(4):
                regs[base] = regs[base] + cls.shifted([m.group(4)], regs, val)
            return [(mn.startswith('st'), a)]
        ops = [o.strip() for o in rest.split(',')]
        if mn in ('add', 'adds', 'sub', 'subs'):
            s = cls.shifted(ops[2:], regs, val)
            b = regs[cls.reg(ops[1])]
            regs[cls.reg(ops[0])] = b + s if mn[:3] == 'add' else b - s
        elif mn == 'lsl':
            regs[cls.reg(ops[0])] = regs[cls.reg(ops[1])] * 2 ** int(ops[2].lstrip('#'))
        elif mn == 'mov':
            regs[cls.reg(ops[0])] = regs[cls.reg(ops[1])]
        return []


X86_MEM = ['(%rax)', '_o1(%rax)', '(%rax,%rbx,8)', '(%rbx,%rax,8)', '_o2(%rcx,%rax,4)',
           '(%rbx,%rax)', '_o3(,%rax,8)', '-24(%rsp)', 's(%rip)', '(%rbx)']
X86_MOD = ['', 'addq $_i1, %rax', 'subq $_i2, %rax', 'incq %rax', 'decq %rax',
           'leaq _i3(%rax), %rax', 'leaq _i4(,%rax), %rax', 'addq $_i5, %rbx', 'incq %rbx',
           'subq $_i1, %rbx', 'leaq _i3(%rcx), %rax', 'incq -8(%rsp)', 'addq $_i1, -16(%rsp)',
           'leaq (%rax), %rdx', 'movq %rax, %rdx', 'leaq _i3(%rax,%rcx), %rdx',
           'cmpq %rax, %rcx', 'movq -8(%rsp), %rbx', 'addq %rdx, (%rbx,%rax,8)',
           'incq (%rbx)', 'subq $1, _o2(%rax)']
A64_MEM = ['[x0]', '[x0, _o1]', '[x0, x1]', '[x0, x1, lsl 3]', '[x0], _i1', '[x0, _i2]!',
           '[sp, 16]', '[x2, x1, lsl 2]', '[x2]', '[x2, x1]', '[x3]']
A64_MOD = ['', 'add x0, x0, _i3', 'sub x0, x0, _i4', 'subs x0, x0, _i4', 'add x1, x1, _i5',
           'sub x1, x1, _i5', 'add x2, x2, _i6', 'adds x1, x1, 1', 'lsl x3, x1, 3',
           'add x3, x0, x1', 'sub x3, x0, x1', 'sub x3, x1, x0', 'add x2, x4, x3',
           'add x3, x4, x1, lsl 3', 'sub x5, x5, _i6', 'lsl x3, x0, 1', 'cmp x0, x5',
           'ld1 {v1.2d}, [x0], x5']
# changes of a register that are no increments by constants
UNKNOWN = {'x86': ['leaq _i3(%rax,%rcx), %rax', 'leaq _i3(%rcx,%rax), %rax', 'addq %rcx, %rax',
                   'subq %rcx, %rax', 'leaq _i3(%rax,%rax), %rax', 'leaq _i3(%rcx), %rax',
                   'imulq $_i1, %rax', 'leaq _i3(,%rax,2), %rax', 'leaq _i4(,%rcx), %rax'],
           'aarch64': ['add x0, x0, x5', 'sub x0, x0, x5', 'add x0, x5, _i3', 'sub x0, x5, _i3',
                       'lsl x0, x0, 1', 'add x0, x0, x0', 'add x0, x5, x0',
                       'ld1 {v1.2d}, [x0], x5']}
ARCH = {'x86': (X86, X86_MEM, X86_MOD, 'movsd %xmm0, {}', 'movsd {}, %xmm1',
                ['%' + r for r in 'rax rbx rcx rdx rsp'.split()]),
        'aarch64': (A64, A64_MEM, A64_MOD, 'str d0, {}', 'ldr d1, {}',
                    ['x0', 'x1', 'x2', 'x3', 'x4', 'x5', 'sp'])}
PLACE = {'_o1': '7001', '_o2': '7002', '_o3': '7003', '_i1': '7101', '_i2': '7102',
         '_i3': '7103', '_i4': '7104', '_i5': '7105', '_i6': '7106'}


class Regs(dict):
    def __init__(self, *a):
        dict.__init__(self, *a)
        self.writes = {}

    def __setitem__(self, n, v):
        dict.__setitem__(self, n, v)
        self.writes[n] = self.writes.get(n, 0) + 1


# instructions that any detection has to understand
SIMPLE = re.compile(r'(movsd|str|ldr) |(incq|decq) %|(incq|addq) .*\(|(addq|subq) \$|cmp|'
                    r'(add|sub)s? (x\d), \6, (_i|\d)')


def run(ctx, isa, program):
    """real result and the movement of each access (None: it does not move evenly)"""
    arch, _, _, _, _, names = ARCH[isa]
    env = {}
    for p in PLACE:
        if any(p in l for l in program):
            if p[1] == 'o':
                env[p] = ctx.int(p, -4096, 4096)
            else:
                env[p] = ctx.int(p, -4096, 4095) if isa == 'x86' else ctx.int(p, 1, 4095)
                ctx.assume(env[p] != 0)
    text = []
    for l in program:
        for p, v in PLACE.items():
            l = l.replace(p, v if ctx.symbolic else str(env.get(p)))
        text.append(l)
    forms = parse(isa, [arch.label] + text + [arch.jump])
    if ctx.symbolic:
        for f in forms:
            fill(f, {PLACE[p]: v for p, v in env.items()})
    incore_model.find_increment_in_cache = lambda block: None
    found = incore_model.ISA.get_isa(isa).get_pointer_increment(forms)

    def val(t):
        return env[t] if t in env else int(t) if re.match(r'-?\d+$', t) else 4242
    regs = {n: ctx.int('reg_' + n.strip('%'), 0, 10 ** 9) for n in names}
    regs.update({'@' + n: v for n, v in list(regs.items())})    # spilled values
    regs = Regs(regs)
    rounds = []
    for _ in range(4):
        acc = []
        for l in program:
            acc += arch.step(l, regs, val)
        rounds.append(acc)
    # values computed in the first round from initial registers settle after one round
    moves = []
    for (store, b), (_, c), (_, d) in zip(*rounds[1:]):
        moves.append((store, c - b, d - c))
    once = all(n == 4 for n in regs.writes.values())
    simple = once and all(SIMPLE.match(l) for l in program)
    return found, moves, simple


def verify(ctx, program, found, moves, simple):
    stores = [(a, b) for s, a, b in moves if s]
    loads = [(a, b) for s, a, b in moves if not s]
    moving = ctx.any([ctx.any([a != 0, b != 0]) for a, b in stores] or [False])
    if found is None:
        if simple:
            used = stores if ctx.fork(moving) else [] if stores else loads
            if used and ctx.fork(ctx.all([ctx.any([a == 0, a == used[0][0]])
                                          for a, b in used] + [used[0][0] != 0])):
                ctx.fail('detected', '; '.join(program))
        return
    def right(acc):
        return ctx.all([ctx.any([ctx.all([a == 0, b == 0]), ctx.all([a == found, b == found])])
                        for a, b in acc] or [True])
    ctx.check(right(stores), 'distance of stores', 'found %r in %s' % (found, '; '.join(program)))
    if not ctx.fork(moving):
        ctx.check(right(loads), 'distance of loads',
                  'found %r in %s' % (found, '; '.join(program)))


def h_detect(ctx, isa, first, slots):
    arch, mem, mod, store, load, _ = ARCH[isa]
    program = []
    for n, s in enumerate(slots):
        if s == 'first':
            program.append(store.format(first))
        elif s in ('store', 'load'):
            program.append((store if s == 'store' else load).format(ctx.choice('%s%d' % (s, n), mem)))
        else:
            program.append(ctx.choice('mod%d' % n, mod))
    program = [p for p in program if p]
    verify(ctx, program, *run(ctx, isa, program))


def h_unknown(ctx, isa, first):
    """a register that moves in another way: its distance is not made up"""
    arch, mem, mod, store, load, _ = ARCH[isa]
    access = ctx.choice('access', [store, load])
    known = ctx.choice('known', {'x86': ['', 'addq $_i5, %rax', 'incq %rax'],
                                 'aarch64': ['', 'add x0, x0, _i4', 'sub x0, x0, _i4']}[isa])
    program = [access.format(first), ctx.choice('unknown', UNKNOWN[isa] + ['']), known]
    if ctx.choice('behind', [False, True]):
        program = program[1:] + program[:1]
    program = [p for p in program if p]
    verify(ctx, program, *run(ctx, isa, program))


X86_BLOCK = [['vmovupd (%rsi,%rax,8), %ymm0', 'vaddpd %ymm0, %ymm1, %ymm0'],
             ['vmovupd (%rsi,%rax,8), %ymm0', 'vmulpd %ymm0, %ymm1, %ymm2',
              'vmovupd %ymm2, (%rdi,%rax,8)'],
             ['movsd (%rsi,%rax,8), %xmm0', 'addsd %xmm0, %xmm1', 'mulsd %xmm0, %xmm1',
              'subsd %xmm0, %xmm2', 'movsd %xmm1, (%rdi,%rax,8)'],
             ['movsd (%rsi,%rax,8), %xmm0', 'movsd %xmm0, (%rdi,%rax,8)'],
             ['movupd (%rsi), %xmm0', 'addpd %xmm0, %xmm1', 'movupd %xmm1, (%rax)'],
             ['cmpl $3, %ecx']]
A64_BLOCK = [['ldr q0, [x0]', 'fadd v1.2d, v0.2d, v2.2d'],
             ['ldr q0, [x0]', 'fmul v1.2d, v0.2d, v2.2d', 'fadd v1.2d, v1.2d, v2.2d',
              'str q1, [x0]'],
             ['ldr d0, [x0]', 'fadd d1, d0, d2', 'fmul d1, d1, d2', 'fsub d1, d1, d2',
              'str d1, [x0]'],
             ['ldr d0, [x0]', 'str d0, [x0]'], ['cmp w3, 7']]
STEP = {'x86': ['addq $8, %rax', 'incq %rax', 'addq %rcx, %rax'],
        'aarch64': ['add x0, x0, 8', 'sub x0, x0, 16', 'add x0, x0, x5']}
VECTOR = {'x86': re.compile(r'v?(movu|add|mul|sub|div|fmadd\d*)p[sd] '),
          'aarch64': re.compile(r'\bv\d')}


class Out(io.StringIO):
    name = '/out'


def marked(text):
    """lines before, within and after the markers, without these, and increments named"""
    parts = [[], [], []]
    part, incs = 0, []
    skip = ('movl ', 'mov ', '.byte', '# OSACA', '# LLVM', '//')
    for l in text:
        incs += re.findall(r'pointer_increment=(\S+)', l)
        if re.search(r'START MARKER|BEGIN', l):
            part = 1
        elif re.search(r'END MARKER|END', l):
            part = 2
        if re.search(r'MARKER|\$111|\$222|#111|#222|\.byte|# pointer|// pointer', l):
            continue
        parts[part].append(l)
    return parts, incs


def h_mark(ctx, isa, count, how):
    pool = X86_BLOCK if isa == 'x86' else A64_BLOCK
    bodies = [ctx.choice('block%d' % n, pool) for n in range(count)]
    jump = 'jne' if isa == 'x86' else 'bne'
    lines, blocks = [], []
    for n, b in enumerate(bodies):
        lines += [b[0]] if ctx.choice('between%d' % n, [False, True]) else []
        block = ['.L%d:' % (n + 3)] + b + [STEP[isa][ctx.choice('step%d' % n, [0, 1, 2])
                                                    if how == 'detect' else 0]] + \
            [('cmpq %rax, %rcx' if isa == 'x86' else 'cmp x0, x9'), '%s .L%d' % (jump, n + 3)]
        blocks.append((len(lines), block))
        lines += block
    lines.append('ret')
    incore_model.parse_asm = lambda code, isa, arch=None: parse(isa, code.rstrip('\n').split('\n'))
    incore_model.detect_x86_syntax = lambda code: 'ATT'
    incore_model.find_increment_in_cache = lambda block: None
    removed = []

    class OS:
        path = incore_model.os.path

        @staticmethod
        def unlink(path):
            removed.append(path)
    incore_model.os = OS
    number = None
    if how == 'number':
        number = ctx.choice('number', list(range(count + 1)) + [-1])
    inc = ctx.choice('increment', [8, -64]) if how != 'detect' else 'auto'
    out = Out()
    try:
        got, found = incore_model.asm_instrumentation(
            io.StringIO('\n'.join(lines) + '\n'), out, isa=isa, pointer_increment=inc,
            block_selection='auto' if number is None else number)
    except RuntimeError:
        ctx.check(how == 'detect', 'increment was given')
        ctx.check(removed == ['/out'], 'no result without increment')
        chosen = [n for n, (_, b) in enumerate(blocks)
                  if best(ctx, isa, bodies, n) and (STEP[isa][2] in b or unknown(b))]
        ctx.check(chosen != [], 'increment is detected')
        return
    except ValueError:
        ctx.check(number is not None and not 0 <= number < count, 'block exists')
        return
    ctx.check(number is None or 0 <= number < count, 'block does not exist')
    ctx.check(removed == [], 'result is kept')
    text = out.getvalue().rstrip('\n').split('\n')
    (before, inside, after), incs = marked(text)
    label = [l.line for l in got][0]
    n = [b[0] for _, b in blocks].index(label)
    start, block = blocks[n]
    ctx.check([l.line for l in got] == block, 'block returned')
    ctx.check(before == lines[:start], 'code in front of the block', repr(text))
    ctx.check(inside == block, 'code of the block', repr(text))
    ctx.check(after == lines[start + len(block):], 'code behind the block', repr(text))
    ctx.check(incs and set(incs) == {str(found)}, 'increment is noted', repr(incs))
    if how == 'detect':
        ctx.check(STEP[isa][2] not in block, 'unknown increment')
    else:
        ctx.check(found == inc, 'increment as given')
    if number is None:
        ctx.check(best(ctx, isa, bodies, n), 'best block')
    else:
        ctx.check(n == number, 'block of that number')


def unknown(block):
    """nothing in memory is accessed, hence no movement can be seen"""
    return not any(re.search(r'[(\[]', l) for l in block)


def best(ctx, isa, bodies, n):
    vector = [sum(len(VECTOR[isa].findall(l)) if isa != 'x86' else bool(VECTOR[isa].match(l))
                  for l in b) for b in bodies]
    same = [b for b in bodies if b == bodies[n]]
    first = [m for m, b in enumerate(bodies) if b == bodies[n]][0]
    return vector[n] == max(vector) and (first == n or len(same) == 1)


def cases(tier):
    q = tier == 'quick'
    cs = []
    for isa in ARCH:
        mem = ARCH[isa][1]
        for n, m in enumerate(mem):
            if 'sp' in m or 'rip' in m:     # does not move
                continue
            for slots in (('first', 'mod', 'mod'), ('mod', 'first', 'store', 'mod')) + (() if q else (
                    ('mod', 'first', 'mod', 'mod'), ('first', 'store', 'mod', 'mod'))):
                cs.append(Case('%s-%d-%s' % (isa, n, '-'.join(slots)), h_detect, isa=isa, first=m,
                               slots=slots, max_paths=50000, time=100 if q else 1500))
        cs.append(Case('%s-loads' % isa, h_detect, isa=isa, first=None,
                       slots=('load', 'load', 'mod', 'mod')[0 if not q else 1:], max_paths=100000,
                       time=100 if q else 1500))
        for m in ['(%rax)', '_o1(%rax)', '_o2(%rcx,%rax,4)'] if isa == 'x86' else [
                '[x0]', '[x0, _o1]', '[x2, x0, lsl 2]', '[x0, _i2]!']:
            cs.append(Case('%s-unknown-%s' % (isa, m), h_unknown, isa=isa, first=m,
                           max_paths=100000, time=100 if q else 1500,
                           bounds='one register', reach=['distance of stores']))
        for how in ('given', 'number', 'detect'):
            cs.append(Case('%s-mark-%s' % (isa, how), h_mark, isa=isa, count=2 if q else 3,
                           how=how, max_paths=100000, time=100 if q else 1500,
                           reach=['code of the block'],
                           bounds='files of %d loops' % (2 if q else 3)))
    return cs
