"""C25: in-core results are what the analyzer chosen reports about the marked section."""
import os
import shutil
import subprocess
import tempfile

from symx.runner import Case
from kerncraft import incore_model
from checks.c23 import Bytes

ASSUMPTIONS = ['the analyzers print what they find in the format of llvm-mca 18, IACA 2/3 and '
               'return it as OSACA 0.7 does', 'numbers printed are read as exact reals']

HEAD = ['\t.file "k.c"', 'before:', '\taddq $8, %rdx', '\tvaddpd %ymm0, %ymm1, %ymm1', '\tjne before']
BODY = ['.L4:', '\tvmovupd (%rax), %ymm0', '\tvaddpd %ymm0, %ymm1, %ymm1', '\taddq $32, %rax',
        '\tcmpq %rax, %rcx', '\tjne .L4']
TAIL = ['\tvmovupd %ymm1, (%rdx)', '\tret']
ARM_HEAD = ['before:', '\tadd x3, x3, 8', '\tfadd d1, d1, d2', '\tbne before']
ARM_BODY = ['.L4:', '\tldr q0, [x1, x0]', '\tfadd v1.2d, v0.2d, v1.2d', '\tadd x0, x0, 16',
            '\tcmp x0, x2', '\tbne .L4']
MARKS = {'x86': (['\tmovl $111, %ebx # OSACA START MARKER', '\t.byte 100 # OSACA START MARKER',
                  '\t.byte 103 # OSACA START MARKER', '\t.byte 144 # OSACA START MARKER'],
                 ['\tmovl $222, %ebx # OSACA END MARKER', '\t.byte 100 # OSACA END MARKER',
                  '\t.byte 103 # OSACA END MARKER', '\t.byte 144 # OSACA END MARKER']),
         'aarch64': (['\tmov x1, #111', '\t.byte 213,3,32,31'],
                     ['\tmov x1, #222', '\t.byte 213,3,32,31'])}


MODELS = {}


def number(ctx, name, hi=1000):
    """decimal number as printed with two digits"""
    return ctx.int(name, 0, hi * 100) / 100


def fast_models(real):
    """machine models of OSACA are read from its files once"""
    def load(arch=None, **kw):
        key = (arch, tuple(sorted(kw.items())))
        if key not in MODELS:
            MODELS[key] = real.MachineModel(arch=arch, **kw)
        return MODELS[key]
    load.get_isa_for_arch = real.MachineModel.get_isa_for_arch

    class Stand(type(os)):
        MachineModel = staticmethod(load)

        def __getattr__(self, name):
            return getattr(real, name)
    incore_model.osaca = Stand('osaca')
    return Stand


class Tools:
    """replaces the programs run"""

    def __init__(self, output, fail=None):
        self.output, self.fail, self.calls = output, fail, []

    def install(self):
        tools = self

        class Done:
            returncode = 0
            stderr = b''

        def check_output(cmd, *a, **kw):
            tools.calls.append((list(cmd), kw.get('input')))
            if tools.fail:
                raise tools.fail
            if kw.get('text') or kw.get('universal_newlines') or kw.get('encoding'):
                return tools.output
            return Bytes(tools.output)

        def run(cmd, *a, **kw):
            d = Done()
            d.stdout = check_output(cmd, *a, **kw)
            return d
        incore_model.subprocess = type('S', (), {
            'check_output': staticmethod(check_output), 'run': staticmethod(run), 'PIPE': -1,
            'STDOUT': -2, 'CalledProcessError': subprocess.CalledProcessError,
            'SubprocessError': subprocess.SubprocessError})


class Scratch:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='c25-')
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir)

    def file(self, lines):
        name = os.path.join(self.dir, 'kernel-marked.s')
        with open(name, 'w', encoding='utf-8') as f:
            f.write('\n'.join(lines) + '\n')
        return name


def largest(ctx, values):
    r = values[0]
    for v in values[1:]:
        r = ctx.ite(v > r, v, r)
    return r


# ------------------------------------------------------------------ LLVM-MCA
PORTS = {'SKX': [('0', 'SKXDivider'), ('1', 'SKXFPDivider'), ('2', 'SKXPort0'), ('3', 'SKXPort1'),
                 ('4', 'SKXPort2')],
         'SNB': [('0', 'SBDivider'), ('1', 'SBPort0'), ('2', 'SBPort1'), ('6.0', 'SBPort23'),
                 ('6.1', 'SBPort23')],
         'TX2': [('0.0', 'THX2T99P0'), ('1.0', 'THX2T99P1'), ('1.1', 'THX2T99P1'),
                 ('1.2', 'THX2T99P1'), ('2', 'THX2T99P2')]}


def h_llvm(ctx, cpu, isa='x86'):
    """numbers of any value in the output"""
    ports = PORTS[cpu]
    pressure = []
    fast_models(incore_model.osaca)
    idle = ctx.choice('idle', [(), (0, 3), (1, 2)])
    for n, (i, p) in enumerate(ports):
        pressure.append(None if n in idle else number(ctx, 'port %s' % i))
    iterations = ctx.int('iterations', 1, 1000)
    cycles = ctx.int('cycles', 1, 10 ** 6)
    uops = ctx.int('uops', 1, 10 ** 6)
    first = ctx.choice('first dispatch', [0, 3])
    retired = ctx.choice('retired', [(5, 9), (12, 4), (11, 11)])
    timeline = ['[0,0]     ' + '.' * first + 'D' + 'e' * (retired[0] - first - 1) + 'ER' + ' .',
                '[0,1]     ' + ' ' * first + '.D' + '=' * (retired[1] - first - 1) + 'R',
                '[1,0]     ' + 'D' + 'e' * 40 + 'R',
                '[10,0]     ' + 'D' + 'e' * 45 + 'R']
    ends = (retired[0] + 1, retired[1] + 1)
    for n in range(len(timeline)):
        timeline[n] = timeline[n].ljust(70) + ' vmovupd\t(%RDX), %ymm0'
    output = (
        'Iterations:        %s\nInstructions:      500\nTotal Cycles:      %s\n'
        'Total uOps:        %s\n\nDispatch Width:    6\nuOps Per Cycle:    1.22\nIPC:'
        '               1.22\nBlock RThroughput: 0.8\n\n\nInstruction Info:\n[1]: #uOps\n'
        '[2]: Latency\n\n[1]    [2]    [3]    [4]    [5]    [6]    Instructions:\n'
        ' 1      7     0.50    *                   vmovupd\t(%%rax), %%ymm0\n\n\nResources:\n%s\n\n'
        'Resource pressure per iteration:\n%s\n%s\n\nResource pressure by instruction:\n%s'
        'Instructions:\n%svmovupd\t(%%rax), %%ymm0\n\n\nTimeline view:\n'
        '                    0123456789      \nIndex     0123456789          012345\n\n%s\n\n\n'
        'Average Wait times (based on the timeline view):\n[0]: Executions\n\n'
        '      [0]    [1]    [2]    [3]\n0.     4     1.8    0.3    4.5       vmovupd\n' % (
            iterations, cycles, uops,
            '\n'.join('[%s]'.ljust(7) % i + ' - ' + p for i, p in ports),
            ''.join('[%s]    ' % i for i, p in ports),
            ''.join(' -     ' if c is None else ' %s  ' % c for c in pressure),
            ''.join('[%s]    ' % i for i, p in ports), ' 0.5    ' * len(ports),
            '\n'.join(timeline)))
    tools = Tools(output)
    tools.install()
    start, end = MARKS[isa]
    head, body = (HEAD, BODY) if isa == 'x86' else (ARM_HEAD, ARM_BODY)
    with Scratch() as s:
        r = incore_model.llvm_mca_analyse_instrumented_assembly(
            s.file(head + start + body + end + TAIL[1:]), '-mcpu=xyz -march=abc', isa=isa)
    (cmd, text), = tools.calls
    ctx.check(cmd[0] == 'llvm-mca' and '-mcpu=xyz' in cmd and '-march=abc' in cmd, 'command')
    if not isinstance(text, str):
        text = text.decode('utf-8')
    lines = [l.strip() for l in text.split('\n') if l.strip()]
    ctx.check(lines == [l.strip() for l in body], 'section analysed', repr(text))
    names = list(dict.fromkeys(p for i, p in ports))
    ctx.check(list(r['port cycles']) == names, 'ports', str(list(r['port cycles'])))
    for name in names:
        v = [0 if c is None else c for (i, p), c in zip(ports, pressure) if p == name]
        ctx.check(r['port cycles'][name] == largest(ctx, v), 'cycles of port', name)
    ctx.close(r['throughput'] * iterations, cycles, 'throughput')
    ctx.close(r['lcd'] * iterations, cycles, 'loop-carried dependency')
    ctx.close(r['uops'] * iterations, uops, 'uops')
    ctx.check(r['cp_latency'] == max(ends) - first, 'critical path', str(r['cp_latency']))
    ctx.check(r['output'] == output, 'output')


# ------------------------------------------------------------------ IACA
IACA = {'NHM': ('iaca2.2', True), 'WSM': ('iaca2.2', True), 'SNB': ('iaca2.3', True),
        'IVB': ('iaca2.3', True), 'HSW': ('iaca3.0', False), 'BDW': ('iaca3.0', False),
        'SKL': ('iaca3.0', False), 'SKX': ('iaca3.0', False)}


def iaca_setup(ctx, tools, found=True):
    tools.install()
    incore_model.iaca_get = type('G', (), {'find_iaca': staticmethod(lambda: '/scratch/iaca')})
    asked = []

    def find_executable(name, *a):
        asked.append(name)
        return '/scratch/iaca/' + name if found else None
    incore_model.find_executable = find_executable
    return asked


def h_iaca(ctx, archs):
    """numbers of any value in the output"""
    arch = ctx.choice('architecture', archs)
    block = number(ctx, 'throughput')
    uops = ctx.int('uops', 1, 10 ** 5)
    ports = [('0', 'DV'), ('1', None), ('2', 'D'), ('3', 'D'), ('4', None), ('5', None)]
    want, top, low = {}, '|  Port  |', '| Cycles |'
    for p, sub in ports:
        v = want[p] = number(ctx, 'port ' + p)
        if sub:
            w = want[p + sub] = number(ctx, 'port ' + p + sub)
            top += '  %s   -  %s   |' % (p, sub)
            low += ' %s   %s  |' % (v, w)
        else:
            top += '   %s  |' % p
            low += ' %s |' % v
    output = (
        'Intel(R) Architecture Code Analyzer Version -  %s\nAnalyzed File -  k.o\nBinary Format - '
        '64Bit\nArchitecture  -  %s\nAnalysis Type - Throughput\n\nThroughput Analysis Report\n'
        '--------------------------\nBlock Throughput: %s Cycles       Throughput Bottleneck: '
        'Backend\nLoop Count:  22\nPort Binding In Cycles Per Iteration:\n%s\n%s\n%s\n%s\n%s\n\n'
        'DV - Divider pipe (on port 0)\n\n| Num Of   |                    Ports pressure in cycles'
        '                         |\n|  Uops  |  0  - DV    |  1   |\n%s\n'
        '|   1    |             |      | 0.5     0.5 |   vmovupd ymm0, ymmword ptr [rax]\n'
        'Total Num Of Uops: %s\nAnalysis Notes:\nBackend allocation was stalled\n' % (
            'v3.0', arch, block, '-' * 60, top, '-' * 60, low, '-' * 60, '-' * 60, uops))
    tools = Tools(output)
    asked = iaca_setup(ctx, tools)
    r = incore_model.iaca_analyse_instrumented_binary('/scratch/kernel.o', arch)
    (cmd, text), = tools.calls
    name, bits = IACA[arch]
    ctx.check(os.path.basename(cmd[0]) == name and asked == [name], 'version of IACA', str(cmd))
    ctx.check(('-64' in cmd) == bits, '64 bit')
    ctx.check(cmd[cmd.index('-arch') + 1] == arch and cmd[-1] == '/scratch/kernel.o', 'command')
    ctx.check('/scratch/iaca' in os.environ['PATH'].split(':'), 'path')
    ctx.check(r['throughput'] == block, 'throughput')
    ctx.check(r['uops'] == uops, 'uops')
    ctx.check(sorted(r['port cycles']) == sorted(want), 'ports', str(list(r['port cycles'])))
    for p, v in want.items():
        ctx.check(r['port cycles'][p] == v, 'cycles of port', p)
    ctx.check(r['output'] == output and r['cp_latency'] is None and r['lcd'] is None, 'others')


def h_iaca_fails(ctx):
    """no results are made up"""
    what = ctx.choice('what', ['architecture', 'missing', 'no program', 'fails', 'no throughput',
                               'no ports', 'no uops'])
    good = {'no throughput': 'Block Throughput: 2.0 Cycles\n',
            'no ports': '|  Port  |  0  |\n| Cycles | 1.0 |\n', 'no uops': 'Total Num Of Uops: 7\n'}
    output = ''.join(t for k, t in good.items() if k != what)
    fail = {'no program': OSError('x'), 'fails': subprocess.CalledProcessError(1, ['iaca'])}
    tools = Tools(output, fail.get(what))
    iaca_setup(ctx, tools, what != 'missing')
    arch = 'SKX' if what != 'architecture' else ctx.choice('name', ['skx', 'ZEN', ''])
    try:
        r = incore_model.iaca_analyse_instrumented_binary('/scratch/kernel.o', arch)
    except (ValueError, RuntimeError, AssertionError, AttributeError):
        r = None
    ctx.check(r is None, 'failure is reported', '%s: %s' % (what, r))


# ------------------------------------------------------------------ OSACA
def h_osaca(ctx, isa='x86'):
    """any cycles and latencies"""
    real = incore_model.osaca
    arch = 'SKX' if isa == 'x86' else 'A64FX'
    order, graphs = [], []
    model = real.MachineModel(arch=arch)
    ports = list(model['ports'])
    n_sym = 3
    values = [ctx.real('port %d' % n, 0, 1000) if n < n_sym else float(n % 3)
              for n in range(len(ports))]
    deps = ctx.choice('dependencies', [0, 1, 2])
    lat = [ctx.real('dependency %d' % n, 0, 1000) for n in range(deps)]
    path = [ctx.real('latency %d' % n, 0, 1000) for n in range(ctx.choice('path', [0, 1, 3]))]
    ratio = ctx.choice('unmatched', [0.0, 0.5])
    optimal = ctx.choice('optimal', [True, False])

    class Semantics(real.ArchSemantics):
        def add_semantics(self, kernel):
            order.append('add')
            return super().add_semantics(kernel)

        def assign_optimal_throughput(self, kernel, *a):
            order.append('assign')

        def normalize_instruction_forms(self, kernel):
            order.append('normalize')
            return super().normalize_instruction_forms(kernel)

        def get_throughput_sum(self, kernel):
            order.append('sum')
            order.append([l.line.strip() for l in kernel])
            return list(values)

    class Graph:
        def __init__(self, kernel, parser, mm, semantics, *a, **kw):
            self.kernel = kernel
            graphs.append(self)

        def get_loopcarried_dependencies(self):
            return {n: {'latency': v, 'root': None, 'dependencies': []} for n, v in enumerate(lat)}

        def get_critical_path(self):
            return [type('F', (), {'latency_cp': v}) for v in path]

    class Frontend:
        def __init__(self, *a, **kw):
            pass

        def full_analysis(self, kernel, graph, *a, **kw):
            return 'the analysis'

    Stand = fast_models(real)
    Stand.ArchSemantics, Stand.KernelDG = Semantics, Graph
    Stand.get_unmatched_instruction_ratio = staticmethod(lambda kernel: ratio)
    Stand.Frontend = Frontend
    start, end = MARKS[isa]
    head, body = (HEAD, BODY) if isa == 'x86' else (ARM_HEAD, ARM_BODY)
    kw = {} if ctx.choice('given', [False, True]) else {'isa': isa}
    with Scratch() as s:
        r = incore_model.osaca_analyse_instrumented_assembly(
            s.file(head + start + body + end + TAIL[1:]), arch, assign_optimal_throughput=optimal,
            **kw)
    before = order[:order.index('sum')]
    ctx.check('add' in before and 'normalize' in before and
              before.index('normalize') < before.index('add'), 'semantics are known', str(order))
    ctx.check(('assign' in before) == optimal, 'optimal throughput', str(order))
    if optimal:
        ctx.check(before.index('add') < before.index('assign'), 'semantics first', str(order))
    ctx.check(order[order.index('sum') + 1] == [l.strip() for l in body], 'section analysed')
    ctx.check([l.line.strip() for l in graphs[0].kernel] == [l.strip() for l in body], 'graph')
    ctx.check(list(r['port cycles']) == ports, 'ports')
    for p, v in zip(ports, values):
        ctx.check(r['port cycles'][p] == v, 'cycles of port', p)
    longest = largest(ctx, [0] + lat)
    ctx.check(r['lcd'] == longest, 'loop-carried dependency')
    ctx.check(r['throughput'] == largest(ctx, values + [longest]), 'throughput')
    ctx.close(r['cp_latency'], sum(path), 'critical path')
    ctx.check(r['uops'] is None and r['output'] == 'the analysis', 'others')


# ------------------------------------------------------------------ choices of the user
class Line:
    def __init__(self, line):
        self.line = line


def scripted(ctx, answers):
    prompts, left = [], list(answers)

    def ask(prompt=''):
        prompts.append(prompt)
        if not left:
            raise EOFError()
        return left.pop(0)
    incore_model.input = ask
    return prompts, left


def h_increment(ctx):
    """the increment entered is used and remembered"""
    block = [Line(l) for l in BODY]
    other = [Line(l) for l in BODY[:-1]]
    inc = ctx.int('increment', -10 ** 6, 10 ** 6)
    how = ctx.choice('answers', ['number', 'nonsense first', 'default', 'default is ignored'])
    default = {'number': None, 'nonsense first': None}.get(how, 64)
    answers = {'number': ['%s' % inc], 'nonsense first': ['', 'abc', '%s' % inc],
               'default': [''], 'default is ignored': [' %s ' % inc]}[how]
    prompts, left = scripted(ctx, answers + ['999'])
    with Scratch() as s:
        home = os.path.join(s.dir, 'home')
        incore_model.expanduser = lambda p: p.replace('~', home, 1)
        ctx.check(incore_model.find_increment_in_cache(block) is None, 'nothing remembered')
        if ctx.choice('earlier', [False, True]):
            incore_model.store_increment_to_cache(other, 7, comment='earlier one')
            with open(home + '/.kerncraft/increment_cache', 'a') as f:
                f.write('\n# comment\nabc\n%s word\n' % ('0' * 32))
            ctx.check(incore_model.find_increment_in_cache(block) is None, 'nothing remembered')
        r = incore_model.userselect_increment(block, default=default, comment='a comment # 5')
        want = 64 if how == 'default' else inc
        ctx.check(r == want, 'increment', '%s %s' % (r, how))
        ctx.check(left == ['999'] and len(prompts) == len(answers), 'answers read')
        if ctx.fork(want == 0):
            return
        ctx.check(incore_model.find_increment_in_cache(block) == want, 'remembered')
        ctx.check(incore_model.find_increment_in_cache([Line(l) for l in BODY]) == want,
                  'equal block')
        ctx.check(incore_model.find_increment_in_cache(
            [Line(l) for l in BODY[:2] + BODY[3:]]) is None, 'other block')


class Opened:
    """a file whose lines need not be known"""

    def __init__(self, lines):
        self.lines = list(lines)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def __iter__(self):
        return iter(self.lines)

    def readlines(self):
        return list(self.lines)

    def read(self):
        r = ''
        for l in self.lines:
            r = r + l
        return r


def h_cache(ctx):
    """increments of other blocks are not used, however alike their hashes are"""
    block = [Line(l) for l in BODY]
    h = incore_model.hashblock(block)
    lines, want, found = [], 0, False
    for n in range(2):
        at = ctx.choice('differs at %d' % n, [0, 5, len(h) - 3])
        other = h[:at] + ctx.str('hash%d' % n, 3, '0123456789abcdef') + h[at + 3:]
        inc = ctx.int('increment%d' % n, 1, 999)
        lines.append(other + ' ' + '%s' % inc + ctx.choice('rest %d' % n, ['\n', ' # k.c\n']))
        same = other == h
        want = ctx.ite(ctx.all([same, ctx.not_(found)]), inc, want)
        found = ctx.any([found, same])
    incore_model.open = lambda *a, **k: Opened(lines)
    incore_model.expanduser = lambda p: '/dev/null'
    got = incore_model.find_increment_in_cache(block)
    if got is None:
        ctx.check(ctx.not_(found), 'remembered increment is found')
    else:
        ctx.check(ctx.all([found, got == want]), 'increment of another block')


def h_block(ctx):
    """the block named by the user is taken"""
    names = ['.L4', '.L5', 'main']
    blocks = {n: [Line(n + ':'), Line('jne ' + n)] for n in names}
    default = ctx.choice('default', names)
    wrong = ctx.choice('wrong first', [[], ['.L6'], ['nothing', 'L4']])
    name = ctx.choice('named', names + [''])
    prompts, left = scripted(ctx, wrong + [name, 'main'])
    r = incore_model.userselect_block(blocks, default=default)
    ctx.check(r == (name or default), 'block', '%s: %s' % (name, r))
    ctx.check(left == ['main'], 'answers read')


def h_manual(ctx):
    """block and increment are asked for where the user wants to choose or must"""
    fast_models(incore_model.osaca)
    inc = ctx.int('increment', -10 ** 6, 10 ** 6)
    selection = ctx.choice('block', ['manual', 'debug', 1])
    how = ctx.choice('how', ['manual', 'auto_with_manual_fallback'])
    detected = ctx.choice('detected', [None, 32])
    name = ctx.choice('named', ['.L4', 'before'])
    asked_block = selection != 1
    if not asked_block:
        name = '.L4'
    asked_inc = how == 'manual' or detected is None
    answers = ['nonsense', name] * asked_block + ['%s' % inc] * asked_inc
    prompts, left = scripted(ctx, answers + ['before'])
    code = HEAD + BODY + TAIL
    real_marker = incore_model.get_marker

    def get_marker(isa, *a, comment='', **kw):
        """the parser of OSACA takes plain text only"""
        marks = real_marker(isa, *a, comment='COMMENT', **kw)
        for m in marks:
            for l in m:
                l.line = l.line.replace('COMMENT', comment)
        return marks
    incore_model.get_marker = get_marker
    with Scratch() as s:
        incore_model.expanduser = lambda p: p.replace('~', s.dir, 1)
        isa = incore_model.ISA.get_isa('x86')
        isa.get_pointer_increment = staticmethod(lambda block: detected)
        with open(s.file(code)) as i, open(os.path.join(s.dir, 'out.s'), 'w+') as o:
            block, got = incore_model.asm_instrumentation(
                i, o, block_selection=1 if selection == 'debug' else selection,
                debug=selection == 'debug', pointer_increment=how)
            o.seek(0)
            out = o.read().split('\n')[:-1]
    want = inc if asked_inc else detected
    ctx.check(got == want, 'increment', '%s' % got)
    ctx.check(left == ['before'], 'answers read', str(left))
    at = code.index(name + ':')
    lines = BODY if name == '.L4' else HEAD[1:]
    ctx.check([l.line for l in block] == lines, 'block')
    n = len(code) - at - len(lines)
    ctx.check(out[:at] == code[:at] and out[len(out) - n:] == code[at + len(lines):] and
              out.count(lines[0]) == 1, 'rest is kept', '\n'.join(out))
    start = out.index(lines[0])
    end = start + len(lines)
    ctx.check(start > at and out[start:end] == lines and end < len(out) - n, 'block marked')
    ctx.check(len([l for l in out[at:start] if 'movl' in l and '111' in l]) == 1 and
              len([l for l in out[end:len(out) - n] if 'movl' in l and '222' in l]) == 1, 'marks')
    ctx.check([l for l in out[:start] if 'pointer_increment=%s ' % want in l], 'comment')


def cases(tier):
    res = [Case('LLVM-MCA ' + c, h_llvm, 'any cycles up to 1000 (6 ports), 1000 iterations',
                time=300, cpu=c) for c in ('SKX', 'SNB')]
    res += [Case('LLVM-MCA TX2', h_llvm, 'any cycles up to 1000 (6 ports), 1000 iterations',
                 time=300, cpu='TX2', isa='aarch64'),
            Case('IACA', h_iaca, 'any numbers', time=300,
                 archs=['SNB', 'SKX'] if tier == 'quick' else sorted(IACA)),
            Case('IACA fails', h_iaca_fails, 'any failure of the list', time=100),
            Case('OSACA', h_osaca, 'any cycles up to 1000 of 3 ports, up to 2 dependencies and '
                 '3 instructions on the critical path', time=300),
            Case('increment', h_increment, 'any increment up to 10^6', time=200),
            Case('cache of increments', h_cache, 'two entries, 3 digits of each hash differ anyhow',
                 time=200, reach=['increment of another block', 'remembered increment is found']),
            Case('manual', h_manual, 'any increment up to 10^6, two blocks', time=300),
            Case('block', h_block, '3 blocks', time=100)]
    if tier != 'quick':
        res.append(Case('OSACA on ARM', h_osaca, 'as OSACA', time=600, isa='aarch64'))
    return res
