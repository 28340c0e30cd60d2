"""The checks: how each one is built and described.  Used by run.py."""
import glob, itertools, os

REPO = os.environ.get('VERIF_REPO', '/repo')
CXX = 'g++'

def lib_sources():
    return sorted(glob.glob(os.path.join(REPO, 'include/pandaresampler/*.cc')))

def lib_steps(tag, cxx=CXX, flags=('-O2',), std='c++11'):
    """objects of the library under test"""
    return [dict(out='lib-%s-%d.o' % (tag, i), cmd=[cxx, '-std=' + std, '-w', '-g1', '-I{repo}/include', *flags, '-c', s]) for i, s in enumerate(lib_sources())]

def simple(name, hflags=(), lflags=(), libflags=('-O2',), cxx=CXX, lib=True, std='c++17'):
    """harness/<name>.cc linked with the library"""
    def build(tier):
        ls = lib_steps('a', cxx, libflags) if lib else []
        p1 = ls + [dict(out=name + '.o', cmd=[cxx, '-std=' + std, '-O2', '-g1', '-w', '-I{repo}/include', '-I{h}', *hflags, '-c', '{h}/%s.cc' % name])]
        p2 = [dict(out=name, cmd=[cxx, '{b}/%s.o' % name, *['{b}/' + s['out'] for s in ls], *lflags])]
        return [p1, p2], [name]
    return build

SEQ = 'stateless exhaustive exploration of operation sequences on the real code against a reference model'
ASSUME = ['x86-64 with SSE; compilers g++ 13 / clang 18 as installed',
          'control flow of the library depends on block lengths, pointer alignment and history, not on sample values (sample values are covered by impulses and dense streams)']
NOT_APPLICABLE = {}
CHECKS = {}

CHECKS['C01'] = dict(
    build=simple('c01', libflags=('-O3',)), level='model_checking', technique=SEQ, assumptions=ASSUME,
    bounds='72 FIR configurations; all single lengths 0..1100 and steps to 9000, all pairs up to order+14 with all alignments, all 1024 addresses within a page, adjacent input and output, triples/quadruples/quintuples over key lengths, lengths around every chunk size up to 8192 and up to 100000, histories of 100000 calls',
    note='Every enumerated block sequence is run on the real library and every output sample is compared with the superposition of impulse responses observed in a single call; non-overlapping impulses make the comparison exact to one rounding at ratio 2. Assumes control flow does not depend on sample values (C03 checks linearity).')

def seq(cid, bounds, note, **kw):
    CHECKS[cid] = dict(build=simple(cid.lower(), **kw.pop('b', {})), level='model_checking', technique=kw.pop('technique', SEQ), assumptions=ASSUME + kw.pop('assume', []),
                       bounds=bounds, note=note, **kw)

seq('C02', '60 IIR configurations; all single lengths to 1100 and steps to 9000, all 1024 addresses within a page, adjacent input and output, all pairs with all alignments, triples and quadruples over key lengths, lengths around chunk sizes, long regular partitions; thorough: longer lengths and deeper products',
    'Every enumerated block sequence is run on the real library; every output sample is compared with the one-block run of the same stream (tolerance relative to the signal level).')
seq('C03', '132 configurations; impulses at all phases with amplitudes 2^-126..2^120, all pairs of impulse distances, dense streams scaled by powers of two (bit exact) and by other factors, superpositions, silence; in several block partitions',
    'Enumerates signal shapes, amplitudes and block partitions on the real code and compares with the scaled / superposed responses observed at amplitude 1.')
seq('C04', '132 configurations; all operation sequences (blocks, resets, values including Inf and NaN) up to depth 3 (quick) / 4 (thorough) over an alphabet of operations, followed by reset and a probe; also double reset and reset before any processing',
    'After every enumerated history and reset() the output of the instance is compared bit by bit with that of a fresh instance.')
seq('C10', 'all combinations of mode, ratio 0..34, 6 precisions and neighbours, SSE preference, filter; metadata after every operation of enumerated sequences',
    'Exhaustive enumeration of the specification space on the real constructor; stderr is captured.')
seq('C11', 'all 2^32 bits values; all precision values in [-70000,70000] and at the limits of the enum type',
    'Complete enumeration of the argument domain of find_precision_for_bits, so no bound applies there.', technique='explicit enumeration of the complete argument domain on the real code')
seq('C16', '66 pairs of configurations; all lengths, alignments, pairs, triples; long histories; both instances are run in lock step and compared after every operation',
    'Product exploration of the SSE and the scalar instance over the same operation sequences.')
seq('C18', 'all FIR configurations and ratio 1; all lengths and alignments, pairs, triples; special values (infinities, denormals, signed zeros, extreme magnitudes) at every position',
    'Every enumerated sequence runs on the real code; the output at k*ratio+delay() is compared bit by bit with the input.')
seq('C22', '132 configurations; bursts of 6 levels and 4 shapes with every length up to 2*order+10, in one or two blocks, followed by every block size of a set; up to 10^5 (quick) / 10^6 (thorough) frames of silence',
    'Each enumerated history is run on the real code next to an instance that never saw the burst.')
seq('C23', 'FIR x2 downsamplers; odd lengths up to 2*order+41, around chunk sizes and powers of two to 2^32-1, at every history position of enumerated sequences with up to three odd blocks',
    'Each enumerated program is run with and without the odd blocks; output bits, untouched output memory and diagnostics are compared.')
WRAP_HEAP = ['malloc', 'free', 'calloc', 'realloc', 'posix_memalign', 'aligned_alloc', 'memalign']
WRAP_RT = ['pthread_mutex_lock', 'pthread_mutex_trylock', 'pthread_mutex_unlock', 'pthread_rwlock_rdlock', 'pthread_rwlock_wrlock', 'pthread_cond_wait', 'pthread_once',
           'pthread_spin_lock', '__cxa_guard_acquire', 'puts', 'putchar', 'fputc', 'fputs', 'fwrite', 'fflush', 'printf', 'fprintf', '__printf_chk', '__fprintf_chk']
def wrap(names):
    return ['-Wl,' + ','.join('--wrap=' + n for n in names)]

seq('C12', '12 element types (trivial, with tracked life time, owning memory; 1 to 100 bytes, alignment up to 64), all counts 0..132 and around powers of two up to 4096 times all 64 allocator addresses mod 64 times 4 ways of construction; impossible sizes; all sequences of 4 operations (float and tracked elements: 5) on three arrays',
    'The allocator is replaced, so every address it may return is enumerated; element constructors, destructors and assignments are counted by address; every sequence of operations is compared with a model made of std::vector.', b=dict(lflags=wrap(WRAP_HEAP), lib=False),
    technique='exhaustive enumeration of allocator addresses and operation sequences on the real code against a reference model')
seq('C19', '176 configurations incl. ratio 1; all block lengths up to 2*order+70 (thorough: 2200), lengths around every chunk size up to 65538, up to 300000 frames, all triples over 11 operations (blocks, NaN blocks, reset, metadata), histories of 6000 operations (thorough: 60000)',
    'Every operation of every enumerated sequence runs on a painted stack with the allocator, locks and stdio wrapped and all system calls trapped (syscall user dispatch), so a single allocation, lock, system call or deep stack use is seen.', b=dict(lflags=wrap(WRAP_HEAP + WRAP_RT)),
    technique='exhaustive enumeration of operation sequences on the real code with a monitor for allocations, locks, system calls and stack depth')
CHECKS['C20'] = dict(
    build=simple('c20', lflags=wrap(WRAP_HEAP)), level='fault_enumeration', assumptions=ASSUME,
    technique='exhaustive enumeration of allocation failure points on the real code under a fault-injecting allocator',
    rule='one evaluation per (program, index of the failing allocation, single failure or all from there on); pairs of failing constructions as well; non-trivial: the failure was actually injected, distinct by (index, mode, outcome)',
    bounds='132 configurations, construction in place, with new and in a growing vector; AlignedArray of float, double and an element that allocates itself, 0..1000 elements, 7 programs and assignment; every allocation of each',
    note='All allocation failure points of every construction are injected one by one (and as permanent exhaustion); leaks, double frees, exception type, an existing instance and the next construction are checked.')
seq('C21', '176 configurations; environments: 5 fill patterns each of heap, stack/registers and instance memory and their combinations, 4 heap offsets x 16 instance offsets, 5 kinds of past of other instances; programs: all single lengths up to order+20 with alignments, all triples over 8 lengths, lengths around chunk sizes',
    'The same program is run in every enumerated environment and the outputs are compared bit by bit. Quick combines each program with a rotating subset of environments (all environments for three programs), thorough with all.', b=dict(lflags=wrap(WRAP_HEAP)),
    technique='product exploration of programs and memory environments on the real code (bitwise self-composition)')
seq('C24', '176 configurations, each with itself, its inverse mode and one of another family; all programs of 3 operations (a part, and thorough all: 4) out of create, process, reset, move construction, move assignment, swap, destroy on 3 slots after two start states; all programs of 4 (5) container operations; every ordered pair of the 176 configurations in a process of its own; 2049 instances of all configurations, 4500 (70000) of the same one alive, 70000 (10^6) creations',
    'Every enumerated program runs on the real code; every output sample of every instance is compared with what it produces alone, the tracking allocator reports leaks, double frees and mismatched frees.', b=dict(lflags=wrap(WRAP_HEAP)))

SAN = ['-O1', '-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS']
def c05_build(tier, name='c05'):
    plain, asan = lib_steps('a'), lib_steps('s', 'clang++', SAN, 'c++17')
    obj = ['-std=c++17', '-g1', '-w', '-I{repo}/include', '-I{h}']
    p1 = asan + [dict(out=name + 'a.o', cmd=['clang++', *obj, '-DUSE_ASAN', *SAN, '-c', '{h}/%s.cc' % name])] + plain + [dict(out=name + '.o', cmd=[CXX, *obj, '-O2', '-c', '{h}/%s.cc' % name])]
    p2 = [dict(out=name, cmd=[CXX, '{b}/%s.o' % name, *['{b}/' + s['out'] for s in plain]]),
          dict(out=name + 'a', cmd=['clang++', '-fsanitize=address,undefined', '{b}/%sa.o' % name, *['{b}/' + s['out'] for s in asan]])]
    return [p1, p2], [name, name + 'a']
seq('C05', '176 configurations; all block lengths up to 2*order+10 and around every chunk size up to 8194 with all alignments, pairs and triples of lengths, lengths up to 100000; each run with blocks next to inaccessible pages on both sides, with canaries, with read-only input, and in a build with AddressSanitizer and UndefinedBehaviorSanitizer',
    'Every enumerated block sequence runs on the real code with the input block and the output block placed directly before and after inaccessible pages, so every access outside traps; output memory is pre-filled with two patterns to see which samples are written.',
    technique='exhaustive enumeration of operation sequences on the real code with page guards, canaries and sanitizers as monitors')
CHECKS['C05']['build'] = c05_build
seq('C35', '66 downsampling configurations; all lengths that are not a multiple of the ratio up to (2*order+10)*ratio and around every chunk size up to 65536, with 16 placements and 4 alignments each of input and output next to inaccessible pages, after three histories; all sequences of 4 (5) operations out of 7 lengths that are no multiples, 2 that are and reset; 1000 (20000) such blocks in a row; also in a build with AddressSanitizer and UndefinedBehaviorSanitizer',
    'Every enumerated sequence runs on the real code with the blocks next to inaccessible pages, so every access outside traps; canaries around the output; after reset() the output is compared bit by bit with that of a new instance.',
    technique='exhaustive enumeration of operation sequences on the real code with page guards, canaries and sanitizers as monitors')
CHECKS['C35']['build'] = lambda tier: c05_build(tier, 'c35')

WRAP_MT = ['malloc', 'free', 'pthread_mutex_lock', 'pthread_mutex_unlock', '__cxa_guard_acquire', '__cxa_guard_release', '__cxa_guard_abort', 'pthread_once']
def c06_build(tier):
    f = ['-std=c++17', '-O1', '-g1', '-w', '-fsanitize=thread', '-I{repo}/include', '-I{h}']
    lib = lib_steps('t', 'clang++', ['-O1', '-fsanitize=thread'], 'c++17')
    p1 = lib + [dict(out='ops6.o', cmd=['clang++', *f, '-c', '{h}/c06_ops.cc']), dict(out='c06.o', cmd=[CXX, '-std=c++17', '-O2', '-g1', '-w', '-I{h}', '-c', '{h}/c06.cc'])]
    p2 = [dict(out='c06', cmd=[CXX, '{b}/ops6.o', *['{b}/' + s['out'] for s in lib], '{b}/c06.o', '-lpthread', *wrap(WRAP_MT)])]
    return [p1, p2], ['c06']
CHECKS['C06'] = dict(
    build=c06_build, level='model_checking', technique='stateless model checking of thread interleavings of the real code under a controlled scheduler, with happens-before race detection',
    assumptions=ASSUME + ['two threads (more of them: nested preemptions only); at most two preemptions at accesses to shared memory, synchronisation operations and operation boundaries; sequentially consistent memory (weaker orders are covered by the data race check)'],
    bounds='two threads; 136 configurations with themselves, inverse mode, another ratio, an unrelated one (quick: one of 9 pairs of thread programs for each pair of configurations, thorough: all 9) and all pairs of configurations; all schedules with up to two preemptions, every schedule in a new process so that first use is included; chains of 3, 70 and 260 threads, each preempted at the same point of its operation (construction, blocks, reset, move, destruction) by the next one, for all 176 configurations',
    note='The library is compiled with memory access instrumentation but linked with a scheduler of our own: two real threads, every preemption point of conflicting accesses enumerated, results compared with those of each thread alone, unsynchronised accesses to shared memory reported.')

FREQ = 'exhaustive exploration of block partitions and histories on the real code; every distinct observed response is checked at all frequencies (grid with a certified bound between the points)'
seq('C07', '132 configurations with ratio 2, 4, 8 and all of ratio 1; impulses at the positions of all blocks up to 66 frames, in regular partitions, around the chunk sizes and after use and reset; delay() after every operation of all sequences of 4 (thorough: 5) out of 9 operations',
    'The impulse response is observed on the real code in every enumerated history; FIR: checked for symmetry about delay(), IIR: group delay at 9 frequencies up to 1 kHz compared with delay().')
seq('C08', '120 configurations; impulses at positions in all blocks up to 66 frames (thorough: 116), regular partitions, around chunk sizes, after use and reset; all frequencies of the passband by a grid of 2^18 / 2^19 points (thorough: 2^21) and a bound of the derivatives; 41 (401) real sines in 4 kinds of partitions',
    'The response is observed in every enumerated history, its gain checked at all frequencies; real sines are run in different partitions to bind the response to the signals (linearity is C03).', technique=FREQ)
seq('C09', '120 configurations; impulses at positions in all blocks up to 66 frames (thorough: 116), regular partitions, around chunk sizes, after use and reset; all frequencies of every image band by a grid of 2^18 / 2^19 points (thorough: 2^21) and a bound of the derivatives; 41 (401) real sines per band in 4 kinds of partitions',
    'The response is observed in every enumerated history, its attenuation checked at all frequencies of all image / alias bands; real sines are run in different partitions to bind the response to the signals (linearity is C03).', technique=FREQ)

ENUM = 'exhaustive enumeration of a bounded parameter grid on the real code against an independent evaluation of the transfer functions'
seq('C13', '107 transition bandwidths 1e-4..0.499 (thorough: 491), 1..30 (40) coefficients, attenuations 0.1..200 dB in steps of 0.5 (0.1) and around each reachable value; 1..16 (30) coefficients x 4 transition ranges x 4 attenuation ranges x group delays inside and outside of the reachable range x 7 (26) frequencies x precisions x output pointers; 401 x 400 (2001 x 2000) cells',
    'Every designed filter is evaluated in the frequency domain in extended precision: stopband gain, group delay, order, reported attenuation; every outcome of the design by group delay is compared with what is reachable. Designs whose attenuation exceeds 300 dB are beyond the resolution of the coefficients and excluded.', b=dict(lib=False), technique=ENUM)
CHECKS['C13']['assumptions'] = ['IEEE double and x87 long double arithmetic']

def c15_build(tier):
    p1 = [dict(out='c15-%d.o' % k, cmd=[CXX, '-std=c++17', '-O2', '-g1', '-w', '-I{repo}/include', '-I{h}', '-DPART=%d' % k, '-c', '{h}/c15.cc']) for k in range(1, 11)]
    return [p1, [dict(out='c15', cmd=[CXX, *['{b}/' + s['out'] for s in p1]])]], ['c15']
seq('C15', '1..18, 20, 21, 24, 31..33 coefficients x float, double, SSE x up, down; 4 (thorough: 5) sets of coefficients; blocks of up to 2048 frames; all sequences of 4 (5; more than 13 coefficients: 2 (4)) out of 11 / 15 operations (sample, blocks, overlapping blocks, split, clear, copy, assignment) followed by another one, 3 signal levels; all block lengths up to 66 (130), pairs of lengths up to 10 (20), runs of 400 (4000) operations',
    'Every output of every enumerated sequence on the real kernels is compared with a direct implementation of the two-path all-pass filter in double precision; after clear_buffers it must equal a new kernel exactly.')
CHECKS['C15']['build'] = c15_build

MKIIR = [('mkiir-g0', CXX, ['-O0']), ('mkiir-g3', CXX, ['-O3']), ('mkiir-c2', 'clang++', ['-O2']),
         ('mkiir-san', 'clang++', ['-O1', '-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=all'])]
def c14_build(tier):
    tools = [dict(out=n, may_fail=True, cmd=[cxx, '-std=c++11', '-w', '-I{repo}/include', *f, '{repo}/filter-design/mkiir.cc']) for n, cxx, f in MKIIR]
    (p1, p2), names = simple('c14', libflags=['-O2'])(tier)
    return [tools + p1, p2], names
CHECKS['C14'] = dict(
    build=c14_build, level='model_checking', assumptions=ASSUME,
    on_build_failure=lambda out, err: 'the design program does not build (%s): %s' % (out, err[-600:]) if out.startswith('mkiir') else None,
    technique='explicit enumeration of all filters and histories: the model is built from the output of the design program and every trace is replayed on the implementation',
    bounds='all 15 printed filters, 4 builds of the design program x 8 runs; 60 IIR configurations, impulses at positions in all blocks up to 32 frames (thorough: 48), regular partitions, around chunk sizes, after use and reset',
    note='The design program is built and run, its output is turned into a double precision model of each cascade; the response, order and delay of the real resampler is compared in every enumerated history (tolerance 1e-6 of the peak, delay 1.5e-5 from 6 printed digits).')

def covering(factors, strength):
    """rows such that every combination of values of any <strength> factors occurs (greedy, deterministic)"""
    n = len(factors)
    todo = set()
    for idx in itertools.combinations(range(n), strength):
        for vals in itertools.product(*[factors[i] for i in idx]):
            todo.add((idx, vals))
    rows = []
    while todo:
        first = min(todo)
        row = [None] * n
        for i, v in zip(*first):
            row[i] = v
        for i in range(n):
            if row[i] is None:
                def gain(v):
                    r = row[:i] + [v] + row[i + 1:]
                    return sum(1 for idx, vals in todo if all(r[k] is None or r[k] == w for k, w in zip(idx, vals)) and sum(r[k] is not None for k in idx) == len(idx))
                row[i] = max(factors[i], key=gain)
        rows.append(tuple(row))
        todo -= {(idx, tuple(row[k] for k in idx)) for idx in itertools.combinations(range(n), strength)}
    return rows

ISA = dict(sse=[], nosse=['-U__SSE__'], neon=['-U__SSE__', '-D__ARM_NEON', '-I{h}/neon'], avx=['-mavx2', '-mfma'])
def c17_variants(tier):
    """(name, compiler + flags of the library, compiler + flags of the program, packaging, isa)"""
    f = [('g++', 'clang++'), ('O0', 'O1', 'O2', 'O3', 'Os'), ('11', '14', '17', '20', '23'), ('static', 'shared', 'hdr1', 'hdr2'), ('sse', 'nosse', 'neon', 'avx'), ('', 'NDEBUG')]
    v = []
    for cxx, opt, std, pack, isa, nd in covering(f, 2 if tier == 'quick' else 4):
        fl = [cxx, '-' + opt, '-std=c++' + std, *ISA[isa], *(['-DNDEBUG'] if nd else [])]
        v.append(('_'.join(x for x in (cxx, opt, std, pack, isa, nd) if x), fl, fl, pack, isa))
    g, c = ['g++', '-O2', '-std=c++11'], ['clang++', '-O2', '-std=c++20']
    v += [('mixed1', g, c, 'shared', 'sse'), ('mixed2', ['clang++', '-O3', '-std=c++11'], ['g++', '-O1', '-std=c++23'], 'static', 'sse'),
          ('libnosse', g + ISA['nosse'], g, 'shared', 'nosse'), ('prognosse', g, g + ISA['nosse'], 'shared', 'sse'),
          ('lto', g + ['-flto', '-fno-fat-lto-objects'], g + ['-flto', '-fno-fat-lto-objects'], 'static', 'sse'),
          ('lto-hdr', g + ['-flto'], g + ['-flto'], 'hdr2', 'sse'),
          ('arm64', g + ['-U__SSE__', '-D__arm64__', '-I{h}/neon'], g + ['-U__SSE__', '-D__arm64__', '-I{h}/neon'], 'hdr1', 'neon'),
          ('arm64c', c + ['-U__SSE__', '-D__arm64__', '-I{h}/neon'], c + ['-U__SSE__', '-D__arm64__', '-I{h}/neon'], 'shared', 'neon'),
          ('debug', g + ['-D_GLIBCXX_DEBUG', '-D_GLIBCXX_DEBUG_PEDANTIC'], g + ['-D_GLIBCXX_DEBUG', '-D_GLIBCXX_DEBUG_PEDANTIC'], 'hdr2', 'sse')]
    return v

def c17_build(tier):
    p1, p2 = [], []
    (q1, q2), names = simple('c17')(tier)
    vs = c17_variants(tier)
    inc = ['-w', '-I{repo}/include', '-I{h}']
    for name, lf, pf, pack, isa in vs:
        hdr = ['-DPANDA_RESAMPLER_HEADER_ONLY'] if pack.startswith('hdr') else []
        libs = []
        if pack == 'static':
            for i, s in enumerate(lib_sources()):
                p1.append(dict(out='%s-lib%d.o' % (name, i), may_fail=True, cmd=[*lf, '-w', '-I{repo}/include', '-c', s]))
                libs.append('{b}/%s-lib%d.o' % (name, i))
        if pack == 'shared':
            p1.append(dict(out='lib%s.so' % name, may_fail=True, cmd=[*lf, '-w', '-I{repo}/include', '-fPIC', '-shared', '-Wl,--no-undefined', *lib_sources()]))
            libs.append('{b}/lib%s.so' % name)
        tus = [('', ['-DONE_TU'])] if pack == 'hdr1' else [('', []), ('2', [])]
        objs = []
        for t, d in tus:
            p1.append(dict(out='%s-prog%s.o' % (name, t), may_fail=True, cmd=[*pf, *hdr, *d, *inc, '-c', '{h}/c17_prog%s.cc' % t]))
            objs.append('{b}/%s-prog%s.o' % (name, t))
        link = [x for x in pf if not x.startswith(('-std', '-D', '-U', '-I'))]
        p2.append(dict(out='c17-' + name, may_fail=True, cmd=[*link, *objs, *libs]))
    table = ' '.join('%s %s %d ;' % (n, isa, pack == 'hdr1') for n, _, _, pack, isa in vs)
    q1[-1]['cmd'].insert(3, '-DVARIANTS="%s "' % table)
    p1.sort(key=lambda s: -sum(w in ' '.join(s['cmd']) for w in ('HEADER_ONLY', '-lib', 'shared')))
    return [p1 + q1, p2 + q2], names
CHECKS['C17'] = dict(
    build=c17_build, level='model_checking', assumptions=ASSUME + ['the NEON code path is compiled against a stand-in of arm_neon.h with the semantics of the ARM C language extensions and runs on x86; builds without SSE are made with __SSE__ undefined'],
    on_build_failure=lambda out, err: 'this build mode fails (%s): %s' % (out, err[-700:]) if any(w in err for w in ('error', 'undefined reference', 'multiple definition')) else None,
    technique='explicit enumeration of build configurations (covering array) and operation sequences: every build executes the same enumerated traces, compared with the reference build',
    bounds='2 compilers x 5 optimization levels x 5 language standards x 4 packagings x 4 instruction sets x NDEBUG: all pairs (thorough: all combinations of 4 factors), and 9 special builds (mixed compilers, LTO, library without SSE, debug mode); each with 132 configurations and 24 (thorough: 166) block programs, from each translation unit',
    note='Every build of the matrix is compiled, linked and executed; a build that does not compile or link is a violation.')

def c25_build(tier):
    cov = ['-fsanitize-coverage=edge,trace-pc']
    lib = lib_steps('c', 'clang++', ['-O1', *cov], 'c++17')
    f = ['-std=c++17', '-g1', '-w', '-I{repo}/include', '-I{h}']
    p1 = lib + [dict(out='ops25.o', cmd=['clang++', *f, '-O1', *cov, '-c', '{h}/c25_ops.cc']), dict(out='c25.o', cmd=[CXX, *f, '-O2', '-c', '{h}/c25.cc'])]
    return [p1, [dict(out='c25', cmd=[CXX, '{b}/c25.o', '{b}/ops25.o', *['{b}/' + s['out'] for s in lib], *wrap(['memmove', 'memcpy', 'memset'])])]], ['c25']
seq('C25', '132 configurations and all of ratio 1; all block lengths up to 2*order+70 with all alignments, all lengths up to 2200 (quick: every 13th), around powers of two up to 200000 (1000000) frames; blocks of 200000 frames made of two kinds of values; 10 kinds of values x block lengths x 40..300 calls; all sequences of 3 (4) out of 10 kinds of values and reset x 4 block lengths; histories of 20000 (400000) calls',
    'Every executed control flow edge of the library and the size of every memory copy is counted, so the work of each call of each enumerated history is a number that is compared with the bound.', technique='exhaustive enumeration of operation sequences on the real code with an edge counter as monitor of the work of each call')
CHECKS['C25']['build'] = c25_build

seq('C30', 'lengths 2^29+5 / 2^30+5 (upsampling by 8 / 4), 2^31+4100 and 2^32-1 (thorough: 2^29+5, 2^30+7, 2^31-1, 2^31+4100, 2^32-1 or what fits the ratio; both alignments); every filter implementation once (thorough: 132 configurations); output checked at the start, the end and around 2^28 .. 3*2^35',
    'Each enumerated block is processed by the real code in one call; the memory of input and output is mapped repeatedly so that the full range of the length argument can be enumerated; output and following state are compared with processing in small blocks.')

seq('C26', 'all 6 FIR precisions with the responses of the 72 FIR configurations in enumerated partitions, order() of each, and the header produced by the design script; response of every phase of the resampler up to the end of the impulse response',
    'The design script of the repository is executed with a stand-in for octave that computes the ultraspherical windows independently; the coefficients it selects make a double precision model of the resampler, which is compared with the real code in every enumerated history.',
    technique='conformance of the real code with a model built from the output of the design procedure, over exhaustively enumerated histories')
seq('C27', '132 pairs of up- and downsampler (ratio, precision, filter, SSE of each); impulses at three positions; all frequencies of the passband; all pairs of block lengths 1..10 (IIR: 5; thorough: 40, 20) and 7 longer ones, all alternations of 2 (3) lengths per side; sines',
    'Upsampler and downsampler are run after one another on every enumerated combination of partitions and histories; the response of the whole chain is compared with a pure delay of up.delay() / ratio + down.delay() at all frequencies.', technique=FREQ)
seq('C28', '176 configurations; every assignment of the operations of 4 programs (5 to 11 operations: creation, blocks, reset, move, destruction, re-creation at the same address, two instances) to threads: main thread, one or two long-lived threads (all of them up to renaming), a new thread for a single operation; 600 (one configuration of every implementation: 66000; thorough: 70000) new threads one after another, 300 long-lived ones in turn',
    'Real threads execute the operations one after another in every enumerated assignment; every value is compared bit by bit with the run in a single thread.', b=dict(hflags=['-pthread'], lflags=['-pthread']),
    technique='exhaustive enumeration of thread assignments and operation sequences on the real code')
seq('C29', '176 configurations; all pairs out of 30 modes (16 modes of MXCSR, 12 of the x87 control word, unmasked exceptions) for construction and operation; all sequences of 4 (6) out of 6 modes changing between operations; all block lengths up to 80 (300) frames in 3 modes',
    'Before each operation of each enumerated program the floating point registers are put into the enumerated mode; afterwards control words, register tags, exception flags, errno and process state are compared, and the output with that of the default mode.',
    technique='exhaustive enumeration of floating point environments and operation sequences on the real code')

def c31_build(tier):
    cov = ['-fsanitize-coverage=edge,trace-pc,trace-loads,trace-stores']
    lib = lib_steps('r', 'clang++', ['-O1', *cov], 'c++17')
    f = ['-std=c++17', '-g1', '-w', '-I{repo}/include', '-I{h}']
    p1 = lib + [dict(out='ops31.o', cmd=['clang++', *f, '-O1', *cov, '-c', '{h}/c31_ops.cc']), dict(out='c31.o', cmd=[CXX, *f, '-O2', '-c', '{h}/c31.cc'])]
    return [p1, [dict(out='c31', cmd=[CXX, '{b}/c31.o', '{b}/ops31.o', *['{b}/' + s['out'] for s in lib]])]], ['c31']
def c06_all_build(tier):
    (a1, a2), _ = c06_build(tier)
    (b1, b2), _ = c31_build(tier)
    b1 = [dict(s, cmd=s['cmd'] + (['-DTHREADS', '-pthread'] if s['out'] == 'c31.o' else [])) for s in b1]
    b2 = [dict(s, out='c06-chain', cmd=s['cmd'] + ['-pthread']) for s in b2]
    return [a1 + b1, a2 + b2], ['c06', 'c06-chain']
CHECKS['C06']['build'] = c06_all_build
seq('C31', '176 configurations, interrupted by operations on an instance of the same configuration, the inverse mode, another ratio and instruction set, the other filter type; construction, blocks of 3, 40 and more than a chunk, reset, metadata, move, destruction are interrupted at every edge, load and store by 7 operations (operations with more than 3000 points, in other combinations 400, thorough 20000: at points with an odd stride); chains of 3, 6, 70 and 260 operations, each interrupted by the next one',
    'The library is instrumented at every control flow edge, load and store; at every enumerated point of the operation a complete operation of another instance is executed in the same thread; the results of both are compared bit by bit with those of undisturbed runs.',
    technique='exhaustive enumeration of interruption points of the real code (instrumented), nested execution in one thread')
CHECKS['C31']['build'] = c31_build

def c33_build(tier):
    f = ['-std=c++17', '-O2', '-g1', '-w', '-I{repo}/include', '-I{h}', '-pthread']
    lib, pic = lib_steps('a'), lib_steps('pic', flags=('-O2', '-fPIC'))
    L = ['{b}/' + s['out'] for s in lib]
    obj = lambda n, src, *x: dict(out=n, cmd=[CXX, *f, *x, '-c', '{h}/' + src])
    H = '-DPANDA_RESAMPLER_HEADER_ONLY'
    p1 = lib + pic + [obj('c33.o', 'c33.cc'), obj('life.o', 'c33_life.cc'), obj('life-hdr.o', 'c33_life.cc', H), obj('a.o', 'c33_a.cc'), obj('z.o', 'c33_z.cc'),
                      obj('plugin.o', 'c33_plugin.cc', '-fPIC'), obj('plugin-hdr.o', 'c33_plugin.cc', '-fPIC', H, '-fvisibility=hidden')]
    so = dict(out='libc33.so', cmd=[CXX, '-shared', '-Wl,-soname,libc33.so', *['{b}/' + s['out'] for s in pic]])
    link = lambda n, *o: dict(out=n, cmd=[CXX, '-pthread', *o])
    a, z, life = '{b}/a.o', '{b}/z.o', '{b}/life.o'
    p3 = [link('c33-liblast', a, life, z, *L), link('c33-libfirst', *L, a, life, z), link('c33-shared', a, life, z, '{b}/libc33.so'), link('c33-hdr', a, '{b}/life-hdr.o', z),
          dict(out='libc33-plugin-lib.so', cmd=[CXX, '-shared', '{b}/plugin.o', '{b}/libc33.so', '-Wl,-rpath,$ORIGIN']),
          dict(out='libc33-plugin-hdr.so', cmd=[CXX, '-shared', '{b}/plugin-hdr.o']), link('c33', '{b}/c33.o', *L, '-ldl')]
    return [p1, [so], p3], ['c33']
seq('C33', '4 packagings (library linked first, last, shared, header-only); all pairs of phases for creation and destruction out of 13 (constructor function, static objects of the first and the last object file, main, thread, thread-local destructors, fork, exit handler, static destructors, destructor function), 4 kinds of use, reset in every phase in between; 144 configurations together and each alone; all sequences of 7 (8) operations load, create, use, destroy, unload on two plugins (header-only and with shared library)',
    'Each enumerated plan is executed by a real program in a new process; every value is compared with that of an instance in the harness; crashes and diagnostics are violations.',
    technique='exhaustive enumeration of life cycles (creation, use, destruction phases of a program, load and unload sequences) on the real code')
CHECKS['C33']['build'] = c33_build

def c32_build(tier):
    (p1, p2), _ = c06_build(tier)
    p1 = [dict(s, cmd=s['cmd'] + (['-DQUERIES'] if s['out'] == 'c06.o' else [])) for s in p1]
    p2 = [dict(s, out='c32') for s in p2]
    return [p1, p2], ['c32']
seq('C32', '152 configurations; a thread that processes blocks and resets (or asks) and a second one that asks order(), delay(), sse_enabled() of the same instance and calls the static functions: 4 x 2 programs; all schedules with up to two preemptions, each in a new process',
    'The machinery of C06 with one instance: two real threads under a controlled scheduler, results compared with those of each thread alone, unsynchronised accesses to memory that is modified reported.',
    technique='stateless model checking of thread interleavings of the real code under a controlled scheduler, with happens-before race detection')
CHECKS['C32']['build'] = c32_build
seq('C34', 'every implementation (8 of ratio 2, cascades, ratio 1) with 2^32 + 2^22 blocks of one frame and frames in long blocks, 132 configurations with 33 2^20 frames, 17 2^20 blocks of one frame; bursts of 2^0, 2^1 .. 2^20 (every implementation: 2^27, thorough: 2^32) empty blocks, resets, moves, queries between two periods of the stream; 2^18 (17 2^20; thorough 260 2^20) creations while another instance lives',
    'Each enumerated history is run on the real code to its end; the stream is periodic, so that every sample of every period is compared with what an instance gave in the beginning.')
