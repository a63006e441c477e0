"""What each check runs: harnesses, bounds and the statement of what is decided."""
from check import Job
COMMON_ASSUMPTIONS = ['clang 18 -O1 lowering of the sources to LLVM IR is faithful to C++ semantics; the check executes that IR', 'libc/libstdc++ shared-object functions are modelled in harness/rt.cpp and harness/rt_c.c', 'Z3 answers are correct', 'assertions are compiled out (NDEBUG), as in the Release build']
SPEC = {}
NA = {}
def c01(tier):
    J = []; q = tier == 'quick'
    for st in (0, 1):
        for n in ((1, 2, 3) if q else (1, 2, 3, 4)):
            ops = {1: 4, 2: 3, 3: 3, 4: 3}[n] if q else {1: 6, 2: 5, 3: 4, 4: 4}[n]
            J.append(Job(f'fifo_{"stack" if st else "heap"}{n}', 'c01/fifo.cpp', [f'STACK={st}', f'CAPN={n}', f'OPS={ops}'], reach=['end', 'empty at the end', 'full at the end'], bounds=f'capacity {n}, any start index, any fill, every sequence of {ops} calls, all data values'))
    return J
SPEC['C01'] = dict(jobs=c01, how='Every sequence of calls up to the bound, from every reachable start position, on symbolic item values and counts, against a list oracle.')
def c02(tier):
    J = []; q = tier == 'quick'
    def add(name, cap, np, nc, pk, ck, st=0, obs=0, fill=1, sp=0, opts=(), **kw):
        J.append(Job(name, 'c02/spsc.cpp', [f'STACK={st}', f'CAPN={cap}', f'NP={np}', f'NC={nc}', f'PK={pk}', f'CK={ck}', f'OBS={obs}', f'FILL={fill}', f'SYMPOS={sp}'], reach=['end'], replay='threads', opts=['-max-visible', '200', *opts], bounds=f'capacity {cap}, {np} producer calls x {nc} consumer calls, every interleaving and every admissible read', **kw))
    K = {0: 'try', 2: 'bulk', 3: 'peek'}
    n = 3 if q else 4
    for pk in K:
        for ck in K:
            for cap in (1, 2) if q else (1, 2, 3): add(f'{K[pk]}_{K[ck]}_cap{cap}', cap, n, n, pk, ck, st=(pk + ck + cap) % 2)
    for cap in (1, 2): add(f'block_cap{cap}', cap, n, n, 1, 1, st=cap % 2, fill=0, opts=['-spin', '1'])
    add('mix_cap1', 1, 2, 2, -1, -1); add('mix_cap2_obs', 2, 2, 2, 0, 0, obs=1); add('mix_obs_peek', 2, 2, 2, 3, 3, obs=1)
    add('sympos_try', 2, 1, 1, 0, 0, st=1, sp=1); add('sympos_bulk', 1, 1, 1, 2, 2, sp=1)
    if not q: add('sympos_try2', 1, 2, 2, 0, 0, sp=1); add('sympos_peek', 2, 1, 1, 3, 3, st=1, sp=1)
    return J
SPEC['C02'] = dict(jobs=c02, how='Every interleaving of the atomic operations of one producer and one consumer and every value a release/acquire load may return (stale ones included), with happens-before race detection on the slots, symbolic items and, in two jobs, a symbolic start position.')

def c03(tier, win=0):
    J = []; q = tier == 'quick'
    def add(sz, lo, hi, st=0, huge=0, faults=0, **kw):
        J.append(Job(f'{"stack" if st else "heap"}_{sz}B_{lo}_{hi}' + (f'_huge{huge}' if huge else '') + (f'_f{faults}' if faults else ''), 'c03/size.cpp', [f'SZ={sz}', f'CAPLO={lo}', f'CAPHI={hi}', f'STACK={st}', f'WIN={win}', f'HUGE_KB={huge}', f'FAULTS={faults}'], reach=['end'] + (['doubly mapped', 'write window wraps', 'read window wraps'] if win and not st else []), bounds=f'items of {sz} bytes, capacities {lo}..{hi}, every start index and fill level' + (f', huge pages of {huge} kB' if huge else ''), **kw))
    add(1024, 1, 16); add(2048, 1, 9); add(4096, 1, 4); add(8192, 1, 3); add(24, 165, 176); add(12, 338, 344); add(4, 1018, 1028); add(8, 509, 515); add(1, 4090, 4100); add(1000, 1, 12); add(5000, 1, 2)
    add(2048, 4, 14, huge=8); add(2048, 10, 20, huge=16)
    if not win:
        add(1, 1, 20); add(8, 1, 20); add(24, 1, 20); add(100, 1, 20)
        for sz, n in ((1, 7), (4, 1), (8, 5), (24, 16), (100, 3)): add(sz, n, n, st=1)
    if not win:
        for st, n, pb in ((0, 1, 8), (0, 3, 8), (0, 5, 100), (1, 1, 8), (1, 4, 48), (0, 3, 2032)): J.append(Job(f'elem_{"stack" if st else "heap"}{n}_{pb}', 'c03/elem.cpp', [f'STACK={st}', f'CAPN={n}', f'PADB={pb}', f'OPS={4 if q else 6}'], reach=['end', 'doubly mapped' if pb > 2000 else 'plain'], bounds=f'capacity {n}, items of {pb + 16} bytes with constructor and destructor, every sequence of {4 if q else 6} pushes and pops'))
    if not q: add(4, 1, 1100); add(8, 1, 600); add(24, 1, 400); add(512, 1, 64); add(16, 200, 800); add(2048, 1, 40, huge=8)
    return J
SPEC['C03'] = dict(jobs=c03, how='For each requested capacity and item size, at every (symbolic) start index and fill level: capacity, size, space and the spans handed out are exact, inside the allocation, and disjoint; memory, mappings and descriptors are given back.')
SPEC['C04'] = dict(jobs=lambda t: c03(t, 1), how='For doubly mapped queues, at every symbolic start index, fill level and window element: the contiguous window element is the same memory as the ring element, the windows are complete, disjoint and mapped.')

def c05(tier):
    q = tier == 'quick'; J = []
    for mode in (0, 1):
        for huge in (0, 4):
            for f in ((1, 2) if q else (1, 2, 3, 4)): J.append(Job(f'{["queue", "alloc"][mode]}_huge{huge}_f{f}', 'c05/faults.cpp', [f'MODE={mode}', f'HUGE_KB={huge}', f'FAULTS={f}'], opts=['-max-visible', '1000'], reach=['end', 'mirrored', 'plain', 'all faults taken'], bounds=f'up to {f} failures at any of the calls' + (', huge pages present' if huge else '')))
    return J
SPEC['C05'] = dict(jobs=c05, how='Every placement of up to the stated number of failures among memfd_create, shm_open, ftruncate, mmap and a mirror that maps other memory: the queue still works at its capacity, nothing leaks, nothing is released twice.')

def c06(tier):
    q = tier == 'quick'; J = []
    for n in ((1, 2, 3, 4, 5, 7, 9, 10, 12) if q else range(1, 17)):
        J.append(Job(f'pool_{n}', 'c06/pool.cpp', [f'NB={n}', f'SYMCALLS={2 if q else 4}', f'STATS={n % 2}'], reach=['end', 'thread per block'] + (['pool'] if n > 1 else []), bounds=f'{n} blocks, every 64-bit worker count, 1..3 calls per visit, three rounds over the blocks'))
    return J
SPEC['C06'] = dict(jobs=c06, how='For every worker count and call outcome the tasks the graph starts are run one by one and their calls recorded: blocks are partitioned among the workers, each worker serves its blocks in turn with bounded bursts, and all table accesses are in range.')

def c07(tier):
    q = tier == 'quick'; J = []
    def add(name, mode, nb, pool, calls, maxc, hold=1, adapt=0, reach=(), opts=(), note='', **kw): J.append(Job(name, 'c07/threads.cpp', [f'MODE={mode}', f'NB={nb}', f'POOL={pool}', f'CALLS={calls}', f'MAXC={maxc}', f'HOLD={hold}', f'ADAPT={adapt}'], opts=['-spin', '1', '-sc', *opts], replay='threads', reach=['end', *reach], bounds=f'{nb} blocks, ' + (f'{pool} workers, ' if pool else 'a thread each, ') + f'up to {calls} deciding calls per block, every interleaving' + note, **kw))
    k = 0 if q else 1
    add('fatal_tpb', 0, 2, 0, 1 + k, 2, reach=['fatal']); add('fatal_pool', 0, 3, 2, 1 + k, 0, reach=['fatal'])
    add('soft_tpb', 1, 2, 0, 1 + k, 0); add('soft_pool', 1, 3, 2, 1 + k, 0, opts=['-preempt', '2'], note=', at most 2 preemptions'); add('soft_adapt', 1, 2, 0, 1 + k, 0, adapt=1, opts=['-preempt', '2'], note=', at most 2 preemptions')
    add('stop_tpb', 2, 2, 0, 1 + k, 0); add('stop_pool', 2, 3, 2, 1 + k, 0)
    add('allfatal_tpb', 3, 2, 0, 1 + k, 0, reach=['all fatal', 'some fatal']); add('allfatal_pool', 3, 3, 2, 1 + k, 0, reach=['some fatal'])
    return J
SPEC['C07'] = dict(jobs=c07, how='Real desktop threads under every interleaving of their atomic operations, symbolic result codes.')

def c08(tier):
    q = tier == 'quick'; J = []
    def add(name, nb, ev, stats, poolrf, longrun=0, opts=('-rr',), **kw): J.append(Job(name, 'c08/life.cpp', [f'NB={nb}', f'EV={ev}', f'STATS={stats}', f'POOLRF={poolrf}', f'LONGRUN={longrun}'], opts=['-sc', '-max-visible', '4000', *opts], replay='threads', reach=['end', 'second run', 'timed run', 'terminated'], bounds=f'{nb} blocks, every sequence of {ev} events among run (thread per block), run (pool), timed run, stop, terminating error', **kw))
    n = 4 if q else 6
    add('life3', 3, n, 1, 0); add('life2_pool', 2, n, 1, 1); add('life4_pool', 4, n - 1, 1, 1); add('life3_long', 3, n - 1, 0, 1, 1)
    return J
SPEC['C08'] = dict(jobs=c08, how='Every sequence of lifecycle events on a graph of real threads.')

def c09(tier):
    q = tier == 'quick'; J = []
    def add(name, nb, pool, self, calls, adapt=1, symmax=0, mult='1.5', **kw): J.append(Job(name, 'c09/backoff.cpp', [f'NB={nb}', f'POOL={pool}', f'SELF={self}', f'CALLS={calls}', f'ADAPT={adapt}', f'MULT={mult}', f'SYMMAX={symmax}'], opts=['-query-ms', '20000'], reach=['end'] + (['delayed', 'at the maximum'] if adapt else []),
        bounds=f'block {self} of {nb}, ' + (f'{calls} results with at most one success, every maximum from 0 to 1e9 us, multiplier {mult}' if symmax else f'every sequence of {calls} results, any 64-bit threshold, multipliers 1, 1.5, 2, 7.3, maxima 0, 0.4, 1, 2.7, 10, 5000 us'), **kw))
    n = 5 if q else 7
    add('tpb0', 1, 0, 0, n); add('symmax', 1, 0, 0, 3, symmax=1); add('pool', 2, 1, 1, n - 1); add('tpb10', 11, 0, 10, n - 1); add('tpb9', 10, 0, 9, n - 1); add('off', 2, 0, 1, n, adapt=0); add('off_pool', 2, 1, 0, n, adapt=0)
    return J
SPEC['C09'] = dict(jobs=c09, how='Every result sequence, with symbolic threshold, multiplier and maximum; IEEE double arithmetic decided bit-precisely.')

def c10(tier):
    q = tier == 'quick'; J = []
    def add(name, nb, pool, calls, stats=1, adapt=0, runs=1, ticks=4, **kw): J.append(Job(name, 'c10/stats.cpp', [f'NB={nb}', f'POOL={pool}', f'CALLS={calls}', f'STATS={stats}', f'ADAPT={adapt}', f'RUNS={runs}', f'TICKS={ticks}'], reach=['end'] + (['counted', 'dead time'] if stats else []), bounds=f'{nb} blocks, ' + (f'{pool} workers' if pool else 'a task each') + f', every sequence of {calls} results, clock steps of 0, 1.000003 ms or 1 h at each of the first {ticks} readings' + (f', {runs} runs' if runs > 1 else ''), **kw))
    n = 4 if q else 5; t = 5 if q else 7
    add('tpb', 2, 0, n, ticks=t); add('pool', 3, 2, n, ticks=t); add('pool1', 2, 1, n, ticks=t); add('tpb_adapt', 2, 0, 3, adapt=1); add('pool_adapt', 3, 2, 3, adapt=1)
    add('off', 2, 0, 3, stats=0); add('off_pool', 3, 2, 3, stats=0); add('again', 2, 0, 3, runs=2, ticks=3); add('again_pool', 3, 2, 3, runs=2, ticks=3)
    for w in (0, 1): J.append(Job(f'derived{w}', 'c10/derived.cpp', [f'WHAT={w}'], reach=['end'], opts=['-query-ms', '100000'], bounds='counts up to 255, run and dead times of 0 or 2^-32..2^31 s in sixteenths of an octave'))
    return J
SPEC['C10'] = dict(jobs=c10, how='Every sequence of results under the recording task layer, with the calls made as oracle, symbolic result codes and clock steps; derived figures for symbolic counts and times.')

def c11(tier):
    q = tier == 'quick'; J = []
    for v, e in ((0, 0), (0, 1), (1, 0), (1, 1), (2, 0)): n = 3 if q else 4; J.append(Job(f'value{v}_error{e}', 'c11/result.cpp', ['WHAT=0', f'VALT={v}', f'ERRT={e}', f'OPS={n}'], reach=['end', 'mixed'], bounds=f'two results, every sequence of {n} copies, moves, assignments and swaps, any value and error'))
    J.append(Job('codes', 'c11/result.cpp', ['WHAT=1'], reach=['end', 'two codes'], bounds='every pair of error codes'))
    return J
SPEC['C11'] = dict(jobs=c11, how='Every sequence of copies, moves and assignments of results of symbolic values and errors, against the value or error they were built from; the classification of every pair of codes.')
def c12(tier):
    q = tier == 'quick'; J = []
    for l, t, o in ((1, 2, 2), (2, 3, 2), (4, 5, 2), (8, 10, 1), (64, 66, 0)) if q else ((1, 3, 3), (2, 4, 3), (4, 6, 2), (8, 10, 2), (16, 20, 1), (64, 70, 1)):
        J.append(Job(f'len{l}', 'c12/str.cpp', [f'LEN={l}', f'MAXT={t}', f'OPS={o}'], reach=['end', 'full'], bounds=f'capacity {l}, sources of 0..{t} bytes of any value, {o} operations'))
    return J
SPEC['C12'] = dict(jobs=c12, how='Every construction, assignment and concatenation of texts of every length and content up to the bound, against the truncated text; object storage starts uninitialised.')
def c13(tier): return [Job(n, 'c13/pow2.cpp', [f'FALLBACK={i}'], reach=['end', 'zero', 'positive'], bounds='every 64-bit argument') for i, n in enumerate(('intrinsic', 'portable'))]
SPEC['C13'] = dict(jobs=c13, how='All 64-bit arguments at once, against the definition.')
def c14(tier):
    q = tier == 'quick'; J = []
    B = ['gain', 'gain_float', 'real_imag', 'mag_phase', 'awgn', 'awgn_complex', 'fm_demod', 'kaiser', 'kaiser_complex', 'throughput']; L = ['/usr/include/liquid']
    def add(name, blk, buf=0, calls=2, bulk=0, real=0, symrot=0, anyroom=0, reach=('moved', 'blocked', 'partly moved'), **kw): J.append(Job(name, 'c14/blocks.cpp', [f'BLK={blk}', f'BUF={buf}', f'CALLS={calls}', f'BULK={bulk}', f'REALOUT={real}', f'SYMROT={symrot}', f'ANYROOM={anyroom}'], inc=L, reach=['end', *reach], bounds=f'{calls} calls, ' + ('a full input and half the room, then the rest' if bulk else 'every combination of 0..3 arriving samples and ' + ('any room' if anyroom else 'room for 0, 1, 2 or 4') + ' at ' + ('every start position' if symrot else 'start positions 0, last and capacity')) + ', any sample bits', **kw))
    for i, b in enumerate(B):
        two = i in (2, 3); n = 2 if two else 3
        add(b, i, calls=n if q else n + 1 - two)
        if i in (0, 1, 4, 5): add(b + '_small', i, buf=3, calls=3)
        if i == 0: add(b + '_anywhere', i, buf=5, calls=1, symrot=1, anyroom=1, reach=('moved', 'blocked'))
        add(b + '_bulk', i, calls=3, bulk=1, reach=('moved', 'partly moved')); add(b + '_real', i, calls=2, real=1); add(b + '_room', i, calls=1, anyroom=1)
    return J
SPEC['C14'] = dict(jobs=c14, how='Every sequence of arrivals and output rooms up to the bound, from several ring positions, on symbolic samples; each output sample is compared bit for bit with the defined function of its own input sample.', assumptions=['liquid-dsp filters, libm and the random number generator are replaced by deterministic per-sample functions: what they compute is not decided, only which sample goes where'])
def c15(tier):
    q = tier == 'quick'; J = []
    def add(name, blk, ports, calls, maxin=3, real=0, buf=0, anyroom=0): J.append(Job(name, 'c15/ports.cpp', [f'BLK={blk}', f'PORTS={ports}', f'CALLS={calls}', f'MAXIN={maxin}', f'REALOUT={real}', f'BUF={buf}', f'ANYROOM={anyroom}'], inc=['/usr/include/liquid'], reach=['end', 'moved', 'blocked'] + (['uneven'] if ports > 1 else []), bounds=f'{ports} ports, {calls} calls, every combination of ' + (f'0..{2 * ports}' if blk == 2 else f'0..{maxin - 1}') + ' arrivals and ' + ('any room' if anyroom else 'room for 0, 1 or 3') + ' per port, start positions 0, last and capacity, any samples'))
    add('add2', 0, 2, 3 if q else 4); add('add3', 0, 3, 2, maxin=3 if q else 4); add('add2_real', 0, 2, 1, maxin=4, real=1)
    add('fanout1', 1, 1, 3); add('fanout2', 1, 2, 3, maxin=3); add('fanout3', 1, 3, 2, maxin=4); add('fanout2_real', 1, 2, 1, maxin=4, real=1)
    add('channelizer2', 2, 2, 2); add('channelizer3', 2, 3, 1 if q else 2); add('channelizer4_buf', 2, 4, 1, buf=1024); add('channelizer2_real', 2, 2, 1, real=1)
    add('add2_room', 0, 2, 1, maxin=3, anyroom=1); add('fanout2_room', 1, 2, 1, maxin=3, anyroom=1); add('channelizer2_room', 2, 2, 1, anyroom=1)
    return J
SPEC['C15'] = dict(jobs=c15, how='Every combination of per-port arrivals and rooms over a few calls, on symbolic samples, against per-sample oracles.', assumptions=['the channeliser of liquid-dsp is replaced by a deterministic per-frame function'])
def c16(tier):
    q = tier == 'quick'; J = []
    def add(name, blk, n, calls, cplx=1, sympar=0, symin=0, buf=0): J.append(Job(name, 'c16/chunks.cpp', [f'BLK={blk}', f'NS={n}', f'CALLS={calls}', f'CPLX={cplx}', f'SYMPAR={sympar}', f'SYMIN={symin}', f'BUF={buf}'], flags=['-fcx-limited-range'], reach=['end', 'blocked'], bounds=f'{n} samples, every cutting into a first call of any room, {calls - 1} more with room for 0, 1, 2 or 5 (and as many arrivals) and a last one' + (', any oscillator parameters' if sympar else ', several parameters') + (', any samples' if symin else '')))
    n, c = (10, 4) if q else (16, 6)
    for cp in (0, 1): add(f'tone{cp}', 0, n, c, cplx=cp); add(f'chirp{cp}', 1, n, c - 1 + (not q), cplx=cp); add(f'tone{cp}_any', 0, n, c, cplx=cp, sympar=1); add(f'chirp{cp}_any', 1, n, c, cplx=cp, sympar=1)
    add('shift', 2, 7, 2 if q else 3); add('shift_samples', 2, 7, 2 if q else 3, symin=1); add('shift_any', 2, 7, 3, sympar=1, symin=1); add('shift_small', 2, 7, 2 if q else 3, buf=3)
    return J
SPEC['C16'] = dict(jobs=c16, how='Every cutting of a stream into calls against the uncut stream of a second block, bit for bit; with symbolic oscillator parameters and samples, and for listed parameters also against the closed form.', assumptions=['complex multiplication is evaluated without the NaN recovery of Annex G (-fcx-limited-range)'])
def c17(tier):
    q = tier == 'quick'; J = []
    def add(sps, calls, bits, shift=0, late=0, behind=True): J.append(Job(f'sps{sps}_{bits}{"_late" if late else ""}', 'c17/throttle.cpp', [f'SPS={sps}', f'CALLS={calls}', f'STEPBITS={bits}', f'SHIFT={shift}', f'LATE={late}', 'GAP=1'], reach=['end', 'blocked'] + (['late'] if behind else []) + (['waited'] if sps <= 10**9 else []), bounds=f'{sps} samples/s, {calls} calls, every arrival of 0..2 and room of 0..2, every clock step of 0..{2 ** bits - 1}' + (f' * 2^{shift}' if shift else '') + ' ns between readings' + (' and after every wait' if late else '')))
    n = 3 if q else 4
    for sps, bits, sh in ((1, 4, 27), (3, 4, 26), (7, 4, 25), (1000, 5, 16), (44100, 5, 11), (1000000, 4, 7), (250000000, 4, 0), (999999999, 3, 0), (1000000000, 2, 0), (2000000000, 2, 0)): add(sps, n, bits, sh)
    add(1000, n, 10, behind=False); add(5, n, 3, 26, late=1); add(48000, n, 4, 11, late=1)
    return J
SPEC['C17'] = dict(jobs=c17, how='Every sequence of arrivals and rooms with symbolic clock readings: the time at which each sample leaves is compared with the earliest its rate allows.', assumptions=['a sleep lasts at least as long as it was asked to', 'the interval is the reciprocal of the rate cut to whole clock ticks'])
def c18(tier):
    q = tier == 'quick'; J = []
    for sz, mb, n in ((1, 4, 5), (3, 8, 5), (4, 14, 5), (8, 18, 5)) if q else ((1, 6, 6), (3, 14, 6), (4, 18, 6), (8, 26, 6), (12, 40, 6)):
        J.append(Job(f'source{sz}', 'c18/file.cpp', ['SINK=0', f'SZ={sz}', f'MAXB={mb}', f'CALLS={n}', 'IOFAULTS=0'], reach=['end', 'repeated', 'all read', 'terminated'], bounds=f'items of {sz} bytes, every file length of 0..{mb} bytes and content, {n} calls with room for 0, 1, 2 or 5 items'))
        J.append(Job(f'source{sz}_fault', 'c18/file.cpp', ['SINK=0', f'SZ={sz}', f'MAXB={mb}', f'CALLS={n - 1}', 'IOFAULTS=1'], reach=['end', 'refused', 'terminated'], bounds=f'items of {sz} bytes, every file length of 0..{mb} bytes and content, {n - 1} calls, a failure to open or read anywhere'))
    for sz, n in ((1024, 4), (2048, 4)) if q else ((512, 5), (1024, 6), (2048, 6)):
        for f in (0, 1): J.append(Job(f'sink{sz}_f{f}', 'c18/file.cpp', ['SINK=1', f'SZ={sz}', 'MAXB=8192', f'CALLS={n}', f'IOFAULTS={f}'], reach=['end', 'written'] + (['refused', 'failed'] if f else []), bounds=f'items of {sz} bytes, {n} calls, 0, 1, 2 or 5 arrivals before each' + (', a failure to open or write anywhere' if f else '')))
    return J
SPEC['C18'] = dict(jobs=c18, how='Every file length and content up to the bound under every cutting into calls, and every placement of one failure, against the file; the sink likewise against the items it consumed.', assumptions=['std::ifstream and stdio are modelled after their specification'])
def c19(tier):
    q = tier == 'quick'; J = []
    for n, ops in ((1, 8), (2, 8), (3, 7), (4, 7)) if q else ((1, 12), (2, 10), (3, 9), (4, 8), (5, 8)):
        J.append(Job(f'slots{n}', 'c19/slab.cpp', ['THR=0', f'NS={n}', f'OPS={ops}', 'NT=0', 'NR=0', f'MAXSIZE={9 if q else 17}'], reach=['end', 'released', 'exhausted'], bounds=f'{n} slots of 1 to {9 if q else 17} bytes, every sequence of {ops} requests and releases, any contents'))
    for n, nt, nr in ((1, 3, 3), (2, 3, 2), (3, 3, 2)) if q else ((1, 5, 4), (2, 4, 3), (3, 4, 4)):
        J.append(Job(f'threads{n}', 'c19/slab.cpp', ['THR=1', f'NS={n}', 'OPS=0', f'NT={nt}', f'NR={nr}', 'MAXSIZE=4'], reach=['end', 'passed on'], opts=['-max-visible', '200'], replay='threads', bounds=f'{n} slots, a source that takes {nt} times and passes on or gives back, a sink that releases up to {nr}, every interleaving'))
    return J
SPEC['C19'] = dict(jobs=c19, how='Every sequence of requests and releases, and every interleaving of a taking and two releasing parties, with symbolic contents; each slot is held by one party at a time.')
def c20(tier):
    q = tier == 'quick'; J = []
    for blob in (0, 1):
        for slots, calls, ev in (((2, 2, 2), (1, 3, 1), (3, 1, 3)) if q else ((2, 3, 2), (1, 4, 2), (3, 2, 3))) if blob else (((1, 2, 2), (1, 1, 3)) if q else ((1, 3, 2), (1, 2, 3))):
            J.append(Job(f'source_{"blob" if blob else "item"}_{slots}_{calls}', 'c20/udp.cpp', ['SINK=0', f'BLOB={blob}', f'SLOTS={slots}', f'CALLS={calls}', f'EVENTS={ev}'], reach=['end', 'received', 'failed'], bounds=f'{calls} calls with room for 0..3, up to {ev} socket results each (datagrams of any length and content, oversized, empty, would block, interrupted, failure)' + (f', {slots} buffers released at any time' if blob else '')))
        for n in ((2, 3) if q else (3, 4)):
            J.append(Job(f'sink_{"blob" if blob else "item"}_{n}', 'c20/udp.cpp', ['SINK=1', f'BLOB={blob}', 'SLOTS=4', f'CALLS={n}', 'EVENTS=0'], reach=['end', 'sent', 'failed'], bounds=f'{n} calls, 0..3 items before each, a send failure anywhere'))
    return J
SPEC['C20'] = dict(jobs=c20, how='Every sequence of socket results and output rooms on symbolic datagrams against the list of datagrams received; the sink against the list of items consumed.', assumptions=['the socket calls are replaced by a model that yields any result'])
def c21(tier):
    q = tier == 'quick'; J = []
    def add(name, ty, ln, pre='', lng=0, f=0): J.append(Job(name, 'c21/addr.cpp', [f'TYPE={ty}', f'LEN={ln}', f'PRE="{pre}"', f'LONG={lng}', f'IOFAULTS={f}'], reach=['end', 'accepted', 'sender', 'receiver'] + (['refused'] if ty != 2 and not f and not pre.endswith(':65') else []) + (['failed'] if f else []), bounds=('every text of up to ' + str(ln) + ' bytes' + (f' after "{pre}"' if pre else '')) + (', paths of 106 to 109 bytes' if lng else '') + (', a failing socket call' if f else ''))) 
    n = 5 if q else 7
    for ty in (0, 1): add(f'inet{ty}', ty, n); add(f'inet{ty}_port', ty, 6 if q else 7, 'h:'); add(f'inet{ty}_long', ty, 2, 'h:655') ; add(f'inet{ty}_huge', ty, 3, 'h:00000214748364'); add(f'inet{ty}_fault', ty, 2, 'h:1', f=1); add(f'inet{ty}_colons', ty, 3, '[a:b]::')
    add('unix', 2, n); add('unix_long', 2, 1, 'a', lng=1); add('unix_fault', 2, 2, 'x', f=1)
    return J
SPEC['C21'] = dict(jobs=c21, how='Every text up to the bound, character by character symbolic, against the grammar; the address used by the socket calls is compared with the one written; every failure of the calls.', assumptions=['the socket calls and inet_pton are replaced by a model'])
