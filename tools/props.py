"""What each property runs, and the bounds."""
COMMON_ASSUMPTIONS = [
    'abseil, TensorFlow, gRPC, protobuf and snappy are replaced by the models in shim/; LLVM IR is produced by clang 18 at -O1',
    'inputs outside the stated bounds are not covered',
]
PROPS = {
    'C01': dict(
        assumptions=['limits and samples_per_insert are multiples of 1/4 small enough for exact double arithmetic'],
        harnesses=[
            dict(src='c01_rate_limiter.cc', quick=dict(defs=['BOUND=1000000000', 'STEPS=1']), thorough=dict(defs=['BOUND=1000000000000', 'STEPS=3'], time=3000),
                 bounds='6 values of samples_per_insert; min_size, limits*4 and all three counters symbolic in [0,BOUND]; STEPS operations from that arbitrary state'),
        ]),
    'C05': dict(
        assumptions=['priorities are not NaN'],
        harnesses=[
            dict(src='c05_order.cc', key='c05_queue', unreached=[], quick=dict(defs=['NINIT=3', 'OPS=3', 'KIND=choose(2,"kind")']),
                 thorough=dict(defs=['NINIT=5', 'OPS=4', 'KIND=choose(2,"kind")'], time=1500),
                 bounds='FIFO and LIFO: up to NINIT keys, then OPS arbitrary insert/delete/update/clear operations, then drained'),
            dict(src='c05_order.cc', key='c05_heap', quick=dict(defs=['NINIT=4', 'OPS=1', 'KIND=2+choose(2,"kind")']),
                 thorough=dict(defs=['NINIT=4', 'OPS=2', 'KIND=2+choose(2,"kind")'], time=2500),
                 bounds='min and max heap: up to NINIT keys with symbolic priorities (halves of 16-bit integers, so every order and tie pattern), then OPS arbitrary operations, then drained; the order is checked at every step of the drain'),
            dict(src='c05_order.cc', key='c05_heap6', reach_any=True, quick=dict(defs=['INIT=7', 'OPS=1', 'KIND=2']),
                 thorough=dict(defs=['INIT=7', 'OPS=2', 'DRAIN=4', 'KIND=2+choose(2,"kind")'], time=2500),
                 bounds='heaps of INIT keys with symbolic priorities, one deletion or update of any of them, then keys drained in order'),
            dict(src='c05_order.cc', key='c05_heap_raw', quick=dict(defs=['RAW=1', 'NINIT=2', 'OPS=1', 'KIND=2+choose(2,"kind")']),
                 thorough=dict(defs=['RAW=1', 'NINIT=3', 'OPS=1', 'KIND=2+choose(2,"kind")'], time=2500),
                 bounds='as c05_heap with arbitrary non-NaN double priorities'),
        ]),
    'C06': dict(
        assumptions=['the bit generator is uniform over the range it is asked for (a draw is k*2^-20 with k symbolic)',
                     'priorities are integers small enough for exact double arithmetic; exponents 0, 1 and 2',
                     'the initial capacity of the weight tree is scaled from 2^17 to 4 nodes, so growth is covered'],
        harnesses=[
            dict(src='c06_random.cc', key='c06_uniform', reach_any=True, quick=dict(defs=['UNIFORM=1', 'NP=1', 'NINIT=4', 'OPS=3']),
                 thorough=dict(defs=['UNIFORM=1', 'NP=1', 'NINIT=5', 'OPS=4'], time=1500),
                 bounds='uniform: up to NINIT keys and OPS arbitrary operations, then two symbolic draws'),
            dict(src='c06_random.cc', key='c06_prioritized', reach_any=True, quick=dict(defs=['NINIT=3', 'OPS=1', 'NP=4']),
                 thorough=dict(defs=['NINIT=3', 'OPS=2', 'NP=4'], time=3000),
                 bounds='prioritized: up to NINIT keys with every combination of NP priorities (0, 1, 3, 60, 2, 7) and OPS arbitrary operations, exponents 0, 1 and 2, then two symbolic draws'),
            dict(src='c06_random.cc', key='c06_growth', reach_any=True, quick=dict(defs=['INIT=6', 'OPS=0', 'NP=3']),
                 thorough=dict(defs=['INIT=6', 'OPS=1', 'NP=4'], time=3000),
                 bounds='prioritized: INIT keys, past the (scaled) capacity'),
        ]),
    'C03': dict(
        assumptions=['priorities are valid for the selectors, except where the harness plants an invalid one'],
        harnesses=[
            dict(src='c03_table.cc', key='c03_det', reach_any=True, quick=dict(defs=['SK=kFifo', 'RK=choose(4,"remover")', 'SIZE=verif::range(1,3,"size")', 'TIMES=0', 'LIM=0', 'OPSET=0x4b', 'PREFILL=3', 'OPS=1', 'NEP=2']),
                 thorough=dict(defs=['SK=kFifo', 'RK=choose(4,"remover")', 'SIZE=verif::range(1,3,"size")', 'TIMES=0', 'LIM=0', 'OPSET=0x4b', 'PREFILL=3', 'OPS=2', 'NEP=4'], time=1500),
                 bounds='symbolic 64-bit keys and 8-bit priorities (halves) unless NPRIO; FIFO sampler, every deterministic remover, capacity symbolic in 1..3; PREFILL inserts then OPS of insert, sample, delete, malformed insert; NEP episode patterns'),
            dict(src='c03_table.cc', key='c03_det2', reach_any=True, quick=dict(defs=['SK=kFifo', 'RK=choose(4,"remover")', 'SIZE=verif::range(1,2,"size")', 'TIMES=0', 'LIM=0', 'OPSET=0xb', 'PREFILL=2', 'OPS=2', 'NEP=2']),
                 thorough=dict(defs=['SK=kFifo', 'RK=choose(4,"remover")', 'SIZE=verif::range(1,2,"size")', 'TIMES=0', 'LIM=0', 'OPSET=0xb', 'PREFILL=2', 'OPS=3', 'NEP=3'], time=1500),
                 bounds='symbolic 64-bit keys and 8-bit priorities (halves) unless NPRIO; as c03_det, capacity 1..2, longer histories'),
            dict(src='c03_table.cc', key='c03_rnd', reach_any=True, quick=dict(defs=['SK=kUniform', 'RK=4+choose(2,"remover")', 'SIZE=verif::range(1,2,"size")', 'TIMES=0', 'LIM=0', 'OPSET=0x9', 'PREFILL=2', 'OPS=1', 'NEP=2', 'NPRIO=2']),
                 thorough=dict(defs=['SK=kUniform', 'RK=4+choose(2,"remover")', 'SIZE=verif::range(1,2,"size")', 'TIMES=0', 'LIM=0', 'OPSET=0x9', 'PREFILL=2', 'OPS=2', 'NEP=2', 'NPRIO=3'], time=1500),
                 bounds='symbolic 64-bit keys and 8-bit priorities (halves) unless NPRIO; uniform sampler, uniform and prioritized removers with every draw'),
            dict(src='c03_table.cc', key='c03_bad', reach_any=True, quick=dict(defs=['SK=choose(2,"sampler")?kPrio:kFifo', 'RK=h.skind==kPrio&&flip("remover")?kFifo:kPrio', 'SIZE=2', 'TIMES=0', 'LIM=choose(2,"limits")', 'OPSET=0x81', 'PREFILL=2', 'OPS=2', 'NEP=1', 'NPRIO=1']),
                 thorough=dict(defs=['SK=choose(2,"sampler")?kPrio:kFifo', 'RK=h.skind==kPrio&&flip("remover")?kFifo:kPrio', 'SIZE=2', 'TIMES=0', 'LIM=choose(2,"limits")', 'OPSET=0x8b', 'PREFILL=2', 'OPS=3', 'NEP=1', 'NPRIO=2'], time=1500),
                 bounds='inserts and updates with a NaN or negative priority on tables with a prioritized sampler or remover'),
            dict(src='c03_table.cc', key='c03_lim', reach_any=True, quick=dict(defs=['SK=kMinHeap', 'RK=kFifo', 'SIZE=verif::range(1,2,"size")', 'TIMES=0', 'LIM=1+choose(4,"limits")', 'OPSET=0x2b', 'PREFILL=2', 'OPS=3', 'NEP=1']),
                 thorough=dict(defs=['SK=kMinHeap', 'RK=kFifo', 'SIZE=verif::range(1,2,"size")', 'TIMES=0', 'LIM=1+choose(4,"limits")', 'OPSET=0x2b', 'PREFILL=2', 'OPS=4', 'NEP=2'], time=1500),
                 bounds='symbolic 64-bit keys and 8-bit priorities (halves) unless NPRIO; four rate limiter configurations that refuse operations; insert, sample, delete, reset'),
        ]),
    'C04': dict(
        assumptions=['priorities are valid for the selectors'],
        harnesses=[
            dict(src='c03_table.cc', key='c04_det', reach_any=True, quick=dict(defs=['SK=choose(4,"sampler")', 'RK=kFifo', 'SIZE=3', 'TIMES=(int)verif::range(0,2,"times")', 'LIM=0', 'OPSET=0xf', 'MAXBATCH=3', 'PREFILL=2', 'OPS=2', 'NEP=1']),
                 thorough=dict(defs=['SK=choose(4,"sampler")', 'RK=kFifo', 'SIZE=3', 'TIMES=(int)verif::range(0,2,"times")', 'LIM=0', 'OPSET=0xf', 'MAXBATCH=4', 'PREFILL=3', 'OPS=3', 'NEP=1'], time=1500),
                 bounds='symbolic 64-bit keys and 8-bit priorities (halves) unless NPRIO; every deterministic sampler, sampling limit symbolic in 0..2, batches up to MAXBATCH; insert, sample, update, delete'),
            dict(src='c03_table.cc', key='c04_rnd', reach_any=True, quick=dict(defs=['SK=4+choose(2,"sampler")', 'RK=kFifo', 'SIZE=3', 'TIMES=(int)verif::range(0,2,"times")', 'LIM=2*choose(2,"limits")', 'OPSET=0xe', 'MAXBATCH=2', 'PREFILL=2', 'OPS=2', 'NEP=2', 'NPRIO=2']),
                 thorough=dict(defs=['SK=4+choose(2,"sampler")', 'RK=kFifo', 'SIZE=3', 'TIMES=(int)verif::range(0,2,"times")', 'LIM=2*choose(2,"limits")', 'OPSET=0xe', 'MAXBATCH=3', 'PREFILL=3', 'OPS=2', 'NEP=2', 'NPRIO=2'], time=1500),
                 bounds='symbolic 64-bit keys and 8-bit priorities (halves) unless NPRIO; uniform and prioritized samplers with every draw'),
            dict(src='c03_table.cc', key='c04_again', reach_any=True, quick=dict(defs=['SK=kFifo', 'RK=kFifo', 'SIZE=2', 'TIMES=(int)verif::range(-1,2,"times")', 'LIM=choose(5,"limits")', 'OPSET=0x3', 'PREFILL=1', 'OPS=4', 'NEP=1']),
                 thorough=dict(defs=['SK=kFifo', 'RK=kFifo', 'SIZE=2', 'TIMES=(int)verif::range(-1,2,"times")', 'LIM=choose(5,"limits")', 'OPSET=0x3', 'PREFILL=1', 'OPS=6', 'NEP=2'], time=1500),
                 bounds='symbolic 64-bit keys and 8-bit priorities (halves) unless NPRIO; longer histories of inserts and batched samples under five rate limiter configurations, so that items are evicted, removed by the limit and inserted again'),
            dict(src='c28_concurrent.cc', key='c04_wait', reach_any=True, quick=dict(defs=['SK=kFifo', 'TIMES=choose(3,"times")', 'OPSET=0x3', 'PREFILL=1', 'THREADS=2', 'PER=2', 'MAXBATCH=3', 'PREEMPT=1']),
                 thorough=dict(defs=['SK=kMinHeap', 'TIMES=choose(3,"times")', 'OPSET=0xf', 'PREFILL=1', 'THREADS=2', 'PER=2', 'MAXBATCH=3', 'PREEMPT=1'], time=1500),
                 bounds='two concurrent callers that sample (batches up to MAXBATCH) and insert, so that samples wait for the rate limiter; symbolic limits'),
        ]),
    'C07': dict(
        assumptions=['priorities are valid for the selectors'],
        harnesses=[
            dict(src='c03_table.cc', key='c07_mut', reach_any=True, quick=dict(defs=['SK=kMaxHeap', 'RK=kMinHeap', 'SIZE=3', 'TIMES=0', 'LIM=0', 'OPSET=0x11', 'PREFILL=3', 'OPS=1', 'NEP=2']),
                 thorough=dict(defs=['SK=kMaxHeap', 'RK=kMinHeap', 'SIZE=3', 'TIMES=0', 'LIM=0', 'OPSET=0x11', 'PREFILL=3', 'OPS=2', 'NEP=2'], time=1500),
                 bounds='symbolic 64-bit keys and 8-bit priorities (halves) unless NPRIO; mutations of two updates and two deletions with every overlap of the keys'),
            dict(src='c03_table.cc', key='c07_mix', reach_any=True, quick=dict(defs=['SK=choose(4,"sampler")', 'RK=kMaxHeap', 'SIZE=2', 'TIMES=2', 'LIM=1', 'OPSET=0x2f', 'PREFILL=2', 'OPS=2', 'NEP=2']),
                 thorough=dict(defs=['SK=choose(4,"sampler")', 'RK=kMaxHeap', 'SIZE=2', 'TIMES=2', 'LIM=1', 'OPSET=0x2f', 'PREFILL=2', 'OPS=3', 'NEP=2'], time=1500),
                 bounds='symbolic 64-bit keys and 8-bit priorities (halves) unless NPRIO; insert, sample, update, delete and reset in every order, sampling limit 2, limits that refuse'),
            dict(src='c03_table.cc', key='c07_rnd', reach_any=True, quick=dict(defs=['SK=kPrio', 'RK=kUniform', 'SIZE=2', 'TIMES=0', 'LIM=0', 'OPSET=0x2d', 'PREFILL=2', 'OPS=3', 'NEP=1', 'NPRIO=2']),
                 thorough=dict(defs=['SK=kPrio', 'RK=kUniform', 'SIZE=2', 'TIMES=0', 'LIM=0', 'OPSET=0x2d', 'PREFILL=2', 'OPS=4', 'NEP=1', 'NPRIO=2'], time=1500),
                 bounds='symbolic 64-bit keys and 8-bit priorities (halves) unless NPRIO; prioritized sampler and uniform remover'),
        ]),
    'C02': dict(
        assumptions=['threads switch only at locks, condition variables and clock reads'],
        harnesses=[
            dict(src='c02_limiter_wait.cc', key='c02_wait', reach_any=True, quick=dict(defs=['WAITERS=3', 'OPS=2', 'PREEMPT=1', 'TIMEOUTS=0', 'SPI=1.0']),
                 thorough=dict(defs=['WAITERS=3', 'OPS=3', 'PREEMPT=2', 'TIMEOUTS=0', 'SPI=1.0+choose(2,"spi")'], time=2500),
                 bounds='WAITERS blocked callers, OPS operations of a further thread, PREEMPT preemptions, symbolic counters and limits'),
            dict(src='c02_limiter_wait.cc', key='c02_timeout', reach_any=True, quick=dict(defs=['WAITERS=2', 'OPS=2', 'PREEMPT=1', 'TIMEOUTS=1', 'SPI=1.0']),
                 thorough=dict(defs=['WAITERS=2', 'OPS=2', 'PREEMPT=2', 'TIMEOUTS=2', 'SPI=2.0'], time=2500),
                 bounds='as c02_wait with timeouts expiring at every point'),
            dict(src='c02_stats.cc', key='c02_stats', quick=dict(defs=['OPS=4', 'BIG=1']), unreached=['log wrapped'],
                 thorough=dict(defs=['OPS=6', 'BIG=1'], time=1500),
                 bounds='OPS calls, some blocked, symbolic first event id'),
            dict(src='c02_stats.cc', key='c02_wrap', reach_any=True, quick=dict(defs=['OPS=10', 'BIG=0', 'choose(n,s)=(step<6?2:step==6?3:verif::choose(4,s))']),
                 bounds='as c02_stats with more events than the log holds (capacity scaled to 8)'),
            dict(src='c28_concurrent.cc', key='c02_table', reach_any=True, quick=dict(defs=['SK=kFifo', 'TIMES=choose(2,"times")', 'OPSET=0xb', 'PREFILL=1', 'THREADS=3', 'PER=1', 'MAXBATCH=2', 'PREEMPT=1']),
                 thorough=dict(defs=['SK=kFifo', 'TIMES=choose(2,"times")', 'OPSET=0x1b', 'PREFILL=1', 'THREADS=3', 'PER=2', 'MAXBATCH=2', 'PREEMPT=1'], time=1500),
                 bounds='three callers of a table that insert, sample and delete: at the end no call is blocked that the limits admit'),
        ]),
    'C17': dict(
        assumptions=['the file system and the record format are modelled; protobuf serialization is modelled'],
        harnesses=[
            dict(src='c17_checkpoint.cc', key='c17_det', reach_any=True, quick=dict(defs=['SK=choose(4,"sampler")', 'RK=(h.skind+1+choose(2,"remover"))%4', 'SIZE=verif::range(1,2,"size")', 'TIMES=0', 'LIM=0', 'PREFILL=2', 'OPS=1', 'OPS2=1', 'NEP=1']),
                 thorough=dict(defs=['SK=choose(4,"sampler")', 'RK=choose(4,"remover")', 'SIZE=verif::range(1,3,"size")', 'TIMES=0', 'LIM=0', 'PREFILL=3', 'OPS=1', 'OPS2=2', 'NEP=2'], time=2500),
                 bounds='symbolic 64-bit keys and priorities (halves of 8-bit integers); every deterministic sampler and remover, symbolic capacity; up to PREFILL inserts and OPS operations of insert, sample, update, delete, reset; both orders of two tables, with and without a signature; saved, loaded into tables of other settings, compared, then OPS2 operations next to the reference model'),
            dict(src='c17_checkpoint.cc', key='c17_lim', reach_any=True, quick=dict(defs=['SK=kFifo', 'RK=kFifo', 'SIZE=2', 'TIMES=2', 'LIM=1+choose(2,"limits")', 'PREFILL=2', 'OPS=1', 'OPS2=2', 'NEP=1']),
                 thorough=dict(defs=['SK=choose(4,"sampler")', 'RK=kFifo', 'SIZE=2', 'TIMES=2', 'LIM=choose(3,"limits")', 'PREFILL=2', 'OPS=3', 'OPS2=2', 'NEP=1'], time=2500),
                 bounds='as c17_det under two rate limiter configurations that refuse operations and a sampling limit of 2'),
            dict(src='c17_checkpoint.cc', key='c17_rnd', reach_any=True, quick=dict(defs=['SK=4+choose(2,"sampler")', 'RK=4+choose(2,"remover")', 'SIZE=2', 'TIMES=0', 'LIM=0', 'PREFILL=2', 'OPS=0', 'OPS2=1', 'NEP=1', 'NPRIO=2']),
                 thorough=dict(defs=['SK=4+choose(2,"sampler")', 'RK=4+choose(2,"remover")', 'SIZE=2', 'TIMES=0', 'LIM=0', 'PREFILL=2', 'OPS=1', 'OPS2=1', 'NEP=2', 'NPRIO=2'], time=2500),
                 bounds='as c17_det with uniform and prioritized selectors, every draw'),
        ]),
    'C18': dict(
        assumptions=['the file system is modelled: data reaches a file when it is flushed or closed, a crash stops the process between two file system calls (no loss of data already handed to the system)',
                     'checkpoints start at different times'],
        harnesses=[
            dict(src='c18_saves.cc', key='c18_saves', reach_any=True, quick=dict(defs=['SAVES=3', 'KEEP=2', 'BOTH=1', 'FAULTS=1']),
                 thorough=dict(defs=['SAVES=4', 'KEEP=3', 'BOTH=1', 'FAULTS=2'], time=2500),
                 bounds='SAVES saves of growing state, one or two tables, keep_latest 1..KEEP, a crash before any file system call of one save, FAULTS failing file system calls in one save, a change of the time zone offset between saves, symbolic priorities'),
        ]),
    'C28': dict(
        assumptions=['threads switch only at locks, condition variables and clock reads'],
        harnesses=[
            dict(src='c28_concurrent.cc', key='c28_pairs', reach_any=True, quick=dict(defs=['SK=kFifo', 'TIMES=choose(2,"times")', 'OPSET=0x1b', 'PREFILL=1', 'THREADS=2', 'PER=2', 'MAXBATCH=2', 'PREEMPT=1']),
                 thorough=dict(defs=['SK=kFifo', 'TIMES=choose(3,"times")', 'OPSET=0x3f', 'PREFILL=2', 'THREADS=2', 'PER=3', 'MAXBATCH=2', 'PREEMPT=2'], time=2500),
                 bounds='two callers of PER calls each: insert, sample (batches up to MAXBATCH), update, delete, reset, info; symbolic limits; PREEMPT preemptions and every choice of the next thread when one blocks'),
            dict(src='c28_concurrent.cc', key='c28_three', reach_any=True, quick=dict(defs=['SK=kFifo', 'TIMES=choose(2,"times")', 'OPSET=0xb', 'PREFILL=1', 'THREADS=3', 'PER=1', 'MAXBATCH=3', 'PREEMPT=2']),
                 thorough=dict(defs=['SK=kFifo', 'TIMES=choose(2,"times")', 'OPSET=0x1b', 'PREFILL=1', 'THREADS=3', 'PER=2', 'MAXBATCH=2', 'PREEMPT=1'], time=2500),
                 bounds='three callers'),
            dict(src='c28_concurrent.cc', key='c28_four', reach_any=True, quick=dict(defs=['SK=kFifo', 'TIMES=0', 'OPSET=0x3', 'KEYS=3', 'PREFILL=1', 'THREADS=4', 'PER=1', 'MAXBATCH=2', 'PREEMPT=0']),
                 thorough=dict(defs=['SK=kFifo', 'TIMES=0', 'OPSET=0x3', 'KEYS=3', 'PREFILL=1', 'THREADS=4', 'PER=1', 'MAXBATCH=2', 'PREEMPT=1'], time=2500),
                 bounds='four callers that insert (three keys) or sample, several of them blocked'),
            dict(src='c28_concurrent.cc', key='c28_heap', reach_any=True, quick=dict(defs=['SK=kMinHeap', 'TIMES=1', 'OPSET=0x7', 'PREFILL=2', 'THREADS=2', 'PER=1', 'MAXBATCH=2', 'PREEMPT=1']),
                 thorough=dict(defs=['SK=kMinHeap', 'TIMES=1', 'OPSET=0xf', 'PREFILL=2', 'THREADS=2', 'PER=2', 'MAXBATCH=2', 'PREEMPT=1'], time=2500),
                 bounds='a heap sampler with symbolic priorities'),
        ]),
    'C15': dict(
        assumptions=['threads switch only at locks, condition variables and clock reads'],
        harnesses=[
            dict(src='c15_queue.cc', key='c15_bounded', reach_any=True, quick=dict(defs=['UNBOUNDED=0', 'CAP=2', 'OFFSETS=2', 'PRODUCERS=2', 'PUSHES=2', 'CONSUMERS=2', 'POPS=2', 'BATCH=0', 'PREEMPT=1', 'TIMEOUTS=0']),
                 thorough=dict(defs=['UNBOUNDED=0', 'CAP=2', 'OFFSETS=3', 'PRODUCERS=2', 'PUSHES=2', 'CONSUMERS=2', 'POPS=2', 'BATCH=0', 'PREEMPT=2', 'TIMEOUTS=0'], time=2500),
                 bounds='capacity CAP, PRODUCERS x PUSHES, CONSUMERS x POPS, one closer (none, Close, SetLastItemPushed), PREEMPT preemptions and every choice of the next thread; symbolic elements'),
            dict(src='c15_queue.cc', key='c15_batch', reach_any=True, quick=dict(defs=['UNBOUNDED=0', 'CAP=2', 'OFFSETS=2', 'PRODUCERS=1', 'PUSHES=3', 'CONSUMERS=1', 'POPS=2', 'BATCH=1', 'PREEMPT=1', 'TIMEOUTS=1']),
                 thorough=dict(defs=['UNBOUNDED=0', 'CAP=3', 'OFFSETS=3', 'PRODUCERS=1', 'PUSHES=4', 'CONSUMERS=2', 'POPS=2', 'BATCH=1', 'PREEMPT=1', 'TIMEOUTS=1'], time=2500),
                 bounds='batched pops of every size up to one more than the capacity, with and without a timeout that may expire at any point'),
            dict(src='c15_queue.cc', key='c15_unbounded', reach_any=True, quick=dict(defs=['UNBOUNDED=1', 'OFFSETS=1', 'PRODUCERS=2', 'PUSHES=2', 'CONSUMERS=2', 'POPS=2', 'BATCH=0', 'PREEMPT=1', 'TIMEOUTS=0']),
                 thorough=dict(defs=['UNBOUNDED=1', 'OFFSETS=1', 'PRODUCERS=2', 'PUSHES=3', 'CONSUMERS=2', 'POPS=3', 'BATCH=0', 'PREEMPT=2', 'TIMEOUTS=0'], time=2500),
                 bounds='the unbounded queue'),
        ]),
    'C16': dict(
        assumptions=['threads switch only at locks, condition variables and clock reads'],
        harnesses=[
            dict(src='c16_executors.cc', key='c16_executor', reach_any=True, quick=dict(defs=['THREADS=threads', 'CALLERS=2', 'PER=2', 'KIND_WORKER=0', 'PERIODIC=0', 'PREEMPT=1']),
                 thorough=dict(defs=['THREADS=threads', 'CALLERS=2', 'PER=2', 'KIND_WORKER=0', 'PERIODIC=0', 'PREEMPT=2'], time=2500),
                 bounds='TaskExecutor of one or two threads, CALLERS x PER tasks, closed while callers schedule or afterwards, tasks that block or not, PREEMPT preemptions and every choice of the next thread'),
            dict(src='c16_executors.cc', key='c16_worker', reach_any=True, quick=dict(defs=['THREADS=1', 'CALLERS=2', 'PER=2', 'KIND_WORKER=1', 'PERIODIC=0', 'PREEMPT=1']),
                 thorough=dict(defs=['THREADS=2', 'CALLERS=2', 'PER=2', 'KIND_WORKER=1', 'PERIODIC=0', 'PREEMPT=1'], time=2500),
                 bounds='as c16_executor for TaskWorker'),
            dict(src='c16_executors.cc', key='c16_periodic', reach_any=True, quick=dict(defs=['KIND_WORKER=0', 'THREADS=1', 'PERIODIC=1', 'PREEMPT=1', 'TIMEOUTS=1']),
                 thorough=dict(defs=['KIND_WORKER=0', 'THREADS=1', 'PERIODIC=1', 'PREEMPT=2', 'TIMEOUTS=2'], time=2500),
                 bounds='symbolic period, duration of the closure and time until Stop (up to three periods); one or two Stop calls'),
        ]),
    'C08': dict(
        assumptions=['threads switch only at locks, condition variables and clock reads', 'the queue of keys to clean up is scaled from 10^7 to 16 keys and never full'],
        harnesses=[
            dict(src='c08_chunks.cc', key='c08_one', reach_any=True, quick=dict(defs=['CALLERS=1', 'INIT=1', 'PER=4', 'KEYS=2', 'PREEMPT=1']),
                 thorough=dict(defs=['CALLERS=1', 'INIT=1', 'PER=6', 'KEYS=2', 'PREEMPT=4'], time=2500),
                 bounds='one caller and the cleaner, INIT inserts and PER operations of insert, lookup (one or two keys), release over KEYS symbolic keys; PREEMPT preemptions'),
            dict(src='c08_chunks.cc', key='c08_two', reach_any=True, quick=dict(defs=['CALLERS=2', 'INIT=1', 'PER=2', 'KEYS=2', 'PREEMPT=1']),
                 thorough=dict(defs=['CALLERS=2', 'INIT=1', 'PER=3', 'KEYS=2', 'PREEMPT=2'], time=2500),
                 bounds='two callers and the cleaner'),
        ]),
    'C14': dict(
        assumptions=['snappy is modelled by an injective map with its length check; its calls of the sinks follow the real ones'],
        harnesses=[
            dict(src='c14_compress.cc', key='c14_compress', reach_any=True, quick=dict(defs=['ROWS=4']),
                 thorough=dict(defs=['ROWS=8'], time=1500),
                 bounds='twelve types (all integer types, floats, bool, string), nine shapes of rank 0 to 3 with up to ROWS rows, no rows and no columns; every element symbolic over its whole range'),
        ]),
    'C20': dict(
        assumptions=['snappy is modelled'],
        harnesses=[
            dict(src='c20_slices.cc', key='c20_unpack', reach_any=True, quick=dict(defs=['PART=0', 'MAXROWS=3']),
                 thorough=dict(defs=['PART=0', 'MAXROWS=5'], time=1500),
                 bounds='chunks of two columns (one possibly without rows dimension) and up to MAXROWS rows of symbolic elements; column, offset and length symbolic 32-bit integers'),
            dict(src='c20_slices.cc', key='c20_timestep', reach_any=True, quick=dict(defs=['PART=1', 'MAXCHUNKS=3', 'MAXCOLS=2', 'LENGTHS=31']),
                 thorough=dict(defs=['PART=1', 'MAXCHUNKS=3', 'MAXCOLS=2', 'LENGTHS=127'], time=1500),
                 bounds='timestep trajectories over up to MAXCHUNKS chunks of symbolic lengths up to LENGTHS, symbolic keys, offset and length'),
            dict(src='c20_slices.cc', key='c20_any', reach_any=True, quick=dict(defs=['PART=2', 'MAXCHUNKS=2', 'MAXCOLS=2', 'LENGTHS=31']),
                 thorough=dict(defs=['PART=2', 'MAXCHUNKS=3', 'MAXCOLS=2', 'LENGTHS=31'], time=2500),
                 bounds='trajectories of up to MAXCOLS columns of up to MAXCHUNKS slices with symbolic keys (of four), offsets, lengths and indices'),
        ]),
    'C19': dict(
        assumptions=['threads switch only when one blocks', 'generated 64-bit keys are distinct'],
        harnesses=[
            dict(src='c19_signature.cc', key='c19_flatten', reach_any=True, quick=dict(defs=['PART=0', 'DEPTH=2', 'WIDTH=1', 'MAXD=2']),
                 thorough=dict(defs=['PART=0', 'DEPTH=2', 'WIDTH=2', 'MAXD=2'], time=2500),
                 bounds='structures of DEPTH levels (lists, tuples, dicts, named tuples of up to WIDTH children, every order of the keys), specs with symbolic types and shapes of up to MAXD dimensions, unsupported leaves'),
            dict(src='c19_signature.cc', key='c19_flat2', reach_any=True, quick=dict(defs=['PART=0', 'DEPTH=1', 'WIDTH=2', 'MAXD=1']),
                 thorough=dict(defs=['PART=0', 'DEPTH=1', 'WIDTH=3', 'MAXD=1'], time=2500), bounds='as c19_flatten, wider'),
            dict(src='c19_signature.cc', key='c19_deep', reach_any=True, quick=dict(defs=['PART=0', 'SIMPLE=1', 'DEPTH=2', 'WIDTH=2', 'MAXD=0']),
                 thorough=dict(defs=['PART=0', 'SIMPLE=1', 'DEPTH=3', 'WIDTH=2', 'MAXD=0'], time=2500), bounds='structures of DEPTH levels of up to WIDTH children each, empty ones too, with plain leaves'),
            dict(src='c19_signature.cc', key='c19_trajectory', reach_any=True, quick=dict(defs=['PART=1', 'NSHAPES=2', 'MAXD=1']),
                 thorough=dict(defs=['PART=1', 'NSHAPES=4', 'MAXD=2'], time=2500),
                 bounds='trajectory writer: up to two signature columns with symbolic type and shape (unknown rank, up to MAXD dimensions, unknown dimensions), one or two data columns of NSHAPES shapes and two types, one or two steps, squeezed or not'),
            dict(src='c19_signature.cc', key='c19_writer', reach_any=True, quick=dict(defs=['PART=2', 'NSHAPES=2', 'MAXD=1']),
                 thorough=dict(defs=['PART=2', 'NSHAPES=4', 'MAXD=2'], time=2500),
                 bounds='writer: as c19_trajectory, up to three steps that may differ'),
            dict(src='c19_signature.cc', key='c19_sampler', reach_any=True, quick=dict(defs=['PART=3', 'NSHAPES=2', 'MAXD=1']),
                 thorough=dict(defs=['PART=3', 'NSHAPES=4', 'MAXD=2'], time=2500),
                 bounds='samplers: the requested types and shapes against the signature, received data against either'),
        ]),
    'C09': dict(
        assumptions=['column specifications have fully defined shapes (the writers only make such)', 'generated 64-bit chunk keys are distinct',
                     'the automatic tuner scores 2 items instead of 10'],
        harnesses=[
            dict(src='c09_chunker.cc', key='c09_history', reach_any=True, quick=dict(defs=['PART=0', 'PREFILL=2', 'OPS=2', 'HOLD=1']),
                 thorough=dict(defs=['PART=0', 'PREFILL=2', 'OPS=4', 'HOLD=1'], time=2500),
                 bounds='chunks of up to 3 rows, 1 extra reference kept alive, scalars and vectors of symbolic 32-bit elements, with and without delta encoding, symbolic gaps between steps; PREFILL rows then OPS of append, flush, reset, refused rows, reconfiguration (every length and count in -1..4), copy of the options; references held by the caller or not'),
            dict(src='c09_chunker.cc', key='c09_tune', reach_any=True, quick=dict(defs=['PART=1', 'ITEMS=6', 'HOLD=0']),
                 thorough=dict(defs=['PART=1', 'ITEMS=7', 'HOLD=0'], time=2500),
                 bounds='automatically tuned options: ITEMS items over the last 1 to 6 rows, 1, 3 or 6 references kept alive, 3 weights'),
            dict(src='c09_chunker.cc', key='c09_parallel', reach_any=True, quick=dict(defs=['PART=2', 'PREEMPT=2', 'HOLD=0']),
                 thorough=dict(defs=['PART=2', 'PREEMPT=4', 'HOLD=0'], time=2500),
                 bounds='reads while another thread appends and flushes, PREEMPT preemptions'),
        ]),
    'C10': dict(
        assumptions=['threads switch only when one blocks (C11 covers schedules)', 'generated 64-bit keys are distinct', 'the server end keeps exactly the chunks it is told to keep'],
        harnesses=[
            dict(src='c10_trajectory.cc', key='c10_one', reach_any=True, quick=dict(defs=['PART=0', 'COLS=1', 'SYMBOLIC=1', 'PREFILL=3', 'OPS=2']),
                 thorough=dict(defs=['PART=0', 'COLS=1', 'SYMBOLIC=1', 'PREFILL=3', 'OPS=3'], time=2500),
                 bounds='one column of symbolic elements, delta encoded; PREFILL rows, an item, then OPS of append, create item (any rows in any order, squeezed or not, expired, none), flush, end of episode, reconfiguration'),
            dict(src='c10_trajectory.cc', key='c10_two', reach_any=True, quick=dict(defs=['PART=0', 'COLS=2', 'SYMBOLIC=0', 'PREFILL=2', 'OPS=1']),
                 thorough=dict(defs=['PART=0', 'COLS=2', 'SYMBOLIC=0', 'PREFILL=3', 'OPS=2'], time=2500),
                 bounds='two columns with their own chunk lengths, partial steps'),
        ]),
    'C11': dict(
        assumptions=['a broken stream fails its next calls; a message written to it may or may not have arrived', 'generated 64-bit keys are distinct'],
        harnesses=[
            dict(src='c10_trajectory.cc', key='c11_schedule', reach_any=True, quick=dict(defs=['PART=1', 'COLS=1', 'SYMBOLIC=0', 'BREAKS=0', 'REFUSE=0', 'PERMANENT=0', 'LEN=2+choose(2,"length")', 'NITEMS=2', 'ROWS=1', 'SPAN=2', 'IGNORE=1', 'HOLD=1', 'EARLY=1', 'PREEMPT=3']),
                 thorough=dict(defs=['PART=1', 'COLS=1', 'SYMBOLIC=0', 'BREAKS=0', 'REFUSE=0', 'PERMANENT=0', 'LEN=2+choose(2,"length")', 'NITEMS=3', 'ROWS=1', 'SPAN=2', 'IGNORE=2', 'HOLD=1', 'EARLY=1', 'PREEMPT=4'], time=2500),
                 bounds='every interleaving of the caller and the two stream threads with PREEMPT preemptions; NITEMS items, some over unfinished chunks; withheld confirmations; closing or destroying at any point'),
            dict(src='c10_trajectory.cc', key='c11_faults', reach_any=True, quick=dict(defs=['PART=1', 'COLS=1', 'SYMBOLIC=0', 'BREAKS=2', 'REFUSE=1', 'PERMANENT=1', 'LEN=2', 'NITEMS=3', 'ROWS=1', 'SPAN=2', 'IGNORE=1', 'HOLD=0', 'EARLY=1', 'PREEMPT=1']),
                 thorough=dict(defs=['PART=1', 'COLS=1', 'SYMBOLIC=0', 'BREAKS=2', 'REFUSE=1', 'PERMANENT=1', 'LEN=2', 'NITEMS=3', 'ROWS=1', 'SPAN=2', 'IGNORE=1', 'HOLD=1', 'EARLY=1', 'PREEMPT=2'], time=2500),
                 bounds='up to BREAKS stream failures at any write (the message delivered or not, confirmations lost or not), refused streams, a permanent error'),
            dict(src='c10_trajectory.cc', key='c11_columns', reach_any=True, quick=dict(defs=['PART=1', 'COLS=2', 'SYMBOLIC=0', 'BREAKS=0', 'REFUSE=0', 'PERMANENT=0', 'LEN=1', 'NITEMS=2', 'ROWS=1', 'SPAN=1', 'IGNORE=0', 'HOLD=0', 'EARLY=0', 'PREEMPT=3']),
                 thorough=dict(defs=['PART=1', 'COLS=2', 'SYMBOLIC=0', 'BREAKS=1', 'REFUSE=0', 'PERMANENT=0', 'LEN=1', 'NITEMS=3', 'ROWS=1', 'SPAN=1', 'IGNORE=0', 'HOLD=0', 'EARLY=0', 'PREEMPT=4'], time=2500),
                 bounds='a column that first appears while the stream thread is at work'),
        ]),
    'C13': dict(
        assumptions=['threads switch only when one blocks, unless PREEMPT is given', 'generated 64-bit keys are distinct',
                     'all steps have the same columns; after a permanent error the writer is only closed',
                     'a write reported as successful has arrived unless confirmations are awaited (Writer does not ask for more)'],
        harnesses=[
            dict(src='c13_writer.cc', key='c13_history', reach_any=True, quick=dict(defs=['SYMBOLIC=1', 'PREEMPT=0', 'BREAKS=0', 'REFUSE=0', 'PERMANENT=0', 'COLS=2', 'PREFILL=2', 'CREATE=1', 'OPS=2', 'OPSET=5']),
                 thorough=dict(defs=['SYMBOLIC=1', 'PREEMPT=0', 'BREAKS=0', 'REFUSE=0', 'PERMANENT=0', 'COLS=2', 'PREFILL=2', 'CREATE=1', 'OPS=4', 'OPSET=5'], time=2500),
                 bounds='1 or 2 columns of symbolic elements, every max_timesteps up to 3 and chunk_length up to that, 0 to 2 items in flight, delta encoded or not; PREFILL steps, an item, then OPS of append, create item (every length), flush, append sequence, refused steps; closed'),
            dict(src='c13_writer.cc', key='c13_faults', reach_any=True, quick=dict(defs=['SYMBOLIC=0', 'PREEMPT=0', 'BREAKS=2', 'REFUSE=1', 'PERMANENT=1', 'COLS=1', 'PREFILL=2', 'CREATE=1', 'OPS=2', 'OPSET=3']),
                 thorough=dict(defs=['SYMBOLIC=0', 'PREEMPT=1', 'BREAKS=2', 'REFUSE=1', 'PERMANENT=1', 'COLS=1', 'PREFILL=2', 'CREATE=1', 'OPS=3', 'OPSET=3'], time=2500),
                 bounds='up to BREAKS stream failures at any write (the message delivered or not), refused streams, a permanent error'),
            dict(src='c13_writer.cc', key='c13_schedule', reach_any=True, quick=dict(defs=['SYMBOLIC=0', 'PREEMPT=2', 'BREAKS=1', 'REFUSE=0', 'PERMANENT=0', 'COLS=1', 'PREFILL=1', 'CREATE=1', 'OPS=1', 'OPSET=3']),
                 thorough=dict(defs=['SYMBOLIC=0', 'PREEMPT=3', 'BREAKS=1', 'REFUSE=0', 'PERMANENT=0', 'COLS=1', 'PREFILL=1', 'CREATE=1', 'OPS=2', 'OPSET=3'], time=2500),
                 bounds='interleavings with the confirmation thread, PREEMPT preemptions, one stream failure'),
        ]),
    'C12': dict(
        assumptions=['threads switch only when one blocks, unless PREEMPT is given',
                     'the server answers a request with complete samples of its own making, as many as asked for, or breaks the stream'],
        harnesses=[
            dict(src='c12_sampler.cc', key='c12_content', reach_any=True, quick=dict(defs=['PART=0', 'SYMBOLIC=1', 'PREEMPT=0', 'WORKERS=1', 'MAX=1', 'INFLIGHT=1', 'PERSTREAM=1', 'COLS=2', 'CHUNKS=2', 'ROWS=2', 'CUT=1', 'SHARE=1', 'SPLIT=1', 'MODES=3', 'BREAKS=0', 'CLOSE=0', 'FLEX=-1', 'TIMEOUT=-1']),
                 thorough=dict(defs=['PART=0', 'SYMBOLIC=1', 'PREEMPT=0', 'WORKERS=1', 'MAX=2', 'INFLIGHT=2', 'PERSTREAM=1', 'COLS=2', 'CHUNKS=2', 'ROWS=2', 'CUT=1', 'SHARE=1', 'SPLIT=1', 'MODES=3', 'BREAKS=0', 'CLOSE=0', 'FLEX=-1', 'TIMEOUT=-1'], time=2500),
                 bounds='items of up to 2 columns, each of up to CHUNKS slices (every offset and length within ROWS rows) of own or shared chunks with symbolic elements and information, split over entries; taken as trajectory, as batched steps and step by step'),
            dict(src='c12_sampler.cc', key='c12_faults', reach_any=True, quick=dict(defs=['PART=0', 'SYMBOLIC=0', 'PREEMPT=1', 'WORKERS=1', 'MAX=3', 'INFLIGHT=3', 'PERSTREAM=3', 'COLS=1', 'CHUNKS=1', 'ROWS=2', 'CUT=0', 'SHARE=0', 'SPLIT=1', 'MODES=1', 'BREAKS=2', 'CLOSE=0', 'FLEX=2', 'TIMEOUT=250']),
                 thorough=dict(defs=['PART=0', 'SYMBOLIC=0', 'PREEMPT=1', 'WORKERS=1', 'MAX=3', 'INFLIGHT=3', 'PERSTREAM=3', 'COLS=1', 'CHUNKS=1', 'ROWS=2', 'CUT=0', 'SHARE=0', 'SPLIT=1', 'MODES=3', 'BREAKS=2', 'CLOSE=0', 'FLEX=2', 'TIMEOUT=250'], time=2500),
                 bounds='up to MAX samples, every limit in flight and per stream up to 3, every split of the entries over responses, up to BREAKS failures (transient, permanent, timeout) at any write or read'),
            dict(src='c12_sampler.cc', key='c12_schedule', reach_any=True, quick=dict(defs=['PART=0', 'SYMBOLIC=0', 'PREEMPT=2', 'WORKERS=2', 'MAX=3', 'INFLIGHT=2', 'PERSTREAM=2', 'COLS=1', 'CHUNKS=1', 'ROWS=1', 'CUT=0', 'SHARE=0', 'SPLIT=0', 'MODES=1', 'BREAKS=1', 'CLOSE=0', 'FLEX=-1', 'TIMEOUT=-1']),
                 thorough=dict(defs=['PART=0', 'SYMBOLIC=0', 'PREEMPT=3', 'WORKERS=2', 'MAX=3', 'INFLIGHT=2', 'PERSTREAM=2', 'COLS=1', 'CHUNKS=1', 'ROWS=1', 'CUT=0', 'SHARE=0', 'SPLIT=0', 'MODES=1', 'BREAKS=1', 'CLOSE=0', 'FLEX=-1', 'TIMEOUT=-1'], time=2500),
                 bounds='1 or 2 workers, PREEMPT preemptions, a failure'),
            dict(src='c12_sampler.cc', key='c12_close', reach_any=True, quick=dict(defs=['PART=0', 'SYMBOLIC=0', 'PREEMPT=3', 'WORKERS=2', 'MAX=2', 'INFLIGHT=2', 'PERSTREAM=2', 'COLS=1', 'CHUNKS=1', 'ROWS=1', 'CUT=0', 'SHARE=0', 'SPLIT=0', 'MODES=1', 'BREAKS=0', 'CLOSE=1', 'FLEX=-1', 'TIMEOUT=-1']),
                 thorough=dict(defs=['PART=0', 'SYMBOLIC=0', 'PREEMPT=4', 'WORKERS=2', 'MAX=2', 'INFLIGHT=2', 'PERSTREAM=2', 'COLS=1', 'CHUNKS=1', 'ROWS=1', 'CUT=0', 'SHARE=0', 'SPLIT=0', 'MODES=1', 'BREAKS=1', 'CLOSE=1', 'FLEX=-1', 'TIMEOUT=-1'], time=2500),
                 bounds='a server that goes silent after any number of samples, closing from another thread at any point'),
            dict(src='c12_sampler.cc', key='c12_local', reach_any=True, quick=dict(defs=['PART=1', 'SYMBOLIC=0', 'PREEMPT=2', 'TIMERS=1', 'WORKERS=2', 'MAX=2', 'ITEMS=2', 'INFLIGHT=2', 'PERSTREAM=2', 'COLS=1', 'CHUNKS=1', 'ROWS=1', 'CUT=0', 'SHARE=0', 'SPLIT=0', 'MODES=1', 'BREAKS=0', 'CLOSE=1', 'FLEX=-1', 'TIMEOUT=-1']),
                 thorough=dict(defs=['PART=1', 'SYMBOLIC=0', 'PREEMPT=3', 'TIMERS=1', 'WORKERS=2', 'MAX=2', 'ITEMS=3', 'INFLIGHT=2', 'PERSTREAM=2', 'COLS=1', 'CHUNKS=1', 'ROWS=1', 'CUT=0', 'SHARE=0', 'SPLIT=0', 'MODES=1', 'BREAKS=0', 'CLOSE=1', 'FLEX=-1', 'TIMEOUT=-1'], time=2500),
                 bounds='a local table filled while it is sampled, closed or its table closed at any point'),
            dict(src='c12_sampler.cc', key='c12_local_timeout', reach_any=True, quick=dict(defs=['PART=1', 'SYMBOLIC=0', 'PREEMPT=2', 'TIMERS=2', 'WORKERS=1', 'MAX=3', 'ITEMS=2', 'INFLIGHT=2', 'PERSTREAM=2', 'COLS=1', 'CHUNKS=1', 'ROWS=1', 'CUT=0', 'SHARE=0', 'SPLIT=0', 'MODES=1', 'BREAKS=0', 'CLOSE=0', 'FLEX=2', 'TIMEOUT=5000']),
                 thorough=dict(defs=['PART=1', 'SYMBOLIC=0', 'PREEMPT=3', 'TIMERS=3', 'WORKERS=2', 'MAX=3', 'ITEMS=2', 'INFLIGHT=2', 'PERSTREAM=2', 'COLS=1', 'CHUNKS=1', 'ROWS=1', 'CUT=0', 'SHARE=0', 'SPLIT=0', 'MODES=1', 'BREAKS=0', 'CLOSE=0', 'FLEX=2', 'TIMEOUT=5000'], time=2500),
                 bounds='a local table with a timeout, up to TIMERS timers expiring while other threads could run'),
        ]),
    'C26': dict(
        assumptions=['codes are the canonical ones (0 to 16)', 'timeouts of MSBITS significant bits, up to 2^(MSBITS+24) ms'],
        harnesses=[
            dict(src='c26_convert.cc', key='c26_convert', reach=['status', 'removed', 'timeout', 'duration', 'id', 'peer', 'keys are drawn independently', 'keys use the whole range'],
                 quick=dict(defs=['MAXLEN=2', 'SIDE=1', 'MSBITS=10']), thorough=dict(defs=['MAXLEN=3', 'SIDE=2', 'MSBITS=14'], time=2500),
                 bounds='every canonical code with every message of up to MAXLEN bytes; every timeout, 128-bit id; peer names and messages around the recognised ones'),
        ]),
    'C23': dict(
        assumptions=['a thread is preempted only at lock, condition and clock operations', 'one sample per insert, FIFO sampler and remover (other orders are settled by C05)'],
        harnesses=[
            dict(src='c23_worker.cc', key='c23_requests', reach_any=True, quick=dict(defs=['SIZE=2', 'TIMES=1', 'MINLO=-1', 'MAXHI=2', 'OPSET=127', 'PREFILL=2', 'THREADS=2', 'PER=1', 'PREEMPT=1', 'DELAYS=1', 'TIMERS=0', 'CLOSE=0', 'EXT=1', 'MAXBATCH=2']),
                 thorough=dict(defs=['SIZE=2', 'TIMES=1', 'MINLO=-1', 'MAXHI=2', 'OPSET=127', 'PREFILL=2', 'THREADS=2', 'PER=1', 'PREEMPT=2', 'DELAYS=2', 'TIMERS=0', 'CLOSE=0', 'EXT=1', 'MAXBATCH=2'], time=2500),
                 bounds='two callers, each with an insert, sample, update, delete, failing mutation or reset of its own; limits min_diff -1..0, max_diff 1..2; capacity 2 or 20; PREEMPT preemptions and DELAYS other choices at blocking, among callers, worker, extension worker and callback executor'),
            dict(src='c23_worker.cc', key='c23_history', reach_any=True, quick=dict(defs=['SIZE=2', 'TIMES=1', 'MINLO=-1', 'MAXHI=2', 'OPSET=35', 'PREFILL=1', 'THREADS=2', 'PER=2', 'PREEMPT=0', 'DELAYS=1', 'TIMERS=1', 'CLOSE=0', 'EXT=0', 'MAXBATCH=2']),
                 thorough=dict(defs=['SIZE=2', 'TIMES=1', 'MINLO=-1', 'MAXHI=2', 'OPSET=35', 'PREFILL=1', 'THREADS=2', 'PER=2', 'PREEMPT=1', 'DELAYS=1', 'TIMERS=1', 'CLOSE=0', 'EXT=0', 'MAXBATCH=2'], time=2500),
                 bounds='two callers with two inserts or samples (with or without timeout) each, batches up to MAXBATCH, a timer expiring early'),
            dict(src='c23_worker.cc', key='c23_batches', reach_any=True, quick=dict(defs=['SIZE=2', 'TIMES=1', 'MINLO=-1', 'MAXHI=2', 'OPSET=35', 'PREFILL=1', 'THREADS=1', 'PER=3', 'PREEMPT=0', 'DELAYS=1', 'TIMERS=0', 'CLOSE=0', 'EXT=0', 'MAXBATCH=3']),
                 thorough=dict(defs=['SIZE=2', 'TIMES=1', 'MINLO=-1', 'MAXHI=2', 'OPSET=47', 'PREFILL=1', 'THREADS=1', 'PER=4', 'PREEMPT=1', 'DELAYS=1', 'TIMERS=1', 'CLOSE=0', 'EXT=0', 'MAXBATCH=3'], time=2500),
                 bounds='one caller with PER requests'),
            dict(src='c23_worker.cc', key='c23_close', reach_any=True, quick=dict(defs=['SIZE=2', 'TIMES=1', 'MINLO=-1', 'MAXHI=2', 'OPSET=35', 'PREFILL=1', 'THREADS=2', 'PER=1', 'PREEMPT=2', 'DELAYS=0', 'TIMERS=1', 'CLOSE=1', 'EXT=0', 'MAXBATCH=2']),
                 thorough=dict(defs=['SIZE=2', 'TIMES=1', 'MINLO=-1', 'MAXHI=2', 'OPSET=35', 'PREFILL=1', 'THREADS=2', 'PER=1', 'PREEMPT=3', 'DELAYS=1', 'TIMERS=1', 'CLOSE=1', 'EXT=1', 'MAXBATCH=2'], time=2500),
                 bounds='the table is closed at any point while two callers hand over requests'),
        ]),
    'C25': dict(
        assumptions=['a thread is preempted only at lock, condition and clock operations'],
        harnesses=[
            dict(src='c25_extensions.cc', key='c25_async', reach=['checked'], quick=dict(defs=['WORKER=1', 'SYNC=1', 'ASYNC=1', 'LATE=1', 'SIZE=2', 'TIMES=2', 'OPSET=63', 'PREFILL=2', 'THREADS=2', 'PER=1', 'PREEMPT=1', 'DELAYS=1']),
                 thorough=dict(defs=['WORKER=1', 'SYNC=1', 'ASYNC=2', 'LATE=1', 'SIZE=2', 'TIMES=2', 'OPSET=63', 'PREFILL=2', 'THREADS=2', 'PER=2', 'PREEMPT=1', 'DELAYS=1'], time=2500),
                 bounds='a synchronous and ASYNC asynchronous extensions (one possibly added late) and the smallest buffer; two callers with PER operations each of insert, sample, update of two items, delete, both, reset; PREEMPT preemptions, DELAYS other choices at blocking; the table destroyed at once or after all is done'),
            dict(src='c25_extensions.cc', key='c25_async_history', reach=['checked'], quick=dict(defs=['WORKER=1', 'SYNC=1', 'ASYNC=1', 'LATE=0', 'SIZE=2', 'TIMES=1', 'OPSET=15', 'PREFILL=1', 'THREADS=1', 'PER=3', 'PREEMPT=1', 'DELAYS=0']),
                 thorough=dict(defs=['WORKER=1', 'SYNC=1', 'ASYNC=1', 'LATE=0', 'SIZE=2', 'TIMES=1', 'OPSET=63', 'PREFILL=1', 'THREADS=1', 'PER=4', 'PREEMPT=1', 'DELAYS=1'], time=2500),
                 bounds='one caller with PER operations'),
            dict(src='c25_extensions.cc', key='c25_sync', reach=['checked'], quick=dict(defs=['WORKER=0', 'SYNC=1', 'ASYNC=1', 'LATE=1', 'SIZE=2', 'TIMES=2', 'OPSET=63', 'PREFILL=1', 'THREADS=1', 'PER=3', 'PREEMPT=0', 'DELAYS=0']),
                 thorough=dict(defs=['WORKER=0', 'SYNC=1', 'ASYNC=1', 'LATE=1', 'SIZE=2', 'TIMES=2', 'OPSET=63', 'PREFILL=2', 'THREADS=2', 'PER=2', 'PREEMPT=2', 'DELAYS=0'], time=2500),
                 bounds='a table without worker; PER operations'),
        ]),
    'C21': dict(
        assumptions=['a thread is preempted only at lock, condition and clock operations', 'chunks with the same key have the same content', 'gRPC delivers the messages of a stream in order, or the stream breaks'],
        harnesses=[
            dict(src='c21_insert.cc', key='c21_sync_chunks', reach_any=True, quick=dict(defs=['ASYNC=0', 'NREQ=3', 'STREAMS=1', 'FORMS=3', 'REFS=3', 'KEEPS=4', 'TABLES=1', 'RESEND=0', 'CONFIRM=1', 'SIZE=100', 'LIMIT=0', 'MODES=1', 'PREEMPT=0', 'DELAYS=0', 'SIMPLE=0']),
                 thorough=dict(defs=['ASYNC=0', 'NREQ=4', 'STREAMS=1', 'FORMS=3', 'REFS=3', 'KEEPS=4', 'TABLES=1', 'RESEND=0', 'CONFIRM=1', 'SIZE=100', 'LIMIT=0', 'MODES=1', 'PREEMPT=0', 'DELAYS=0', 'SIMPLE=0'], time=2500),
                 bounds='NREQ requests with any of two chunks and an item or none, every reference and every set of chunks to keep'),
            dict(src='c21_insert.cc', key='c21_sync_forms', reach_any=True, quick=dict(defs=['ASYNC=0', 'NREQ=2', 'STREAMS=1', 'FORMS=1023', 'REFS=3', 'KEEPS=3', 'TABLES=2', 'RESEND=0', 'CONFIRM=1', 'SIZE=100', 'LIMIT=0', 'MODES=2', 'PREEMPT=0', 'DELAYS=0', 'SIMPLE=0']),
                 thorough=dict(defs=['ASYNC=0', 'NREQ=3', 'STREAMS=1', 'FORMS=1023', 'REFS=3', 'KEEPS=3', 'TABLES=2', 'RESEND=0', 'CONFIRM=1', 'SIZE=100', 'LIMIT=0', 'MODES=2', 'PREEMPT=0', 'DELAYS=0', 'SIMPLE=0'], time=2500),
                 bounds='NREQ requests of any form: well formed, of an unknown table, without trajectory, item or anything, keeping a chunk never sent, with a priority the table refuses, an update, two columns; a client that half-closes at once or waits for the outcome'),
            dict(src='c21_insert.cc', key='c21_sync_repeats', reach_any=True, quick=dict(defs=['ASYNC=0', 'NREQ=2', 'STREAMS=1', 'FORMS=3', 'REFS=6', 'KEEPS=6', 'TABLES=1', 'RESEND=1', 'CONFIRM=2', 'SIZE=100', 'LIMIT=0', 'MODES=1', 'PREEMPT=0', 'DELAYS=0', 'SIMPLE=0']),
                 thorough=dict(defs=['ASYNC=0', 'NREQ=3', 'STREAMS=1', 'FORMS=3', 'REFS=6', 'KEEPS=6', 'TABLES=2', 'RESEND=1', 'CONFIRM=2', 'SIZE=100', 'LIMIT=0', 'MODES=1', 'PREEMPT=0', 'DELAYS=0', 'SIMPLE=0'], time=2500),
                 bounds='chunks sent twice, referred to twice, kept twice; with and without confirmation'),
            dict(src='c21_insert.cc', key='c21_sync_two', reach_any=True, quick=dict(defs=['ASYNC=0', 'NREQ=1', 'STREAMS=2', 'FORMS=22', 'REFS=1', 'KEEPS=2', 'TABLES=1', 'RESEND=0', 'CONFIRM=1', 'SIZE=100', 'LIMIT=0', 'MODES=2', 'PREEMPT=1', 'DELAYS=1', 'SIMPLE=1']),
                 thorough=dict(defs=['ASYNC=0', 'NREQ=2', 'STREAMS=2', 'FORMS=62', 'REFS=1', 'KEEPS=2', 'TABLES=1', 'RESEND=0', 'CONFIRM=1', 'SIZE=100', 'LIMIT=0', 'MODES=2', 'PREEMPT=1', 'DELAYS=1', 'SIMPLE=1'], time=2500),
                 bounds='two concurrent streams, each with NREQ requests of any form'),
            dict(src='c21_insert.cc', key='c21_sync_break', reach_any=True, quick=dict(defs=['ASYNC=0', 'NREQ=3', 'STREAMS=1', 'FORMS=2', 'REFS=1', 'KEEPS=2', 'TABLES=1', 'RESEND=0', 'CONFIRM=1', 'SIZE=10', 'LIMIT=2', 'MODES=4', 'PREEMPT=2', 'DELAYS=0', 'SIMPLE=1']),
                 thorough=dict(defs=['ASYNC=0', 'NREQ=3', 'STREAMS=1', 'FORMS=6', 'REFS=1', 'KEEPS=2', 'TABLES=1', 'RESEND=0', 'CONFIRM=1', 'SIZE=10', 'LIMIT=2', 'MODES=4', 'PREEMPT=3', 'DELAYS=1', 'SIMPLE=1'], time=2500),
                 bounds='a stream whose connection breaks or that is cancelled at any point, a table that is full, until room is made or it is closed'),
            dict(src='c21_insert.cc', key='c21_async_chunks', reach_any=True, quick=dict(defs=['ASYNC=1', 'NREQ=3', 'STREAMS=1', 'FORMS=3', 'REFS=3', 'KEEPS=4', 'TABLES=1', 'RESEND=0', 'CONFIRM=1', 'SIZE=100', 'LIMIT=0', 'MODES=1', 'PREEMPT=0', 'DELAYS=0', 'SIMPLE=0']),
                 thorough=dict(defs=['ASYNC=1', 'NREQ=4', 'STREAMS=1', 'FORMS=3', 'REFS=3', 'KEEPS=4', 'TABLES=1', 'RESEND=0', 'CONFIRM=1', 'SIZE=100', 'LIMIT=0', 'MODES=1', 'PREEMPT=0', 'DELAYS=0', 'SIMPLE=0'], time=2500),
                 bounds='NREQ requests with any of two chunks and an item or none, every reference and every set of chunks to keep'),
            dict(src='c21_insert.cc', key='c21_async_forms', reach_any=True, quick=dict(defs=['ASYNC=1', 'NREQ=2', 'STREAMS=1', 'FORMS=1023', 'REFS=3', 'KEEPS=3', 'TABLES=2', 'RESEND=0', 'CONFIRM=1', 'SIZE=100', 'LIMIT=0', 'MODES=2', 'PREEMPT=0', 'DELAYS=0', 'SIMPLE=0']),
                 thorough=dict(defs=['ASYNC=1', 'NREQ=3', 'STREAMS=1', 'FORMS=1023', 'REFS=3', 'KEEPS=3', 'TABLES=2', 'RESEND=0', 'CONFIRM=1', 'SIZE=100', 'LIMIT=0', 'MODES=2', 'PREEMPT=0', 'DELAYS=0', 'SIMPLE=0'], time=2500),
                 bounds='NREQ requests of any form: well formed, of an unknown table, without trajectory, item or anything, keeping a chunk never sent, with a priority the table refuses, an update, two columns; a client that half-closes at once or waits for the outcome'),
            dict(src='c21_insert.cc', key='c21_async_repeats', reach_any=True, quick=dict(defs=['ASYNC=1', 'NREQ=2', 'STREAMS=1', 'FORMS=3', 'REFS=6', 'KEEPS=6', 'TABLES=1', 'RESEND=1', 'CONFIRM=2', 'SIZE=100', 'LIMIT=0', 'MODES=1', 'PREEMPT=0', 'DELAYS=0', 'SIMPLE=0']),
                 thorough=dict(defs=['ASYNC=1', 'NREQ=3', 'STREAMS=1', 'FORMS=3', 'REFS=6', 'KEEPS=6', 'TABLES=2', 'RESEND=1', 'CONFIRM=2', 'SIZE=100', 'LIMIT=0', 'MODES=1', 'PREEMPT=0', 'DELAYS=0', 'SIMPLE=0'], time=2500),
                 bounds='chunks sent twice, referred to twice, kept twice; with and without confirmation'),
            dict(src='c21_insert.cc', key='c21_async_two', reach_any=True, quick=dict(defs=['ASYNC=1', 'NREQ=1', 'STREAMS=2', 'FORMS=22', 'REFS=1', 'KEEPS=2', 'TABLES=1', 'RESEND=0', 'CONFIRM=1', 'SIZE=100', 'LIMIT=0', 'MODES=2', 'PREEMPT=1', 'DELAYS=1', 'SIMPLE=1']),
                 thorough=dict(defs=['ASYNC=1', 'NREQ=2', 'STREAMS=2', 'FORMS=62', 'REFS=1', 'KEEPS=2', 'TABLES=1', 'RESEND=0', 'CONFIRM=1', 'SIZE=100', 'LIMIT=0', 'MODES=2', 'PREEMPT=1', 'DELAYS=1', 'SIMPLE=1'], time=2500),
                 bounds='two concurrent streams, each with NREQ requests of any form'),
            dict(src='c21_insert.cc', key='c21_async_break', reach_any=True, quick=dict(defs=['ASYNC=1', 'NREQ=3', 'STREAMS=1', 'FORMS=2', 'REFS=1', 'KEEPS=2', 'TABLES=1', 'RESEND=0', 'CONFIRM=1', 'SIZE=10', 'LIMIT=2', 'MODES=4', 'PREEMPT=2', 'DELAYS=0', 'SIMPLE=1']),
                 thorough=dict(defs=['ASYNC=1', 'NREQ=3', 'STREAMS=1', 'FORMS=6', 'REFS=1', 'KEEPS=2', 'TABLES=1', 'RESEND=0', 'CONFIRM=1', 'SIZE=10', 'LIMIT=2', 'MODES=4', 'PREEMPT=3', 'DELAYS=1', 'SIMPLE=1'], time=2500),
                 bounds='a stream whose connection breaks or that is cancelled at any point, a table that is full, until room is made or it is closed'),
        ]),
    'C22': dict(
        assumptions=['a thread is preempted only at lock, condition and clock operations', 'gRPC delivers the messages of a stream in order, or the stream breaks'],
        harnesses=[
            dict(src='c22_sample.cc', key='c22_sync_split', reach_any=True, quick=dict(defs=['ASYNC=0', 'NREQ=1', 'STREAMS=1', 'ITEMS=2', 'CHUNKS=3', 'SIZES=2', 'TABLES=1', 'NUMS=3', 'FLEX=3', 'TIMEOUTS=1', 'SURPLUS=1', 'TIMES=2', 'EXECUTORS=1', 'MODES=3', 'PREEMPT=0', 'DELAYS=0']),
                 thorough=dict(defs=['ASYNC=0', 'NREQ=1', 'STREAMS=1', 'ITEMS=2', 'CHUNKS=4', 'SIZES=2', 'TABLES=1', 'NUMS=3', 'FLEX=3', 'TIMEOUTS=1', 'SURPLUS=2', 'TIMES=2', 'EXECUTORS=1', 'MODES=3', 'PREEMPT=0', 'DELAYS=0'], time=2500),
                 bounds='2 items of up to CHUNKS chunks, each below or above the message size limit (scaled to 150 bytes); one request of up to 3 samples in batches of any size; a client that receives at once or late'),
            dict(src='c22_sample.cc', key='c22_sync_requests', reach_any=True, quick=dict(defs=['ASYNC=0', 'NREQ=2', 'STREAMS=1', 'ITEMS=2', 'CHUNKS=1', 'SIZES=1', 'TABLES=2', 'NUMS=8', 'FLEX=9', 'TIMEOUTS=1', 'SURPLUS=1', 'TIMES=2', 'EXECUTORS=1', 'MODES=1', 'PREEMPT=0', 'DELAYS=0']),
                 thorough=dict(defs=['ASYNC=0', 'NREQ=3', 'STREAMS=1', 'ITEMS=2', 'CHUNKS=1', 'SIZES=1', 'TABLES=2', 'NUMS=8', 'FLEX=9', 'TIMEOUTS=1', 'SURPLUS=1', 'TIMES=2', 'EXECUTORS=1', 'MODES=1', 'PREEMPT=0', 'DELAYS=0'], time=2500),
                 bounds='NREQ requests with any number of samples, batch size (0, negative and beyond 32 bits too), timeout, known or unknown table; a limiter that admits as many samples as items and up to SURPLUS more; a client that half-closes at once or later'),
            dict(src='c22_sample.cc', key='c22_sync_timeouts', reach_any=True, quick=dict(defs=['ASYNC=0', 'NREQ=2', 'STREAMS=1', 'ITEMS=2', 'CHUNKS=1', 'SIZES=1', 'TABLES=1', 'NUMS=3', 'FLEX=2', 'TIMEOUTS=5', 'SURPLUS=1', 'TIMES=2', 'EXECUTORS=1', 'MODES=2', 'PREEMPT=0', 'DELAYS=0']),
                 thorough=dict(defs=['ASYNC=0', 'NREQ=2', 'STREAMS=1', 'ITEMS=2', 'CHUNKS=1', 'SIZES=1', 'TABLES=1', 'NUMS=3', 'FLEX=4', 'TIMEOUTS=5', 'SURPLUS=1', 'TIMES=2', 'EXECUTORS=1', 'MODES=3', 'PREEMPT=1', 'DELAYS=0'], time=2500),
                 bounds='NREQ requests with any timeout; blocked ones time out, wait for another item, are cancelled or closed'),
            dict(src='c22_sample.cc', key='c22_sync_schedule', reach_any=True, quick=dict(defs=['ASYNC=0', 'NREQ=1', 'STREAMS=1', 'ITEMS=2', 'CHUNKS=2', 'SIZES=1', 'TABLES=1', 'NUMS=3', 'FLEX=2', 'TIMEOUTS=1', 'SURPLUS=1', 'TIMES=2', 'EXECUTORS=1', 'MODES=5', 'PREEMPT=2', 'DELAYS=0']),
                 thorough=dict(defs=['ASYNC=0', 'NREQ=2', 'STREAMS=1', 'ITEMS=2', 'CHUNKS=2', 'SIZES=1', 'TABLES=1', 'NUMS=3', 'FLEX=2', 'TIMEOUTS=1', 'SURPLUS=1', 'TIMES=2', 'EXECUTORS=1', 'MODES=5', 'PREEMPT=2', 'DELAYS=1'], time=2500),
                 bounds='PREEMPT preemptions; a client that receives late, cancels or whose connection breaks at any point'),
            dict(src='c22_sample.cc', key='c22_sync_two', reach_any=True, quick=dict(defs=['ASYNC=0', 'NREQ=1', 'STREAMS=2', 'ITEMS=2', 'CHUNKS=1', 'SIZES=1', 'TABLES=1', 'NUMS=3', 'FLEX=2', 'TIMEOUTS=1', 'SURPLUS=1', 'TIMES=2', 'EXECUTORS=1', 'MODES=1', 'PREEMPT=1', 'DELAYS=1']),
                 thorough=dict(defs=['ASYNC=0', 'NREQ=1', 'STREAMS=2', 'ITEMS=2', 'CHUNKS=1', 'SIZES=1', 'TABLES=1', 'NUMS=3', 'FLEX=2', 'TIMEOUTS=1', 'SURPLUS=1', 'TIMES=2', 'EXECUTORS=1', 'MODES=3', 'PREEMPT=2', 'DELAYS=1'], time=2500),
                 bounds='two concurrent streams on one table'),
            dict(src='c22_sample.cc', key='c22_async_split', reach_any=True, quick=dict(defs=['ASYNC=1', 'NREQ=1', 'STREAMS=1', 'ITEMS=2', 'CHUNKS=3', 'SIZES=2', 'TABLES=1', 'NUMS=3', 'FLEX=3', 'TIMEOUTS=1', 'SURPLUS=1', 'TIMES=2', 'EXECUTORS=1', 'MODES=3', 'PREEMPT=0', 'DELAYS=0']),
                 thorough=dict(defs=['ASYNC=1', 'NREQ=1', 'STREAMS=1', 'ITEMS=2', 'CHUNKS=4', 'SIZES=2', 'TABLES=1', 'NUMS=3', 'FLEX=3', 'TIMEOUTS=1', 'SURPLUS=2', 'TIMES=2', 'EXECUTORS=1', 'MODES=3', 'PREEMPT=0', 'DELAYS=0'], time=2500),
                 bounds='2 items of up to CHUNKS chunks, each below or above the message size limit (scaled to 150 bytes); one request of up to 3 samples in batches of any size; a client that receives at once or late'),
            dict(src='c22_sample.cc', key='c22_async_requests', reach_any=True, quick=dict(defs=['ASYNC=1', 'NREQ=2', 'STREAMS=1', 'ITEMS=2', 'CHUNKS=1', 'SIZES=1', 'TABLES=2', 'NUMS=8', 'FLEX=9', 'TIMEOUTS=1', 'SURPLUS=1', 'TIMES=2', 'EXECUTORS=1', 'MODES=1', 'PREEMPT=0', 'DELAYS=0']),
                 thorough=dict(defs=['ASYNC=1', 'NREQ=3', 'STREAMS=1', 'ITEMS=2', 'CHUNKS=1', 'SIZES=1', 'TABLES=2', 'NUMS=8', 'FLEX=9', 'TIMEOUTS=1', 'SURPLUS=1', 'TIMES=2', 'EXECUTORS=1', 'MODES=1', 'PREEMPT=0', 'DELAYS=0'], time=2500),
                 bounds='NREQ requests with any number of samples, batch size (0, negative and beyond 32 bits too), timeout, known or unknown table; a limiter that admits as many samples as items and up to SURPLUS more; a client that half-closes at once or later'),
            dict(src='c22_sample.cc', key='c22_async_timeouts', reach_any=True, quick=dict(defs=['ASYNC=1', 'NREQ=2', 'STREAMS=1', 'ITEMS=2', 'CHUNKS=1', 'SIZES=1', 'TABLES=1', 'NUMS=3', 'FLEX=2', 'TIMEOUTS=5', 'SURPLUS=1', 'TIMES=2', 'EXECUTORS=1', 'MODES=2', 'PREEMPT=0', 'DELAYS=0']),
                 thorough=dict(defs=['ASYNC=1', 'NREQ=2', 'STREAMS=1', 'ITEMS=2', 'CHUNKS=1', 'SIZES=1', 'TABLES=1', 'NUMS=3', 'FLEX=4', 'TIMEOUTS=5', 'SURPLUS=1', 'TIMES=2', 'EXECUTORS=1', 'MODES=3', 'PREEMPT=1', 'DELAYS=0'], time=2500),
                 bounds='NREQ requests with any timeout; blocked ones time out, wait for another item, are cancelled or closed'),
            dict(src='c22_sample.cc', key='c22_async_schedule', reach_any=True, quick=dict(defs=['ASYNC=1', 'NREQ=1', 'STREAMS=1', 'ITEMS=2', 'CHUNKS=1', 'SIZES=1', 'TABLES=1', 'NUMS=3', 'FLEX=2', 'TIMEOUTS=1', 'SURPLUS=1', 'TIMES=1', 'EXECUTORS=1', 'MODES=5', 'PREEMPT=2', 'DELAYS=0']),
                 thorough=dict(defs=['ASYNC=1', 'NREQ=2', 'STREAMS=1', 'ITEMS=2', 'CHUNKS=2', 'SIZES=1', 'TABLES=1', 'NUMS=3', 'FLEX=2', 'TIMEOUTS=1', 'SURPLUS=1', 'TIMES=2', 'EXECUTORS=1', 'MODES=5', 'PREEMPT=2', 'DELAYS=1'], time=2500),
                 bounds='PREEMPT preemptions; a client that receives late, cancels or whose connection breaks at any point'),
            dict(src='c22_sample.cc', key='c22_async_two', reach_any=True, quick=dict(defs=['ASYNC=1', 'NREQ=1', 'STREAMS=2', 'ITEMS=2', 'CHUNKS=1', 'SIZES=1', 'TABLES=1', 'NUMS=3', 'FLEX=2', 'TIMEOUTS=1', 'SURPLUS=1', 'TIMES=2', 'EXECUTORS=1', 'MODES=1', 'PREEMPT=1', 'DELAYS=1']),
                 thorough=dict(defs=['ASYNC=1', 'NREQ=1', 'STREAMS=2', 'ITEMS=2', 'CHUNKS=1', 'SIZES=1', 'TABLES=1', 'NUMS=3', 'FLEX=2', 'TIMEOUTS=1', 'SURPLUS=1', 'TIMES=2', 'EXECUTORS=1', 'MODES=3', 'PREEMPT=2', 'DELAYS=1'], time=2500),
                 bounds='two concurrent streams on one table'),
        ]),
    'C24': dict(
        assumptions=['the checkpointer is a model that returns any outcome; what the real one writes and reads is decided by C17 and C18'],
        harnesses=[
            dict(src='c24_admin.cc', key='c24_sync_calls', reach=['unknown', 'reset', 'refused', 'mutated', 'info', 'no checkpointer', 'checkpoint'], quick=dict(defs=['ASYNC=0', 'MODE=0', 'NOPS=2', 'ITEMS=2', 'UPDATES=1', 'DELETES=1']),
                 thorough=dict(defs=['ASYNC=0', 'MODE=0', 'NOPS=3', 'ITEMS=2', 'UPDATES=2', 'DELETES=1'], time=2500),
                 bounds='two tables of up to ITEMS items; NOPS calls of any kind on either table or an unknown one, with up to UPDATES updates (accepted, zero or refused) and DELETES deletions of known or unknown keys; any outcome of a save'),
            dict(src='c24_admin.cc', key='c24_sync_create', reach=['bad checkpoint', 'loaded', 'empty'], quick=dict(defs=['ASYNC=0', 'MODE=1']), bounds='one or two tables; any outcome of loading the latest and the fallback checkpoint'),
            dict(src='c24_admin.cc', key='c24_sync_connect', reach=['remote', 'no request', 'other process', 'unknown', 'broken', 'shared', 'unconfirmed'], quick=dict(defs=['ASYNC=0', 'MODE=2', 'PREEMPT=1', 'DELAYS=0']),
                 thorough=dict(defs=['ASYNC=0', 'MODE=2', 'PREEMPT=3', 'DELAYS=1'], time=1500),
                 bounds='six kinds of peer, known and unknown tables, same and another process; the client confirms, refuses, half-closes or disappears at each point; PREEMPT preemptions'),
            dict(src='c24_admin.cc', key='c24_async_calls', reach=['unknown', 'reset', 'refused', 'mutated', 'info', 'no checkpointer', 'checkpoint'], quick=dict(defs=['ASYNC=1', 'MODE=0', 'NOPS=2', 'ITEMS=2', 'UPDATES=1', 'DELETES=1']),
                 thorough=dict(defs=['ASYNC=1', 'MODE=0', 'NOPS=3', 'ITEMS=2', 'UPDATES=2', 'DELETES=1'], time=2500),
                 bounds='two tables of up to ITEMS items; NOPS calls of any kind on either table or an unknown one, with up to UPDATES updates (accepted, zero or refused) and DELETES deletions of known or unknown keys; any outcome of a save'),
            dict(src='c24_admin.cc', key='c24_async_create', reach=['bad checkpoint', 'loaded', 'empty'], quick=dict(defs=['ASYNC=1', 'MODE=1']), bounds='one or two tables; any outcome of loading the latest and the fallback checkpoint'),
            dict(src='c24_admin.cc', key='c24_async_connect', reach=['remote', 'no request', 'other process', 'unknown', 'broken', 'shared', 'unconfirmed'], quick=dict(defs=['ASYNC=1', 'MODE=2', 'PREEMPT=1', 'DELAYS=0']),
                 thorough=dict(defs=['ASYNC=1', 'MODE=2', 'PREEMPT=3', 'DELAYS=1'], time=1500),
                 bounds='six kinds of peer, known and unknown tables, same and another process; the client confirms, refuses, half-closes or disappears at each point; PREEMPT preemptions'),
        ]),
    'C27': dict(
        assumptions=['the server answers ServerInfo with its state at that time', 'how one signature is matched with another is decided by C19'],
        harnesses=[
            dict(src='c27_client.cc', key='c27_history', reach=['info fails', 'info', 'sampler', 'sampler refused', 'sampler by signature', 'trajectory writer', 'writer'], quick=dict(defs=['MODE=0', 'NOPS=2']), thorough=dict(defs=['MODE=0', 'NOPS=3'], time=2500),
                 bounds='NOPS calls, each of any kind (server info, the three kinds of sampler, the two kinds of writer), with any status, timeout and server state id; the table missing, without signature, with one of two signatures or with an unsupported one'),
            dict(src='c27_client.cc', key='c27_local', reach=['local', 'remote'], quick=dict(defs=['MODE=1']), bounds='one sampler of each kind; a peer that is remote, another process, the same process, refuses, fails or breaks at each write'),
            dict(src='c27_client.cc', key='c27_calls', reach=['mutate', 'reset', 'checkpoint'], quick=dict(defs=['MODE=2', 'NOPS=1']), thorough=dict(defs=['MODE=2', 'NOPS=2'], time=1500), bounds='NOPS calls; up to two updates and deletions with any key and priority, any timeout and any status'),
            dict(src='c27_client.cc', key='c27_concurrent', reach=['old', 'new', 'refreshed'], quick=dict(defs=['MODE=3', 'THREADS=2', 'PREEMPT=1']), thorough=dict(defs=['MODE=3', 'THREADS=2', 'PREEMPT=3'], time=1500), bounds='THREADS concurrent callers, a server that changes once, PREEMPT preemptions'),
        ]),
}
