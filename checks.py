"""The checks: for each property, which harnesses run in which instrumented builds on which workloads."""
from vlib import CheckError, NCPU
REGISTRY = {}
LEVEL = {}


def check(pid, level='exploration'):
    def deco(f):
        REGISTRY[pid] = f
        LEVEL[pid] = level
        return f
    return deco


def seeds(ck, n, salt=0):
    return [ck.seed * 100000 + salt * 1000 + i for i in range(n)]


RWWRAP = ('readv', 'writev', 'read', 'write', 'recv', 'send')


@check('C01')
def c01(ck):
    ck.rule = ('random operation sequences on ring buffers of capacity 0..40 (and up to 3000, 200000), amounts biased to '
               'stored/free sizes +-1 and near SIZE_MAX; a case is one operation; distinct = distinct (operation, capacity, '
               'size, offset, count) with content or a non-zero count; a buffer of more than 4 GB where memory allows; oracle = byte vector model + ASan/UBSan')
    q = ck.quick
    jobs = [ck.job('ringbuf.cpp', 'plain', ['--mode', 'huge', '--seed', ck.seed, '--cases', 1 if q else 4])]
    for s in seeds(ck, 6 if q else 24):
        jobs.append(ck.job('ringbuf.cpp', 'asan', ['--seed', s, '--cases', 3000 if q else 20000, '--maxcap', 40]))
    for s in seeds(ck, 2 if q else 8, 1):
        jobs.append(ck.job('ringbuf.cpp', 'asan', ['--seed', s, '--cases', 250 if q else 2500, '--maxcap', 3000]))
    for s in seeds(ck, 1 if q else 4, 2):
        jobs.append(ck.job('ringbuf.cpp', 'asan', ['--seed', s, '--cases', 4 if q else 20, '--maxcap', 150000, '--ops', 40]))
    ck.run_jobs(jobs)
    ck.min_required = dict(evaluations=100000, put=1000, take=1000, peek=1000, search_hit=1000, checksum=1000, normalize=1000, resize=1000, grown=500, huge_buffers=1, huge_searches=20)


@check('C02')
def c02(ck):
    ck.rule = ('random buffer states and socket operations over a socketpair with the kernel transfer shortened, refused or '
               'interrupted at random inside the interposed system calls; a case is one read or write call; distinct = distinct '
               '(free, size, capacity, result, mode); oracle = positional bytes, bytes moved by the kernel, model sizes + ASan')
    q = ck.quick
    jobs = []
    for v in ('asan', 'asan_norw'):
        for s in seeds(ck, 4 if q else 16):
            jobs.append(ck.job('ringbuf_sock.cpp', v, ['--seed', s, '--cases', 1500 if q else 15000], wraps=RWWRAP))
    ck.run_jobs(jobs)
    ck.min_required = dict(evaluations=10000, read_ok=1000, write_ok=1000, read_eof=10, inj_short=500, inj_eintr=50, inj_eagain=50, read_expanded=100)


@check('C03')
def c03(ck):
    ck.rule = ('one case is one short history of concurrent push/pop by 2..5 fibers (switch decided at random at every atomic '
               'operation and inside element copies, with long pauses and spurious weak-CAS failures) or 2..7 real threads, on '
               'queues of 2..256 slots with random prefill; distinct = distinct switch sequences / pop orders; oracle = '
               'linearizability conditions of a bounded FIFO with unique values over the recorded call/return intervals')
    q = ck.quick
    jobs = []
    for s in seeds(ck, 8 if q else 24):
        jobs.append(ck.job('lfqueue.cpp', 'inj', ['--mode', 'fiber', '--seed', s, '--cases', 15000 if q else 150000]))
    for s in seeds(ck, 4 if q else 12, 1):
        jobs.append(ck.job('lfqueue.cpp', 'inj', ['--mode', 'thr', '--seed', s, '--cases', 60 if q else 600, '--per', 300]))
    for s in seeds(ck, 2 if q else 8, 2):
        jobs.append(ck.job('lfqueue.cpp', 'tsan', ['--mode', 'tsan', '--seed', s, '--cases', 25 if q else 200, '--per', 300, '--delay', 0]))
    if not q:
        jobs.append(ck.job('lfqueue.cpp', 'plain', ['--mode', 'lap'], timeout=800))
    ck.run_jobs(jobs)
    ck.min_required = dict(evaluations=50000, full_results=1000, empty_results=1000)


@check('C17')
def c17(ck):
    ck.rule = ('random keys (all-zero, all-one, single-bit, random), vectors and texts of 1..9 (some 20..400) blocks at every '
               'alignment, in place or not, one call or consecutive calls, several key objects alive at once; a case is one '
               'encrypt+decrypt; distinct = distinct (length, offset, form, ciphertext start); oracle = AES-128-CBC written from '
               'the FIPS-197 definitions (itself checked against the published vector) + ASan/UBSan exact-size blocks')
    n = 60000 if ck.quick else 1000000
    ck.run_jobs([ck.job('crypt.cpp', 'asanal', ['--mode', 'aes', '--seed', s, '--cases', n], wraps=('rand',)) for s in seeds(ck, 6 if ck.quick else 16)])
    ck.min_required = dict(evaluations=10000, chained=1000, inplace=1000, default_iv=1000)


@check('C18')
def c18(ck):
    ck.rule = ('private keys 0..5, powers of two +-1, around the prime, the largest, half-words and random ones, through the pair '
               'generator (random source steered) and directly; any public value; distinct = distinct key pairs; oracle = modular '
               'power computed with 256-bit products and folding')
    n = 7000 if ck.quick else 90000
    ck.run_jobs([ck.job('crypt.cpp', 'asanal', ['--mode', 'dh', '--seed', s, '--cases', n], wraps=('rand',)) for s in seeds(ck, 6 if ck.quick else 16)])
    ck.min_required = dict(evaluations=10000)


@check('C19')
def c19(ck):
    ck.rule = ('blocks of 0..700000 bytes (dense below 40, around multiples of 5552), random/constant/0xFF content, any alignment, '
               'previous values up to the largest; random splits with empty pieces, each piece its own exact heap block; distinct = '
               'distinct (length, offset, previous value); oracle = byte-by-byte definition')
    n = 40000 if ck.quick else 500000
    ck.run_jobs([ck.job('crypt.cpp', 'asanal', ['--mode', 'adler', '--seed', s, '--cases', n], wraps=('rand',)) for s in seeds(ck, 6 if ck.quick else 16)])
    ck.min_required = dict(evaluations=10000, empty_piece=1000)


@check('C20')
def c20(ck):
    ck.rule = ('seeds (zero, small, all-one, random, generated), lengths 0..20000 at every alignment, one call or calls of multiples '
               'of eight; distinct = distinct (length, offset, seed); oracle = xorshift128+ (23,17,26) written independently')
    n = 20000 if ck.quick else 300000
    ck.run_jobs([ck.job('crypt.cpp', 'asanal', ['--mode', 'xs', '--seed', s, '--cases', n], wraps=('rand',)) for s in seeds(ck, 6 if ck.quick else 16)])
    ck.min_required = dict(evaluations=20000, tails=1000)


@check('C21')
def c21(ck):
    ck.rule = ('random operation sequences on ring queues, growing and of fixed capacity 1..100, with elements that own memory; '
               'distinct = distinct (capacity, operation, sizes, phase); oracle = deque model + ASan')
    n = 700 if ck.quick else 8000
    ck.run_jobs([ck.job('data_structs.cpp', 'asan', ['--mode', 'queue', '--seed', s, '--cases', n], env={'ASAN_OPTIONS': 'detect_leaks=0'}) for s in seeds(ck, 7 if ck.quick else 16)])
    ck.min_required = dict(evaluations=100000, dropped=1000, grown=500, walks=10000)


@check('C23')
def c23(ck):
    ck.rule = ('random option tables (short, long, words, hyphen-only, duplicates), random flags, argument lists of 0..130 strings '
               'derived from the table (cut, case-flipped, extended, with values), changes of table/flags, multi-arguments with any '
               'count, stops, re-initialisation, char and wchar_t; distinct = distinct (option, argument, error, flags); oracle = '
               'reference parser written from the documented rules + ASan on exact-size strings and arrays')
    n = 12000 if ck.quick else 150000
    ck.run_jobs([ck.job('simpleopt.cpp', 'asan', ['--seed', s, '--cases', n]) for s in seeds(ck, 7 if ck.quick else 16)])
    ck.min_required = dict(evaluations=100000, err_ok=10000, err_multiple=50, multi=1000, long_lists=500)


@check('C15')
def c15(ck):
    ck.rule = ('packets of 0..65535 bytes in one or two pieces, header sizes 4..300, objects reused and copied, read back from memory, '
               'pipe and ring buffer; streams of packets cut at random points through ring buffers at every wrap position; pipes written '
               'and read in random amounts; distinct = distinct (sizes, header, source, phase); oracle = reference layout + positional '
               'bytes + ASan + leak check')
    q = ck.quick
    jobs = []
    for v in ('asan', 'asan_norw'):
        for s in seeds(ck, 3 if q else 12):
            jobs.append(ck.job('packet.cpp', v, ['--seed', s, '--cases', 1500 if q else 20000], env={'ASAN_OPTIONS': 'detect_leaks=1'}))
    ck.run_jobs(jobs)
    ck.min_required = dict(evaluations=5000, stream_packets=1000, stream_incomplete=500, copied=200, from_pipe=100, pipe_bytes=10000)


@check('C24')
def c24(ck):
    ck.rule = ('1..8 threads logging messages of 0..9000 characters (dense around 2048) at every level while the level changes '
               'between rounds, the file read back and every line parsed; opening the file made to fail now and then; a case is one '
               'round; distinct = distinct (length, level, threshold); oracle = exactly-once, per-thread order, full text + ASan')
    q = ck.quick
    jobs = []
    for s in seeds(ck, 5 if q else 16):
        jobs.append(ck.job('logger.cpp', 'asan', ['--seed', s, '--cases', 200 if q else 1500], wraps=('fopen',)))
    for s in seeds(ck, 2 if q else 8, 1):
        jobs.append(ck.job('logger.cpp', 'tsan', ['--seed', s, '--cases', 25 if q else 300], wraps=('fopen',)))
    ck.run_jobs(jobs)
    ck.min_required = dict(evaluations=500, lines=10000, open_faults=100)


@check('C25')
def c25(ck):
    ck.rule = ('pairs of ip/port (edge values, one bit apart, random) through every constructor, copy, assignment, comparison and set; '
               'valid and mutated texts; both ends of real sockets in every state; look-ups answered by the monitor with lists of v4/v6 '
               'records; all 16-bit and sampled 32-bit values through the byte-order conversion; each constructor also in memory with two '
               'different previous contents; distinct = distinct (ip, port, source); oracle = reference values + ASan')
    n = 20000 if ck.quick else 200000
    ck.run_jobs([ck.job('address.cpp', 'asan', ['--seed', s, '--cases', n], wraps=('getaddrinfo', 'freeaddrinfo')) for s in seeds(ck, 6 if ck.quick else 16)])
    ck.min_required = dict(evaluations=50000, tcp_pairs=100, invalid_text=1000, valid_text=1000, equal_pairs=500, poison_pairs=1000)


SYSWRAP = ('pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_cond_signal', 'clock_gettime')


@check('C16')
def c16(ck):
    ck.rule = ('random sets of threads (joined with no limit, long, short and zero limits, before and long after their end, detached), '
               'contended and held locks, concurrent signal histories checked against an auto-reset event, hand-overs, one-raise-one-waiter, '
               'waits above one second and limits up to weeks that must not end early, clock readings of all threads against one origin, first-call races in fresh processes, scripted clock '
               'values; random delays around every lock, unlock and signal call; distinct = distinct scripts/histories; ASan, TSan and leak check')
    q = ck.quick
    jobs = []
    for v in ('asan', 'asan_norw', 'tsan', 'inj'):
        env = {'ASAN_OPTIONS': 'detect_leaks=1'} if v.startswith('asan') else {}
        for i, (m, n) in enumerate((('thread', 350), ('lock', 250), ('signal', 700))):
            if v == 'asan_norw' and m != 'lock':
                continue
            for s in seeds(ck, 1 if q else 4, i):
                jobs.append(ck.job('sysapi.cpp', v, ['--mode', m, '--seed', s, '--cases', n if q else n * 6], wraps=SYSWRAP, env=env))
    for v in ('asan', 'asan_norw'):
        jobs.append(ck.job('sysapi.cpp', v, ['--mode', 'long', '--seed', ck.seed, '--cases', 1 if q else 12], wraps=SYSWRAP))
    for v in ('plain', 'tsan'):
        jobs.append(ck.job('sysapi.cpp', v, ['--mode', 'clock', '--seed', ck.seed, '--cases', 300 if q else 2000, '--per', 60000 if q else 600000], wraps=SYSWRAP))
    ck.run_jobs(jobs)
    ck.min_required = dict(evaluations=2000, joined=300, detached=50, join_timeouts=100, lock_sections=5000, try_held=10, try_released=10, histories=500, woken=200, timeouts=200, handovers=5000, one_waiter=30, long_waits=12, far_waits=150, clock_samples=100000)


LOOPWRAP = ('timerfd_create', 'epoll_wait', 'select', 'epoll_ctl', 'write', 'read', 'pthread_mutex_lock', 'pthread_mutex_unlock')
LEAKS = {'ASAN_OPTIONS': 'detect_leaks=1'}


@check('C05')
def c05(ck):
    ck.rule = ('random registrations (2..70 channels, pipes and socket pairs) with random register/delete/enable/disable/close/reuse '
               'operations outside and inside callbacks, through loop() and step(), waits interrupted at random, epoll and select builds; '
               'a case is one such run; distinct = distinct operation sequences; oracle = model of live/enabled registrations checked '
               'at each callback, readiness by poll(2) with a bound of 60 rounds, no callback in rounds with nothing ready, descriptors and leaks, ASan')
    q = ck.quick
    jobs = []
    for v in ('asan', 'asan_sel'):
        for s in seeds(ck, 4 if q else 16):
            jobs.append(ck.job('looper.cpp', v, ['--mode', 'dispatch', '--seed', s, '--cases', 400 if q else 4000, '--leaks', 1], wraps=LOOPWRAP, env=LEAKS, timeout=800))
    ck.run_jobs(jobs)
    ck.min_required = dict(evaluations=1000, callbacks=20000, changes=10000, fd_reused=500, interrupted_waits=1000, max_live=50, quiet_calls=10000, high_fds=1000, beyond_fd_set=1000, long_lived=8, ready_by_hangup=500)


@check('C06')
def c06(ck):
    ck.rule = ('sets of 1..14 timers (1..40 ms; one run with 350..2000 ms) deleted and re-registered inside callbacks, slow callbacks so '
               'that several are due in one round, I/O alongside, interrupted waits; distinct = distinct firing orders; oracle = call k '
               'not before k periods, identity, nothing after deletion, twelve more calls of every live timer, smallest gap, timers left over when the loop is destroyed, '
               'descriptors, callback objects and leaks, ASan')
    q = ck.quick
    jobs = []
    for v in ('asan', 'asan_sel'):
        jobs.append(ck.job('looper.cpp', v, ['--mode', 'timerlong', '--seed', ck.seed, '--cases', 1 if q else 6, '--leaks', 1], wraps=LOOPWRAP, env=LEAKS))
        for s in seeds(ck, 6 if q else 16):
            jobs.append(ck.job('looper.cpp', v, ['--mode', 'timer', '--seed', s, '--cases', 18 if q else 250, '--leaks', 1], wraps=LOOPWRAP, env=LEAKS, timeout=800))
    ck.run_jobs(jobs, parallel=12)
    ck.min_required = dict(evaluations=100, timer_calls=10000, timers=1000, timers_deleted=1000, gap_checked=100)


@check('C07')
def c07(ck):
    ck.rule = ('stop requests before the loop, as it starts, while it waits, inside callbacks, from 1..3 threads, repeated; events enabled '
               'and disabled from other threads on waiting and running loops; random delays around every lock, write, wait and atomic '
               'access; distinct = distinct (kind, callbacks run); oracle = the loop returns (hang monitor), callbacks begun after the '
               'request, callbacks after enable/disable; epoll and select builds, ASan and TSan')
    q = ck.quick
    jobs = []
    for v, n in (('asan', 1500), ('asan_sel', 1500), ('inj', 2500), ('tsan_nolog', 800), ('tsan_sel', 600)):
        for s in seeds(ck, 2 if q else 6):
            jobs.append(ck.job('looper.cpp', v, ['--mode', 'stop', '--seed', s, '--cases', n if q else n * 12], wraps=LOOPWRAP, timeout=800))
    ck.run_jobs(jobs)
    ck.min_required = dict(evaluations=5000, requests=3000, enables=3000, disables=500, toggles=10000, stopped_before_any_callback=500)


@check('C04')
def c04(ck):
    ck.rule = ('1..3 workers, 1..4 sending threads plus messages sent from handlers to the own and other workers, all four ways of sending, '
               '16..65535 bytes, batches of 0..6, senders bursting or waiting for the worker to go idle, random delays around every '
               'queue/flag access, pipe read/write and wait; joins with messages pending; a worker held up while up to 60000 messages pending at once; queue flooded beyond its capacity; a case is one '
               'such run; distinct = distinct handling orders; oracle = per-sender sequence, content, thread, quiescence (hang monitor), '
               'leaks; ASan, TSan')
    q = ck.quick
    jobs = []
    W = ('epoll_wait', 'write', 'read')
    for v, n in (('inj', 250), ('inj', 250), ('inj_asan', 100), ('asan', 150), ('inj_tsan', 60), ('tsan_nolog', 60)):
        for s in seeds(ck, 2 if q else 8, len(jobs)):
            jobs.append(ck.job('worker.cpp', v, ['--seed', s, '--cases', n if q else n * 10, '--leaks', 1], wraps=W, env=LEAKS if 'asan' in v else {}, timeout=800))
    for v, n in (('inj', 12), ('asan', 6)):
        jobs.append(ck.job('worker.cpp', v, ['--mode', 'deep', '--seed', ck.seed + 77, '--cases', n if q else n * 10, '--leaks', 1], wraps=W, env=LEAKS if 'asan' in v else {}, timeout=800))
    jobs.append(ck.job('worker.cpp', 'asan', ['--mode', 'overflow', '--seed', ck.seed, '--cases', 4 if q else 40, '--leaks', 1], wraps=W, env=LEAKS, timeout=800))
    ck.run_jobs(jobs)
    ck.min_required = dict(evaluations=1000, messages=100000, quiesced=1000, abrupt=100, sent_from_handler=5000, sent_across=1000, form_batch=10000, recovered=1, deep=10, deep_pending=100000)


NETWRAP = ('read', 'write', 'readv', 'writev', 'recv', 'send', 'epoll_wait', 'select', 'epoll_ctl', 'accept', 'accept4', 'socket', 'connect',
           'pthread_mutex_lock', 'pthread_mutex_unlock', 'close')


def net(ck, src, variant, mode, seed, cases, extra=(), timeout=800):
    return ck.job(src, variant, ['--mode', mode, '--seed', seed, '--cases', cases, '--leaks', 1] + list(extra), wraps=NETWRAP,
                  env=LEAKS if 'asan' in variant else {}, timeout=timeout)


@check('C08')
def c08(ck):
    ck.rule = ('connections of a server (1..3 workers) or of clients against raw peers: positional bytes written by the peer in pieces, taken '
               'by the message callback whole, in part or late; tagged messages sent by up to 4 other threads and by the own thread in '
               'connected/message/send-complete callbacks and before the connection exists; small kernel buffers, slow and pausing '
               'peers, injected short/would-block/interrupted calls and delays; a case is one set of connections run to quiescence; '
               'distinct = distinct (plan, messages, send-complete callbacks); oracle = both streams byte for byte, per-sender order, '
               'every message arrived without further activity (hang monitor), send-complete after the last byte, received bytes nobody took still there '
               'in the close callback; runs with 12..90 MB per sender waiting and a single send of 2.2 GB (where memory allows)')
    q = ck.quick
    jobs = []
    for v, n in (('asan', 150), ('inj_asan', 150), ('inj', 200), ('asan_sel', 120), ('asan_norw', 120), ('tsan_nolog', 60)):
        for s in seeds(ck, 2 if q else 8, len(jobs)):
            jobs.append(net(ck, 'net_stream.cpp', v, 'stream', s, n if q else n * 8))
    jobs.insert(0, net(ck, 'net_stream.cpp', 'plain', 'huge', ck.seed, 2, ['--mb', 2200 if q else 4400]))
    jobs += [net(ck, 'net_stream.cpp', v, 'backlog', s, 6 if q else 60) for v, s in zip(('inj', 'asan', 'tsan_nolog'), seeds(ck, 3, len(jobs)))]
    ck.run_jobs(jobs)
    ck.min_required = dict(evaluations=800, messages_out=20000, completes=3000, complete_exact=500, quiesced=1500, inj_short=3000, inj_eagain=3000, cached_sends=200, own_sends=3000, client_cases=100, server_cases=100, unread_at_close=200, backlogs=12, backlog_max_mb=40, huge_own=1, huge_cross=1)


@check('C09')
def c09(ck):
    ck.rule = ('connections as for C08 that are shut down while senders are active: in the connected/message/send-complete callback, by another '
               'function on the own thread, through the server from other threads, by disconnecting the client; a case is one set of '
               'connections; distinct = distinct (plan, messages that arrived, way of shutting down); oracle = per-sender bounds (sent before '
               'the call .. begun before it returned) on what a reading peer gets before a clean end of stream, one close callback, states '
               'never going back, a send-complete callback for data buffered at the shutdown, descriptor and object released')
    q = ck.quick
    jobs = []
    for v, n in (('asan', 250), ('inj_asan', 250), ('inj', 300), ('asan_sel', 200), ('tsan_nolog', 100)):
        for s in seeds(ck, 2 if q else 8, len(jobs)):
            jobs.append(net(ck, 'net_stream.cpp', v, 'shutdown', s, n if q else n * 8))
    jobs.append(net(ck, 'net_stream.cpp', 'asan', 'tail', ck.seed, 3 if q else 30))
    ck.run_jobs(jobs)
    ck.min_required = dict(shutdowns=3000, eof_seen=2500, msgs_must=10000, msgs_refused=10000, shut_direct=800, shut_disconnect=200, shut_via_server=300, shut_via_server_own=100, seen_not_connected=500, tail_cases=1, complete_after_shutdown=200)


@check('C22')
def c22(ck):
    ck.rule = ('MinMaxValue/PeriodValue over several arithmetic types with and without initial value, random values with negative, zero, equal and '
               'extreme ones, random times between recording and querying; connections as for C08 whose traffic statistics are read after '
               'quiescence (long period) or after an idle period (short one); distinct = distinct value sequences and traffic plans; oracle = '
               'recomputed minimum/maximum/sum/count with recorded times bracketing, and byte/transfer counts of the interposed kernel calls')
    q = ck.quick
    jobs = [ck.job('data_structs.cpp', 'asan', ['--mode', 'stat', '--seed', s, '--cases', 300 if q else 1500]) for s in seeds(ck, 4 if q else 12)]
    jobs += [ck.job('data_structs.cpp', 'inj', ['--mode', 'stat', '--seed', s, '--cases', 300 if q else 1500]) for s in seeds(ck, 2 if q else 8, 4)]
    for v, n in (('asan', 120), ('inj', 150), ('inj_asan', 100)):
        for s in seeds(ck, 2 if q else 8, len(jobs)):
            jobs.append(net(ck, 'net_stream.cpp', v, 'stat', s, n if q else n * 8))
    ck.run_jobs(jobs)
    ck.min_required = dict(minmax=1000, minmax_threads=100, period_paced=100, period_queries=1000, period_expired=100, stat_compared=500, stat_expired=50, stat_transfers=10000)


def net_jobs(ck, src, mode, plan, scale=8):
    jobs = []
    for v, n in plan:
        for s in seeds(ck, 2 if ck.quick else 8, len(jobs)):
            jobs.append(net(ck, src, v, mode, s, n if ck.quick else n * scale))
    return jobs


@check('C10')
def c10(ck):
    ck.rule = ('servers with 1..8 workers and 1..3 ports, up to 60 peers from up to 5 threads: echoing, half-closing, closed before accepted, idle, '
               'stalled, aborting, closed by command (directly / through the server), closed in the connected callback, shut down by another '
               'thread at random, shut down again in the close callback; a case is one server; distinct = distinct (messages per connection and '
               'worker, seed); oracle = online order/thread/worker/object/id monitor per connection, accepted = connected = closed, counts per '
               'worker differ by at most one (also over 1200 and more connections), every object and descriptor released while the server runs on')
    q = ck.quick
    jobs = net_jobs(ck, 'net_server.cpp', 'lifecycle', (('asan', 80), ('inj_asan', 60), ('inj', 120), ('asan_sel', 60), ('tsan_nolog', 30)))
    jobs += [net(ck, 'net_server.cpp', v, 'lifecycle', s, 2 if q else 20, ['--many', 1]) for v, s in zip(('inj', 'asan'), seeds(ck, 2, len(jobs)))]
    ck.run_jobs(jobs)
    ck.min_required = dict(evaluations=300, accepted=8000, closed=8000, spread_checked=300, closed_directly=500, closed_via_server=500, killed=500, command_closed=500, peer_gone_at_connect=20, max_workers=5, healthy_done=1000, many=2)


@check('C11')
def c11(ck):
    ck.rule = ('servers as for C10 stopped at a random moment (before the master thread listens, while peers connect, transfer, stall, close) once, '
               'repeatedly, from several threads, from the master thread and its start callback, after refused attempts on workers, never '
               'started or without ports; peers drain while the server is joined; a case is one server; distinct as for C10; oracle = join '
               'returns (hang monitor), one close callback for every connected one, threads, descriptors and objects back to before, served '
               'as before after a refused stop; ASan/LSan/TSan')
    q = ck.quick
    ck.run_jobs(net_jobs(ck, 'net_server.cpp', 'stop', (('asan', 150), ('inj_asan', 120), ('inj', 200), ('asan_sel', 120), ('tsan_nolog', 60))))
    ck.min_required = dict(stops=900, joined=900, stop_concurrent=100, stop_repeated=100, stop_on_master=100, stop_on_worker=200, served_after_refused_stop=150, stop_immediate=40, stop_not_started=20, stalled=500, accepted=5000)


@check('C13')
def c13(ck):
    ck.rule = ('servers as for C10 with peers that reset, half-close, abort in the middle of transfers, stop reading, go before being accepted, next to healthy '
               'peers whose echoed data is checked byte for byte; injected short transfers, EAGAIN/EINTR in read/write/wait and accept '
               'errors (ECONNABORTED, EINTR, EMFILE, EAGAIN, EPROTO), delays; a case is one server; distinct as for C10; oracle = healthy '
               'peers undisturbed, the process survives, every port served afterwards, one close callback each, descriptors back to before')
    q = ck.quick
    ck.run_jobs(net_jobs(ck, 'net_server.cpp', 'fault', (('asan', 100), ('inj_asan', 80), ('inj', 150), ('asan_sel', 80), ('asan_norw', 60), ('tsan_nolog', 40))))
    ck.min_required = dict(evaluations=400, healthy_done=2000, reset=1000, aborting=500, instant=1000, probe_after=500, kept_alive=200, stalled=500, inj_accept_error=500, inj_eintr=2000, inj_eagain=2000, inj_short=5000, inj_wait_eintr=2000, peer_gone_at_connect=200)


@check('C12')
def c12(ck):
    ck.rule = ('clients (1..6 on one looper thread) against servers that accept, refuse, start listening after some failures, keep silent with a full '
               'backlog (then accept), reset, or cannot be reached at all; random retry answers; send and disconnect before, while connecting, '
               'waiting, connected, and inside every callback, from outside at random moments, reconnecting, dropping the last reference; '
               'injected short/would-block/interrupted calls and delays; a case is one set of clients; distinct = distinct (kind, end state, failures, '
               'callbacks, messages); oracle = state model on the looper thread checked at every callback and query, retry not before its '
               'time (armed kernel timer read back for long ones), bytes arriving at the peer = messages sent since the last disconnect once and in '
               'order, queries and sends of a watching thread, object and descriptor released')
    q = ck.quick
    jobs = net_jobs(ck, 'net_client.cpp', 'x', (('asan', 80), ('inj_asan', 80), ('inj', 120), ('asan_sel', 80), ('tsan_nolog', 60), ('inj_tsan', 40)))
    jobs += [net(ck, 'net_client.cpp', v, 'x', s, 8 if q else 40, ['--slow', 1]) for v, s in zip(('asan', 'inj', 'asan_sel'), seeds(ck, 3, len(jobs)))]
    ck.run_jobs(jobs)
    ck.min_required = dict(evaluations=2000, failures=2000, retries=1000, cancel_connecting=500, cancel_waiting=150, disconnect_connected=300, delivered=3000, delivered_all=100,
                           sent_connecting=5000, silent_then_accept=10, reconnects=400, reconnect_in_callback=50, dropped_last_reference=150, reset=80, connect_false=100, failed_at_once=50, armed_checked=30, watcher_sends=500)


@check('C26')
def c26(ck):
    ck.rule = ('servers with 1..6 (32) workers and 0..6 ports, unbindable addresses tried in between, invalid start counts, start and bind while '
               'running; commands of random id, size and form from up to 5 threads, from the start callbacks and from command handlers to the '
               'master and every worker; stop_listen from the start callback, master, workers, other threads, twice and after stop, next '
               'to peers that connect all the time and established connections that go on echoing; stop while senders are active; a case '
               'is one server; distinct = distinct handling orders; oracle = online exactly-once/order/thread/content monitor, bound address by index '
               'and connection attempts after the stop request was handled, timers the user registered on the loopers it was given go on firing')
    ck.run_jobs(net_jobs(ck, 'net_ctl.cpp', 'x', (('asan', 120), ('inj_asan', 100), ('inj', 150), ('asan_sel', 100), ('tsan_nolog', 50), ('inj_tsan', 30))))
    ck.min_required = dict(evaluations=800, master_commands=50000, worker_commands=150000, sent_in_start=4000, sent_from_handler=20000, form_batch=100000, quiesced=700, refused_after_stop=2000, served=2500, kept_echo=3000, racer_connected=2000,
                           stop_listen_in_start=60, stop_listen_in_master=80, stop_listen_in_worker=40, stop_listen_twice=300, stop_listen_after_stop=300, bad_binds=800, refused_running=800, concurrent_joins=200, bare=30, user_timers=2000, user_timers_alive=2000, user_timers_deleted=50)


@check('C14')
def c14(ck):
    ck.rule = ('2..6 threads calling at random what is documented as thread safe (send, state, addresses, shutdown through the server, commands, '
               'messages, locks, signals, clocks, stop_listen, stop) on running servers, connections, clients and workers, without any '
               'synchronisation of the harness between them; plus the workloads of the other concurrent checks under ThreadSanitizer and '
               'with delays injected at every lock and atomic access; a case is one server with its clients; distinct = distinct counts of '
               'commands and lock holds per plan; oracle = TSan (logging compiled out), ASan, streams, counts, hang monitor')
    q = ck.quick
    jobs = net_jobs(ck, 'net_mix.cpp', 'x', (('tsan_nolog', 70), ('inj_tsan', 60), ('asan', 50), ('inj_asan', 50), ('inj', 60), ('asan_sel', 40)))
    k = 50
    def more(j):
        jobs.append(j)
    def s():
        return ck.seed * 100000 + 7000 + len(jobs)
    m = 1 if q else 8
    for v, n in (('tsan', 25), ('tsan', 25)):
        more(ck.job('lfqueue.cpp', v, ['--mode', 'tsan', '--seed', s(), '--cases', n * m, '--per', 300, '--delay', 0]))
    more(ck.job('logger.cpp', 'tsan', ['--seed', s(), '--cases', 20 * m], wraps=('fopen',)))
    for mode, n in (('thread', 150), ('lock', 120), ('signal', 300)):
        more(ck.job('sysapi.cpp', 'tsan', ['--mode', mode, '--seed', s(), '--cases', n * m], wraps=SYSWRAP))
    for v in ('tsan_nolog', 'tsan_sel'):
        more(ck.job('looper.cpp', v, ['--mode', 'stop', '--seed', s(), '--cases', 400 * m], wraps=LOOPWRAP, timeout=800))
    for v in ('tsan_nolog', 'inj_tsan'):
        more(ck.job('worker.cpp', v, ['--seed', s(), '--cases', 40 * m], wraps=('epoll_wait', 'write', 'read'), timeout=800))
        more(net(ck, 'net_stream.cpp', v, 'stream', s(), 40 * m))
        more(net(ck, 'net_stream.cpp', v, 'shutdown', s(), 60 * m))
        more(net(ck, 'net_server.cpp', v, 'lifecycle', s(), 20 * m))
        more(net(ck, 'net_server.cpp', v, 'stop', s(), 30 * m))
        more(net(ck, 'net_client.cpp', v, 'x', s(), 30 * m))
        more(net(ck, 'net_ctl.cpp', v, 'x', s(), 30 * m))
    ck.run_jobs(jobs)
    ck.min_required = dict(evaluations=500, op_send=20000, op_client_send=5000, op_client_state=10000, op_state=10000, op_address=10000, op_command=5000, op_message=5000, op_lock=10000,
                           op_clock=5000, op_notify=2000, op_wait=1000, op_shutdown=200, op_stop_listen=20, stop_while_calling=200, connections=1500)


@check('C27')
def c27(ck):
    ck.rule = ('connection probes of open, closed, silent (backlog filled) and late peers and with each of its system calls refused, with timeouts '
               'from 0 to unlimited, descriptors below and above 1024 and signals hitting the caller; random sequences of option changes on '
               'stream and datagram sockets with every option of the socket and of a bystander read back after each; datagrams of 0..65600 bytes '
               'among 1..4 sockets; connections made with the plain calls; a case is one probe, socket or exchange; distinct = distinct '
               '(kind, timeout, fault) and sizes; oracle = what the other end and the kernel say (getsockopt, accept, recv, descriptor table) + ASan')
    q = ck.quick
    W = ('socket', 'fcntl', 'connect', 'getsockopt', 'poll')
    jobs = []
    for s in seeds(ck, 4 if q else 16):
        jobs.append(ck.job('sockapi.cpp', 'asan', ['--mode', 'probe', '--seed', s, '--cases', 250 if q else 1500], wraps=W, timeout=800))
    for s in seeds(ck, 3 if q else 12, 1):
        jobs.append(ck.job('sockapi.cpp', 'asan', ['--mode', 'plain', '--seed', s, '--cases', 1000 if q else 10000], wraps=W, timeout=800))
    ck.run_jobs(jobs)
    ck.min_required = dict(evaluations=20000, probe_open=100, probe_closed=50, probe_silent=20, probe_fault=40, injected_faults=40, high_descriptor_rounds=40, signals=300, probe_seen_closed=100,
                           option_calls=5000, option_on_bad=5000, udp_sent=3000, udp_received=1500, udp_oversize=50, tcp_pairs=200, refused=50)


@check('C28')
def c28(ck):
    ck.rule = ('sizes from random bit patterns, neighbours of every unit border and random integers in both forms; module name into exact heap '
               'buffers of 0..300 bytes, from executables linked under paths of up to 4000 bytes and random names; process id in forked '
               'processes; processor counts as the interposed system call gives them; local times over years, zones and formats with the '
               'interposed clock into exact buffers; sleeps under a signal timer; a case is one call; distinct = distinct texts and sizes; '
               'oracle = recomputation in double, strftime, readlink, monotonic clock + ASan')
    q = ck.quick
    W = ('time', 'sysconf')
    jobs = []
    for s in seeds(ck, 2 if q else 8):
        jobs.append(ck.job('util.cpp', 'asan', ['--mode', 'size', '--seed', s, '--cases', 1500 if q else 20000], wraps=W, timeout=800))
    for s in seeds(ck, 3 if q else 12, 1):
        jobs.append(ck.job('util.cpp', 'asan', ['--mode', 'proc', '--seed', s, '--cases', 500 if q else 4000], wraps=W, timeout=800))
    ck.run_jobs(jobs)
    ck.min_required = dict(evaluations=500000, shown_bytes=10000, shown_kb=10000, shown_mb=10000, shown_gb=10000, names=5000, names_cut=500, deep_paths=50, paths_over_255=50, forks=500, local_times=10000, times_too_long=1000, sleeps=100, interrupted_sleeps=30)


@check('C29')
def c29(ck):
    ck.rule = ('the sample programs built with ASan+UBSan (part of them with TSan) run as processes against scripted peers over loopback: '
               'streams of every size cut into single bytes, small pieces or big blocks, slow readers, small kernel buffers, resets, '
               'refused targets, killed partners, several clients at once; a case is one exchange or download; distinct = distinct '
               'streams; oracle = the bytes (packets, file) that must arrive, the end of the stream, the descriptors the program holds '
               'before and after, the sanitizers\' reports and the program\'s exit')
    from vlib import build_lib
    q = ck.quick
    T = ('cyclone', 'echo-server', 'echo-client', 'chat-server', 'chat-client', 'socks5', 'relay_local', 'relay_server', 'relay_pipe', 'ft-server', 'ft-client')
    binA, binT = build_lib('asan', T), build_lib('tsan_nolog', T)
    jobs = []

    def add(mode, n, cases, tree, salt):
        for s in seeds(ck, n if q else n * 4, salt):
            jobs.append(ck.job('samples.cpp', 'plain', ['--mode', mode, '--cases', cases if q else cases * 6, '--seed', s, '--bin', tree, '--slot', len(jobs) % 90], timeout=800))
    add('relay', 6, 10, binA, 0)
    add('ft', 4, 8, binA, 1)
    add('socks', 3, 20, binA, 2)
    add('echo', 2, 15, binA, 3)
    add('chat', 2, 20, binA, 4)
    add('pipe', 2, 20, binA, 5)
    add('echoc', 1, 15, binA, 6)
    add('chatc', 1, 15, binA, 7)
    add('socks', 1, 15, binT, 8)
    add('echo', 1, 6, binT, 9)
    add('chat', 1, 20, binT, 10)
    add('pipe', 1, 10, binT, 11)
    add('ft', 1, 6, binT, 12)
    ck.run_jobs(jobs)
    ck.min_required = dict(evaluations=150, streams_compared=500, stream_bytes=10**8, tails=100, late_readers=30, resets=10, fd_balances=100, downloads=40, chat_packets=2000, shown=50, relay_encrypted=1, relay_refused=1, relay_partner_killed=1, socks_refused=10, pipe_intruders=2, chat_leavers=5)


# property -> (technique, what assurance the check gives)
TECHNIQUE = {
    'C01': ('model-based random operation monitor under ASan+UBSan', 'Every observable of every operation is compared with a byte-vector model over ~10^6 random operations (all wrap positions for small capacities); memory violations caught by ASan on exact-size blocks. Held on the executions explored only.'),
    'C02': ('interposed read/write calls with injected short transfers and errors, positional-byte oracle, ASan', 'The kernel-side byte count recorded by the interposed calls is the reference for what must have been appended/removed; both the vectored and the plain build are run. Assumes the library reaches the kernel through read/readv/recv/write/writev/send.'),
    'C03': ('recorded concurrent histories checked for FIFO linearizability; controlled random scheduler at every atomic operation; TSan', 'Tens of thousands of short histories with switches forced at every atomic access (real header code, atomics replaced by instrumented ones), plus real threads and TSan. Sequentially consistent interleavings only in fiber mode; element types that are not copied as words are outside the queue design.'),
    'C17': ('reference-model monitor under ASan+UBSan', 'Random differential against an independent implementation; the key, vector and text space is sampled.'),
    'C18': ('reference-model monitor under ASan+UBSan', 'Random and boundary keys against independent 256-bit arithmetic.'),
    'C19': ('reference-model monitor under ASan+UBSan', 'Lengths around every block boundary of the algorithm, random splits, exact-size heap blocks.'),
    'C20': ('reference-model monitor under ASan+UBSan (with alignment checks)', 'Every length class and alignment against an independent generator.'),
    'C21': ('model-based random operation monitor under ASan', 'Every observable after every operation is compared with a deque model.'),
    'C23': ('reference-parser differential monitor under ASan', 'Tables, flags and argument lists are sampled from a grammar that is biased to near-matches; the reference takes name=value as the first reading of any argument with an equals sign.'),
    'C15': ('reference-layout and stream-reassembly monitor under ASan with leak checks', 'Packet and stream space sampled with sizes biased to the static/heap boundary; both pipe and buffer read paths.'),
    'C24': ('log file read back and checked for exactly-once complete lines, ASan and TSan', 'Random rounds of concurrent logging; the file on disk is the observation.'),
    'C25': ('reference-value monitor under ASan, interposed name look-up', 'Values sampled with edge bias; 16-bit conversion exhaustive; look-ups need no network because the resolver call is interposed.'),
    'C16': ('contract monitors over recorded calls (auto-reset-event linearizability, elapsed-time and exclusion oracles), injected delays, ASan/TSan', 'Sampled schedules with delays injected at every lock/signal call; time bounds allow 2 ms between wall and monotonic clock; a timed lock attempt is only judged when the lock was free 20 ms before the limit.'),
    'C05': ('online monitor of callbacks against a model of live registrations, poll(2) readiness oracle, injected EINTR, ASan', 'Random operation sequences through both back ends; delivery is judged in rounds, not time.'),
    'C06': ('online monitor of timer calls against the monotonic clock and a model of live timers, ASan and leak check', 'Random timer populations; lateness is not judged except that a timer never less than 1.5 periods + 30 ms apart over twelve calls is reported.'),
    'C07': ('stress with injected delays and hang monitor; callbacks-after-request counter; TSan', 'Schedules sampled with delays at each synchronisation point; a hang is 30 s without progress, confirmed by a re-run.'),
    'C04': ('exactly-once/order monitor on tagged messages under injected delays, hang monitor for messages left behind, ASan/LSan/TSan', 'Sampled schedules with delays at each atomic access and system call; pending kept below the queue capacity except in the flood runs.'),
    'C08': ('both byte streams of real connections compared with what was written, under injected short transfers, delays and slow peers; hang monitor; ASan/TSan', 'Sampled schedules and traffic; loopback TCP only; epoll, select and non-vectored builds.'),
    'C09': ('end-of-stream monitor with per-sender bounds around the shutdown, state watcher, ASan/TSan', 'Sampled schedules. Data the peer has sent and the application has not yet read makes the kernel reset the connection on close: that case is a listed known finding, and the other runs keep it apart.'),
    'C22': ('statistics recomputed by the monitor (values, recording times, interposed kernel transfers)', 'Times are bracketed by clock readings around each call, so that values within the bracket of the period edge may or may not be counted.'),
    'C10': ('online lifecycle monitor over the callbacks of every connection (order, thread, object, ids, spread, release), ASan/LSan/TSan', 'Sampled schedules and peer behaviours on loopback.'),
    'C11': ('stop/join monitor (hang, callbacks, threads, descriptors, objects) under injected delays, ASan/LSan/TSan', 'Sampled stop moments; concurrent stop calls are joined only after all have returned, as documented.'),
    'C13': ('injected system-call failures and hostile peers next to healthy connections whose data is verified, ASan/TSan', 'Injected failures are those a kernel may return for the call; data loss on the hostile connection itself is not judged.'),
    'C12': ('online state-model monitor of client callbacks and states with a per-message delivery oracle, injected faults, ASan/LSan/TSan', 'Sampled histories against local peers; a blocked connect is obtained by a full accept queue; retry lateness is judged only by the hang monitor.'),
    'C26': ('exactly-once/order monitor on tagged commands, connect probes and echo monitors around stop_listen, injected delays and faults, ASan/LSan/TSan', 'Sampled schedules; descriptors are counted around failed binds; refusal is probed only after a later command of the same sender was handled.'),
    'C27': ('probe and socket call results compared with what the peer and the kernel report, injected system call failures and signals, ASan', 'Peers, timeouts, options and datagram sizes sampled; loopback only; timing is judged with 8 s of slack upwards and 2 ms downwards.'),
    'C28': ('reference-value monitor under ASan, interposed clock and processor count, processes started from generated paths', 'Values sampled with edge bias.'),
    'C29': ('real sample programs under ASan/UBSan/TSan as processes, stream oracles at scripted peers, descriptor balance', 'Traffic and moments of leaving sampled on loopback; peers follow the protocols; a stream counts as stuck after 12 to 15 s without any progress.'),
    'C14': ('ThreadSanitizer, AddressSanitizer and delay injection over mixed concurrent workloads', 'Every documented thread-safe call is issued from several unsynchronised threads against the threads that own the objects; ThreadSanitizer decides each conflicting pair of accesses that occurred without ordering, whatever the actual timing. Held on the executions explored only.'),
}
NOT_YET = {}
