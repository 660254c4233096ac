"""Static descriptions that go into MANIFEST.json and the evidence files."""
META = {}


def add(pid, rule, assumptions=(), level='exploration', technique='',
        note=''):
    META[pid] = {
        'rule': rule, 'assumptions': list(assumptions), 'level': level,
        'technique': technique or 'property-based testing',
        'note': note or 'Generated-input search: finds violations, never '
        'establishes absence. Trusts: ' + ' '.join(assumptions)}


_SIM = ('The simulator (vf/sim.py): pure-Python replacements of lock, thread '
        'start/join, queue, clock, sleep and event-loop selector; threads '
        'switch only at source lines of /repo/aiuti and at those primitives.')
_HYP = 'CPython 3.12 asyncio and Hypothesis behave as documented.'

add('C18', 'Sources (list/tuple/iterator/generator/counting re-iterable), '
    'conditions (callables incl. stateful, sequences, iterators; shorter, '
    'equal, longer; truthy non-bools) and consumption orders are enumerated '
    'exhaustively for small lengths and drawn at random beyond. Non-trivial: '
    'at least two elements and both iterators were advanced, or one was '
    'abandoned part way.', [_HYP],
    technique='exhaustive small-case enumeration + Hypothesis against a '
    'reference partition')
add('C19', 'Item lists are built from a grammar whose literal fragments carry '
    'their value by construction; free text is judged against a reference '
    'implementation. Non-trivial: at least one string value or key that is a '
    'literal, contains the separator, or is a non-literal expression.', [_HYP],
    technique='grammar-based generation against a reference model, with '
    'audit-hook and tripwire oracles for code evaluation')
add('C20', 'Lists of awaitables (coroutine, task, future, custom awaitable) '
    'with outcome, exception class, delay and dependency enumerated (up to 3) '
    'or drawn (up to 7, up to a thousand; some given twice). Non-trivial: at least one failure or returned '
    'exception.', [_HYP, _SIM],
    technique='enumerated and random outcome/finish-order generation in '
    'virtual time against a reference list')

_CACHE = ('Programs of 1-4 threads, each running an event loop through 1-2 '
          'phases (wait for all / stop with work pending / resume / cancel '
          'all / close / abandon) with up to 3 callers per phase (plain, '
          'cancelled, wait_for) of 2 keys; per-invocation durations and '
          'outcomes; schedules given by preemption points. Non-trivial: two '
          'calls of one key were pending at once, or a loop stopped in the '
          'middle of a computation.')
_CT = ('schedule-controlled stateful PBT: deterministic simulation of threads '
       'and loops in virtual time, random programs + exhaustive '
       'single-preemption sweeps, ')
add('C01', _CACHE, [_SIM, _HYP], technique=_CT + 'in-progress monitor')
add('C05', _CACHE, [_SIM, _HYP], technique=_CT + 'termination and idle-wait '
    'accounting')
add('C06', _CACHE, [_SIM, _HYP], technique=_CT + 'outcome-provenance oracle')
add('C14', 'Pairs of calls over a pool of equal / hash-colliding / '
    'key-shaped arguments are enumerated; longer call sequences are drawn '
    'as variations of earlier calls (reordered keywords, one argument '
    'changed, positional moved to keyword), with evictions, LRU mappings, '
    'concurrent batches and two successive loops. Oracle: list of entries '
    'compared by equality. Non-trivial: at least two distinct entries and '
    'two computations.', [_SIM, _HYP],
    technique='model-based generation against an equality-list model')

_BUF = ('Programs of up to 10 timed operations (plain calls, map of lists / '
        're-iterables / iterators, amap, await_, wait, wait_from_anywhere) '
        'issued from the buffer\'s own loop and up to two other threads, with '
        'failing or slow producers, per-call durations and outcomes of the '
        'wrapped function, optional shutdown at an instant, and a schedule. ')
_BT = ('schedule-controlled stateful PBT in virtual time (random programs + '
       'enumerated instants and preemptions), ')
add('C03', _BUF + 'Non-trivial: at least two arguments and several calls, a '
    'foreign thread or a non-immediate producer.', [_SIM, _HYP],
    technique=_BT + 'submitted-versus-delivered ledger')
add('C07', _BUF + 'Non-trivial: a submission together with a wait or a '
    'shutdown at an instant.', [_SIM, _HYP],
    technique=_BT + 'barrier oracle and termination of shutdown')
add('C08', _BUF + 'Non-trivial: at least two submissions and one call.',
    [_SIM, _HYP], technique=_BT + 'debounce timing oracle')

_BAT = ('Programs of up to 14 timed calls over 2-16 keys (default, explicit, '
        'empty, plain-argument keys), limits, timeouts and retention; per '
        'batch: durations, yield order, values, exceptions, omissions, '
        'repeated or unknown keys, an exception after n yields; callers '
        'cancelled or timed out at chosen instants and loop iterations. ')
_BAT_T = 'generated call histories in virtual time, '
add('C04', _BAT + 'Non-trivial: a batch of several items, a raising batch '
    'function or an omitted key.', [_SIM, _HYP],
    technique=_BAT_T + 'key-tagged outcomes against what was yielded')
add('C09', _BAT + 'Non-trivial: a call was actually cancelled while others '
    'existed.', [_SIM, _HYP],
    technique=_BAT_T + 'cancellation at every instant and loop iteration')
add('C10', _BAT + 'Non-trivial: at least three calls and two batches.',
    [_SIM, _HYP], technique=_BAT_T + 'size, concurrency, FIFO, sharing and '
    'deadline predicates')
add('C11', _BAT + 'Non-trivial: at least two calls share a key.',
    [_SIM, _HYP], technique=_BAT_T + 'request-window reference model')

add('C15',
    'at least two calls (or two loops, or two operations) with a non-default '
    'option set; distinct cases',
    [_SIM, _HYP],
    technique='differential PBT: option form vs direct form vs class on '
    'generated option vectors and timed programs, absolute probes per option; '
    'decorated batcher on several loops vs the same alone')

add('C17',
    'Up to 3 caller threads with up to 3 calls each on one target loop '
    '(idle, run by loop_in_thread, the first caller\'s own, closed), '
    'awaitables of five kinds and nine outcomes, loop_in_thread/stop/close '
    'at chosen instants, nested calls, callers which give up, and a '
    'schedule. Non-trivial: at least two calls, or a life-cycle action.',
    [_SIM, _HYP, 'A call whose target loop was stopped on purpose while it '
     'was pending is only required to complete once the loop runs again.'],
    technique='schedule-controlled PBT in virtual time (random programs + '
    'every single preemption of small ones), result/loop/thread identity, '
    'completion-instant and life-cycle oracle')

add('C16',
    'Sources of nine synchronous and four asynchronous kinds, 0-6 elements '
    'from a pool of awkward ones, a failure after any number of elements, '
    'producer and consumer delays, up to three concurrent streams, round '
    'trips through both bridges, consumers which give up (also on endless '
    'sources), and a schedule. Non-trivial: at least one element or a '
    'failure.',
    [_SIM, _HYP, 'TimeoutError and CancelledError are compared by type and '
     'arguments: concurrent.futures rebuilds them. StopIteration and '
     'StopAsyncIteration as failures are outside the domain (generators '
     'convert them).'],
    technique='schedule-controlled PBT in virtual time: exhaustive source '
    'grid, random streams, every single preemption; identity of elements and '
    'exception, ticker punctuality, thread census')

_LOCK = ('The kernel flock is the real one; only waiting for it is simulated '
         '(non-blocking attempts repeated whenever any descriptor is unlocked '
         'or closed).')
add('C12',
    'Histories of acquire (15 argument forms), release, forced release, '
    'acquire_ctx and with over up to 2 objects and 3 threads: all of them up '
    'to a length, random longer ones; errors injected into every open, lock, '
    'unlock and close call; concurrent threads under generated schedules. '
    'Non-trivial: at least two operations were executed.',
    [_SIM, _LOCK, 'Only the acquiring thread releases.'],
    technique='bounded-exhaustive and random operation histories against a '
    'reference model, fault injection at every call, schedule-controlled '
    'concurrent PBT')
add('C02',
    '2-4 threads with 1-3 rounds each through 1-2 objects and generated '
    'schedules; contending OS processes. Non-trivial: at least two critical '
    'sections were entered by at least two threads or processes.',
    [_SIM, _LOCK],
    technique='schedule-controlled PBT (random programs + every single '
    'preemption of small ones) with an occupancy oracle; generated '
    'multi-process contention with an O_EXCL marker oracle')
add('C13',
    'A child process running a generated history of acquires (15 forms), '
    'nested acquires, contexts, releases and forced releases is killed with '
    'SIGKILL at the k-th line (or bytecode instruction) event inside the '
    'package, or from outside at a random moment, with 0-2 live contenders. '
    'Non-trivial: the process really was killed.',
    ['Linux flock semantics of the sandbox kernel.', 'Objects inherited '
     'through fork() while held are outside the domain.'],
    technique='crash-point enumeration with real processes: every line event '
    'of generated histories, overlap and progress oracle among survivors')
