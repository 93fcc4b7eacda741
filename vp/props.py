"""What decides each property."""


def k(harness, contract=None, functions=(), must_panic=False, bounded=None, **kw):
    return dict(harness=harness, contract=contract, functions=list(functions), must_panic=must_panic, bounded=bounded, **kw)


STD = 'src/std.rs: '
ASSUME_STUBS = ('the JavaScript host (performance.now, Date.now, setTimeout) is replaced by the stand-ins in '
                '/verif/stubs; the crate itself is compiled unmodified')
ASSUME_RUSTC = 'rustc and its standard library'
ASSUME_KANI = 'Kani 0.68 / CBMC 6.11 and its models of the compiler intrinsics'
ASSUME_VERUS = 'Verus 0.2026.09.13 with Z3, vstd and its contracts of the standard library'
ASSUME_SEQ = ('one thread at a time, as on wasm32-unknown-unknown: interference between the atomic steps of a function is '
              'not considered')
ASSUME_WAKER = 'futures::task::AtomicWaker (external): register keeps the last task, wake wakes it'
ASSUME_LOCK = 'std::sync::Mutex::lock on a free lock is try_lock (the harness fails where the lock is taken)'
ASSUME_C01 = 'Instant and Duration in the Verus units: nanoseconds with the contracts that C01 discharges'
ASSUME_64 = 'decided for 64-bit usize; the real target has 32-bit usize'

STD_UNIT = dict(name='std', files=['src/std.rs'])
PROPS = {
    'C01': dict(
        technique='Kani (CBMC): contract harnesses over full-domain symbolic inputs on the real functions, complete; Verus: the same '
                  'functions by contracts over those of Duration',
        level_note='All instants and durations, every function of the arithmetic: proved on the real crate (with its Duration), with no '
                   'bound, the panics too. Trusts Kani/CBMC and the stand-in of the host clock; what the clock reads is sampled only.',
        verus=[STD_UNIT],
        native=[dict(contract='C01', tu=False)],
        kani=[
            k('c_std::proofs::c01_checked', 'C01.checked',
              [STD + 'Instant::' + f for f in ('checked_add', 'checked_sub', 'checked_duration_since',
               'saturating_duration_since', 'duration_since', 'sub(Instant)', 'eq', 'cmp', 'partial_cmp')]),
            k('c_std::proofs::c01_ops', 'C01.ops',
              [STD + 'Instant::' + f for f in ('add', 'add_assign', 'sub', 'sub_assign')]),
            k('c_std::proofs::c01_add_panics', 'C01.overflow0', [STD + 'Instant::add'], True),
            k('c_std::proofs::c01_add_assign_panics', 'C01.overflow1', [STD + 'Instant::add_assign'], True),
            k('c_std::proofs::c01_sub_panics', 'C01.overflow2', [STD + 'Instant::sub'], True),
            k('c_std::proofs::c01_sub_assign_panics', 'C01.overflow3', [STD + 'Instant::sub_assign'], True),
        ],
        trusted=[ASSUME_KANI, ASSUME_VERUS, ASSUME_RUSTC, ASSUME_STUBS,
                 'Instant::now and elapsed read the host clock: checked by the bounded search only'],
    ),
}

BOUNDED = ('executable contract over sampled inputs and histories (bounded stand-in; deductive obligations to follow)')


def both(contract, **kw):
    return [dict(contract=contract, tu=False, **kw), dict(contract=contract, tu=True, **kw)]


def standin(native, secs=8):
    return dict(level='exploration', technique=BOUNDED,
                level_note='Bounded: the contract is run on sampled histories of the real crate; nothing is proved yet.',
                native=native, secs=secs, trusted=[ASSUME_RUSTC, ASSUME_STUBS])


TIMER = dict(hooks=['timer', 'state'], alt=[['timer']])
PARTS = ['arc', 'arcst', 'driver', 'interval', 'parts', 'timer']
HEAP_UNIT = dict(name='heap', files=['src/timer/heap.rs'])
TIMER_UNIT = dict(name='timer', files=['src/timer/mod.rs', 'src/tokio/sleep.rs', 'src/timer/heap.rs'])
TIMER_TRUST = [
    'ArcList is a stack of the nodes pushed and not yet taken, closed for good by take_and_seal (the contracts that C05 discharges)',
    'std::sync::Mutex of a thread by itself, atomics and AtomicWaker are cells (external); waking a task runs none of this code',
    'one driver; Weak::upgrade succeeds while the driver is there (external)',
    'fewer than 2^28 timers at a time',
]
DRIVER_UNIT = dict(name='driver', files=['src/timer/global.rs', 'src/timer/mod.rs', 'src/tokio/sleep.rs', 'src/timer/heap.rs'])
# The same contracts with the test clock compiled in.
DRIVER_TU_UNIT = dict(DRIVER_UNIT, name='driver_tu', contracts='driver', features=('tokio', 'tokio-util', 'tokio-test-util', 'serde'),
                      subst=[('spec fn tu() -> bool { false }', 'spec fn tu() -> bool { true }')])
HANDLE_UNIT = dict(name='handle', files=['src/timer/mod.rs'])
INTERVAL_UNIT = dict(name='interval', files=['src/tokio/interval.rs', 'src/timer/mod.rs', 'src/tokio/sleep.rs', 'src/timer/heap.rs'])
TIMEOUT_UNIT = dict(name='timeout', files=['src/tokio/error.rs', 'src/tokio/timeout.rs', 'src/timer/mod.rs', 'src/tokio/sleep.rs', 'src/timer/heap.rs'])
RELIED = [dict(TIMER_UNIT, relied=True), dict(HEAP_UNIT, relied=True)]
OPS = 'c_ops::proofs::'
SLEEP = 'src/tokio/sleep.rs: Sleep::'
SHAPES = ('open', 'queued', 'closed', 'gone')
STD_TRUST = [ASSUME_VERUS, ASSUME_RUSTC, ASSUME_STUBS,
             'std::time::Duration (external) is its nanoseconds; the contracts of its methods are assumed']
FLOATS = ('IEEE 754: sums, differences, products, comparisons and conversions of whole numbers within 53 bits, and 0.0, are exact; '
          'conversions to integers saturate')
PROPS['C02'] = dict(
    standin([dict(contract='C02', tu=False)]),
    level='proof',
    technique='Verus: contracts woven into all of src/std.rs, every obligation discharged, for all whole-millisecond times and all '
              'durations within 53 bits; executable contract over sampled inputs beside (bounded)',
    level_note='Every function and operator of SystemTime is proved against integer milliseconds, by the axioms of IEEE arithmetic on '
               'whole numbers; that nothing panics outside of that range is sampled.',
    verus=[STD_UNIT],
    trusted=STD_TRUST + [FLOATS, 'Date.now() is a whole number of milliseconds within 53 bits (ECMAScript)'])
PROPS['C03'] = dict(
    standin([dict(contract='C03', tu=False)]),
    level='proof',
    technique='Verus: contracts woven into the serialisation and deserialisation in src/std.rs, for any serialiser, deserialiser and '
              'document, every obligation discharged; executable contract over sampled documents beside (bounded)',
    level_note='What is written, and what is read from any document (fields in any number and order, named by text or bytes; '
               'sequences of any length), is proved, and from that the round trip and the refusals, and that nothing panics.',
    verus=[STD_UNIT],
    trusted=STD_TRUST + [FLOATS, 'serde (external): what its traits promise; a format gives a visitor what the document holds, and what '
                         'a visitor does not implement is refused', 'byte strings with the same bytes are the same text'])
PROPS['C04'] = dict(
    standin([dict(contract='C04.heap', tu=False, hooks=['heap']),
             dict(contract='C04.timer', tu=False, public='C06.public', **TIMER)]),
    level='proof',
    technique='Verus: contracts woven into the heap (all of src/timer/heap.rs) and into the driver and its sleeps over those, '
              'every obligation discharged; histories by executable contracts beside (bounded)',
    level_note='The heap is proved for all histories: a heap is a map from slots to elements, and every operation '
               'is its map operation. That the driver reports the earliest deadline of the sleeps that are armed is proved over that, '
               'for one thread and one driver.',
    verus=[HEAP_UNIT, TIMER_UNIT],
    trusted=[ASSUME_VERUS, ASSUME_RUSTC, ASSUME_STUBS] + TIMER_TRUST)
ARC = 'src/timer/arc_list.rs: '
PROPS['C05'] = dict(
    standin([dict(contract='C05.ops', tu=False, hooks=['arcst'], public='C06.public', secs=4),
             dict(contract='C05', tu=False, hooks=['arc'], public='C06.public')]),
    level='proof',
    technique='Verus: contracts woven into the list (src/timer/arc_list.rs), every obligation discharged, for lists of any length '
              'and any history; Kani (CBMC): the same operations on the real atomics and references, from any state; whole '
              'histories by executable contracts (bounded) beside',
    level_note='An invariant over all lists, records and the references that pointers own is kept by every operation: a record '
               'is in at most one list, once, and is flagged and held just then, so that it is neither lost, nor seen twice, nor '
               'leaked, nor freed early; dropping a list releases all its records. For one thread: concurrent interference is '
               'not covered.',
    verus=[dict(name='list', files=['src/timer/arc_list.rs'])],
    kani=[
        k(OPS + 'c05_push', 'C05.push', [ARC + 'ArcList::push'], hooks=['arc', 'arcst']),
        k(OPS + 'c05_take', 'C05.take', [ARC + 'ArcList::take', ARC + 'ArcList::take_and_seal'], hooks=['arc', 'arcst']),
        k(OPS + 'c05_pop', 'C05.pop', [ARC + 'ArcList::pop'], hooks=['arc', 'arcst']),
        k(OPS + 'c05_new', 'C05.new', [ARC + 'ArcList::new', ARC + 'Node::new', ARC + 'Node::sealed', ARC + 'Node::deref'],
          hooks=['arc', 'arcst']),
        k(OPS + 'c05_drop', 'C05.drop', [ARC + 'ArcList::drop'], hooks=['arc', 'arcst'], bounded='lists of up to two records'),
    ],
    trusted=[ASSUME_KANI, ASSUME_VERUS, ASSUME_RUSTC, ASSUME_STUBS, ASSUME_SEQ, ASSUME_64,
             'the address of a record is neither 0 nor 1; Arc::into_raw makes a pointer own a reference and Arc::from_raw gives it '
             'back; other references are released by the language'])
PROPS['C06'] = dict(
    standin([dict(contract='C06', tu=False, **TIMER)] + both('C06.public')),
    level='proof',
    technique='Verus: contracts woven into the driver and its sleeps (src/timer/mod.rs, src/tokio/sleep.rs) over those of the heap, '
              'every obligation discharged, for any number of sleeps and any history; histories by executable contracts beside (bounded)',
    level_note='An invariant over the driver, the list of updates and the cells it shares with the sleeps is kept by every '
               'operation, and under it a turn of the driver (poll, advance_to, next_event) completes and wakes exactly the '
               'sleeps that are due and reports the earliest deadline that is left; dropping the driver invalidates and wakes '
               'the pending ones. For one thread and one driver.',
    verus=[TIMER_UNIT, dict(HEAP_UNIT, relied=True)],
    trusted=[ASSUME_VERUS, ASSUME_RUSTC, ASSUME_STUBS, ASSUME_SEQ] + TIMER_TRUST)


def shapes(op, contract, functions, shapes=SHAPES, must_panic=False):
    return [k(OPS + 'shapes::%s::%s' % (s, op), '%s.%s' % (contract, s), functions, must_panic, hooks=PARTS) for s in shapes]


PROPS['C07'] = dict(
    standin([dict(contract='C07.ops', tu=False, hooks=PARTS, public='C07.public', secs=4), dict(contract='C07', tu=False, **TIMER)]
            + both('C07.public')),
    level='proof',
    technique='Kani (CBMC): contracts of making, re-arming, polling and dropping a sleep, from any state of the sleep and '
              'its driver, complete; Verus: the same functions and the driver, for any history; executable contracts over '
              'histories beside (bounded)',
    level_note='Each operation of Sleep is proved from any state (all values of the state word, any deadlines; driver there, '
               'closed or gone; the record queued or not), with ArcList::push known by its contract (C05): on the real crate '
               'by Kani, and by Verus together with the driver, where a turn of it completes the sleep just if its current '
               'deadline is reached.',
    verus=[TIMER_UNIT, dict(HEAP_UNIT, relied=True)],
    kani=shapes('c07_make', 'C07.make', [SLEEP + 'new_handle', SLEEP + 'deadline', SLEEP + 'is_elapsed'])
    + shapes('c07_reset', 'C07.reset', [SLEEP + 'reset', SLEEP + '_reset'])
    + shapes('c07_poll', 'C07.poll', [SLEEP + 'poll', SLEEP + 'is_elapsed'])
    + shapes('c07_drop', 'C07.drop', [SLEEP + 'drop'])
    + shapes('c07_poll_gone', 'C07.gone', [SLEEP + 'poll'], must_panic=True),
    trusted=[ASSUME_KANI, ASSUME_VERUS, ASSUME_RUSTC, ASSUME_STUBS, ASSUME_SEQ, ASSUME_WAKER, ASSUME_LOCK, ASSUME_64] + TIMER_TRUST)
INTERVAL = 'src/tokio/interval.rs: '
PROPS['C08'] = dict(
    standin([dict(contract=c, tu=False, hooks=PARTS, public='C08', secs=3) for c in ('C08.tick', 'C08.reset')]
            + both('C08') + [dict(contract='C08.next', tu=False, hooks=['interval'])]),
    level='proof',
    technique='Verus: contracts woven into all of src/tokio/interval.rs over those of the timer and its sleeps, every obligation '
              'discharged, for all times, periods and behaviours; Kani (CBMC): poll_tick and reset on the real crate from any '
              'state, complete; whole runs by executable contracts (bounded)',
    level_note='A tick, a reset and the schedule after a late tick (next_timeout) are proved from any state, and that the driver '
               'goes on knowing the sleep. The async fn tick (poll_fn over poll_tick) is run by the bounded search only.',
    verus=[INTERVAL_UNIT] + RELIED,
    kani=[k(OPS + 'shapes::c08_tick', 'C08.tick', [INTERVAL + 'Interval::poll_tick', INTERVAL + 'Interval::period',
            INTERVAL + 'Interval::missed_tick_behavior'], hooks=PARTS),
          k(OPS + 'shapes::c08_reset', 'C08.reset', [INTERVAL + 'Interval::reset', INTERVAL + 'Interval::set_missed_tick_behavior'],
            hooks=PARTS)],
    trusted=[ASSUME_KANI, ASSUME_VERUS, ASSUME_RUSTC, ASSUME_STUBS, ASSUME_SEQ, ASSUME_WAKER, ASSUME_LOCK, ASSUME_64, ASSUME_C01] + TIMER_TRUST)
TIMEOUT = 'src/tokio/timeout.rs: Timeout::'
PROPS['C09'] = dict(
    standin([dict(contract='C09.poll.' + c, tu=False, hooks=PARTS, public='C09', secs=2) for c in SHAPES] + both('C09')),
    level='proof',
    technique='Verus: contracts woven into all of src/tokio/timeout.rs and error.rs over those of the timer and its sleeps, for any inner future, '
              'every obligation discharged; Kani (CBMC): polling a timeout on the real crate from any state of its sleep, complete; '
              'whole runs by executable contracts (bounded)',
    level_note='Making a timeout and polling it are proved from any state, whatever the inner future does, with both tasks '
               'registered; its sleep completes as C07 says. Runs with the driver are also sampled.',
    verus=[TIMEOUT_UNIT] + RELIED,
    kani=shapes('c09_poll', 'C09.poll', [TIMEOUT + f for f in ('poll', 'get_ref', 'get_mut', 'into_inner')] + [SLEEP + 'poll']),
    trusted=[ASSUME_KANI, ASSUME_VERUS, ASSUME_RUSTC, ASSUME_STUBS, ASSUME_SEQ, ASSUME_WAKER, ASSUME_LOCK, ASSUME_64, ASSUME_C01,
             'the inner future leaves the sleep of its timeout alone'] + TIMER_TRUST)
CLOCK = 'src/timer/clock.rs: Clock::'
PROPS['C10'] = dict(
    standin([dict(contract='C10.ops', tu=True, hooks=['clock', 'clockst'], public='C10', secs=4),
             dict(contract='C10', tu=True, hooks=['clock'], public='C10')], 10),
    level='proof',
    technique='Verus: contracts woven into the test clock (src/timer/clock.rs) and the functions that control it (src/tokio/'
              'test_utils.rs), every obligation discharged, and a theorem over histories; Kani (CBMC): the operations of the clock '
              'on the real crate, from any state, complete; the public functions by executable contracts (bounded) beside',
    level_note='Through any history of pause, resume, advance and passing time the clock moves by the time that passed while '
               'it ran and by what was added, and misuse never returns. Every operation is proved from any state and whatever the '
               'real clock says; the driver is woken after each change, and has its turn then: the sleeps that are due by the '
               'clock complete, and no others.',
    verus=[dict(name='clock', files=['src/timer/clock.rs', 'src/tokio/test_utils.rs'],
                features=('tokio', 'tokio-util', 'tokio-test-util', 'serde')), DRIVER_TU_UNIT] + RELIED,
    kani=[k(OPS + 'c10_' + n, 'C10.' + c, [CLOCK + f for f in fs], hooks=['clock', 'clockst'], tu=True, must_panic=mp)
          for n, c, fs, mp in (
              ('read_paused', 'read1', ['now', 'paused'], False), ('read_running', 'read0', ['now', 'paused'], False),
              ('pause', 'pause', ['pause'], False), ('resume', 'resume', ['resume'], False),
              ('advance', 'advance', ['advance'], False), ('pause_panics', 'misuse0', ['pause'], True),
              ('resume_panics', 'misuse1', ['resume'], True), ('advance_panics', 'misuse2', ['advance'], True))],
    trusted=[ASSUME_KANI, ASSUME_VERUS, ASSUME_RUSTC, ASSUME_STUBS, ASSUME_SEQ, 'Arc::into_raw and Arc::from_raw; what the clock says fits an Instant'])
PROPS['C11'] = dict(
    standin(both('C11'), 10),
    level='proof',
    technique='Verus: contracts woven into the driver of the host\'s callbacks (src/timer/global.rs) over those of the timer and '
              'its sleeps, every obligation discharged, for any history of sleeps and callbacks; histories by executable contracts '
              'beside, also with the test clock (bounded)',
    level_note='An invariant (the callback scheduled last is due at once, or no later than any deadline with its waker registered) '
               'is established by run and kept by every callback, whenever the host calls it, by time, and by making, re-arming, '
               'polling and dropping sleeps; no callback arms the next before the earliest deadline left. With the test clock, '
               'too: while it is paused the driver has its turn at once, and pausing, resuming and advancing keep the invariant. '
               'The default handle is that of the one driver that was started and stays, whoever else races for it. '
               'Otherwise for one thread and one driver.',
    verus=[DRIVER_UNIT, DRIVER_TU_UNIT, HANDLE_UNIT] + RELIED,
    trusted=[ASSUME_VERUS, ASSUME_RUSTC, ASSUME_STUBS, ASSUME_SEQ,
             'the host calls what setTimeout was given, once, no earlier than the milliseconds given; its clock stands still while the code runs',
             'AtomicWaker (external): wake wakes the task registered last, once; a woken driver task runs Waker::wake_by_ref',
             'the closure given to the host is its body as a function of what it captures',
             'Weak::into_raw and from_raw; the fallback of the default handle is a cell that others may fill but not change (external)'] + TIMER_TRUST)
WHEEL_FILES = ['src/tokio_util/wheel/mod.rs', 'src/tokio_util/wheel/level.rs', 'src/tokio_util/wheel/stack.rs']
WHEEL = dict(name='wheel', files=WHEEL_FILES)
PROPS['C13'] = dict(
    standin([dict(contract='C13', tu=False, hooks=['wheel']), dict(contract='C13.queue', tu=False)], 12),
    level='proof',
    technique='Verus: contracts woven into the wheel (all of src/tokio_util/wheel), every obligation discharged, for any times, '
              'any number of entries and any implementation of Stack; histories by executable contracts (bounded)',
    level_note='A wheel is a set of entries: insert, remove and poll are proved against it for all 64-bit times, with the '
               'place of every entry as the invariant and termination of every loop. usize of 32 or 64 bits.',
    verus=[WHEEL],
    trusted=[ASSUME_VERUS, ASSUME_RUSTC, ASSUME_STUBS,
             'Borrow::borrow is a function of the borrowed value', 'std contracts of rotate_right, div_ceil, pow, min'])
QUEUE = dict(name='queue', files=['src/tokio_util/delay_queue.rs', 'src/tokio_util/mod.rs'] + WHEEL_FILES)
QUEUE_TRUST = [
    ASSUME_VERUS, ASSUME_RUSTC, ASSUME_STUBS,
    'the contracts of Sleep, which C07 discharges, and of Instant and Duration, which C01 does',
    'Borrow::borrow is a function of the borrowed value', 'std contracts of rotate_right, div_ceil, pow, min, max, Option::copied',
    'slab::Slab and std HashMap are maps (external); Slab::insert takes a free place, Slab::compact reports each move and moves '
    'nothing else, HashMap::values_mut visits each value once',
    'Waker::will_wake is true only of wakers of one task (external)',
    'the clock is less than 2^63 seconds from its origin',
    'a drop runs when the owner of a value goes, and no code runs in it that touches the queue',
]
QUEUE_NOTE = ('Verus, on the queue as it is in the source, woven with contracts on each run: %s. Callers stay within the '
              'documented limits (deadlines less than 2^36 ms ahead, fewer than 2^30 - 1 entries). %s')


def queue(prop, what, beside, **kw):
    d = dict(
        standin(both(prop), 12),
        level='proof',
        technique='Verus: contracts woven into all of src/tokio_util/delay_queue.rs over those of the wheel, every obligation '
                  'discharged for any history, any values and any number of entries; histories by executable contracts beside (bounded)',
        level_note=QUEUE_NOTE % (what, beside),
        verus=[QUEUE, dict(WHEEL, relied=True)], trusted=list(QUEUE_TRUST))
    d.update(kw)
    return d


PROPS['C12'] = queue(
    'C12', 'whatever is yielded is due, deadlines are rounded up, and the delay that is waited for ends no later than any '
    'entry is due and is renewed until something is yielded',
    'That the clock driver ends the delay is C06 and C07. The rounding to milliseconds is proved twice (Kani on the real '
    'crate for all durations).',
    native=[dict(contract='C12.ms', tu=False, hooks=['ms'], public='C12', secs=2)] + both('C12'),
    kani=[k(OPS + 'c12_ms', 'C12.ms', ['src/tokio_util/mod.rs: ms'], hooks=['ms'])],
    trusted=[ASSUME_KANI] + QUEUE_TRUST)
PROPS['C14'] = queue(
    'C14', 'every operation leaves the value and the deadline of all other keys as they are, and every entry is in exactly '
    'one of the wheel and the list of due ones',
    'The order and the histories over time are bounded.')
PROPS['C15'] = queue(
    'C15', 'keys and entries correspond one to one, and every operation keeps that',
    'That a dead key panics and changes nothing is checked by the bounded search.')
PROPS['C16'] = queue(
    'C16', 'the length counts the entries, each operation changes it by one or not at all, and polling reports the end just if it is zero',
    'That values are dropped once is up to the language (the code has no unsafe part), and checked by the bounded search.')
PROPS['C17'] = queue(
    'C17', 'a task that waits is registered with a delay that ends no later than any entry is due, or it has been woken, after '
    'every operation',
    'That the end of the delay wakes the task is C07.')
