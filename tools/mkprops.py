#!/usr/bin/env python3
"""writes properties.jsonl (kept as a script so that long texts stay readable)"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=' '.join(statement.split()), quantifier=dict(over=over, text=' '.join(text.split())),
             why_tests_cant=' '.join(why.split()),
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d['anchors']['observe_at'] = observe
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    d['anchors']['hook_needed'] = None
    P.append(d)

CB = 'gel/collections/circular_buffer.c'
p('C01', 'Circular buffer: exact bounded FIFO for every sequence of calls',
  '''A circular buffer built on storage for n elements behaves as a first-in first-out queue of capacity n-1: every put stores as
  much as fits and returns how much, every get, peek or drop delivers the oldest elements in order and returns how many, and a peek
  removes nothing. Size, empty, full and capacity always agree with the elements stored. No element is lost, duplicated, reordered
  or changed, and nothing outside the storage and the delivered part of the caller's memory is read or written.''',
  ['histories', 'inputs'], 'every sequence of put/get/peek/drop/reset calls with every length, at every read position, for every storage size and for element types of one or more bytes',
  'The 4 tests run one fixed sequence on one buffer size; wrap-around combined with every fill level and every bulk length is never reached.',
  [CB, 'gel/collections/circular_buffer.h'],
  [('chunked copy with wrap in bulk put and get', CB), ('index arithmetic modulo the storage size, one slot kept free', CB)],
  ['return values and delivered data of every call'])
p('C02', 'Circular buffer: one producer and one consumer need no lock',
  '''One thread may put while another gets, peeks or drops, without any lock: whatever the interleaving, the consumer sees exactly the
  accepted elements, in order, once each. A put accepts at least what fitted when it started and a get delivers at least what was
  stored when it started; the state queries are never contradicted by what the asking side can do next. Every call terminates whatever the
  other thread does.''',
  ['schedules', 'histories'], 'every interleaving of the memory accesses of one producer and one consumer (and a third thread that only asks for size, empty and full), for every pair of call sequences, read position and fill level',
  'Tests are single-threaded; an interleaving bug needs the other side to move between two particular accesses.',
  [CB, 'gel/collections/circular_buffer.h'],
  [('producer only writes the head after the data, consumer only writes the tail after reading', CB), ('the head and tail snapshots taken inside put and get', CB)],
  ['values delivered to the consumer, return values'])
p('C03', 'Macro queue: exact bounded FIFO, also after its counters wrap',
  '''A queue declared for n elements (n a power of two) accepts an element exactly when fewer than n are stored, hands elements back
  in order and unchanged, and refuses to dequeue or drop exactly when it is empty, leaving the output untouched. Its count, empty and full
  queries agree with the number of elements stored after any number of operations, however long the queue has been in use.''',
  ['histories'], 'every sequence of enqueue/dequeue/drop/query calls, of any length, for every capacity that is a power of two up to 32768 and several element types',
  'Tests do a handful of operations on one queue; the internal counters wrap only after 65536 enqueues.',
  ['gel/collections/queue.h'], [('free-running 16-bit indexes masked by the capacity', 'gel/collections/queue.h')], ['results of every call'])
p('C04', 'Macro stack: exact bounded LIFO with removal from the bottom',
  '''A stack declared for n elements accepts a push exactly when fewer than n are stored; pop and peek deliver the most recently pushed
  element still stored (peek keeps it, pop removes it) and fail exactly when the stack is empty, without touching the output. Removing from the
  bottom takes away the oldest element and keeps the others in order; empty and full agree with the number stored.''',
  ['histories'], 'every sequence of push/pop/peek/dequeue/query calls on every small capacity and several element types',
  'The stack has no test at all.', ['gel/collections/stack.h'], [('index of the next free element, shift on dequeue', 'gel/collections/stack.h')],
  ['results of every call'])
p('C05', 'Intrusive list: stays a consistent ring holding exactly the linked items',
  '''After any sequence of insertions at the head or tail and removals on any number of lists, each list holds exactly the items inserted
  and not removed, in the order their insertions imply, and walking it forward and backward visits the same items in opposite orders.
  The empty, last-item and neighbour queries and the item-from-link conversion agree with that content, and an operation on one list never disturbs another.''',
  ['histories'], 'every sequence of add, add-tail, delete and re-add on up to five items and two lists, with the link at different offsets inside the item',
  'No test exercises the list.', ['gel/collections/listx.h'], [('link splice and unlink', 'gel/collections/listx.h'), ('iteration macros', 'gel/collections/listx.h')],
  ['forward and backward walks'])
EL = 'gel/circular_event_log/circular_event_log.c'
p('C06', 'Event log: any window of the history is returned exactly, oldest first',
  '''The log keeps the most recent events up to its maximum; the total is the number saved, capped at the maximum. Asking for n events after
  skipping the j newest returns exactly the events of that window that exist, in chronological order, and their number. A save that the
  storage refuses is reported and leaves the log as it was; storage positions outside the log are never touched.''',
  ['histories', 'inputs', 'fault_sequences'], 'every history of successful and refused saves, every window size and offset including far too large ones, every log size',
  'Tests use one log size, a few windows and storage that never refuses.', [EL, 'gel/circular_event_log/circular_event_log.h'],
  [('start of the window and split at the end of the storage', EL), ('write position and full-circle flag advanced only after a successful save', EL)],
  ['storage callbacks, returned events and counts'])
p('C07', 'Event log: a storage read error is never passed off as success',
  '''If the storage reports an error (a negative result) for any part of the requested window, the load call reports that error and not a count of events.
  The log itself is not changed by a load, failed or not, so the same window can be read correctly once the storage works again.''',
  ['fault_sequences', 'histories'], 'every position of failing storage reads (first part, wrapped part, both) over every reachable log state and window',
  'No test makes the storage fail on load.', [EL], [('combination of the results of the two partial reads', EL)], ['return value of the load call'])
WL = 'gel/wearleveling/wearleveling.c'
p('C08', 'Wear leveling: the last completed write survives any crash and reboot',
  '''After any sequence of writes, power losses during a write (leaving the target block old, torn or fully written) and
  reinitialisations, reading returns the value of the last completed write, or of the interrupted one if its block was completely written.
  The value read does not change until the next write, and later writes and reboots keep working from there.''',
  ['crash_points', 'histories'], 'every history of writes (including unchanged values), reboots and crashes at every point of a block write, for every page size from 2 blocks, values of the same or of different lengths read in full or in part, through any number of trips around the page and around the 8-bit marker',
  'Tests use one page size, a handful of writes and two hand-made memory images; no crash, and the marker never wraps.',
  [WL, 'gel/wearleveling/wearleveling.h'], [('search for the last block whose successor does not carry the next marker', WL), ('marker incremented and next block used at each write', WL)],
  ['value read back after each step'])
p('C09', 'Wear leveling: a failing device operation is reported and loses nothing',
  '''If reading, writing or marker access of the device fails, the operation that needed it reports the device's error code. The previously stored
  value stays readable and stays the value found after a reboot, and the operation can be retried; initialisation on a failing device never makes a later
  access use a block outside the page.''',
  ['fault_sequences', 'histories'], 'every position of a failing device operation in every history of writes, reads and reinitialisations',
  'No test makes a device operation fail.', [WL], [('error returns of the device callbacks', WL), ('commit of the new position after the write', WL)], ['return values, value read back, block numbers passed to the device'])
p('C10', 'Wear leveling: writes rotate over all blocks, unchanged values are free',
  '''Every write that changes the value goes to exactly one block, the one after the previously written block, in cyclic order over the whole page, across reboots too, so that
  no block is written more than one time more than another on an initialised page. Writing the value already stored writes nothing,
  and reading never writes. Only blocks inside the page are accessed.''',
  ['histories'], 'every history of changing and unchanging writes, reads and reboots for every page size',
  'Tests check single steps on one page size.', [WL], [('next-block computation', WL), ('comparison with the stored value before writing', WL)], ['block numbers passed to the device'])
PA = 'gel/parameter/parameter.c'; PH = 'gel/parameter/parameter.h'
p('C11', 'Parameter stepping: stays in range and rolls over to the opposite limit',
  '''Stepping a parameter by k steps of its (positive) step size adds exactly k times the step if the exact result is inside the limits in force; otherwise the value becomes the
  minimum when stepping up and the maximum when stepping down, also when the exact result does not fit the type. Limits held by reference
  take precedence over the fixed ones and are read at each call, and nothing but the parameter's value changes.''',
  ['inputs', 'histories', 'configurations'], 'every in-range value, limits, step size and step count, of every parameter type, with fixed and referenced limits',
  'Tests step a few values far from the limits of the type.', [PA, PH], [('range check of the stepped value', PA)], ['value after the call'])
p('C12', 'Parameter validation: every value ends in range, and only bad ones reset',
  '''Validating a list of parameters resets exactly those whose value is outside the limits in force after its run-time hook has run (for floating point types, also not-a-number) to their default, and returns how many.
  Values in range are never altered. Resetting to defaults sets every parameter to its default, and the declaration macros preserve the type, limits, defaults and
  steps they are given, whatever expressions those are given as.''',
  ['inputs', 'configurations'], 'every combination of type, limits (fixed or referenced) and stored bit pattern, at every position of a list, with any access level',
  'Tests validate two parameters of one type.', [PA, PH], [('range check against fixed or referenced limits', PA), ('declaration macros', PH)], ['values and returned count'])
p('C13', 'Parameter access: the count and the enumeration by access level agree',
  '''For any access level, a parameter is accessible exactly when its own level is zero or shares a bit with the requested one: the count is the number of
  accessible parameters, the i-th accessible parameter in list order is returned for every i below it, and nothing is returned from there on.
  Run-time hooks are run on the parameter before its level is judged, so a hook that changes the level takes effect at once.''',
  ['inputs', 'configurations'], 'every assignment of access levels and run-time hooks to a short list, every requested level and index',
  'Tests use three parameters and two levels.', [PA], [('access test in the count and in the enumeration', PA)], ['count and handles returned'])
p('C14', 'Parameter values convert, copy and print exactly for every type',
  '''Reading a parameter of an integer type as a long, an index or a truth value gives its value exactly (for every value the result type can hold; an index is asked only of non-negative values, a truth value is whether the value is not zero).
  Cloning or copying a parameter reproduces the value bit for bit in the destination and writes nothing beyond its size, and copying between
  different types is refused without writing. Printing passes the exact value to the format, and the number of values of a range is its maximum minus its minimum plus one.''',
  ['inputs'], 'every value of the 8- and 16-bit types, boundary values of the wider ones, every type',
  'Tests convert one or two positive values.', [PA], [('type switch of each conversion', PA)], ['returned values, destination memory'])
WA = 'gel/data_structures/watcher.c'
p('C15', 'Watcher: every change fires its callback exactly once, at the right time',
  '''A watched location that differs from its last noticed content makes the next processing report a change: without delay its callback runs in that call; with a
  delay it runs in the first later processing that finds no further change and at least the delay elapsed since the last noticed change. Callbacks
  never run otherwise, receive the watched location and the user's argument, and watched locations do not influence each other. Clearing changes forgets changes, including noticed
  ones still waiting for their delay, and checking for changes alters nothing.''',
  ['histories', 'schedules', 'configurations'], 'every sequence of changes, processing, checks, clears and triggers at every timing, with delays and the clock wrapping, in the static, dynamic and reduced-memory configurations',
  'Tests check one change with and one without delay.', [WA, 'gel/data_structures/watcher.h'], [('comparison with the saved copy', WA), ('pending flag and timestamp of delayed entries', WA)], ['callbacks and return values'])
DB = 'gel/debounce/debounce.c'
p('C16', 'Debounce: an input changes only after the set number of consistent samples',
  '''The filtered value of each input changes exactly when the raw input has differed from it for d+1 consecutive samples since it last agreed or the filter was
  set (d being the debounce count; with d = 0 at the first sample), and then to the raw value. The result tells which inputs changed in that call, every input is
  filtered on its own, and after setting the value nothing of the earlier samples matters.''',
  ['histories', 'inputs'], 'every sequence of samples and sets, on every input line, for every debounce count in a range',
  'Tests feed a few patterns to a few lines.', [DB, 'gel/debounce/debounce.h'], [('per-input countdown', DB)], ['filtered value, returned change mask'])
PC = 'gel/debounce/pulsecounter.c'
p('C17', 'Pulse counter: counts exactly the debounced pulses of the chosen polarity',
  '''The level of each input changes exactly when the raw input has differed from it for d+1 consecutive samples, and the counter of that input goes up by one exactly at each
  falling change (high pulses) or rising change (low pulses), which is also when a change is reported. Counters start from zero at initialisation, whatever the memory
  held, are cleared individually and do not influence each other; queries outside the valid inputs are refused.''',
  ['histories', 'inputs'], 'every sequence of samples and clears on every input line, both polarities, every debounce count in a range and any initial memory content',
  'Tests feed one pattern.', [PC, 'gel/debounce/pulsecounter.h'], [('per-input countdown and edge test', PC)], ['count, level and reported change'])
KP = 'gel/keypad/keypad.c'
p('C18', 'Keypad: every key press yields one well-formed sequence of events',
  '''For any timing of a single key, the first sample of a press reports a press; while held, click, then long click, are reported once each at the first sample strictly later than
  their times after the press, pressing repeats after a click and long press repeats after a long click at the repeat period; after letting go a release is reported
  once (at once if no click was reached, otherwise when the click time has passed since letting go), and otherwise nothing is.
  After a reset no event comes from the past.''',
  ['histories', 'schedules', 'inputs'], 'every sequence of pressed/released samples with every time step up to a bound, any reset point, several click/long click/period settings with click not above long click, and the clock wrapping',
  'Tests follow two hand-written timelines.', [KP, 'gel/keypad/keypad.h'], [('event selection from last event and elapsed times', KP)], ['event and code returned by each sample'])
p('C19', 'Keypad: with several keys no press is lost, confused or invented',
  '''With several keys sharing a sampled code, each sample reports at most one event and always with the code of the key it belongs to; a key still down or awaiting its release is settled before
  another sampled key is served, and keys that are neither sampled nor pending report nothing. Each key's events are those of a single key that sees just the
  samples in which it is served; key state queries report a key sampled and served as down, and never a key that was not sampled.''',
  ['histories', 'schedules'], 'every sequence of samples (no key, any key, an unknown code) with every time step up to a bound, on tables of two and three keys',
  'Tests press one key at a time.', [KP], [('scan of the key table', KP)], ['event and code returned by each sample, key state query'])
SW = 'gel/timer/stopwatch.c'
p('C20', 'Stopwatch: reports exactly the time spent running, across clock wrap',
  '''The elapsed time is exactly the sum of the periods spent running since the last stop or restart (plus an explicitly set starting value), pauses excluded, and
  the remaining time is the total minus that, never below zero; a period counts as reached, while running or paused, exactly when nothing remains. Starting, stopping, pausing, setting and restarting
  succeed or are refused as documented for each state and refused calls change nothing; all of it also when the clock wraps around (for times below half the clock range).''',
  ['histories', 'inputs'], 'every sequence of calls in every state with every small time step, time steps up to half the clock range, and starting points around the wrap of the clock',
  'Tests follow one timeline that never wraps.', [SW, 'gel/timer/stopwatch.h', 'gel/timer/timecheck.h'], [('elapsed time accumulated at pause', SW), ('state machine of the stopwatch', SW)], ['return values and queries'])
GT = 'gel/timer/timer.c'
p('C21', 'Timer: callback once per period while running, and never otherwise',
  '''Managing a timer runs its callback exactly when the timer is running or paused and its period has passed in running time, and tells so; afterwards a one-shot timer is stopped and an
  automatically reloaded one starts a new period in the state it had. A paused timer that has not expired never fires and keeps its progress until resumed; stopping, also from inside the callback, prevents any further
  firing; reset and change of period restart the period without changing the state and do nothing on a stopped timer.''',
  ['histories', 'schedules'], 'every sequence of timer calls and management points (also from inside the callback) at every small timing, including the wrap of the clock',
  'Tests follow two timelines.', [GT, 'gel/timer/timer.h'], [('restart or stop after the callback', GT)], ['callback invocations and return values'])
TC = 'gel/timer/timecheck.h'
p('C22', 'Time comparisons are right across the wrap of the clock, for every clock type',
  '''For two instants less than half the clock range apart, after, after-or-equal and before give the true order, and the interval is the true distance whichever comes first.
  A delay below half the range is reported expired (loosely at, strictly after, its end) exactly from that moment on for half the range, also when the clock wraps in between, for every unsigned clock type.''',
  ['inputs', 'configurations'], 'every pair of instants and delay for an 8-bit clock; boundary values around the wrap and the half range for wider clocks',
  'The only test of this module is not built, and it uses the default clock type.', [TC], [('signed reading of the difference', TC)], ['results of the comparisons'])
PI = 'gel/pid/pid.c'
p('C23', 'PID: output is exactly the sum of its terms over the configured history',
  '''After any sequence of inputs, set-points and settings the proportional term is the gain times the current error, the integral term the gain times the sum of the last errors kept (at most the configured
  number; errors whose magnitude is not below the enabled threshold of their sign count as zero, and a null error leaves the value it would replace), and the derivative term the gain times the change of the error
  over the configured distance (or since the oldest available sample, zero before there is one or while the error exceeds the enabled threshold). The output is their sum, and automatic clearing empties the
  integral exactly when the error changes sign.''',
  ['histories', 'configurations'], 'every sequence of inputs, set-point changes and setting changes over small values, for several history lengths and derivative distances',
  'Tests use one configuration and a few inputs.', [PI, 'gel/pid/pid.h'], [('ring buffers of errors', PI), ('threshold and sign logic', PI)], ['the computed terms'])
SC = 'gel/scheduler/scheduler.c'
p('C24', 'Scheduler: at every instant the right entry is active, for the right time',
  '''An entry is active exactly when it is enabled, the day of the week is among its days and the time of day is inside its start (included) to end (excluded); an end beyond midnight stands for the same days from start to
  midnight and from midnight to the part beyond it. Among the active ones the entry with the shortest weekly time, then the highest value, then the lowest index, is chosen: its index, value and seconds until its end, and the
  map of active entries (of the first 16), are reported consistently with that. An entry lasts from its start to its end.''',
  ['inputs', 'configurations'], 'every combination of entries over boundary times, days, values and enabled flags, at every instant that can tell two of them apart',
  'The scheduler has no test and is not built by the suite.', [SC, 'gel/scheduler/scheduler.h'], [('activity test', SC), ('selection of the smallest weekly span', SC)], ['index, value, remaining time and map returned'])
p('C25', 'Scheduler: entries are kept, serialized and compared exactly',
  '''Entries set are returned unchanged, calls with an index outside the table are refused and change nothing, disabling an entry touches only its flag, and the next-enabled and first-free searches return the first matching index or none.
  Serializing an entry and reading it back gives the same entry for every value that fits its stored form, in exactly the documented number of bytes. An entry shares at least a day and an instant with
  exactly the enabled entries counted as overlapping (entries that merely touch or are empty may or may not count).''',
  ['histories', 'inputs'], 'every sequence of set, disable and search calls on small tables; boundary values of every entry field; every relative position of two intervals',
  'The scheduler has no test.', [SC], [('bounds checks', SC), ('field order of the serialized form', SC), ('interval inclusion test', SC)], ['returned entries, buffers, counts'])
SE = 'gel/serializer/serializer.h'
p('C26', 'Serializer: every value round-trips in the documented byte order',
  '''Serializing an integer writes exactly the number of bytes of its type, in the byte order of the function's name, and returns that number; deserializing
  them returns the same value for every signed and unsigned type, and packing and unpacking macros do the same with variables of any integer type. No byte beyond is touched or needed.''',
  ['inputs'], 'every value of 8- and 16-bit types, every byte pattern with up to two free bytes for the wider ones, every alignment',
  'Tests check one value per function.', [SE], [('shift and mask of each byte', SE)], ['bytes written, values read, returned sizes'])
p('C27', 'CRC: equals the mathematical definition for every message and every split',
  '''The 16-bit and 32-bit checksums equal the bit-by-bit polynomial division they are documented to compute (polynomials 0x1021 and 0x04C11DB7, most significant bit first, no final inversion), for every message and initial
  value. Computing a message in pieces, each started from the previous result, gives the same checksum as computing it at once, and exactly the bytes of the message are read.''',
  ['inputs'], 'every (state, next byte) pair of the 16-bit checksum, every byte against every single-bit and boundary state of the 32-bit one, every split of messages, every length up to past 65536',
  'The checksum modules have no test.', ['gel/crc/crc16-ccitt.c', 'gel/crc/crc32.c'], [('lookup tables', 'gel/crc/crc32.c'), ('per-byte step', 'gel/crc/crc16-ccitt.c')], ['returned checksums'])
PM = 'gel/pagemanager/page_manager.c'
p('C28', 'Page manager: every page is created, opened, closed, destroyed in proper pairs',
  '''Through any navigation (change, back, swap, rebase, reset to a page), each page instance is created once, then opened and closed in alternation, and destroyed once and only while closed, with its own data and argument; exactly the current page is open and gets the events and updates,
  and the pages returned to are the ones left, in order. Going back from the last page does nothing; rebase and reset destroy exactly the pages they leave behind; after a reset that
  finds no page the manager has no page, and the next page pushed, swapped or rebased becomes its first.''',
  ['histories', 'configurations'], 'every sequence of navigation calls up to a depth that fills the page stack, over pages with and without each callback, with assertions on or off and with or without the update callback',
  'The module is compiled out, so its tests cannot run.', [PM, 'gel/pagemanager/page_manager.h', 'gel/collections/stack.h'], [('callback order in each navigation call', PM), ('the page stack', 'gel/collections/stack.h')], ['callbacks of the pages'])
p('C29', 'State machine: events go to the current state, transitions exactly as returned',
  '''Sending an event runs exactly the handler of the current state, once, with the caller's model and event; a non-negative result becomes the new state and the call
  reports a transition, a negative one leaves the state as it was and reports none. This also holds for events a handler sends, to another machine or its own, while it runs.''',
  ['histories'], 'every sequence of events over every transition table of up to three states and two events, handlers returning every kind of result',
  'The module has no test.', ['gel/state_machine/state_machine.h'], [('dispatch and state update', 'gel/state_machine/state_machine.h')], ['handler calls, state, return value'])
p('C30', 'Maybe: nothing is never mistaken for a value, and values pass unchanged',
  '''A value wrapped is present and unwraps to itself, including zero; nothing is absent and unwraps to the default given. Mapping and binding apply the function once to a present value, and keep the result the
  function gives, and on nothing return nothing without calling it; the operand is not changed.''',
  ['inputs', 'programs'], 'every chain of operations up to a depth over small value domains and function tables, several value types',
  'Tests check single calls.', ['gel/data_structures/maybe.h'], [('presence flag', 'gel/data_structures/maybe.h')], ['results and function calls'])
p('C31', 'Struct update: applying writes exactly the recorded field, at any later time',
  '''An update records the value at the moment it is made: applying it, to any object of the type and any number of times, sets exactly the bytes of that field (or of the given number of array elements) to that value and
  changes nothing else, whatever happened to the source meanwhile. Updates are independent of each other, and freeing an update releases its memory exactly once.''',
  ['histories', 'inputs'], 'every sequence of making, applying and freeing updates of every field of a structure, with the source changing in between',
  'Tests apply two updates.', ['gel/data_structures/struct_update.c', 'gel/data_structures/struct_update.h'], [('private copy of the value', 'gel/data_structures/struct_update.c')], ['objects updated, live memory'])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
print(len(P))
