#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the notes below"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'explicit-state model checking of the compiled code (breadth-first, snapshot and restore)'
TECH = {
    'C02': 'explicit-state exploration of every interleaving of instrumented memory accesses of the compiled code',
    'C07': 'explicit-state model checking with every injected read failure',
    'C08': 'explicit-state model checking with every crash point and torn write',
    'C09': 'explicit-state model checking with every injected device failure',
}
SWEEP = 'exhaustive enumeration of one- and two-call executions of the compiled code over stated input spaces, driven by the model checker'
for i in ('C14', 'C22', 'C26', 'C27'):
    TECH[i] = SWEEP
NOTE = {
    'C01': 'Every sequence of calls from every state, to fixpoint on small storages and to stated depths on larger ones, each compared with a reference queue; assumes element types are copied by value.',
    'C02': 'Every interleaving of the shared accesses of producer, consumer and an observer for endless call sequences (storages of 2 and 3 bytes, thorough 4) and bounded ones, under sequential consistency and for the three optimisation levels built; weak memory ordering is not modelled.',
    'C03': 'Every operation sequence to fixpoint, counters wrapped included, for small capacities and several element types.',
    'C04': 'Every operation sequence to fixpoint for small capacities and several element types.',
    'C05': 'Every sequence of insertions and removals to fixpoint over a few items, several lists and three layouts of the item.',
    'C06': 'Every history and every window on small logs to fixpoint, with storage refusals at every save.',
    'C07': 'Every history and window on small logs with every single read failing in turn.',
    'C08': 'Every history of writes, reboots and crashes at every device step with old, torn and new contents on small pages; the torn-block contract (an interrupted block keeps its old marker) is assumed.',
    'C09': 'Every history with every device operation failing in turn with several error codes, on small pages.',
    'C10': 'Every history of writes, reads and reboots on small pages with the device operations counted.',
    'C11': 'Every type, boundary value, limit, step and loop count within stated bounds; exact arithmetic in 128 bits as oracle.',
    'C12': 'Every list of parameters up to a length over boundary values of every type.',
    'C13': 'Every list up to a length over access levels and hooks.',
    'C14': 'All values of 8 and 16 bit types, boundary values of wider ones; the text printed is compared with the C library.',
    'C15': 'Every sequence of changes, processing and clearing with bounded time steps, for up to four watchers and several clock types.',
    'C16': 'Every sample sequence to fixpoint for one to three inputs, small debounce counts; all 32 inputs independence at boundary bits.',
    'C17': 'Every sample sequence up to bounds on small filters.',
    'C18': 'Every timed sequence of samples up to bounds, starting around the clock wrap.',
    'C19': 'Every timed sequence of samples of two and three keys up to bounds.',
    'C20': 'Every sequence of calls and time steps up to bounds, for every clock type, around the wrap.',
    'C21': 'Every sequence of calls, callbacks acting on their own timer included, up to bounds, for every clock type.',
    'C22': 'All pairs of instants and delays for 8 bit clocks, all pairs for 16 bit clocks (thorough), boundary values for wider ones.',
    'C23': 'Every sequence of inputs and settings up to bounds for several arithmetic types and history sizes; exact or double arithmetic as oracle.',
    'C24': 'Every combination of boundary entries at every instant that distinguishes them, against a second-by-second oracle.',
    'C25': 'Every sequence of table operations on small tables and boundary values of each field, against a reference table.',
    'C26': 'All values of 8 and 16 bit forms at every alignment, every pair of free bytes of wider ones, all 32 bit values (thorough).',
    'C27': 'The complete 16 bit transition function, every byte against all states with two free bytes of the 32 bit one (all 2^32 in thorough), every split of messages over an alphabet.',
    'C28': 'Every sequence of navigation calls to fixpoint over pages with and without each callback, four build variants.',
    'C29': 'Every sequence of events to fixpoint with every handler result, machines of 3 and 300 states.',
    'C30': 'Every sequence of operations over two variables to fixpoint, six value types.',
    'C31': 'Every sequence of making, applying and freeing updates up to bounds, over twenty fields and array forms.',
}
checks = []
for l in open(os.path.join(V, 'properties.jsonl')):
    i = json.loads(l)['id']
    checks.append(dict(property=i, quick_cmd='bin/check %s --tier quick' % i, thorough_cmd='bin/check %s --tier thorough' % i,
                       technique=TECH.get(i, T), level='model_checking', level_note=NOTE[i]))
json.dump(dict(version=1, setup_cmd='bin/setup', checks=checks, not_applicable=[],
               notes='No hooks in /repo: the checks compile its sources as they are. See DESIGN.md; repaired defects are listed in known-findings.txt.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks))
