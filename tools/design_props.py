"""One paragraph per property for DESIGN.md."""
P = {}
P['C01'] = '''`EventQueue.pop/push` are proved over an abstract heap of *any* size (arrays live/time/task by identifier,
the heap's documented contract, representation invariant: pending entries are in the heap, identifiers below the counter, entries left behind are
cleared); the dead-entry loop of `pop` has a loop contract. `Kernel.build_runner` is proved over a queue under that contract with arbitrary handlers that
schedule, call, cancel and stop through the API: each event run is the least pending one, the clock equals its time. Small symbolic programs,
random programs and long histories (up to 77000 events, mass cancellations) against a reference scheduler run natively.'''
P['C02'] = '''Same abstraction: frame conditions "every other identifier stays as it was" on push, pop, cancel, clear; identifiers strictly below
the counter before, above after; cancel returns 1 exactly for a live identifier; the run loop hands every popped event to its handler exactly once. Natively also histories of up to 77000 events, so that identifiers pass 2^16.'''
P['C03'] = '''`Kernel.schedule/call` and the `Simulator` proxies with symbolic time, delay, handler shape and argument shape: exactly one
push at now + delay, or the documented exception and no push. Fully proved.'''
P['C04'] = '''The run loop with every combination of limits (each limit symbolic or absent), real time as an arbitrary nondecreasing clock, arbitrary
handlers: which conditions allow an event to start, and what `ExecutionStats` reports on every exit path. `build_simulation` and
`run_simulation` are proved on top.'''
P['C05'] = '''File names over opaque strings (any name, separator, identifier), record tags with symbolic clock and run id, handlers and levels
for every configuration; real files and the real console (plain, coloured) natively.'''
P['C06'] = '''Every encoder with all fields symbolic (finite enums enumerated), given or left out under shipped and changed defaults,
against the Gen2 layout written out bit by bit; EBV for pointers below 2^28 (5 groups at most, so unrolled completely).'''
P['C07'] = '''Durations as exact rational functions of symbolic Tari/RTcal/TRcal/DR/delimiter and of the symbolic bits; all helpers, given and left-out
settings. Bit strings of any length: `any_frame` takes a sequence with symbolically many zeros and ones in any order (additive rule); strings up to 24
bits are symbolic per bit as well.'''
P['C08'] = '''The Gen2 table (thresholds, tolerances) is restated in the spec; T1–T7 min/max by index, list and name with symbolic RTcal, TRcal.'''
P['C09'] = '''One `set_power` step from an arbitrary tag state (symbolic power, sensitivity, times, flags, persistence), plus histories
through the public interface only (setup, on, off, on) so that renaming a private field does not disturb the check.'''
P['C10'] = '''One command from an arbitrary tag state satisfying the stated invariant, for every command, session, flag, SL, Q and draw; the invariant is
re-proved after every command. Histories against a reference tag through the public interface, and crowds of up to 250 tags hearing one command, natively.'''
P['C11'] = '''As C10 for ACK, ReqRN, Read with symbolic RN16/handle (natively also numbers wrong in a single bit) and opaque memory of any length; several Reads in a row with
other counts, banks, contents or handles in between.'''
P['C12'] = '''Every reader state entered with symbolic settings: command fields, preamble, waiting time; every reply type in every state;
timeouts; switching on and off; settings changed while the reader works are in force from its next command on.'''
P['C13'] = '''Slots: for each Q in 0..15 the number of slots played is symbolic (0..2^Q-1), and the announcing loop runs under a loop contract with
ghost counters of announcements and Queries per round; the alternating target with a symbolic count of Queries since the last change. All 16 Q slot by slot and 3000 rounds on end natively.'''
P['C14'] = '''The three outcome handlers with symbolic Q, floating Q that rounds to it, and step; frame, updn, waiting time.'''
P['C15'] = '''The transaction constructor with symbolic settings, start time and BLFs of a *sequence of replies of unknown length* (maximum by witness and
bound) as well as 0–3 concrete replies with real frames; delivery as "one uniform draw, delivered iff draw <= (1-BER)^bits". The share of delivered replies is
additionally measured natively.'''
P['C16'] = '''Event handlers on a kernel stand-in that obeys the kernel contract: one transaction pending, at its end, started now; power cycling. `any_tags` does a
whole cycle (on, replies begin, completion, off) for any number of answering and silent tags in any order (kind-by-kind rule). Crowds of up to 300 tags, up to 17
antennas and whole runs on the real kernel monitored natively.'''
P['C17'] = '''`inc_hex_string` over digit strings of any length (carry loop contract), so the n-th identity differs from all earlier ones for any
number of tags; generation, departure, departure in the middle of a transaction from every reader state; the generation
limit and count are symbolic and unbounded.'''
P['C18'] = '''Counters and records per handler step; round counts for any number of tags that end up in any state (kind-by-kind rule); the reported figures over histories of any length with any number of read records each (generic-element rule).'''
P['C19'] = '''One update from any state re-establishes pos = pos0 + v·dir·(t - entry), for one tag and for a sequence of tags of any length; power estimated
at the old position; reschedule.'''
P['C20'] = '''Formulas with symbolic powers, gains, geometry (dot products, norms, complex amplitudes as exact terms; transcendental functions
uninterpreted with their bounds); the Rayleigh formula against numerical integration of the AWGN one natively; the whole chain natively against
an independent computation, before and after one thing (frequency, an antenna, the wall, a speed, the time, …) has changed. `reflection` is passed the cosine of the
angle to the wall normal, exactly as the callers compute it (current behaviour, pinned).'''
P['C21'] = '''Every setting and override is an opaque atom or symbolic number, so identity of the value that arrives proves it for all values;
derived values (RTcal, TRcal, TID length, floating Q) as equations.'''
P['C22'] = '''Word counts, Tari, BER symbolic. The `any_*` cases prove the message table, success probabilities and stage times for any number of
chunks and any series of BER points (pointwise rule); the same clauses also run at small counts, where counterexamples can be replayed.
Durations are compared with C06/C07-style reference formulas written in the spec.'''
P['C23'] = '''The one-attempt contract starts in every stage with arbitrary counters, and proves time, next stage, count and limit, and that the
stage alone determines the model state (so the step contract composes to histories of any length); `any_chunks` does so for any
number of chunk stages.'''
P['C24'] = '''Transition matrices for any number of stages and points (pointwise rule; running sums by induction over the columns), expected
absorption times for any number of chunks and points; the Monte-Carlo loops over any number of trials and draws per trial under loop contracts,
with the search for the next stage in a row of any length under the first-match rule (`any_steps`). Agreement of both models natively.'''
P['C25'] = '''One ping from an arbitrary history state; pongs; the reports over sequences of any length; whole runs natively.'''
P['C26'] = '''The dispatch functions over any number of values (Values/Rows sequences): every value once, ascending, results paired; command lines
through click, serial and with worker processes, natively.'''
P['C27'] = '''`slot_duration` and its minimum and maximum forms as exact functions of symbolic legal Tari, RTcal, TRcal, delimiter, composed in the spec from the closed
forms of C07 (frames) and C08 (windows); the contract of `get_frt` (proved in C08) stands for its body. Frame numbers from a covering list in the proof, all
natively. The timing table with every setting given or left out; minimum <= slot <= maximum proved on the real functions.'''
P['C28'] = '''The event handlers run from an arbitrary state over a medium that answers anything; every record is compared with the answers given at that moment and
place. Native: several tags, sequences of updates, and whole runs whose records are recomputed from the real medium after every event.'''
P['C29'] = '''The processing functions run with arbitrary result values (up to 3 runs in the proof) over stand-ins for tabulate, json, files and matplotlib that
remember what they are given; table rows are found by the names in their heads. Native: real tables parsed from the terminal output, real files and figures in a scratch folder, up to 7 runs.'''
