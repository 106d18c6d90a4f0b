#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of every property lives here)."""
import json, os
S = 'pysim/sim/simulator.py'; L = 'pysim/sim/logger.py'
E = 'pysim/models/rfid/epcstd.py'; O = 'pysim/models/rfid/objects.py'
H = 'pysim/models/rfid/handlers.py'; CH = 'pysim/models/rfid/channel.py'
CF = 'pysim/models/rfid/configurator.py'; RC = 'pysim/models/rfid/cli.py'
P = 'pysim/models/pingpong/'; T = 'pysim/models/tag_time/'
props = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    props.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

prop('C01', 'Events run in time order, first-scheduled first, on a truthful clock',
 'Whatever the handlers schedule or cancel while running, the simulator executes pending events in nondecreasing scheduled time, and events scheduled for the same instant in the order they were scheduled. While an event runs, the model clock shows exactly the time that event was scheduled for, so the clock never moves backwards. Taking the next event out of the event queue always yields the live entry with the smallest (time, scheduling order), with cancelled entries skipped and every other entry left in place.',
 ['programs', 'histories'], 'every sequence of schedule/call/cancel/stop operations issued by arbitrary handlers, any delays >= 0, any queue contents',
 'tests run one echo model with one or two events pending and a few hand-written pushes; no test mixes ties, cancellations and nested scheduling.',
 [S], [('EventQueue.push', S), ('EventQueue.pop', S), ('Kernel.build_runner', S), ('Kernel.get_model_time', S)],
 ['order of handler calls', 'Simulator.time inside handlers', 'EventQueue.pop'],
 [('event list', 'binary heap of [time, id, task]', S), ('event dict', 'id -> live entry', S)])
prop('C02', 'Every event is delivered exactly once unless cancelled',
 'Every scheduled event gets an identifier never given to another event of that simulation, and is delivered exactly once unless it is cancelled, the queue is cleared or the run ends first; a cancelled event is never delivered and cancelling touches no other event. Cancelling reports 1 when the event was still pending and 0 when it is unknown, already delivered, already cancelled or no identifier at all. The queue length is always the number of pending events, it is empty exactly when that number is 0, and popping an empty queue raises KeyError.',
 ['programs', 'histories'], 'every history of push, pop, cancel, clear and len, including repeated and foreign identifiers',
 'the tests cancel at most three events of a five-element queue and never combine cancel with pop, clear or re-push.',
 [S], [('EventQueue.push', S), ('EventQueue.pop', S), ('EventQueue.cancel', S), ('EventQueue.clear', S), ('EventQueue.empty', S), ('Kernel.cancel', S)],
 ['set of handlers called', 'return value of cancel', 'len(queue)'])
prop('C03', 'A schedule request lands at now + delay, or is refused without effect',
 'Scheduling with a delay of at least 0 makes one event pending at exactly the current model time plus the delay, carrying the given handler and arguments, and the immediate-call form is the same with delay 0. A negative delay raises SchedulingInPastError, a missing handler raises ValueError, and a non-callable handler or non-iterable arguments raises TypeError, in each case with nothing scheduled. A delay of None schedules nothing and returns None.',
 ['inputs', 'programs'], 'every delay (including negative and None), handler, argument list and current time, through both the simulator proxy and the kernel',
 'no test schedules in the past, passes a bad handler or checks where an event lands; the documented exceptions are never exercised.',
 [S], [('Kernel.schedule', S), ('Simulator.schedule', S), ('Simulator.call', S)],
 ['exceptions from schedule/call', 'time at which the handler runs'])
prop('C04', 'A run stops for the documented reasons and reports what really happened',
 'A run executes events until the queue is empty, a handler asked to stop, or a configured limit is reached: no event starts once the model time has passed max_sim_time, real time has passed max_real_time, a stop was requested, or max_num_events events have been processed. The result gives the number of events executed, the model time of the last one, the last handler, the exit reason of the condition that ended the run (no more events, simulation time, real time, event count, stopped), the stop message if a handler stopped it, the context, and the finalizer result (None without finalizer); the finalizer runs exactly once, after the last event. Running a simulation that yields no result raises RuntimeError.',
 ['programs', 'configurations'], 'every model (initializer, handlers, finalizer), every combination of limits including none, and stop() from any handler or the initializer',
 'tests cover three fixed runs of one model; draining queues, event-count limits, combinations of limits and stop in the initializer are never run.',
 [S], [('Kernel.build_runner', S), ('Kernel.stop_conditions', S), ('Kernel.stop', S), ('build_simulation', S), ('run_simulation', S)],
 ['ExecutionStats', 'second and third element of the result'])
prop('C05', 'Model log records are tagged truthfully and go where the configuration says',
 'Every model log record carries the level, message and options it was logged with, the model name, the file and function it comes from, the model time at the moment of the call and the run identifier that was set for the logger, including 0. The log file name is the configured one, or that name with separator and run identifier inserted before a final ".log" extension (any case) and appended otherwise, using the configured separator. Setting the logger up again has no effect unless forced, and console and file handlers exist exactly when configured, with the level configured for each or else the common level, and a record reaches a handler exactly when it is at or above the level of that handler; console records are coloured by level, in the configured colours, exactly when that is configured.',
 ['configurations', 'inputs'], 'every logger configuration, file name, separator, run id and clock value',
 'no test touches the logger.',
 [L], [('ModelLogger.setup', L), ('ModelLogger.build_file_name', L), ('ModelLogger._get_extra', L)],
 ['handlers attached to the logger', 'log file names', 'simTime/runId of records'])
prop('C06', 'Reader commands encode to the exact Gen2 bit layout',
 'Query, QueryRep, QueryAdjust, ACK, ReqRN and Read encode to their EPC Gen2 bit strings: the command code followed by every field at its standard width and order, 22, 4, 9, 18, 40 and, for a word pointer below 128, 58 bits long, and the reported bit length is the length of that string. Numeric fields are encoded most significant bit first modulo their width, word pointers as extensible bit vectors of 7-bit groups whose leading bit is 1 on all groups but the last, and up/down values as 110, 000 or 011 with any other value refused. Fields left out take the system-wide default, and the default is used only when the field was left out.',
 ['inputs'], 'every combination of command fields, including zero and falsy ones, and every word pointer below 2**28',
 'no test touches the encoders; a field in the wrong place or width shows only for particular values.',
 [E], [('Query.encode', E), ('QueryRep.encode', E), ('QueryAdjust.encode', E), ('Ack.encode', E), ('ReqRN.encode', E), ('Read.encode', E), ('encode_int', E), ('encode_ebv', E), ('encode_updn', E)],
 ['Command.encode()', 'Command.bitlen'])
prop('C07', 'Air time of every frame follows from its bits and link settings',
 'A reader frame lasts its preamble (delimiter + Tari + RTcal, plus TRcal for Query) plus Tari per 0 bit and RTcal - Tari per 1 bit of the command. A tag frame lasts (preamble bits + reply bits + 1) * symbols-per-bit / BLF with BLF = DR / TRcal, where the preamble has 6 or 18 bits for FM0 and 10 or 22 for Miller (plain or extended) and replies have 16, 32 + EPC bits, 32 and 33 + data bits for RN16, EPC, handle and data. The duration helpers of the library for commands, replies and preambles return the duration of the corresponding frame for the same settings, with left-out settings replaced by the system defaults.',
 ['inputs', 'configurations'], 'every command and reply, every encoding, TRext, DR and positive Tari, RTcal, TRcal, delimiter',
 'no test touches durations; wrong terms show only for particular encodings or left-out arguments.',
 [E], [('ReaderFrame.duration', E), ('TagFrame.get_duration', E), ('reader_frame_duration', E), ('command_duration', E), ('reply_duration', E), ('get_blf', E), ('tag_preamble_duration', E)],
 ['*_duration helpers', 'frame durations'])
prop('C08', 'Link timing windows match the Gen2 table',
 'For positive RTcal and TRcal the link timing helpers return the Gen2 values: T1 = max(RTcal, 10/BLF) * (1 -/+ FrT) -/+ 2 us, T2 between 3 and 20 periods 1/BLF, T3 min 0, T4 min 2*RTcal, T5 and T6 min as T1 min, T7 min max(T2 max, 250 us), with T5..T7 max 20 ms and T3, T4 unbounded above. FrT is the tolerance of the table row for the divide ratio, the temperature range and TRcal. Left-out arguments take the system defaults, an index outside 1..7 raises ValueError, and the forms without an index list all seven values in order.',
 ['inputs', 'configurations'], 'every timing index, divide ratio, temperature range and positive RTcal, TRcal, given or left out',
 'no test touches link timings.',
 [E], [('min_link_t', E), ('max_link_t', E), ('link_t', E), ('get_frt', E), ('get_pri', E)],
 ['link_t* helpers'])
prop('C09', 'A tag powers up and down at its sensitivity and keeps session flags as specified',
 'A tag that is off turns on (to READY) exactly when its received power exceeds its sensitivity, and a tag that is on turns off exactly when the power is absent or below the sensitivity; otherwise only the recorded power changes. At power-on S0 becomes A, and each of S1, S2, S3 keeps its stored flag when the tag was unpowered for no longer than that session\'s persistence time and becomes A otherwise, a flag never set counting as A. While off a tag has no power, no active session and answers no command.',
 ['inputs', 'histories'], 'every tag state, power, sensitivity, time of power loss and return, stored flags and persistence times',
 'no test touches tags.',
 [O, E], [('Tag.set_power', O), ('Tag._power_on', O), ('Tag._power_off', O), ('_Session.power_on_value', E)],
 ['Tag.state', 'Tag.s0..s3', 'Tag.power'])
prop('C10', 'Tags take part in inventory rounds as Gen2 prescribes',
 'On Query a powered tag first inverts the flag of its active session if it had been acknowledged, then joins only if the flag of the queried session equals the target and the SL flag matches, drawing a slot uniformly from 0..2^Q-1; otherwise it goes to READY and stays silent. QueryRep of its own session decrements the slot and QueryAdjust of its own session redraws it with Q raised or lowered by the command but never outside 0..15; a participating tag replies with a fresh 16-bit random number exactly when its slot is 0 (for QueryRep: becomes 0), and otherwise stays silent in ARBITRATE. An acknowledged or secured tag receiving QueryRep or QueryAdjust of its session inverts that session\'s flag, goes to READY and stays silent, commands of another session change nothing, and no command changes the flag of any other session.',
 ['inputs', 'histories'], 'every tag state, flags, slot counter, Q, random draw and inventory command',
 'no test touches tags; the rules depend on state, session and flag combinations.',
 [O], [('Tag.process_query', O), ('Tag.process_query_rep', O), ('Tag.process_query_adjust', O), ('Tag.receive', O)],
 ['frame returned by Tag.receive', 'Tag.state', 'session flags', 'slot counter'])
prop('C11', 'Tags answer access commands only with the right handle and data',
 'A tag answers ACK only in REPLY and only for the random number it sent, returning its EPC and becoming ACKNOWLEDGED; a wrong number sends it to ARBITRATE silently. It answers ReqRN only when acknowledged or secured and only for its current number, replying with a fresh handle and becoming SECURED, and answers Read only when secured and only for that handle, returning the first word_count words of the requested bank (all of it if shorter) and the handle. In every other case it is silent, and access commands never change session flags or the slot counter.',
 ['inputs', 'histories'], 'every tag state, random number, handle, EPC/TID content and word count',
 'no test touches tags.',
 [O], [('Tag.process_ack', O), ('Tag.process_reqrn', O), ('Tag.process_read', O), ('Tag.receive', O)],
 ['frame returned by Tag.receive', 'Tag.state'])
prop('C12', 'The reader follows the Gen2 command sequence',
 'A reader that received a tag\'s random number answers with ACK for that number; after the EPC it sends ReqRN with the same number when TID reading is on and otherwise starts the next slot; after the handle it sends Read of the TID bank from word 0 with the configured word count and that handle; after the data, or after waiting in vain in any state, it starts the next slot. Every command carries the reader\'s configured session, target, Q, divide ratio, encoding, TRext and Sel, Query with the full preamble and every other command with frame-sync only. The waiting time equals the duration of the command sent plus T1 max plus T3, replies that do not fit the state raise an error, and a reader that is off ignores replies.',
 ['inputs', 'histories'], 'every reader state, reply type, configuration and random number',
 'no test touches the reader.',
 [O], [('Reader.receive', O), ('Reader.timeout', O), ('_ReaderQUERY..._ReaderREAD enter/handle_*', O), ('Reader.set_state', O)],
 ['frame returned by Reader.receive/timeout', 'Reader.state'])
prop('C13', 'A round is 2^Q slots, begun by Query, and targets alternate on schedule',
 'Each inventory round numbered in sequence from 0 consists of exactly 2^Q slots, with Q as it was when the round began unless adjusted during it; slot 0 starts with Query and every further slot with QueryRep, and a new round begins only when the slots are used up or the reader was switched off. Every round and every slot is announced started once and finished once, in order and properly nested, including when the reader is switched off. With the alternating target strategy the reader issues rounds_per_target Queries with target A, then the same number with B, and so on, starting again with A when switched on; with the constant strategy the target never changes.',
 ['histories', 'configurations'], 'every Q, number of slots already played, target strategy, rounds per target and power-off moment',
 'no test touches rounds.',
 [O], [('_ReaderRound.next_slot', O), ('Reader.next_slot', O), ('Reader.stop_round', O), ('_ReaderQUERY.enter', O), ('_ReaderOFF.handle_turn_on', O)],
 ['round/slot listeners', 'sequence of commands and their target'])
prop('C14', 'Adaptive Q moves by at most one, within 0..15, in the right direction',
 'With adjustment on, a Query or QueryRep to which no reply was received lowers the floating Q by the configured step (not below 0) unless Q is already 0, and a collision raises it by the step (not above 15) unless Q is already 15; exactly when the rounded floating Q then differs from Q by one, the reader sends QueryAdjust with the up/down value of that difference and Q takes that value. Without adjustment, or after any other command, Q and floating Q are unchanged, and whenever no QueryAdjust is sent the reader goes on as after a plain timeout. Q always stays an integer within 0..15, and the waiting time after QueryAdjust is that of the command actually sent.',
 ['inputs', 'histories'], 'every Q, floating Q (also one set apart from Q), positive step, reader state and outcome of a slot',
 'no test touches Q adjustment.',
 [H, O], [('_no_tag_response', H), ('_multiple_tag_response', H), ('_ReaderAdjust.enter', O)],
 ['Reader.q', 'Reader.q_fp', 'command frame sent'])
prop('C15', 'A transaction lasts as Gen2 requires and delivers at most one clean reply',
 'A transaction starting at time t ends its command at t plus the command duration, its replies (if any) begin T1 min after that and last as long as the longest one; it finishes after the longer of command + T1 min + reply + T2 max and command + T4, or after the reader\'s waiting time if nobody replied. A reply is delivered only if exactly one tag answered, with probability (1 - BER)^bits for that reply\'s bit count, together with that tag, its frame and the SNR and BER at that moment. With no or several replies nothing is delivered.',
 ['inputs'], 'every command, set of replies, link setting, start time, BER and random draw',
 'no test touches transactions.',
 [O], [('Transaction.__init__', O), ('Transaction.received_tag_frame', O)],
 ['Transaction properties', 'received_tag_frame'])
prop('C16', 'The reader runs one transaction after another and cycles power on schedule',
 'While the reader is on there is exactly one transaction, its completion is pending at exactly its start plus its duration, and completing it starts the next one at that moment with the reader\'s next command. Switching the reader on powers it with the configured maximum and schedules the switch-off after the configured on time (never for always-on readers); switching off drops the transaction together with its pending events, removes power from reader and tags, and schedules the switch-on after the configured off time. Several antennas take turns, one switch interval each, from switch-on to switch-off, and nothing is ever scheduled in the past.',
 ['histories', 'schedules', 'configurations'], 'every interleaving of transactions, power cycling, tag arrivals and departures, and antenna switching',
 'no test runs the RFID model.',
 [H, O], [('turn_reader_on', H), ('turn_reader_off', H), ('finish_transaction', H), ('_build_transaction', H), ('switch_reader_antenna', H)],
 ['kernel.schedule/cancel calls', 'Model.transaction', 'Reader.power'])
prop('C17', 'Tags enter, live and leave as configured, each with its own identity',
 'A generator creates a tag at each generation interval until its limit is reached (no limit if negative); each tag starts at the generator\'s position with its motion, antenna and radio settings, a distinct identifier and EPC and TID of the configured lengths and prefixes that no other tag of that generator has (as long as those lengths leave room for it). A tag leaves exactly lifetime = distance / speed after it entered, and the run is stopped when the configured number of tags has left. A tag leaving in the middle of a transaction or slot never breaks the run, and what was read from it is kept.',
 ['histories', 'configurations'], 'every generator setting, number of tags, departure moment',
 'no test runs the RFID model; the crash needs a tag leaving while its reply is in the air.',
 [H, O], [('generate_tag', H), ('remove_tag', H), ('Generator.create_tag', O), ('inc_hex_string', O)],
 ['Model.tags', 'tag EPC/TID', 'scheduled departures'])
prop('C18', 'RFID statistics count what happened',
 'Each tag has one record from entry to departure, when it moves to the history; a tag\'s round count grows by one for each Query it takes part in, its adjustment count for each QueryAdjust it follows, each received EPC yields exactly one read record with round, antenna, positions, SNR and BER of that moment, and the record is marked as TID-read exactly when a Read reply for it arrived. The reported average rounds per tag, inventory probability and TID probability are the mean round count, the share of departed tags with at least one read record, and the share with at least one TID-read record. A run with no departed tag reports probability 0 instead of failing.',
 ['histories', 'inputs'], 'every set of tag records and every sequence of replies',
 'no test touches statistics.',
 [O, H], [('Statistics', O), ('_TagRecord', O), ('_one_tag_response', H), ('_build_transaction', H)],
 ['Statistics methods', 'tags_history'])
prop('C19', 'Tag motion does not depend on the update schedule',
 'At any update a tag\'s position is its initial position plus velocity times its unit direction times the time since it entered, however the updates were spaced; the update moves every tag once and no tag backwards in time. The power used at an update is the one received at the position before the move, and the next update is always scheduled one update interval later.',
 ['schedules', 'histories'], 'every sequence of update times, number of tags, velocity and direction vector',
 'no test runs the RFID model.',
 [H, O], [('_update_power', H), ('update_positions', H), ('Tag.normalized_direction', O)],
 ['Tag.pos', 'scheduled update_positions'])
prop('C20', 'Link budget, path loss, SNR and BER follow the stated formulas',
 'Received power at tag and reader is transmit power plus path loss (with polarization loss) plus both antenna gains and both cable losses, absent when the transmitter is off; SNR is 10^((power - noise)/10) raised by encoding, symbol length and bandwidth and by the synchronisation loss of the preamble actually used (0 for a negligible signal). BER is 0.5 for negligible SNR and otherwise the Rayleigh or AWGN formula, as the medium is configured, always within [0, 0.5]. Path loss is the two-ray formula of the geometry and reflection model; with the Doppler effect off it does not depend on time or velocity.',
 ['inputs', 'configurations'], 'every geometry, power, gain, encoding, distribution and reflection setting',
 'no test touches the channel.',
 [CH, O], [('Medium.estimate_tag_rx_power', O), ('Medium.estimate_reader_rx_power', O), ('Medium.estimate_reader_rx_snr', O), ('Medium.estimate_reader_rx_ber', O), ('two_ray_pathloss', CH), ('snr_full', CH), ('ber', CH)],
 ['Medium.estimate_*', 'channel functions'])
prop('C21', 'Every setting reaches the model object it configures',
 'A model built from settings and overrides has every reader, medium, generator, tag, statistics and power parameter equal to the override if given and otherwise the setting, with RTcal and TRcal derived from the Tari in force, TID length from the word count in force, and floating Q starting at Q unless set. TID reading is on exactly when enabled and at least one word is requested. Tags created by the model carry the session persistence times, gains, losses and memory sizes of the settings.',
 ['configurations'], 'every settings object and set of overrides',
 'no test builds an RFID model.',
 [CF, O], [('create_model', CF), ('Settings', CF), ('Generator.create_tag', O)],
 ['fields of the Model'])
prop('C22', 'Input preparation splits messages and computes times and success rates exactly',
 'Splitting a message of W words into n chunks gives n-1 chunks of W // n words and a last chunk with the rest, W words in all (one chunk of W for n = 1). The prepared message table has the duration and bit length of the corresponding command and reply frames for the given Tari, encoding, DR and TRext; stage times are T1 max + T2 max (for that DR) + command + reply + 2*delta, and success probabilities are (1 - BER)^bits of that stage\'s reply, one row per BER point, one column per stage.',
 ['inputs', 'configurations'], 'every word count, chunk count, Tari, encoding, DR, TRext and BER series',
 'no test touches input preparation.',
 [T + 'calculate_params.py'], [('calculate_chunks', T + 'calculate_params.py'), ('create_replies', T + 'calculate_params.py'), ('build_messages_df', T + 'calculate_params.py'), ('prepare_probs', T + 'calculate_params.py'), ('prepare_times', T + 'calculate_params.py')],
 ['returned dictionaries and lists'])
prop('C23', 'The staged reading model visits stages as the scenario prescribes',
 'After spending a stage\'s time, the model succeeds with that stage\'s probability and moves to the next stage (through all chunk stages in turn, in scenario 3), or fails and returns to the first stage in scenario 1 or stays in scenarios 2 and 3, paying the stage time again. Reaching the final stage counts one transmission and starts the next from the first stage at the same moment; the run stops once max_transmisions are counted. Total model time is the sum of the times of all stage attempts made.',
 ['histories', 'configurations'], 'every scenario, probabilities, times, chunk count, transmission limit and random draws',
 'the only test of this model imports a module that does not exist.',
 [T + 'model.py'], [('State.handle_timeout', T + 'model.py'), ('State.handle_receive', T + 'model.py'), ('State.success_state_change', T + 'model.py'), ('State.faild_state_change', T + 'model.py')],
 ['scheduled events', 'num_transmissions', 'sim_time'])
prop('C24', 'Matrix Monte-Carlo and analytic models describe the same stage process',
 'For each scenario the transition matrix, row by row cumulative, has probability p of advancing from a stage and 1 - p of returning to the start (scenario 1) or staying (2 and 3), with the final stage absorbing. Monte-Carlo adds the stay time of every visited stage until absorption and reports the mean in milliseconds over the trials. The analytic mean times are the exact expected absorption times of those processes, with the chunk stage counted chunk-count times in scenario 3, for any number of chunks, in milliseconds, in input order.',
 ['inputs', 'configurations'], 'every list of probabilities and times, chunk count, number of trials and random draws',
 'no test touches these modules.',
 [T + 'mc.py', T + 'analitical_model.py'], [('create_matrix_1', T + 'mc.py'), ('create_matrix_2', T + 'mc.py'), ('create_matrix_3', T + 'mc.py'), ('monte_carlo', T + 'mc.py'), ('calculate_first_case', T + 'analitical_model.py'), ('calculate_second_case', T + 'analitical_model.py'), ('calculate_third_case', T + 'analitical_model.py'), ('run_analitica', T + 'analitical_model.py')],
 ['matrices', 'reported means'])
prop('C25', 'Ping-pong packets are conserved and the report is truthful',
 'The client sends at most max_pings pings with consecutive numbers; each ping reaches the server one channel delay later, where it is lost with the configured probability or answered after the service delay with a pong of the same number, which reaches the client one channel delay later; after a loss or a pong the next ping is sent one interval later, and the run stops when the limit is reached. Pongs matching the current ping count as acknowledged, others as bad, and a timeout counts as missed exactly when the latest ping was not acknowledged. The report gives the mean interval, the mean channel delay and the share of pings without a pong as miss rate, also when every ping was lost.',
 ['histories', 'configurations'], 'every configuration, loss probability from 0 to 1 and sequence of random draws',
 'the only test file of this model is empty.',
 [P + 'model.py', P + 'handlers.py'], [('Client.handle_timeout', P + 'model.py'), ('Client.handle_receive', P + 'model.py'), ('Server.handle_receive', P + 'model.py'), ('Server.handle_service_end', P + 'model.py'), ('Channel.send', P + 'model.py'), ('finalize', P + 'handlers.py')],
 ['scheduled events', 'client counters', 'Result'])
prop('C26', 'Multi-value command lines run once per distinct value, in order',
 'When exactly one option of a model\'s command line is given several values, the model runs once for each distinct value in ascending order with every other option as given, and results come back in that order; with single values it runs once with exactly those values, and several multi-valued options are refused with ValueError. The staged model runs once per given probability/time pair in the order given, and refuses unknown scenarios, chunk counts below 1 in scenario 3 and lists of unequal length. Encoding names and numbers map to the matching encoding, and anything else is refused.',
 ['inputs', 'configurations'], 'every assignment of values to the options of the three model command lines',
 'no working test runs a command line.',
 [RC, P + 'cli.py', T + 'cli.py'], [('check_vars_for_multiprocessing', RC), ('prepare_multiple_simulation', RC), ('run_multiple_simulation', P + 'cli.py'), ('check_vars', T + 'cli.py'), ('parse_tag_encoding', RC)],
 ['arguments of each simulation', 'order of results', 'ValueError/AttributeError'])
prop('C27', 'Slot durations and the timing table add up the exchanges they stand for',
 'With legal link settings the slot duration estimate is the Query (first slot) or QueryRep followed, for an empty slot, by the longer of T1 max + T3 and T4, and otherwise by the longer of T1 min + RN16 + T2 min and T4; an inventory slot adds the Ack and the longer of T1 + EPC reply + T2 and T4, and an access slot adds the same for every read operation with its bank, pointer and word count and the data reply (any other operation raises ValueError). The minimum and maximum forms are that slot at FM0, plain preamble and the smallest fields, and at Miller-8, extended preamble and the largest fields, and every slot lasts between them. The timing table lists the settings in force, the air time of every command and reply, and the minimum and maximum of T1..T7, with left-out settings replaced by the system defaults.',
 ['inputs', 'configurations'], 'every slot type, list of read operations, legal Tari, RTcal, TRcal, delimiter, divide ratio, temperature range, encoding, and every field of the frames',
 'no test touches slot durations or the timing table.',
 [E], [('slot_duration', E), ('slot_duration_min', E), ('slot_duration_max', E), ('get_elementary_timings', E), ('link_t', E), ('get_frt', E)],
 ['slot_duration*', 'get_elementary_timings'])
prop('C28', 'Power statistics record what every tag and the reader saw at each update',
 'With power statistics on, every update appends exactly one record to each updated tag, whether caused by the update timer, the start of a reply, the reader switching on or off, or the tag entering (only that tag), and none when they are off. A record tells the time, the time since the reader was switched on (unbounded while off), the positions of the tag and of the antenna in use with its index, the powers received and sent by tag and reader (-120 dBm when absent), and the path losses, SNR and BER of that moment and place. A record never changes later, whatever moves, switches or leaves.',
 ['histories', 'configurations'], 'every state of reader and tags, every event that updates them, every answer of the radio channel, statistics on or off',
 'no test runs the RFID model with power statistics.',
 [O, H], [('_TagRecord.write_power_record', O), ('_TagPowerRecord', O), ('_update_power', H), ('generate_tag', H)],
 ['power_mapping of each tag record', 'Statistics.tags_history'])
prop('C29', 'Shown, saved and plotted results stand beside the values they belong to',
 'For several runs the results shown have one entry per distinct value of the varied option, in ascending order, each with the statistics of the run made with that value, and every other option is shown as given; the RFID plot draws the probability of reading over the same values, the staged model its mean times per transmission in the order of the pairs. For one run every result is shown beside its name. Asked for, one file is saved, wherever it runs, that lists the same parameters and results in the same order.',
 ['inputs', 'configurations'], 'every varied option, every list of values given for it, every result of the runs, saving and plotting on or off',
 'no test shows or saves results.',
 ['pysim/models/rfid/processing.py', 'pysim/models/pingpong/processing.py', 'pysim/models/tag_time/processing.py'],
 [('result_processing', 'pysim/models/rfid/processing.py'), ('print_the_mult_results_to_the_terminal', 'pysim/models/rfid/processing.py'), ('plot_results', 'pysim/models/rfid/processing.py'), ('result_processing', 'pysim/models/pingpong/processing.py'), ('result_processing', 'pysim/models/tag_time/processing.py')],
 ['printed tables', 'saved files', 'plotted curves'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in props:
        assert len(p['title']) <= 80, p['id']
        n = p['statement'].count('. ') + 1
        assert n <= 3, (p['id'], n)
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(props))
