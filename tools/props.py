"""The properties (text) and, for claimed ones, the technique that decides them."""

def P(id, title, statement, over, text, why, files, mech, state=None, observe=None, technique=None, note=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = state
    if observe: a['observe_at'] = observe
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a}
    if technique:
        d['technique'] = technique
        d['level_note'] = note
    return d

PKT = 'netcode/detail/packetizer.hh'
DEC = 'netcode/detail/decoder.cc'
ENC = 'netcode/encoder.hh'

PROPS = [
P('C01', 'Parsing never leaves the packet',
  'Whatever bytes a received packet holds, and however short or corrupted it is, reading it never accesses memory outside the packet: every field, symbol or identifier list that would not fit is rejected with overflow_error or packet_type_error, '
  'the symbol handed to the coder lies inside the packet, and the number of consumed bytes reported is positive and not larger than the packet. No other exception leaves the entry points because of the contents of a packet.',
  ['inputs'], 'Every byte string of every length given to an encoder, a decoder or dispatch(), after every history.',
  'Tests read a few well-formed packets and a few truncations; the guarantee is about every length and every value of the length, count and type fields.',
  [PKT, 'netcode/decoder.hh', ENC, 'netcode/dispatch.hh', 'netcode/detail/packet_type.hh'],
  [('checked reads', 'netcode/detail/packetizer.hh: read<T>(), read_ids(), read_repair(), read_source(), read_ack()'), ('type byte', 'netcode/detail/packet_type.hh: get_packet_type()')],
  technique='abstract interpretation (linear inequalities over buffer offsets and lengths)',
  note='Every access to the storage of a packet on every path below the entry points is shown to lie inside the packet. Trusts the documented behaviour of std and boost containers.'),
P('C03', 'A packet reaches the reader of its kind, everything else is rejected',
  'Each kind of packet is written with its own type byte, and a received packet is read as exactly the kind its type byte says: an encoder accepts only acknowledgments, a decoder only repairs and sources, dispatch() sends each kind to the right side. '
  'An accepted source or repair is given to the coder exactly once. A packet of another kind, with an unknown type byte or without any byte is rejected with packet_type_error before anything is read from it.',
  ['inputs'], 'Every packet contents, including every one of the 256 type bytes and the empty packet, on every entry point.',
  'Tests send well-formed packets to the right end; the other type bytes and ends are not enumerated.',
  ['netcode/detail/packet_type.hh', 'netcode/decoder.hh', ENC, 'netcode/dispatch.hh', PKT],
  [('type byte', 'netcode/detail/packet_type.hh'), ('dispatch', 'netcode/dispatch.hh'), ('notify', 'netcode/decoder.hh, netcode/encoder.hh: notify_impl()')],
  technique='path-sensitive dispatch analysis (abstract interpretation)',
  note='All paths of the entry points are enumerated with the type byte symbolic; readers are taken as black boxes that may throw.'),
P('C04', 'What is written to the network is read back unchanged',
  'Reading a packet written by the library gives back exactly what was written: identifier, symbol size, every byte of the symbol, identifier list, encoded size or packet count, consuming the whole packet. '
  'Numbers are in network byte order, sources and repairs share the header type (1 byte), identifier (4 bytes), symbol size (2 bytes) followed by the symbol, and each packet is ended exactly once.',
  ['inputs', 'configurations'], 'Every source, repair and acknowledgment (sizes and counts up to what the 16-bit fields hold).',
  'Round trips in tests use small values, for which truncated, swapped or sign-extended fields look the same.',
  [PKT, 'netcode/detail/source.hh', 'netcode/detail/repair.hh', 'netcode/detail/ack.hh'],
  [('writers', 'netcode/detail/packetizer.hh: write_ack(), write_repair(), write_source()'), ('readers', 'netcode/detail/packetizer.hh: read_ack(), read_repair(), read_source()')],
  technique='symbolic layout comparison (abstract interpretation of writer then reader)',
  note='The pieces a writer hands to the packet handler become the contents of a packet that the reader is analysed on; every field read must be the very value written. Identifier lists are opaque here (see C05).'),
P('C05', 'Identifier lists survive their compression',
  'A list of source identifiers carried by a repair or an acknowledgment is encoded and decoded without loss: the list read is the list written, for the empty list, single elements, runs of any length and any mix of gaps (gaps up to 65535, up to 65535 identifiers).',
  ['inputs'], 'Every sorted list of distinct identifiers within the limits of the format.',
  'Run-length boundaries (255, 256, ...), the last element and changes of gap can be combined in more ways than tests sample.',
  [PKT], [('run-length encoding', 'netcode/detail/packetizer.hh: write(const source_id_list&)'), ('decoding', 'netcode/detail/packetizer.hh: read_ids()')],
  technique='loop-invariant analysis with a witness element (abstract interpretation)',
  note='An arbitrary position of the list is followed through the run-length encoder and decoder. Gaps above 65535 and more than 65535 runs are outside of the format.'),
P('C06', 'A rejected packet changes nothing',
  'A packet that is rejected (overflow_error or packet_type_error) leaves the encoder or decoder exactly as if it had never arrived, except for the counters of received packets: the window, the rate, the identifiers, the sources, repairs and missing sources are unchanged, nothing is sent, nothing is delivered.',
  ['inputs', 'histories'], 'Every packet that gets rejected, however far it could be read, in every state of the encoder or decoder.',
  'A malformed packet can be detected at many points; tests check that an exception is thrown, not that nothing happened before.',
  ['netcode/decoder.hh', ENC, 'netcode/dispatch.hh', PKT], [('notify', 'netcode/decoder.hh: operator()(packet&&), netcode/encoder.hh: notify_impl()'), ('readers', PKT)],
  technique='path-sensitive frame analysis (abstract interpretation)',
  note='State before and after every exceptional path is compared member by member. Counters of received packets and scratch buffers are exempt.'),
P('C13', 'A repair encodes the whole window, each source once',
  'A repair sent by an encoder is the linear combination of exactly the sources of its window at that time: it lists all of their identifiers and no other, each source is multiplied, over its whole length, by the coefficient of that repair and that source and added exactly once, the encoded size combines the sizes with the same coefficients, '
  'its symbol is as long as the longest source, and nothing of a former repair remains in it.',
  ['histories', 'inputs'], 'Every window: any number of sources with any mix of sizes, whatever repairs were computed before.',
  'Stale bytes, sources of growing or shrinking sizes and the reuse of buffers between repairs only corrupt particular mixes of sizes.',
  ['netcode/detail/encoder.cc', ENC, 'netcode/detail/repair.hh', 'netcode/detail/buffer.hh'], [('composition', 'netcode/detail/encoder.cc: operator()'), ('reuse of the repair', 'netcode/encoder.hh: generate_repair(), netcode/detail/repair.hh: reset()')],
  technique='abstract interpretation with a witness source (projection of linear combinations)',
  note='An arbitrary identifier is followed into the repair, with loops over the window summarised. Data of at most 65535 bytes. GF-complete is trusted.'),
P('C14', 'Coefficients are invertible elements of the field',
  'For every field size (4, 8, 16, 32) and every pair of a repair and a source identifier, the coefficient is a non-zero element of the field that depends on both identifiers and on nothing else, hence both ends compute the same one and it can be inverted. '
  'The operations of the field act on whole regions: multiply() replaces and multiply_add() adds to the destination, the product of two elements or of a size is zero only if a factor is, and no division by zero happens.',
  ['inputs', 'configurations'], 'Every repair identifier, every source identifier (all 2^64 pairs) and each field size.',
  'A coefficient that is zero or outside of the field occurs only for some pairs of identifiers, late in a transmission.',
  ['netcode/detail/galois_field.hh'], [('coefficients', 'netcode/detail/galois_field.hh: coefficient()'), ('operations', 'netcode/detail/galois_field.hh')],
  technique='interval and dependency analysis (abstract interpretation)',
  note='Ranges of the coefficient over all pairs of identifiers by interval arithmetic with wrap-around. GF-complete is trusted.'),
P('C15', 'The window of the encoder holds exactly the latest unacknowledged data',
  'The window of an encoder never holds more sources than its maximal size after a data has been given, even when that maximum has been reduced. Each data given enters the window once, unchanged, behind all older ones; a source leaves it only because it was acknowledged, or because the window was full and it was the oldest one. '
  'An acknowledgment removes exactly the sources of the window it lists, whatever else it lists. Nothing else changes the window.',
  ['histories', 'inputs'], 'Every window, every maximal size and every acknowledgment: duplicated, old, listing sources that already left or never existed.',
  'Tests use small windows and well-ordered acknowledgments; the guarantee is about every interleaving of data, evictions, changes of size and acknowledgments.',
  [ENC, 'netcode/detail/source_list.hh'], [('eviction', 'netcode/encoder.hh: commit_impl()'), ('acknowledgment', 'netcode/encoder.hh: notify_impl(), netcode/detail/source_list.hh: erase()')],
  technique='abstract interpretation with a witness source and container typestate',
  note='An arbitrary source of an arbitrary window is followed through each operation. Identifiers below 2^32 - 1 and positive sizes (documented preconditions).'),
P('C16', 'Packets are numbered without reuse',
  'Sources carry consecutive identifiers in the order in which data are given, starting anew with each encoder; repairs carry consecutive identifiers of their own. No identifier is used twice or skipped, also for non-systematic codes and forced repairs; acknowledgments and changes of parameters do not disturb the numbering, '
  'each repair is computed before it is sent, and the counters of sent packets count exactly the packets sent.',
  ['histories', 'configurations'], 'Every sequence of data, forced repairs, acknowledgments and changes of rate, code type or window size.',
  'Coefficients are derived from identifiers, so one reused identifier only shows as a decoding failure in particular loss patterns.',
  [ENC], [('numbering', 'netcode/encoder.hh: commit_impl(), mk_repair(), generate_repair()')],
  technique='abstract interpretation (symbolic counters over all paths)',
  note='Every path of every public operation of the encoder from an arbitrary state. Identifiers below 2^32 - 1.'),
P('C17', 'Repairs are sent at the configured rate',
  'With a systematic code each data is sent as exactly one source packet, followed by exactly one repair when its identifier plus one is a multiple of the rate; with a non-systematic code a repair takes the place of the source packet. A forced repair sends exactly one repair, and nothing when the window is empty.',
  ['configurations', 'histories'], 'Every identifier, every rate and both code types, including rates changed between two data.',
  'Tests use a few rates and short histories.',
  [ENC], [('schedule', 'netcode/encoder.hh: commit_impl(), generate_repair()')],
  technique='path-sensitive effect analysis (abstract interpretation)',
  note='The sequence of packets sent on every path of the operations is compared with the schedule, for symbolic identifiers and rates. Positive rate (documented precondition).'),
P('C18', 'The adaptive rate follows the losses',
  'When adaptation is enabled each acknowledgment sets the rate from the packets sent since the previous one and those it reports as received: between 1 and 50 sources for one repair, 50 when nothing was lost or nothing was sent, 1 when at least half of the packets were lost, about half of the inverse of the loss ratio in between. '
  'When it is disabled only set_rate() changes the rate. Every packet sent counts exactly once.',
  ['inputs', 'histories'], 'Every number of sent packets (up to 65535 between acknowledgments), every count in an acknowledgment, even larger than what was sent.',
  'Acknowledgments reporting zero packets, more packets than sent or following immediately another one are corner cases of a floating-point computation.',
  [ENC], [('adaptation', 'netcode/encoder.hh: notify_impl(), rate_for_loss()')],
  technique='interval analysis of the rate computation (abstract interpretation)',
  note='Intervals of floating-point values, over a partition of the loss ratio; arithmetic of IEEE 754 is trusted to be monotone.'),
P('C19', 'Acknowledgments tell exactly what was received, when they are due',
  'An acknowledgment lists exactly the identifiers of the sources the decoder holds at that time, and the number of packets received since the previous one; sending it restarts that count, and every accepted packet counts exactly once. '
  'When a source is delivered its whole symbol is handed to the user exactly once, then one acknowledgment is sent if at least ack_nb_packets() packets were received since the previous one, or if a nonzero period has elapsed since the last automatic one, and none otherwise. '
  'generate_ack() always sends exactly one. The threshold is the one set, limited to 128, and the counters of received packets and sent acknowledgments count exactly that.',
  ['histories', 'schedules', 'configurations'], 'Every set of sources held, every count of packets, threshold, period and time of delivery.',
  'Tests count a few packets around one threshold; what remains from the previous acknowledgment, elapsed periods and the exact list depend on history and time.',
  ['netcode/decoder.hh', 'netcode/detail/ack.hh'], [('acknowledgment', 'netcode/decoder.hh: generate_ack(), maybe_ack()'), ('delivery', 'netcode/decoder.hh: handle_source()'), ('reset', 'netcode/detail/ack.hh')],
  technique='abstract interpretation with a witness identifier and symbolic time',
  note='Every path from an arbitrary decoder; fewer than 65536 packets between two acknowledgments. Readings of the clock are arbitrary.'),
P('C20', 'The C interface is the C++ interface, with failures as error codes',
  'Each function of the C interface performs exactly the operation of the C++ interface it is named after, once, on the object and with the values it is given, changes nothing else, and returns its result. '
  'No exception leaves it: a failure is always reported by the error code of its kind (no_memory, packet_type_error, overflow_error, or unknown_error with a null or null-terminated message), and ntc_no_error is reported if and only if the operation succeeded, '
  'even if the error structure already holds a previous failure. Constructors return null if they fail. Buffers and sizes of data and packets are those of their contents, and the callbacks of a handler are called with its context and with exactly what the library emits.',
  ['inputs', 'fault_sequences', 'configurations'], 'Every argument of every function, and every exception the operation behind it may throw, whatever the error structure holds before.',
  'Tests call a few C functions with valid arguments; failures of each kind behind each function, and reused error structures, are not exercised.',
  ['netcode/c'], [('exceptions to error codes', 'netcode/c/detail/check_error.hh'), ('wrapped callbacks', 'netcode/c/detail/handlers.hh'), ('functions', 'netcode/c/encoder.cc, netcode/c/decoder.cc, netcode/c/data.cc, netcode/c/packet.cc')],
  technique='path enumeration by abstract interpretation with black-box operations',
  note='Every path of every function of the C interface, for every outcome of the operation behind it. Operations that have no way to report an error are trusted not to fail (C21 decides that); handlers given in C do not throw.'),
P('C21', 'No exception can reach a function that promises not to throw',
  'No operation declared as non-throwing can ever let an exception out, whatever fails inside it: memory allocation, a rejected packet or a handler given by the user. '
  'Hence the library never terminates the process because an exception met such a promise.',
  ['fault_sequences', 'inputs'], 'Every non-throwing function of the library, every call path below it, every exception that an allocation, a rejected packet or a user handler can raise on it.',
  'Allocation failures and throwing user handlers inside each non-throwing function are not exercised by tests; the promise is about every call path.',
  ['netcode/packet.hh', 'netcode/encoder.hh', 'netcode/decoder.hh', DEC, 'netcode/detail', 'netcode/c'],
  [('exception specifications', 'declarations of the library'), ('catch-all of the C interface', 'netcode/c/detail/check_error.hh')],
  technique='interprocedural exception-effect analysis',
  note='Decides, for every function with a non-throwing specification, that no exception can leave its body: least fixpoint of exception effects over the resolved call graph. '
       'Trusts a table saying which standard, boost and GF-complete operations may throw, and that C callbacks do not throw.'),
P('C22', 'A packet is exactly the bytes put in it',
  'size(), empty(), data(), iterators and indexing of a packet all tell about the same bytes: those given by its constructor or the last assignment, extended and truncated by resize(), push_back() and clear(), in the same order and with the same values. Reserving or releasing capacity never changes them. '
  'The symbol of a source or repair packet starts right after the seven bytes of its header and is aligned on 16 bytes. A packet whose contents were taken by an encoder or a decoder is usable again after resize(), assign() or clear().',
  ['inputs', 'histories'], 'Every packet, every operation with every argument, every byte of the result.',
  'Tests look at small packets after one or two operations; the offset between storage and contents must be accounted for by every operation for every size.',
  ['netcode/packet.hh', 'netcode/detail/buffer.hh', 'netcode/detail/symbol_alignment.hh'], [('storage shifted by the padding of the header', 'netcode/packet.hh: packet::shift, packet::alignment'), ('aligned storage', 'netcode/detail/buffer.hh')],
  technique='abstract interpretation with a witness byte',
  note='Every function of the packet from an arbitrary packet of less than 2^30 bytes. Trusts std::vector, and the aligned allocator of boost.'),
P('C23', 'Encoders and decoders share no state',
  'Operations on one encoder or decoder never influence the behaviour of any other one: instances share no mutable state, so that any number of them, with any parameters, can be used in the same process and in different threads without synchronisation.',
  ['schedules', 'programs'], 'Every pair of instances, every interleaving of their operations, including from several threads.',
  'Tests use one or two instances with identical parameters, in one thread; hidden sharing shows only for particular interleavings or parameter mixes.',
  ['netcode'], [('data members', 'classes of netcode/ and netcode/detail/'), ('variables with static storage', 'netcode/detail/packetizer.hh')],
  technique='enumeration of static and thread storage with immutability analysis',
  note='Every variable with static or thread storage must be immutable and initialised independently of any instance or argument, and no data member may share ownership. Trusts that GF-complete keeps no shared mutable state beyond its own initialisation.'),
P('C24', 'Coding is deterministic',
  'The packets an encoder emits and the data a decoder delivers are functions of the sequence of operations applied to it and of its parameters only: neither randomness, time, environment, memory addresses nor hash order influence them. '
  'Time may only influence when acknowledgments are sent.',
  ['histories', 'configurations'], 'Every sequence of operations, every run, every memory layout and every time at which it happens.',
  'Two test runs in the same environment hardly ever reveal a dependency on time, addresses or randomness.',
  ['netcode'], [('coefficient generation', 'netcode/detail/galois_field.hh'), ('ordered containers', 'netcode/detail/decoder.hh'), ('acknowledgment timing', 'netcode/decoder.hh')],
  technique='effect analysis for nondeterministic sources',
  note='No call site reads a nondeterministic source, no container is ordered by address or hash, and values derived from the clock keep a time type and only control acknowledgments. Trusts that user handlers and GF-complete are deterministic.'),
]

NA = {
}
