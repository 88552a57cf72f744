"""Property id -> check."""
import effect_checks as E
import wire_checks as W
import encoder_checks as N
import coding_checks as G
import ack_checks as A
import capi_checks as C
import packet_checks as K

CHECKS = {
    'C01': {'run': W.parsing, 'how': 'Abstract interpretation of every packet entry point on an arbitrary packet: every access to packet storage must be entailed to lie inside it, '
            'the exceptions that leave are the documented ones, and the reported byte count lies between 1 and the size of the packet.'},
    'C03': {'run': W.routing, 'how': 'Path enumeration of every packet entry point with a symbolic type byte: which reader and which coder entry each path reaches, against the type bytes of the writers.'},
    'C04': {'run': W.layout, 'how': 'The pieces written by each writer become the (piecewise) contents of a packet on which the matching reader is interpreted; every value and size read must be the one written.'},
    'C05': {'run': W.id_lists, 'how': 'Abstract interpretation of the run-length encoder and decoder with a witness position and ghost counters of encoded, sent and expanded elements.'},
    'C06': {'run': W.rejection, 'how': 'Every path of the packet entry points that ends with an exception is enumerated; the state it leaves is compared, member by member, with the one before, and no handler call may be on it.'},
    'C13': {'run': G.composition, 'how': 'An arbitrary identifier, in the window or not, is followed through the composition of a repair: region operations on its bytes, coefficient, size contribution (projection of the sum on that source), identifier list, stale bytes.'},
    'C14': {'run': G.field, 'how': 'Interval and dependency analysis of the coefficient function and of the wrappers of the field operations for every field size.'},
    'C15': {'run': N.window, 'how': 'Abstract interpretation of every public operation of the encoder from an arbitrary window: bound of the window, which source may leave, and presence of an arbitrary witness source before and after an acknowledgment.'},
    'C16': {'run': N.numbering, 'how': 'Every path of the operations of the encoder: identifiers handed to the packet writers against the counters, and counters after against packets sent.'},
    'C17': {'run': N.schedule, 'how': 'Every path of the operations of the encoder: sequence of packets sent, split by code type and by divisibility of the symbolic identifier by the symbolic rate.'},
    'C18': {'run': N.adaptive, 'how': 'Interval analysis of the rate computed on every path of an acknowledgment, split by ranges of the loss ratio; counting of sent packets on every path.'},
    'C19': {'run': A.acks, 'how': 'Every path of the operations of the decoder that can send an acknowledgment, with symbolic counts, thresholds and times: contents of the acknowledgment for an arbitrary identifier, when it is sent, and what is left for the next one.'},
    'C20': {'run': C.c_api, 'how': 'Every path of every function of the C interface, with the operations of the C++ interface replaced by black boxes that return or throw anything: which operation is performed, with which arguments, and what becomes of its result or exception.'},
    'C21': {'run': E.noexcept_freedom, 'how': 'Interprocedural exception-effect analysis (least fixpoint over the call graph of the type-checked program): '
            'for every function with a non-throwing exception specification, the set of exceptions its body lets out must be empty.'},
    'C22': {'run': K.packets, 'how': 'Abstract interpretation of every operation of the packet container on an arbitrary packet: size after, and the value of an arbitrary byte after, reconstructed from the writes on each path.'},
    'C23': {'run': E.isolation, 'how': 'Enumeration of every variable with static or thread storage and every data member of the library: each must be immutable, '
            'initialised independently of instances, and each member owned by its instance.'},
    'C24': {'run': E.determinism, 'how': 'Effect analysis: no call site reads a source of nondeterminism, no container is ordered by address or hash, and values derived '
            'from the steady clock stay in time types and only control acknowledgments.'},
}
