"""The properties (see props.py)."""
import sys
P = sys.modules["__main__"].P
HOOK_COMMITS = ["ce77d8f5dea74c43b730e7fb8fdb2bc0a9729996", "217cc7711bafc28764fa0d55d34f004037ee1239",
                "c9bee39cab95762934fa08d16cd58a65cb17ebe7"]
NOTES = ("Every check compiles /repo's current sources against the controlled "
         "environment in env/ and enumerates executions; see DESIGN.md.")

_MPC_WHY = ("The protocol tests draw a few random tensors of one shape per operation "
            "and one real schedule; they cannot cover all operand values, views, "
            "share forms, party counts, randomness and message orders.")
_ENUM = ("exhaustive enumeration of closed executions of the real multi-party code "
         "(operand alphabet x layouts x share forms x randomness deviations x "
         "operation sequences) under a controlled scheduler, network and PRG")
_NOTE = ("Complete for the stated alphabets and bounds only; the network, thread "
         "pool and PRG are the stand-ins of env/ (ideal PRG, in-order channels), so "
         "cryptographic strength is out of scope.")


def ring(id, name, parties, fields, extra, files):
    P(id, f"{name}: ring operations are exact for every input and all randomness",
      f"For every operation on ring elements that {name} offers (addition, multiplication, "
      "negation, squaring, bitwise and/xor/not, shifts, bit reversal and interleaving, most "
      "significant bit, equality where offered, matrix product, and every conversion between "
      "public, private, arithmetic and boolean form, and drawing random values), opening the result gives exactly the "
      f"value computed on plain integers modulo 2^k{extra}. "
      "It does so for every operand value, shape, memory layout, visibility and randomness, "
      "also in sequences of operations, at every party alike. "
      "Every message sent is received, no party waits forever, and operands are not modified.",
      ["inputs", "configurations", "schedules", "histories"],
      f"all operand values, shapes, strided/broadcast/transposed views, visibilities and share "
      f"widths, {parties}, fields {fields}, all random strings, all message orders, all "
      "sequences of operations",
      _MPC_WHY, files + ["src/libspu/mpc/api.cc", "src/libspu/mpc/ab_api.cc"],
      [("kernels", files[0]), ("share form dispatch", "src/libspu/mpc/api.cc"),
       ("boolean circuits", "src/libspu/mpc/ab_api.cc")],
      ["the opened value of every operation at every party", "undelivered messages"],
      technique=_ENUM, note=_NOTE)


ring("C10", "REF2K", "2 and 3 parties", "FM32, FM64, FM128", "",
     ["src/libspu/mpc/ref2k/ref2k.cc", "src/libspu/mpc/common/pv2k.cc",
      "src/libspu/mpc/utils/ring_ops.cc"])
ring("C05", "SEMI2K", "2, 3 and 5 parties, triples from the first party or a server", "FM32, FM64, FM128", "",
     ["src/libspu/mpc/semi2k/arithmetic.cc", "src/libspu/mpc/semi2k/boolean.cc",
      "src/libspu/mpc/semi2k/conversion.cc"])
ring("C06", "ABY3", "3 parties", "FM32, FM64, FM128", "",
     ["src/libspu/mpc/aby3/arithmetic.cc", "src/libspu/mpc/aby3/boolean.cc",
      "src/libspu/mpc/aby3/conversion.cc"])
ring("C07", "SecureNN", "3 parties", "FM32, FM64, FM128",
     " (the most significant bit for |x| < 2^(k-2))",
     ["src/libspu/mpc/securenn/arithmetic.cc", "src/libspu/mpc/securenn/boolean.cc",
      "src/libspu/mpc/securenn/conversion.cc"])
ring("C08", "SPDZ2k", "2 and 3 parties", "FM32, FM64", " (tensors of rank at least 1)",
     ["src/libspu/mpc/spdz2k/arithmetic.cc", "src/libspu/mpc/spdz2k/boolean.cc",
      "src/libspu/mpc/spdz2k/conversion.cc", "src/libspu/mpc/spdz2k/value.cc"])
ring("C09", "Swift", "3 parties", "FM32, FM64", "",
     ["src/libspu/mpc/experimental/swift/arithmetic.cc",
      "src/libspu/mpc/experimental/swift/boolean.cc",
      "src/libspu/mpc/experimental/swift/conversion.cc"])


_V_NOTE = ("Complete for the stated alphabets and bounds only; real code built with "
           "AddressSanitizer, so a stray access counts as a violation.")
P("C01", "Array views always read and write exactly the tensor they denote",
  "Any sequence of the array operations (reshape, slice, slice_scatter, transpose, reverse, "
  "expand, broadcast, concatenate, pad, update_slice, linear gather and scatter, as, slice of "
  "the innermost blocks, clone and copies) yields an array whose shape and elements, read by "
  "any accessor or iterator, are those of the tensor the operations define, for every rank, "
  "empty and single element axis, stride, offset and element size. "
  "Writes through a view change exactly the elements it denotes, and operations that return "
  "new arrays leave their operands unchanged. "
  "No operation reads or writes outside its buffers.",
  ["inputs", "histories"],
  "all shapes of rank 0 to 3 with axes of 0 to 3, all operations with all their small "
  "parameters, all sequences up to the explored depth",
  "The tests try a handful of shapes and single operations; views break on combinations "
  "(an empty or single element axis, a negative stride below a broadcast).",
  ["src/libspu/core/ndarray_ref.cc", "src/libspu/core/ndarray_ref.h", "src/libspu/core/shape.cc"],
  [("views and iterators", "src/libspu/core/ndarray_ref.cc"),
   ("stride and index arithmetic", "src/libspu/core/shape.h"),
   ("vectorized element map", "src/libspu/core/vectorize.h")],
  ["elements through the data pointer, at(), iterators and views"],
  technique="explicit-state exploration of all sequences of view operations on the real "
  "NdArrayRef against a plain tensor", note=_V_NOTE)
P("C02", "Plaintext encoding is exact, saturating and the same in every layout",
  "Encoding a plaintext buffer gives, for every integer that fits, that integer modulo 2^k "
  "and, for every float, the fixed point number nearest below its documented rounding, "
  "saturating outside the range and mapping NaN to 0; decoding returns what was encoded up to "
  "that rounding. "
  "This holds for every plaintext type, field, number of fraction bits, shape and stride, "
  "including packed bit sets and complex numbers, and types that do not fit are refused.",
  ["inputs", "configurations"],
  "every value of the 1 to 16 bit types and boundary values of the wider ones, FM32/64/128, "
  "all fraction widths, compact/strided/reversed/transposed/broadcast buffers",
  "The tests encode a few random values with one fraction width and compact buffers.",
  ["src/libspu/core/encoding.cc", "src/libspu/core/pt_buffer_view.cc",
   "src/libspu/core/pt_buffer_view.h"],
  [("encoding", "src/libspu/core/encoding.cc"),
   ("buffer views", "src/libspu/core/pt_buffer_view.h")],
  ["the encoded ring elements", "the decoded buffer"],
  technique="exhaustive enumeration of plaintext values, types, layouts and fraction widths "
  "on the real code against exact integer arithmetic", note=_V_NOTE)
P("C03", "Types and values survive serialization; malformed ones are refused",
  "Every storage type of every protocol can be rebuilt from its textual form and compares "
  "equal to it, and different types have different forms. "
  "Every value, of any type, shape, layout, dtype, visibility or chunk size, is unchanged by "
  "toProto followed by fromProto, including complex values. "
  "A message that is inconsistent or truncated is refused with an exception and never read or "
  "written beyond its buffers.",
  ["inputs", "fault_sequences"],
  "all storage types, shapes and views up to the bounds, all chunk sizes and orders, all "
  "messages one or two field edits away from a valid one",
  "The tests round-trip a few types and one value; nothing feeds damaged messages.",
  ["src/libspu/core/value.cc", "src/libspu/core/type.cc", "src/libspu/core/type.h"],
  [("chunked value messages", "src/libspu/core/value.cc"),
   ("type registry", "src/libspu/core/type.cc")],
  ["the rebuilt type or value", "the exception", "AddressSanitizer reports"],
  technique="exhaustive enumeration of types, values, chunkings and one/two-field message "
  "edits on the real code", level="fault_enumeration", note=_V_NOTE)
P("C04", "What is shared into the system comes out unchanged, and hides in between",
  "For every protocol, makeShares followed by combineShares returns exactly the plaintext, for "
  "every plaintext type (also bits and complex), visibility, owner, shape, input, share and "
  "output layout and all randomness; getShareSize, getPtType and the share types agree with the "
  "shares made, which the protocol can compute on. "
  "The shares of a secret held by any coalition the protocol tolerates have the same "
  "distribution for every secret. "
  "ColocatedIo::sync publishes to every party exactly the variables set since the last sync, "
  "the later value winning, and refuses at every party a name set by two parties.",
  ["inputs", "configurations", "histories"],
  "all plaintext types x layouts x owners x randomness profiles x protocols x fields; all random "
  "tapes over a subgroup of order 4; all histories of host operations and syncs up to the depth",
  "Tests share a few random tensors in one layout; distribution of shares and histories of syncs "
  "are not tested at all.",
  ["src/libspu/device/io.cc", "src/libspu/mpc/semi2k/io.cc", "src/libspu/mpc/aby3/io.cc",
   "src/libspu/mpc/securenn/io.cc", "src/libspu/mpc/cheetah/io.cc",
   "src/libspu/mpc/spdz2k/io.cc", "src/libspu/mpc/experimental/swift/io.cc",
   "src/libspu/mpc/ref2k/ref2k.cc"],
  [("IoClient and ColocatedIo", "src/libspu/device/io.cc"),
   ("toShares/fromShares", "src/libspu/mpc/semi2k/io.cc"),
   ("symbol table", "src/libspu/device/symbol_table.cc")],
  ["combined plaintext", "share sizes and types", "share bytes per coalition",
   "symbols after sync"],
  technique="exhaustive enumeration of plaintexts, layouts, owners, random tapes (complete over "
  "a subgroup) and operation histories on the real IO code of all protocols", note=_NOTE)


_HLO_CONF = ("exhaustive enumeration of typed tensor programs (all shapes, parameters, "
             "visibilities and layouts up to the bounds) executed by real multi-party contexts "
             "under the controlled network and PRG, against a plain tensor evaluator")
P("C19", "Sorting, top-k, shuffles and permutations rearrange the rows they should",
  "Sorting by any number of keys, ascending or descending, with every method, comparator and hint, "
  "gives the rows of its input in key order; a stable sort keeps the order of equal keys. "
  "Top-k gives the k largest or smallest elements and their indices; permuting, undoing a permutation and "
  "shuffling rearrange all operands alike; grouping sums, counts or averages each group once. "
  "This holds for every visibility of keys and payloads, every shuffle drawn and every data type.",
  ["inputs", "configurations", "schedules"],
  "all 0/1 sequences up to 6 to 9 elements, all key visibilities of one to three keys with ties, "
  "all shuffles of three elements up to two or three deviations, lengths to 40, all permutations of 4",
  "The tests sort a few random arrays; the methods, key merging by owner, sign bits, partitions and "
  "ties that break depend on the visibility of each key, the shuffles drawn and equal keys.",
  ["src/libspu/kernel/hal/permute.cc", "src/libspu/kernel/hlo/sort.cc", "src/libspu/kernel/hlo/rank.cc",
   "src/libspu/kernel/hlo/permute.cc", "src/libspu/kernel/hlo/shuffle.cc", "src/libspu/kernel/hlo/group_by_agg.cc"],
  [("sorting and permuting", "src/libspu/kernel/hal/permute.cc"), ("group by", "src/libspu/kernel/hlo/group_by_agg.cc"),
   ("shuffle kernels", "src/libspu/mpc/semi2k/permute.cc"), ("shuffle kernels", "src/libspu/mpc/aby3/permute.cc")],
  ["opened outputs against a plain sort"], technique=_HLO_CONF, note=_NOTE)

P("C20", "Structural tensor operations move exactly the elements they define",
  "For every shape, parameter, visibility (public, private, secret, mixed), layout and protocol, "
  "slice, pad (edge and interior), concatenate, reverse, transpose, reshape, broadcast, gather, "
  "linear gather and scatter, filter by mask, iota, constant, update slice, dynamic slice and "
  "dynamic update slice return exactly the elements StableHLO defines. "
  "Start indices are clamped to the operand whether they are public, private or secret, and a "
  "result chosen by a secret index is secret. "
  "Operands are unchanged and all parties agree on shape, type and values.",
  ["inputs", "configurations"],
  "all shapes of rank 0 to 3 with small axes, all parameters, all mixes of visibilities and of "
  "public and secret indices in and out of range, semi2k, aby3 and ref2k, FM64 and FM128",
  "The tests run one or two examples per operation, mostly public, never out of range indices "
  "mixed with secret ones or values of different owners.",
  ["src/libspu/kernel/hlo/indexing.cc", "src/libspu/kernel/hlo/geometrical.cc",
   "src/libspu/kernel/hal/shape_ops.cc", "src/libspu/kernel/hlo/const.cc"],
  [("dynamic slices by one hot and oram", "src/libspu/kernel/hlo/indexing.cc"),
   ("shape operations over mixed types", "src/libspu/kernel/hal/shape_ops.cc")],
  ["the opened elements, shape, dtype and visibility of the result"],
  technique=_HLO_CONF, note=_NOTE)
P("C21", "Reductions, windows, contractions and pooling follow their definition",
  "For every shape, set of axes, window, stride, padding and dilation, visibility, layout and "
  "protocol, reduce and reduce window combine exactly the elements of each group or window (and "
  "the initial value) once, also over several operands. "
  "Arg max marks exactly one maximal position of each window, select-and-scatter and max pool "
  "scatter add each source element at the selected position, and dot, batched dot and "
  "convolution equal the defining sums (exact for integers, within 2 ulp for fixed point).",
  ["inputs", "configurations"],
  "all shapes with axes up to 5 (1-D windows complete, 2-D windows, 4-D pooling), all window "
  "parameters up to 3, all axis subsets, visibility mixes, semi2k, aby3 and ref2k",
  "The tests run one or two examples each; tree reduction tails, padding with dilation and odd "
  "strides break at sizes they do not contain.",
  ["src/libspu/kernel/hlo/reduce.cc", "src/libspu/kernel/hlo/select_and_scatter.cc",
   "src/libspu/kernel/hlo/convolution.cc", "src/libspu/kernel/hlo/utils.cc",
   "src/libspu/kernel/hlo/basic_binary.cc", "src/libspu/kernel/hal/ring.cc"],
  [("tree reduction and windows", "src/libspu/kernel/hlo/reduce.cc"),
   ("pooling gradients", "src/libspu/kernel/hlo/select_and_scatter.cc"),
   ("matrix products and tensordot", "src/libspu/kernel/hal/ring.cc")],
  ["the opened elements, shape and dtype of the result"], technique=_HLO_CONF, note=_NOTE)
P("C22", "Control flow takes the same branch whether its condition is public or secret",
  "If, case and while programs return what a plain interpreter returns for every condition and "
  "index value (an index out of range takes the last branch), nested in any way and with any mix "
  "of result types, shapes and visibilities. "
  "What a secret condition or index selects is secret. "
  "A while loop over a secret or private condition is refused at every party.",
  ["programs", "inputs", "configurations"],
  "all program trees of depth 2 over if, case, while, sequence and arithmetic; all kinds of "
  "conditions; all small, negative, out of range and extreme indices",
  "There is no test of the control flow kernels with secret conditions, out of range indices or "
  "nesting.",
  ["src/libspu/kernel/hlo/control_flow.cc", "src/libspu/kernel/hlo/utils.cc"],
  [("branches by selection", "src/libspu/kernel/hlo/control_flow.cc")],
  ["the opened results, dtype and visibility", "the exception"], technique=_HLO_CONF, note=_NOTE)
P("C23", "Typed element-wise operations agree with plain arithmetic on the encoded values",
  "Addition, subtraction, multiplication, comparisons, max, min, bitwise operations, negation, "
  "abs, rounding, sign, select, clamp, shifts, casts, integer division, remainder and integer power of integer, fixed "
  "point and boolean tensors give the value plain arithmetic gives on the encoded operands, "
  "for every mix of data types and visibilities, as long as operands and result lie in the encodable range. "
  "Fixed point products are within 2 units of the last place, everything else is exact and has the "
  "promised data type and shape. "
  "Seal, reveal and reveal-to-one-party keep the value and give the promised visibility.",
  ["inputs", "configurations"],
  "all pairs and triples of an alphabet of boundary values per data type, all data type pairs, "
  "visibilities (public, private per owner, secret in arithmetic and boolean form), strided and "
  "reversed views; fields of 32, 64 and 128 bits and fraction bits from 8 to 40",
  "Tests use random values of one type; the branches per type, visibility, share form and "
  "fraction width are not crossed, and boundary values are not drawn.",
  ["src/libspu/kernel/hal/fxp_base.cc", "src/libspu/kernel/hal/integer.cc",
   "src/libspu/kernel/hal/polymorphic.cc", "src/libspu/kernel/hal/type_cast.cc",
   "src/libspu/kernel/hlo/basic_unary.cc", "src/libspu/kernel/hlo/basic_binary.cc",
   "src/libspu/kernel/hlo/basic_ternary.cc", "src/libspu/kernel/hlo/shift.cc",
   "src/libspu/kernel/hlo/casting.cc"],
  [("type dispatch and promotion", "src/libspu/kernel/hal/polymorphic.cc"),
   ("fixed point rounding", "src/libspu/kernel/hal/fxp_base.cc")],
  ["the opened encoded elements, dtype, shape and visibility of the result"],
  technique=_HLO_CONF, note=_NOTE)

P("C24", "Non-linear fixed-point functions stay within a stated error of the exact value",
  "Reciprocal, division, exponentials, logarithms, power, square roots, sigmoid, tanh, sine, cosine, erf, acos, asin and "
  "atan2 of public and secret fixed point values return, for every input of their documented domain and in every "
  "approximation mode of the runtime configuration, the exact value up to the error of the published approximation "
  "plus a few units of the last place. "
  "Inputs a clamp promises to saturate saturate instead of wrapping around.",
  ["inputs", "configurations"],
  "every encoded input of the domain for 8 and 10 fraction bits and at most 2^15 equally spaced ones (quick; 2^20 "
  "thorough) for 13 to 21, grids plus neighbourhoods of all powers of two and small multiples of one "
  "for 26 and 40; grids of pairs for the functions of two arguments; all approximation modes, all mixes of "
  "visibility; ref2k, semi2k with 2 and 3 parties and aby3 in FM32, FM64 and FM128",
  "Tests draw a few random inputs near zero with one fraction width; range reduction goes wrong at "
  "powers of two, at the ends of the domain and for particular fraction widths.",
  ["src/libspu/kernel/hal/fxp_approx.cc", "src/libspu/kernel/hal/fxp_base.cc",
   "src/libspu/kernel/hal/fxp_cleartext.cc", "src/libspu/kernel/hal/polymorphic.cc",
   "src/libspu/mpc/semi2k/exp.cc"],
  [("approximations and range reduction", "src/libspu/kernel/hal/fxp_approx.cc"),
   ("Goldschmidt division", "src/libspu/kernel/hal/fxp_base.cc")],
  ["the opened encoded results, compared with long double arithmetic"],
  technique=_HLO_CONF, note=_NOTE)

P("C13", "Truncating a shared number divides it, off by at most one unit",
  "Truncating x by n bits gives floor(x/2^n) or one more (one less for the two-party and known-sign "
  "variants), for every |x| < 2^(k-2), n, share form, layout, sign hint and all randomness; "
  "public values and ref2k round half up. "
  "The fast variants that allow a most significant bit error (aby3, semi2k with "
  "trunc_allow_msb_error, swift, spdz2k) keep this bound whenever the random mask does not wrap "
  "around, and then are off by exactly the wrap around; never for small numbers under random masks. "
  "Results are well formed shares on which all parties agree.",
  ["inputs", "configurations", "schedules"],
  "boundary numbers around each power of two that matters, every n, six protocols, 2 to 5 parties, "
  "three fields, all single-draw deviations and all masks by their upper bits",
  "The tests truncate small random numbers under one random stream; wrong wrap corrections and "
  "sign handling show only for specific masks.",
  ["src/libspu/mpc/semi2k/arithmetic.cc", "src/libspu/mpc/aby3/arithmetic.cc",
   "src/libspu/mpc/securenn/arithmetic.cc", "src/libspu/mpc/spdz2k/arithmetic.cc",
   "src/libspu/mpc/experimental/swift/arithmetic.cc", "src/libspu/mpc/common/pv2k.cc"],
  [("truncation kernels", "src/libspu/mpc/semi2k/arithmetic.cc"),
   ("truncation pairs", "src/libspu/mpc/semi2k/beaver/beaver_impl/trusted_party/trusted_party.cc")],
  ["the opened result and the shares"], technique=_ENUM, note=_NOTE)
P("C14", "Correlated randomness stays in step and no random block is used twice",
  "After every operation, whatever came before and in every forked context, all parties draw the same public "
  "randomness, each pair of neighbours draws the same shared numbers and permutations, and private streams differ. "
  "Within a party no block of any pseudorandom stream (including those of multiplication triples and of forks) is ever "
  "used for two purposes, and a stream meant for one or two parties is drawn by no other.",
  ["histories", "schedules"],
  "every ordered pair of operations that draw, in one history per protocol, ring and number of parties; every tree "
  "of forks with operations in between of depth 4 or 5 (thorough 6); forked contexts used by concurrent threads under "
  "every schedule with up to 2 deviations; every sequence of 4 (5) draws of the generator",
  "A stream that is out of step or a block that is reused leaves the tested operation's result right; it "
  "shows only in what a later operation computes or in what an adversary learns.",
  ["src/libspu/mpc/common/prg_state.cc", "src/libspu/mpc/common/prg_state.h", "src/libspu/mpc/semi2k/beaver",
   "src/libspu/core/object.cc", "src/libspu/core/context.cc"],
  [("counters of the streams", "src/libspu/mpc/common/prg_state.cc"),
   ("forking of states", "src/libspu/core/object.cc"),
   ("triples from replayed streams", "src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_tfp.cc")],
  ["draws of every party (stream, position, length)", "values drawn", "results of operations"],
  technique="explicit-state exploration of operation and fork histories of the real protocols with a ledger of "
  "every pseudorandom block, plus delay-bounded schedule exploration",
  note="Streams the first party recomputes in place of others (trusted first party triples) are exempt at that party. "
  "Repetition is judged by stream position, not by value.")
P("C15", "Running operations in parallel gives the results of running them in order",
  "With inter-operation parallelism a program gives exactly the results serial execution gives, whatever the "
  "number of workers and however they are scheduled: an operation starts only when its operands, everything its "
  "nested regions capture and every earlier side effect are done, and runs once, in a context of its own. "
  "It always ends, and the exception of a failing operation reaches the caller.",
  ["schedules", "programs"],
  "all programs of 2 and of 3 operations (plain, with side effects, with one or two nested regions, with two "
  "results) over all their earlier results, 1 to 3 workers, every order in which blocked workers continue and every "
  "schedule with up to 2 (3 operations: 1) preemptions; every failing operation; real programs see C31",
  "The tests run a few programs under the scheduler of the day; a missing dependency or a lost wake-up "
  "shows for one interleaving in thousands.",
  ["src/libspu/device/executor.cc", "src/libspu/device/executor.h"],
  [("readiness of an operation", "src/libspu/device/executor.cc"),
   ("task queue and worker threads", "src/libspu/device/executor.cc")],
  ["the returned values", "order of starts and ends of operations", "exceptions"],
  technique="stateless model checking of the real executor under a controlled thread scheduler "
  "(preemption bounded), over all small programs",
  note="MLIR is represented by a stand-in of the classes the executor uses; preemption points are the "
  "operations on locks, condition variables and threads.")
P("C31", "Executing a compiled program computes what its operations say",
  "For every PPHLO operation, attribute form and visibility of operands the executor returns, to every party, the "
  "value, shape, data type and visibility the operation denotes, in programs of any composition including captured "
  "values and nested control flow, serial or in parallel. "
  "Programs that are malformed, of another version, lack an entry point, or get inputs of another type than "
  "declared are refused with an exception.",
  ["programs", "inputs", "schedules", "configurations"],
  "every operation in several attribute forms over public, secret and private operands; every composition of 3 "
  "(quick) or 4 (thorough) operations of six kinds over two inputs, with every operand choice; every "
  "schedule of parties and workers up to 1 or 2 deviations for six parallel programs; ref2k, semi2k, aby3",
  "The tests execute fixed programs one operation at a time; wrong attribute handling, scopes or "
  "constant rewrites need particular attributes, constants or compositions.",
  ["src/libspu/device/pphlo/pphlo_executor.cc", "src/libspu/device/pphlo/pphlo_intrinsic_executor.cc",
   "src/libspu/device/executor.cc", "src/libspu/device/api.cc", "src/libspu/device/symbol_table.cc",
   "src/libspu/kernel/hlo/casting.cc", "src/libspu/kernel/hlo/const.cc"],
  [("execution of each operation", "src/libspu/device/pphlo/pphlo_executor.cc"),
   ("intrinsics", "src/libspu/device/pphlo/pphlo_intrinsic_executor.cc"),
   ("front door and entry point", "src/libspu/device/api.cc")],
  ["the values in the symbol table afterwards", "exceptions"],
  technique="exhaustive enumeration of programs and operand forms (and schedules) through the real "
  "executor, compared with a plain evaluator",
  note="Programs are built in memory: MLIR, its parser and the dialect definitions generated from TableGen "
  "are represented by a stand-in with the accessors the executor uses.")
P("C11", "No tolerated coalition of parties learns more than it is entitled to",
  "Everything that a tolerated coalition (n-1 parties of SEMI2K and SPDZ2k, one party of ABY3, SecureNN and "
  "Swift) receives while a program of ring operations, conversions, truncations, comparisons, "
  "shuffles and openings runs is distributed the same for any two secrets that agree on its own "
  "inputs and on what is opened to it, given everything it knows, also when operands are remembered "
  "for reuse and when triples come from a server. "
  "A value opened to one party tells the others nothing.",
  ["inputs", "histories", "configurations"],
  "all secrets of the explored digits, all random strings of those digits, all coalitions, all the "
  "listed programs",
  "Tests only compare results: a protocol that sends a secret in the clear, uses a mask twice or "
  "lets the dealer of a mask see what it masks passes all of them.",
  ["src/libspu/mpc/semi2k/arithmetic.cc", "src/libspu/mpc/semi2k/boolean.cc",
   "src/libspu/mpc/semi2k/conversion.cc", "src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_tfp.cc",
   "src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc",
   "src/libspu/mpc/semi2k/permute.cc", "src/libspu/mpc/aby3/arithmetic.cc",
   "src/libspu/mpc/aby3/boolean.cc", "src/libspu/mpc/aby3/conversion.cc",
   "src/libspu/mpc/aby3/permute.cc", "src/libspu/mpc/securenn/arithmetic.cc",
   "src/libspu/mpc/securenn/boolean.cc", "src/libspu/mpc/securenn/conversion.cc",
   "src/libspu/mpc/experimental/swift/arithmetic.cc", "src/libspu/mpc/experimental/swift/boolean.cc",
   "src/libspu/mpc/experimental/swift/conversion.cc", "src/libspu/mpc/common/prg_state.cc",
   "src/libspu/mpc/spdz2k/arithmetic.cc", "src/libspu/mpc/spdz2k/conversion.cc", "src/libspu/mpc/spdz2k/beaver/beaver_tfp.cc"],
  [("masked openings", "src/libspu/mpc/semi2k/arithmetic.cc"),
   ("correlated randomness", "src/libspu/mpc/common/prg_state.cc"),
   ("dealer messages", "src/libspu/mpc/securenn/boolean.cc")],
  ["every message delivered to the coalition", "the random numbers it can compute"],
  technique="exhaustive enumeration of all random tapes of a digit abstraction on the real "
  "multi-party code, comparing the multisets of views over all secrets",
  note="Random words range over their lowest or highest digit and the same digit of every message is "
  "looked at; digits known to the coalition are fixed patterns when there are too many, and long views "
  "are compared up to a prefix. Arithmetic modulo a prime (SecureNN's most significant bit, SEMI2K's "
  "exponential) is not covered; the PRG is ideal, commitments hide, and SPDZ2k is observed at the low end only.")
P("C16", "Splitting an operation into concurrent tiles does not change its result",
  "An operation whose operands are cut into tiles that run in threads of forked contexts gives the "
  "result of the undivided operation, in value, shape and share form, for every shape, memory layout, number of tiles "
  "and interleaving of tiles and parties. A failure within a tile reaches the caller as an exception: it neither "
  "hangs, terminates the process nor lets other tiles use memory that is gone.",
  ["inputs", "schedules", "configurations", "fault_sequences"],
  "every tiled operation of REF2K, ABY3, SecureNN and Swift x shapes of 0 to 3 axes x tiles of 1..7 elements x layouts; "
  "schedules of party and tile threads within 1 (quick) or 2 (thorough) deviations; a failing send at every message",
  "The tiles of the tests are larger than their tensors, so the tests never split anything.",
  ["src/libspu/mpc/utils/tiling_util.h", "src/libspu/core/parallel_utils.h", "src/libspu/mpc/api.cc",
   "src/libspu/kernel/hal/fxp_approx.cc", "src/libspu/mpc/aby3/arithmetic.cc"],
  [("tiles", "src/libspu/mpc/utils/tiling_util.h"), ("parallel loops", "src/libspu/core/parallel_utils.h")],
  ["the result at every party", "exceptions", "messages"],
  technique="exhaustive enumeration of shapes, tile sizes and layouts, and stateless model checking of the "
  "tiles' threads (delay bounded), on the real code",
  note="The tile size is set through a hook (SPU_VMC_HOOKS); schedules deviate at blocking operations, in thorough "
  "also at synchronisation operations.", hook="size of parallel tasks (kMinTaskSize)")
P("C17", "A party that deviates is caught (SPDZ2k, Swift)",
  "In SPDZ2k no honest party accepts a wrong opening: if one party changes, cuts, extends or repeats any of its messages, or uses "
  "another share (value or MAC) of an operand, the other parties obtain the right value or throw, and no process ends. In Swift a "
  "party that changes any of its messages is noticed: every honest party obtains the right value, throws or votes, and a vote in an opening "
  "of an arithmetic secret does not name the cheater as trusted. Honest runs are never accused.",
  ["fault_sequences", "inputs", "configurations"],
  "every message of every ring operation, conversion, comparison and matrix product changed in 9 ways (at one or all receivers), every bit "
  "of the operands' shares and MACs, pairs of changes for openings and products; SPDZ2k 2 and 3 parties, Swift, FM32 and FM64",
  "The tests run honest parties only (two tests flip one MAC): a missing or misapplied check changes no honest result.",
  ["src/libspu/mpc/spdz2k/arithmetic.cc", "src/libspu/mpc/spdz2k/boolean.cc", "src/libspu/mpc/spdz2k/conversion.cc",
   "src/libspu/mpc/spdz2k/commitment.cc", "src/libspu/mpc/spdz2k/beaver/beaver_tfp.cc", "src/libspu/mpc/spdz2k/state.h",
   "src/libspu/mpc/experimental/swift/arithmetic.cc", "src/libspu/mpc/experimental/swift/boolean.cc",
   "src/libspu/mpc/experimental/swift/conversion.cc", "src/libspu/mpc/common/communicator.cc"],
  [("MAC checks", "src/libspu/mpc/spdz2k/beaver/beaver_tfp.cc"), ("openings", "src/libspu/mpc/spdz2k/arithmetic.cc"),
   ("joint messages", "src/libspu/mpc/experimental/swift/arithmetic.cc")],
  ["values opened by honest parties", "exceptions", "votes logged"],
  technique="exhaustive enumeration of single (and for openings pairs of) message and share alterations of one party on the real multi-party code",
  level="fault_enumeration",
  note="The preprocessing is the trusted first party. Faults are changes of messages and shares of an otherwise honest program, not "
  "arbitrary strategies. Swift: no changes of length, and changed shares only for openings (see DESIGN.md).")
P("C18", "Correlated randomness holds, is fresh, and is replayed only on request",
  "Every correlation handed out by the trusted first or third party (Mul, Square, Dot, And, Trunc, TruncPr, RandBit, "
  "Eqz, MulPriv, PermPair) satisfies its equation at every size and after any history including spawned providers, and "
  "its operands are new unless a replay was asked for, in which case they are the recorded ones (transposed where "
  "asked). A cached array yields right results and is opened once however it is viewed, replaced or re-enabled. An "
  "answer of the third party that is cut short, too long or an error is refused.",
  ["histories", "inputs", "configurations", "fault_sequences"],
  "all pairs of the 40-odd steps and triples of the replaying ones; every number of elements up to three chunks of the "
  "server's answer; every cut of an answer and framing of its parts; histories of 3..5 actions on cached "
  "arrays with addresses of freed memory reused or not at each party; forks under delay-bounded schedules",
  "The tests ask for each correlation once with one size and never reach the chunking (32 MiB), replay histories, "
  "partial answers, or memory reuse.",
  ["src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_tfp.cc", "src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc",
   "src/libspu/mpc/semi2k/beaver/beaver_impl/trusted_party/trusted_party.cc",
   "src/libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/beaver_server.cc",
   "src/libspu/mpc/semi2k/beaver/beaver_cache.cc", "src/libspu/mpc/semi2k/arithmetic.cc", "src/libspu/mpc/common/prg_tensor.h"],
  [("adjustment of correlations", "src/libspu/mpc/semi2k/beaver/beaver_impl/trusted_party/trusted_party.cc"),
   ("answers in a stream", "src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc"),
   ("cache of openings", "src/libspu/mpc/semi2k/beaver/beaver_cache.cc")],
  ["sums of the shares", "bytes sent", "results", "exceptions"],
  technique="exhaustive enumeration of request histories, answer framings and cache histories on the real "
  "providers, server and protocol",
  note="brpc, leveldb and public-key encryption are stand-ins with their interfaces; the GFMP "
  "element type belongs to C28.", hook="chunk sizes of the beaver server and cache")
P("C25", "Ring arrays, bit tricks and boolean circuits compute exactly",
  "The operations on plain arrays of ring elements (arithmetic, logic, shifts, bit reversal, range masks, truncation, products, sums, "
  "selection, comparison up to a distance, random arrays) give, in place or not, for every value, width, shape and memory layout what "
  "arithmetic modulo 2^k says, and change nothing beside their result. "
  "The bit tricks (logarithms, odd and even bits apart and together, at every level and width) and the adder, carry and splitting circuits over an abstract "
  "boolean block are exact for every number of bits, and use no bit beyond it.",
  ["inputs", "configurations"],
  "all pairs of boundary words of FM32, FM64, FM128 x 8 shapes x 5 layouts per operand, all shift amounts and bit ranges; all single and double bits of every "
  "width for the linear tricks, all operands up to 4 bits and all runs of ones to 128 bits for the circuits; all random arrays up to two deviating words",
  "The tests call a few of them with one random compact array; the rest is used only through protocols whose values are small.",
  ["src/libspu/mpc/utils/ring_ops.cc", "src/libspu/mpc/utils/circuits.h", "src/libspu/mpc/utils/linalg.h",
   "src/libspu/core/bit_utils.h", "src/libspu/core/bit_utils.cc"],
  [("ring arrays", "src/libspu/mpc/utils/ring_ops.cc"), ("circuits", "src/libspu/mpc/utils/circuits.h"),
   ("bit tricks", "src/libspu/core/bit_utils.h")],
  ["the elements of the result", "the cells beside it"],
  technique="exhaustive enumeration of operands, widths, shapes and layouts on the real code, compared with plain arithmetic",
  note="Shifts by as many bits as the ring has, or more, and bit ranges out of order are not asked for.")
P("C26", "Permutations, however applied, are exactly the permutations asked for",
  "The routing computed for the switching network realises every permutation it is given, in a topology of the smallest number of switches for that size. "
  "Permuting a shared tensor by a public, private or shared permutation, or by its inverse, moves every element to the place the composition of all parties' "
  "permutations says, in every form, layout and history; a random shared permutation is one, and its inverse undoes it.",
  ["inputs", "configurations", "histories"],
  "all n! permutations of the network for n up to 9 (thorough 10) and families of permutations of every n up to 131 (260); every combination of the parties' permutations of up "
  "to 4 (2 parties) or 3 (3 parties) elements for SEMI2K, ABY3, CHEETAH and REF2K; draws up to one (two) deviations",
  "The tests shuffle one random permutation of a size or two; a network misroutes for particular cycles and odd sizes.",
  ["src/libspu/mpc/utils/waksman_net.cc", "src/libspu/mpc/utils/permute.cc", "src/libspu/mpc/semi2k/permute.cc",
   "src/libspu/mpc/aby3/permute.cc", "src/libspu/mpc/cheetah/permute.cc", "src/libspu/mpc/common/pv2k.cc"],
  [("routing of the network", "src/libspu/mpc/utils/waksman_net.cc"), ("kernels", "src/libspu/mpc/semi2k/permute.cc"),
   ("secure network", "src/libspu/mpc/cheetah/permute.cc")],
  ["switches of the network", "opened elements"],
  technique="exhaustive enumeration of permutations and of combinations of the parties' permutations on the real code", note=_NOTE)
P("C27", "A matrix product split to bound memory is the matrix product",
  "The product of two matrices or vectors is the same, at every party, whatever the memory limit that makes the "
  "runtime cut it into blocks and whether splitting is disabled, for every shape including empty ones, every form of the "
  "operands and every memory layout.",
  ["inputs", "configurations"],
  "all shapes up to 5x5x5 (thorough 7) and eleven long thin ones x up to 12 limits x operands public, secret or owned x layouts; "
  "SEMI2K, ABY3, REF2K, Swift, all rings",
  "The limit is 2 GiB, so no test splits anything.",
  ["src/libspu/kernel/hal/ring.cc", "src/libspu/mpc/utils/tiling_util.h"],
  [("split of a product", "src/libspu/kernel/hal/ring.cc")],
  ["the product at every party"],
  technique="exhaustive enumeration of shapes, limits, operand forms and layouts on the real code",
  note="The limit is set through a hook (SPU_VMC_HOOKS).", hook="memory limit of matrix products (kMmulMemLimit)")
P("C12", "CHEETAH: exact ring operations over ideal oblivious transfer and products",
  "Given oblivious transfers and products of private vectors that do what they promise, every ring operation of "
  "CHEETAH opens to the value computed modulo 2^k, for every operand value, form, shape, layout and randomness and in "
  "sequences of operations; its comparison, equality, selection and triples are exact for every bit width and radix, "
  "and its truncation is off by at most one. "
  "The transfers built on the correlated ones (one of N, packed to any width, chosen or random messages, after any history of requests) "
  "deliver exactly the chosen messages, with any number of parallel workers. "
  "Every message sent is received and no party waits forever.",
  ["inputs", "configurations", "schedules", "histories"],
  "2 parties, FM32/64/128, three kinds of OT, 1 to 8 workers, all widths 1..k, radices 1 to 4, operand alphabets at every "
  "boundary, all choices of up to two deviating random words, request histories to depth 3 (quick) or 4",
  "The tests check one random tensor per routine and width, one history and one real schedule; packing errors need "
  "specific widths and counts, and supply errors specific histories.",
  ["src/libspu/mpc/cheetah/arithmetic.cc", "src/libspu/mpc/cheetah/boolean.cc", "src/libspu/mpc/cheetah/conversion.cc",
   "src/libspu/mpc/cheetah/ot/basic_ot_prot.cc", "src/libspu/mpc/cheetah/ot/yacl/ferret.cc",
   "src/libspu/mpc/cheetah/nonlinear/compare_prot.cc", "src/libspu/mpc/cheetah/nonlinear/truncate_prot.cc",
   "src/libspu/mpc/cheetah/arith/cheetah_mul.h"],
  [("transfers and packing", "src/libspu/mpc/cheetah/ot/yacl/ferret.cc"),
   ("multiplexing, triples", "src/libspu/mpc/cheetah/ot/basic_ot_prot.cc"),
   ("comparison tree", "src/libspu/mpc/cheetah/nonlinear/compare_prot.cc"),
   ("parallel workers", "src/libspu/mpc/cheetah/state.h")],
  ["opened values", "messages delivered by every transfer", "undelivered messages"],
  technique=_ENUM, note="SEAL and emp are not in the sandbox: homomorphic products (arith/, rlwe/) and the OT extension itself are "
  "replaced by ideal ones, so those files are not covered.")
