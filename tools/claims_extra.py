c("P20", SPACE, "Exhaustive over the stated alphabets of output kinds, unlock condition and feature lists, addresses and boundary amounts; self-ownership is judged for direct owners.")
c("P21", SPACE, "Exhaustive over the stated alphabets of input, context input, allotment, output and unlock lists, counts around every limit and boundary sums.")
c("P22", SPACE, "Exhaustive over all parent lists up to length 3 over 3 ids in every role, counts around every limit, every commitment slot in a window around genesis and at the end of the slot range, payload kinds and sizes around the maximum.")
c("P13", SPACE, "Exhaustive over the stated genesis/slot duration/exponent alphabets and every slot, epoch and boundary time in their windows and at the end of the representable range.")
c("P14", SPACE, "Exhaustive over the stated parameter sets, boundary amounts around every power of two and slot pairs; the reference computes in arbitrary precision.")
c("P15", SPACE, "Exhaustive over a catalog of about 4900 valid objects of every wire type (all feature and condition subsets, list lengths, boundary numbers), every ordered and unordered list over four elements for each sorted set, and every field of the node API messages at its boundary values; compared byte for byte with an independent encoder.")
c("P16", SPACE, "The P15 catalog and node API messages through JSON, and the syntactic rules of P20 to P22 over their whole spaces on the JSON form. Bare lists have no JSON form and are covered inside other objects.")
c("P17", SPACE, "Exhaustive over every truncation, insertion, deletion and listed replacement at every byte of a catalog of small valid objects, all pairs of edits of the short ones, every string of up to two bytes (three in the thorough tier, partly), heads and tails of two objects, replacements of every JSON node, and 32 kB of every nesting shape at every offset (in separate processes with limited memory). Length prefixes announcing more than 64 kB are run in one dedicated case only (the dependency allocates the announced size).")
c("P18", SPACE, "Exhaustive over every bit of the encoding and every field of a catalog of small objects, all identifiers of about 2800 larger ones, and all digests, slots, indices, serials and schemes of the stated boundary alphabets. Collision freedom of BLAKE2b is assumed.")
c("P19", SPACE, "Exhaustive over every bit and every field of a catalog of signed blocks, all exchanges of parts between pairs of them, all key histories up to length 4 (5) over 4 keys and all pairs of 65 attestations for the order. Ed25519 unforgeability is assumed.")
c("P23", SPACE, "Exhaustive over every catalog output, every address in every position and issuer key counts up to 128 under 14 parameter sets, one output per set of parts under all combinations of boundary offsets of the whole 64-bit range, and the acceptance of each output with an amount around its deposit.")
c("P24", SPACE, "Exhaustive over every catalog object with a work score under 112 parameter sets, all combinations of part counts of a transaction (a third of them in the quick tier), the largest admissible blocks of 16 shapes against the declared maximum for all parameter combinations over {0,1,1000}, and all products of boundary costs and scores.")
c("P26", SPACE, "Exhaustive over tuples of boundary values (powers of two and neighbours, thirds and maxima) for every sum and product: work scores, mana in and out of up to three outputs with allotments and rewards, native token sums up to 2^256, base token, mana and allotment sums of a transaction, congestion, liveness and reward-rate parameters.")
c("P27", SPACE, "every list size up to 34 (thorough 132) and around powers of two at every position; all lists up to 3 (4) members over values built from the tree's own hashes; every structural, byte and JSON alteration of proofs of lists up to 6 (9) members; output proofs of all output kinds")
c("P28", SPACE, "every address kind, 15 prefixes; all one-character substitutions, insertions, deletions, transpositions and case changes at every position; all two-character substitutions for several (thorough: all kinds of) addresses; every payload type and length with a right checksum; every padding; checksum residues")
c("P35", SPACE, "all identifier kinds: every byte position, every length 0..79 as bytes, hex and text, every character at every position; lists with one bad member; slot, epoch, version and state bytes; decimal and 256-bit numbers at every power of two; every one-character change of the texts; identifier and amount fields of JSON objects")
c("P31", SPACE, "every value with a Clone or Equal method found anywhere in the catalog of valid objects (75 types); every changeable location of both copies; Equal over all pairs within each group of comparable types and over all pairs of one-place variations of each value")
c("P29", SPACE, "the unlock rules, mana generation and decay, block cost and transaction validity are independent reference models; contents of a signer are ed25519 keys")
c("P30", HIST, "the model output is built from the requested fields by the reference encoder")
c("P32", SPACE, "every request method of all five clients x ~100 replies (statuses, bodies, broken connections); every truncation and every missing field of every reply; client options; all plugin sets; all page compositions x faults x page; all validators; single-output queries; block issuer payloads x work targets; event sequences over every subscription")
c("P33", SPACE, "Exhaustive over honest replies for up to 8 (32) outputs and the format's maximum, every output x proof x claimed index x requested identifier of transactions of up to 5 (8) outputs, every combination of parts of two transactions, every bit of the identifier, every byte of every body changed in every bit, all prefixes and gaps, all statuses 200-599 and all proof trees up to depth 2 over 16 hashes. One known finding: the output index is not authenticated by the proof format.")
c("P34", SPACE, "Exhaustive over all products of seeds of lengths around the block sizes, paths and index boundaries against an independent SLIP-10 and BIP-39 derivation, all sequences of up to two (three) uses of a manager, 64 (256) entropies, all ways of holding three keys x all addresses asked for, every bit of key, signature, message and address. One known finding in the bip39 dependency.")
c("P37", SPACE, "Exhaustive over a catalog of objects x every method callable with known arguments, asked in both orders twice, and over the spaces of P01-P12 and P20-P22 (every 7th case of the large ones in the quick tier, every 3rd in the thorough one): inputs dumped before and after, answers compared. Concurrent readers are covered at call granularity by the orders, plus a race-detector pass with four readers of every small object and of transactions under validation.")
c("P36", HIST, "Breadth-first over all ledgers reachable from six starting ledgers within 1 (mixed) to 5 (delegations) transactions (thorough: 2 to 7), each transaction one of several hundred built from the current unspent outputs by a menu with dishonest variants; the verdict is the implementation's, the invariants are kept by independent ghost accounts. All outputs belong to one key.")
c("P38", SCHED, "Exhaustive over all schedules of the miner's goroutines, the caller and a canceller with up to 2 preemptions (3 workers with a canceller, and 4 workers: 1; thorough: one more), at every synchronisation and shared access, for short inputs and targets 0-3, 40, 64 and 65: no deadlock, no leak, no panic, valid results. A fair scheduler is assumed (a thread spinning for 16 steps yields). Products over all targets up to 11 (15), lengths around the hash blocks and impossible targets run uncontrolled.")
c("P25", SCHED, "Exhaustive over all histories of up to 4-6 operations (thorough up to 9) over 3 versions with two parameter variants each, every getter compared with a sequential specification after every step; all schedules with up to 2 preemptions of two callers and 1 of three callers (thorough: one more) from five starts, checked for linearizability against the same specification; all ordered pairs of calls under the race detector. Assumes that all versions share genesis time and durations, and that the committed slot only moves forward.")
c("P39", SPACE, "Exhaustive over products of boundary values of the options of each constraint (6 products, 56 thousand parameter sets; thorough 410 thousand) and of single options in 13 orders. Values within 1e-6 of a floating point limit may go either way; derived floating point values are compared within 1e-6 to 1e-10.")
