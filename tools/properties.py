HOOKS = {"guard": "--cfg verif_hooks", "enable": "rustflags in /verif/harness/.cargo/config.toml", "source_commits": ["2424779", "10f7f73", "6907805", "9564e13"]}
NOTES = "Every check runs a monitor binary built from /repo's working tree; see DESIGN.md."
MON = "runtime monitoring: reference-model oracle over randomized hostile workloads"
def A(*files, mech="", observe=None):
    """mech: "name @ where; name @ where"."""
    m = [dict(zip(("name", "where"), [y.strip() for y in x.split("@")])) for x in mech.split(";") if x.strip()]
    return dict(files=list(files), mechanism=m, **({"observe_at": observe} if observe else {}))
PROPS = [
dict(id="M01", title="A partial trie is a map, for every family of keys and every history",
  statement="Over every sequence of inserts, extends, deletes and gets, a Merkle Patricia trie behaves as a map from nibble keys to non-empty values: gets, items, keys and values agree with the map after every operation, for keys of any length, including keys that are prefixes of each other. A clone is independent of what it was cloned from. An operation that is refused leaves the trie as it was.",
  over=(["histories", "inputs"], "every history of operations over every family of keys (fixed length, prefix-free, nested prefixes, empty key), on both trie types"),
  why="The unit tests insert random fixed-length keys and delete some of them; nested keys, deletes that restructure around branch values, and clones that diverge are sampled by a handful of cases or none.",
  anchors=A("mpt_trie/src/trie_ops.rs", "mpt_trie/src/partial_trie.rs", mech="recursive trie insert/delete/get @ mpt_trie/src/trie_ops.rs; clone and hash caching @ mpt_trie/src/partial_trie.rs"), technique=MON,
  note="Every operation's observable outcome is compared with a BTreeMap on ~24k histories per quick run; assumes non-empty values and does not insert hash nodes at a key that is a prefix of another."),
dict(id="M02", title="A trie's root is the canonical Ethereum root of its content",
  statement="The hash of a trie is the Merkle Patricia root that the Yellow Paper defines for its content, whatever history led to it, whichever trie type holds it, and however hashes are cached. It never goes stale: not after changes to the trie, to its clones, or after operations that failed part of the way. Values convert to the bytes that are hashed by their RLP encoding.",
  over=(["histories", "inputs", "schedules"], "every content and every history, with hashes taken at any point, on shared clones and from several threads"),
  why="Tests compare a few random tries with another library once built; they do not interleave hashing with mutation of clones or failed bulk operations.",
  anchors=A("mpt_trie/src/trie_hashing.rs", "mpt_trie/src/partial_trie.rs", "mpt_trie/src/trie_ops.rs", mech="node encoding and hashing @ mpt_trie/src/trie_hashing.rs; cached hashes of HashedPartialTrie @ mpt_trie/src/partial_trie.rs"), technique=MON,
  note="Root after every step compared with an independent implementation of the definition and with the eth_trie crate."),
dict(id="M03", title="Partial tries keep the root, hold what is needed, and hide the rest",
  statement="A subset of a trie made for a set of keys has the same root, holds every node on the paths of these keys (present or absent), and has everything else replaced by hashes. Reads and writes of these keys on the subset, including deletes under either strategy for orphaned hash nodes, give the result they give on the whole trie, or are refused; they never give another. Reading through a hash node is reported as such.",
  over=(["inputs", "histories"], "every trie, every set of keys, every later sequence of operations on both"),
  why="Tests check that a few random subsets have the same root and contain their keys; they do not compare with the minimal subset, nor run the same updates on both.",
  anchors=A("mpt_trie/src/trie_subsets.rs", "mpt_trie/src/special_query.rs", "mpt_trie/src/trie_ops.rs", mech="tracking which nodes to keep, and hashing the rest @ mpt_trie/src/trie_subsets.rs; OnOrphanedHashNode @ mpt_trie/src/trie_ops.rs"), technique=MON,
  note="Subsets are compared with a specified minimal subset; subset and whole trie are updated in lockstep."),
dict(id="M04", title="Nibble sequences obey sequence algebra, and their encodings round-trip",
  statement="Nibble sequences of up to 64 nibbles behave as lists: every way to build, split, join, slice, pop, compare or search one agrees with the same operation on the list, preserving leading zeros. Hex-prefix, hex string, byte and integer codings are each other's inverse on everything they accept, and malformed or over-long inputs are refused.",
  over=(["inputs"], "every sequence of up to 64 nibbles, every index, every input to a decoder"),
  why="Tests use a few short literals, rarely with leading zeros or at the length limit.",
  anchors=A("mpt_trie/src/nibbles.rs", mech="Nibbles packed representation @ mpt_trie/src/nibbles.rs"), technique=MON,
  note="~9 million comparisons with a list model per quick run."),
dict(id="M05", title="Trie diffs, path queries and statistics report what is there",
  statement="A diff of two tries reports no difference exactly when they are equal, and a reported difference points at keys, values and hashes that the tries have there. A path query returns the nodes on the way to its key, as far as the trie has them. Statistics count the nodes of the trie.",
  over=(["inputs"], "every pair of tries, every key"),
  why="Tests diff a few hand-made tries; completeness over every kind of difference (branch values in particular) is not tested.",
  anchors=A("mpt_trie/src/debug_tools/diff.rs", "mpt_trie/src/debug_tools/query.rs", "mpt_trie/src/debug_tools/stats.rs", "mpt_trie/src/debug_tools/common.rs", mech="latest and depth-first diff @ mpt_trie/src/debug_tools/diff.rs; path walk @ mpt_trie/src/special_query.rs"), technique=MON,
  note="Reports are checked against independent traversals; the number of reported points is capped by the tool (10) and depth is unspecified."),
dict(id="M06", title="Tries built from account proofs have the right root, keys and storage",
  statement="A trie built from Merkle proofs has the root that the proofs are for, holds exactly the proven keys with their values (or their proven absence), and stands for the rest by hashes, whatever the order and overlap of the proofs. This includes proofs with nodes that are embedded in their parent because they are short, and the variants of short nodes that later deletions may need. Bytes that are not a proof node are refused.",
  over=(["inputs"], "every trie, every set of proven keys, in every order"),
  why="The repository has one test of this builder's helper; embedded nodes are not covered.",
  anchors=A("mpt_trie/src/builder.rs", mech="PartialTrieBuilder @ mpt_trie/src/builder.rs"), technique=MON,
  note="Proofs are generated by independent code and by the eth_trie crate."),
dict(id="S01", title="The sparse Merkle tree is a map with a canonical root",
  statement="Over every sequence of sets, deletions and gets, the sparse Merkle tree behaves as a map from 256-bit keys to values in which absent keys read as zero, and its root is the one that its content determines, whatever order of operations led to it. This holds for keys that share any number of leading path bits. Clones are independent.",
  over=(["histories", "inputs"], "every history over every family of keys, including keys that share up to 255 bits of their paths"),
  why="Tests add and remove random keys, whose paths part within a few bits, and mostly check that removal restores the root.",
  anchors=A("smt_trie/src/smt.rs", "smt_trie/src/db.rs", "smt_trie/src/utils.rs", mech="Smt::set/get/delete @ smt_trie/src/smt.rs"), technique=MON,
  note="The root is recomputed from the definition after every step; Poseidon is trusted."),
dict(id="S02", title="Serialized and pruned sparse Merkle trees keep root and needed content",
  statement="Serializing a sparse Merkle tree for a set of keys gives exactly the nodes on the paths of these keys, with everything else replaced by its hash, in the documented format, and hashing the serialization gives the tree's root. A tree rebuilt from such hashes and leaves has the same root, and stays in step with the whole tree under updates to the keys it knows. Putting a hash where something is already is refused.",
  over=(["inputs", "histories"], "every tree, every set of keys, every later sequence of updates"),
  why="Tests hash the serialization of whole random trees and of one pruned tree.",
  anchors=A("smt_trie/src/smt.rs", mech="serialize_and_prune, set_hash, hash_serialize @ smt_trie/src/smt.rs"), technique=MON,
  note="An independent parser reads the serialization and compares it with the specified tree. Removals that would leave a hashed-out node alone are not generated (they need that node)."),
dict(id="S03", title="SMT keys, bytecode hashes, paths and conversions follow their definition",
  statement="The keys of balance, nonce, code, code length and storage slots, and the hash of contract bytecode, are those that the Hermez definition gives for every address, slot and code, so that different ones never share a key. Paths behave as lists of bits, splitting and joining keys are inverse at every depth, and conversions between hashes and integers are exact.",
  over=(["inputs"], "every address, slot, bytecode length and content, path and depth"),
  why="Tests fix two bytecode hashes and no derived key.",
  anchors=A("smt_trie/src/keys.rs", "smt_trie/src/code.rs", "smt_trie/src/bits.rs", "smt_trie/src/utils.rs", mech="key derivation @ smt_trie/src/keys.rs; bytecode sponge @ smt_trie/src/code.rs; Key::split, Key::join @ smt_trie/src/smt.rs"), technique=MON,
  note="Compared with an independent byte-wise statement of the definitions over the same Poseidon permutation."),
dict(id="E01", title="A block's transactions have the effect that Ethereum defines",
  statement="For every block of transactions on every world state, executing the transactions gives the state root, the receipts (status, cumulative gas, logs, bloom), the transaction root and the gas used that Ethereum (Cancun) defines: every opcode with every operand, calls of all kinds, creations and collisions, self-destruction, transient storage, refunds, access lists, blob and legacy transactions, the beacon roots contract, withdrawals. A block that is valid can always be executed, however its programs behave.",
  over=(["inputs", "histories"], "every world state, every sequence of transactions of a block and every way to split it in batches"),
  why="Existing tests run a handful of fixed transfers, contracts and opcodes; combinations of nested calls, reverts, creations, collisions, jumps and storage histories are not sampled.",
  anchors=A("evm_arithmetization/src/cpu/kernel/asm", "evm_arithmetization/src/witness/operation.rs", "evm_arithmetization/src/witness/transition.rs", "evm_arithmetization/src/generation/prover_input.rs", "evm_arithmetization/src/generation/mpt.rs", "evm_arithmetization/src/generation/linked_list.rs", mech="kernel program @ evm_arithmetization/src/cpu/kernel/asm; instruction semantics @ evm_arithmetization/src/witness/operation.rs; linked lists of accounts and slots @ evm_arithmetization/src/generation/linked_list.rs; jump destination analysis @ evm_arithmetization/src/generation/prover_input.rs"), technique=MON,
  note="The kernel is run by the real interpreter on generated blocks (~1100 batches, ~100k EVM instructions per quick run) and compared with a reference EVM written independently from the specifications."),
dict(id="E02", title="Gas, failures and reverts: transactions that stop anywhere",
  statement="Wherever a transaction stops - out of gas at any instruction, invalid opcode, bad jump, stack under- or overflow, revert, write in a static call, at any depth of calls - exactly what Ethereum defines is undone and kept: state, logs, refunds, gas, warm addresses and slots, created and destroyed accounts. Such a transaction can always be executed and proven, and never exhausts resources.",
  over=(["inputs", "crash_points"], "every program, and every instruction at which it may stop"),
  why="Tests check single failures in hand-made programs; the journal has to undo every combination at every point.",
  anchors=A("evm_arithmetization/src/cpu/kernel/asm/journal", "evm_arithmetization/src/witness/gas.rs", "evm_arithmetization/src/witness/util.rs", "evm_arithmetization/src/cpu/kernel/interpreter.rs", mech="journal and checkpoints @ evm_arithmetization/src/cpu/kernel/asm/journal; gas of simple opcodes @ evm_arithmetization/src/witness/gas.rs; exceptions @ evm_arithmetization/src/generation/state.rs"), technique=MON,
  note="Gas limits are cut so that transactions stop at, one before or one after a chosen instruction of the reference run; other programs are full of faults."),
dict(id="E03", title="Precompiled contracts compute what Ethereum defines, for any input",
  statement="Each precompiled contract (ecrecover, SHA-256, RIPEMD-160, identity, modexp, BN254 addition, multiplication and pairing, BLAKE2f, KZG point evaluation), called with any input of any length, any gas and in any way, gives the output, failure and gas cost that Ethereum defines.",
  over=(["inputs"], "every input, length, amount of gas and kind of call"),
  why="Tests use published vectors of well-formed inputs; malformed points, off-curve and off-subgroup points, short and long inputs, huge modexp lengths and exact gas are hardly covered.",
  anchors=A("evm_arithmetization/src/cpu/kernel/asm/core/precompiles", "evm_arithmetization/src/cpu/kernel/asm/curve", "evm_arithmetization/src/cpu/kernel/asm/hash", "evm_arithmetization/src/cpu/kernel/asm/bignum", "evm_arithmetization/src/extension_tower.rs", "evm_arithmetization/src/curve_pairings.rs", mech="precompiles @ evm_arithmetization/src/cpu/kernel/asm/core/precompiles; prover inputs for field arithmetic @ evm_arithmetization/src/generation/prover_input.rs; field towers @ evm_arithmetization/src/extension_tower.rs"), technique=MON,
  note="Compared with independent reference implementations; ~430 batches per quick run with a mutation-heavy input generator per precompile."),
dict(id="E04", title="False claims about a block, and invalid transactions, are refused",
  statement="Execution accepts no claim but the true one: a state, transaction or receipt root, a gas count, a block number, a witness trie or a contract code that is not what the block really has is refused. A transaction that is not valid (signature, chain, nonce, funds, gas, fees, blobs, encoding) is never executed: it changes nothing, and nothing is charged for it.",
  over=(["inputs"], "every block, every false claim about it, every way for a transaction to be invalid"),
  why="Tests run true claims; that a wrong one fails is tested for a handful of cases.",
  anchors=A("evm_arithmetization/src/cpu/kernel/asm/main.asm", "evm_arithmetization/src/cpu/kernel/asm/transactions", "evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm", "evm_arithmetization/src/cpu/kernel/asm/rlp", "evm_arithmetization/src/generation/mod.rs", mech="final root comparison @ evm_arithmetization/src/cpu/kernel/asm/main.asm; transaction decoding and validity @ evm_arithmetization/src/cpu/kernel/asm/transactions; initial trie hashing @ evm_arithmetization/src/cpu/kernel/asm/mpt"), technique=MON,
  note="Each accepted block is run again with one claim falsified, or with one invalid transaction of 23 kinds forced into it. Two known findings. The bloom of the block header is not checked by the kernel, and is left out."),
dict(id="C01", title="Witnesses of honest executions satisfy every constraint and lookup",
  statement="The tables that witness generation produces for a segment of any valid execution satisfy every constraint of every table on every pair of consecutive rows (first, last and wrap-around included), every lookup within a table, and every cross-table lookup together with the memory operations that the public values account for. A table that takes part in an execution is said to be in use. So an honest prover is never stuck with an execution that it cannot prove.",
  over=(["inputs"], "every block, contract, precompile call and fault, cut into segments of any length"),
  why="A proof of a test block shows this for the rows of that block; there are about forty such tests, each of a few transactions.",
  anchors=A("evm_arithmetization/src/witness", "evm_arithmetization/src/generation/mod.rs", "evm_arithmetization/src/cpu", "evm_arithmetization/src/memory", "evm_arithmetization/src/arithmetic", "evm_arithmetization/src/byte_packing", "evm_arithmetization/src/keccak", "evm_arithmetization/src/keccak_sponge", "evm_arithmetization/src/logic.rs", "evm_arithmetization/src/all_stark.rs", mech="trace generation @ evm_arithmetization/src/witness/traces.rs; constraints @ evm_arithmetization/src/cpu/cpu_stark.rs; cross-table lookups @ evm_arithmetization/src/all_stark.rs"), technique="runtime monitoring: online check of every constraint and lookup over generated traces of randomized executions",
  note="The monitor evaluates the constraints themselves on the rows (no proof is made), ~10 million rows per quick run."),
dict(id="C02", title="The constraints leave a witness no freedom that they did not leave",
  statement="In every kind of row that a table can have (each operation, in each of its cases), a change of any one cell of an honest witness is refused by some constraint, lookup or cross-table lookup, except where the value has no meaning; and together these determine every cell that has one. So no operation, memory access, hash or transfer between tables can be proven with another outcome than its own.",
  over=(["inputs"], "every kind of row of every table (about 500 kinds), every cell, every change"),
  why="Tests prove honest witnesses, which satisfy fewer constraints as well as all of them: dropping or weakening a constraint breaks none.",
  anchors=A("evm_arithmetization/src/arithmetic", "evm_arithmetization/src/cpu", "evm_arithmetization/src/byte_packing/byte_packing_stark.rs", "evm_arithmetization/src/keccak", "evm_arithmetization/src/keccak_sponge", "evm_arithmetization/src/memory/memory_stark.rs", "evm_arithmetization/src/memory_continuation", "evm_arithmetization/src/logic.rs", "evm_arithmetization/src/all_stark.rs", mech="constraints @ evm_arithmetization/src/cpu/cpu_stark.rs; arithmetic gadgets @ evm_arithmetization/src/arithmetic/addcy.rs; memory ordering @ evm_arithmetization/src/memory/memory_stark.rs; cross-table lookups @ evm_arithmetization/src/all_stark.rs"), technique="runtime monitoring: refusal of tampered rows of generated traces, and rank of the constraints at them, against a recorded reference",
  note="What is refused is compared with a reference recorded on this tree (520 kinds of rows); refusing more is fine, refusing less is a violation. It shows that no freedom is added, not that the reference leaves none."),
dict(id="W01", title="Worlds sent to the trace decoder arrive as they were sent",
  statement="A state sent to the decoder, in whichever format (separate tries, or the wire format of type 1 or type 2) and with whatever part replaced by its hash, arrives as it was sent: same root, the same accounts with nonce, balance, code and storage, the same hidden nodes. Code that comes with it is kept. Bytes that are not of the format are refused.",
  over=(["inputs"], "every world, every way to prune it, every encoding of it, and every byte string that is none"),
  why="Tests decode a handful of recorded witnesses and compare their roots.",
  anchors=A("trace_decoder/src/wire.rs", "trace_decoder/src/type1.rs", "trace_decoder/src/type2.rs", "trace_decoder/src/core.rs", "evm_arithmetization/src/world.rs", "evm_arithmetization/src/tries.rs", mech="instruction parser @ trace_decoder/src/wire.rs; stack machine @ trace_decoder/src/type1.rs; pre-order fold @ trace_decoder/src/type2.rs; trie construction @ evm_arithmetization/src/tries.rs"), technique=MON,
  note="Worlds are encoded by independent code; a strict reference reader judges ~50k mutated byte strings per quick run. Laxer CBOR encodings than the canonical one may be accepted."),
dict(id="W02", title="The decoder turns block traces into batches that prove the block",
  statement="For every block trace, the decoder gives batches whose transactions, gas, withdrawals, state, transaction and receipt tries follow each other without gap from the start to the end of the block; each has the roots that Ethereum defines before and after it, holds every account, slot and code that its transactions need (in a partial trie with the right root) and no more, and is accepted by execution. This includes failed transactions, accounts created, destroyed and created again, deleted slots, blocks that are empty or have one transaction, and pruned witnesses.",
  over=(["inputs", "histories"], "every block, every batch size, every witness that shows enough"),
  why="Tests decode recorded blocks of main net, where transactions that are rare there (creations in failed transactions, deletions that collapse nodes, withdrawals to new accounts) do not occur.",
  anchors=A("trace_decoder/src/core.rs", "trace_decoder/src/interface.rs", "evm_arithmetization/src/world.rs", "evm_arithmetization/src/tries.rs", mech="batching and trie updates @ trace_decoder/src/core.rs; masks of what is needed @ evm_arithmetization/src/world.rs; node deletions that need more @ evm_arithmetization/src/tries.rs"), technique=MON,
  note="Blocks run on the independent reference EVM are described as a node would; each batch is compared field by field, and executed by the kernel (~900 batches per quick run)."),
dict(id="V01", title="A segment proof stands for its public values and tables, nothing else",
  statement="A segment of any execution can be proven, and its proof verifies, both by itself and recursively. A proof verifies only for the public values that it was made for: roots, block metadata, block hashes, transaction and gas counters, checkpoint, registers and memory, before and after. Every one of them enters the challenges of the proof, or is compared with what the tables committed to. No table can be left out, exchanged, taken from another segment, claimed to be unused while it is not (or the other way round), or proven under other challenges; the lookups between the tables, and between memory and public values, have to balance; and the first segment starts with the initial memory.",
  over=(["inputs", "histories"], "every segment of every execution, every public value, every way to tamper with a proof or with what the tables claim"),
  why="Tests prove a few dozen honest segments. That a false statement is refused is not tested at all, and every check that is left out of the verifier or of the recursive circuit accepts honest proofs all the same.",
  anchors=A("evm_arithmetization/src/prover.rs", "evm_arithmetization/src/verifier.rs", "evm_arithmetization/src/get_challenges.rs", "evm_arithmetization/src/recursive_verifier.rs", "evm_arithmetization/src/fixed_recursive_verifier.rs", "evm_arithmetization/src/proof.rs", mech="verifier of a segment @ evm_arithmetization/src/verifier.rs; transcript @ evm_arithmetization/src/get_challenges.rs; root circuit @ evm_arithmetization/src/fixed_recursive_verifier.rs; memory of public values @ evm_arithmetization/src/recursive_verifier.rs"),
  technique="runtime monitoring: acceptance of honest, tampered and forged segment proofs against a specification of what has to agree",
  note="~10 real segments are proven and tampered with (~1000 ways); the root circuit is given ~300 sets of tables with any claims, from circuits that accept any public inputs. Test parameters; plonky2 and starky are trusted."),
dict(id="R01", title="An aggregated proof stands for a gapless chain of blocks from its checkpoint",
  statement="Aggregating proofs gives a proof exactly when they follow each other: segments of a batch (same batch, registers and memory handed on), batches of a block (same block, roots and transaction and gas counters handed on, each from the start of the machine to its end), the block as a whole (counters from zero to the gas used of its header, empty transaction and receipt tries before it), and blocks of a chain (number, time, state root, chain, window of hashes, checkpoint). The result exposes the public values of the chain from its first to its last element. The wrapper of a chain exposes chain, checkpoint, and new state, and a pair hashes what its sides expose. No proof of another circuit, of another layer, or made with a foreign verifying key takes the place of a child.",
  over=(["inputs", "histories"], "every chain of segments, batches and blocks, every link between them, every value that may break it"),
  why="Tests aggregate a few honest chains. A link that the circuits do not check accepts those just as well.",
  anchors=A("evm_arithmetization/src/fixed_recursive_verifier.rs", "evm_arithmetization/src/proof.rs", "evm_arithmetization/src/recursive_verifier.rs", mech="aggregation circuits of each layer @ evm_arithmetization/src/fixed_recursive_verifier.rs; connections of public values @ evm_arithmetization/src/proof.rs"),
  technique="runtime monitoring: acceptance of chains with stand-in children against a specification of the links",
  note="Each layer's circuit is given children with any public values, from circuits without constraints of the shape of the layer below (through a hook); ~700 chains with one broken link, or none, per quick run. Test parameters; plonky2 is trusted."),
]
