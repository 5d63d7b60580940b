PBT = "property-based testing (proptest) against "
TRUST = " Trusts bdk/rust-bitcoin, libsecp256k1 and the Rust compiler; absence of violations outside the generated cases is not shown."
STUBS = " The relay is built with small stand-ins for blockstack-core, reqwest, backoff, derivative and rs_merkle, which are not available offline."
CLARITY = " Trusts the Clarity interpreter in harness/clarity (validated on the contracts' own Clarity tests); absence of violations outside the generated cases is not shown."
CLAIMS = {
 "C01": (PBT + "an independent layout encoder and the parser round trip", "Random recipients, wallet scripts, amounts near every boundary and coin sets on all four networks; every built deposit is compared output by output with an independent encoding, then parsed back." + TRUST),
 "C02": (PBT + "an independent layout and signing-message implementation", "Random withdrawal requests incl. payee equal to wallet and equal output values; layout, recovered signer and parse compared with independent code." + TRUST),
 "C03": (PBT + "an independent message signer, with generated tampering", "Genuine and tampered requests; attribution is compared with an independent recovery over the documented message." + TRUST),
 "C04": (PBT + "an independent layout encoder and decoder", "Random fulfillments compared output by output; random fulfillment payloads decoded against an independent decoder." + TRUST),
 "C05": ("structured fuzzing of transactions against an independent decoder", "Grammar-generated and byte-mutated transactions; acceptance and every parsed field must equal those of an independent decoder, no panic allowed." + TRUST),
 "C06": (PBT + "an independent spend verifier", "Every returned transaction is verified input by input (ownership, no reuse, BIP143 signature over the final outputs) and for value conservation with a fee bound." + TRUST),
 "C07": (PBT + "a permutation model", "Output lists over a tiny alphabet so that coincidences are frequent; result must be the requested prefix plus the rest as a subsequence of the original." + TRUST),
 "C08": (PBT + "an independent payload encoder, and structured fuzzing against an independent decoder", "Every field combination is encoded and read back through readers that split or fail; generated, mutated and truncated payloads must be refused or decoded exactly as the reference does." + TRUST),
 "C09": (PBT + "an independent Taproot commitment computation", "Random payloads and keys: leaves, tree, tweak, address script, witness and outputs recomputed independently (BIP341)." + TRUST),
 "C10": (PBT + "an independent c32check codec, with generated edits of valid texts", "Printed addresses, one- and many-character edits, look-alikes, transpositions, truncations and free Unicode text; acceptance and value must equal the reference's." + TRUST),
 "C11": (PBT + "an independent Crockford base-32 codec", "Byte strings with leading zeroes and texts over the alphabet, look-alikes and arbitrary Unicode." + TRUST),
 "C12": (PBT + "independent wire encoders", "Every wire type, with trailing bytes and readers that return short reads." + TRUST),
 "C13": ("structured fuzzing of byte strings for every wire type against independent decoders", "Valid encodings truncated, spliced and mutated as well as random bytes, through short-reading and failing readers; no panic, and accepted values re-encode to exactly the consumed bytes." + TRUST),
 "C14": (PBT + "an independent grammar", "Grammar-generated names and principals, near misses at the length limit and free text." + TRUST),
 "C15": (PBT + "rust-bitcoin's hash implementations and an independent hex reader", "Data dense around padding boundaries; malformed bytes, hex and JSON." + TRUST),
 "C16": (PBT + "schoolbook arithmetic on bytes", "256- and 512-bit operands built from extreme words, neighbours of powers of two and equal numbers; every operation compared with arithmetic on natural numbers." + TRUST),
 "C17": (PBT + "independently assembled standard Bitcoin scripts", "1 to 40 keys in random order, every threshold, all hash modes and versions." + TRUST),
 "C18": (PBT + "an independent base58check WIF codec", "Random and extreme keys both ways; mutated texts and raw byte strings compared with the reference's acceptance." + TRUST),
 "C19": (PBT + "an independent BIP39/BIP32 derivation", "Random entropy of all five lengths, all networks, indices around the BIP32 limit; mutated mnemonics compared with an independent BIP39 checksum test; every entropy bit of new wallets must vary." + TRUST),
 "C20": (PBT + "the JSON round trip and an independent name grammar", "Wallets and credentials with 1-2 accounts on every network; names in every letter case and near misses." + TRUST),
 "C21": (PBT + "a fake Electrum server and an independent transaction verifier, running the real program", "The sbtc binary is run as a process with generated arguments, coin histories and faults; what it prints is decoded, verified as a spend of existing unspent coins and compared with an independent layout." + TRUST),
 "C22": (PBT + "a fake Electrum server, an independent transaction verifier and an independent signing-message implementation, running the real program", "As C21, with recovery of the drawee's key from the printed transaction." + TRUST),
 "C23": (PBT + "an independent BIP39/BIP32/BIP341 implementation of the whole document, running the real program", "Every printed field for generated mnemonics, networks and account counts; edited mnemonics and network names must be refused exactly when the standard says so." + TRUST),
 "C24": ("structured fuzzing of transaction texts against a recording fake node, running the real program", "What the node received is compared with what was given; malformed texts must send nothing." + TRUST),
 "C25": ("stateful property-based testing (proptest histories) of the engine against a model of the chains", "Generated blocks of operations and near misses, generated order and outcome of every outstanding task; every requested mint is judged against an independent encoding of the deposits, and after a fair continuation each deposit must have exactly one." + TRUST + STUBS),
 "C26": ("stateful property-based testing (proptest histories) of the engine against a model of the chains", "As C25 for burns and fulfillments, with independently signed withdrawal requests; a fulfillment before a reported confirmation of its burn, twice, or never is a violation." + TRUST + STUBS),
 "C27": ("stateful property-based testing with injected restarts, differential against the uninterrupted engine and a model of the chains", "Every prefix of the recorded events is replayed next to the live engine and the states compared; one to four crashes per history, after which nothing created may be created again and every open transaction must be asked for. A second stage runs the whole process against simulated nodes and ends it during requests or within a record of its log." + TRUST + STUBS),
 "C28": (PBT + "an independent Merkle tree, header and transaction serialisation", "Blocks of 2 to 2^14 transactions of all shapes, with and without witnesses; every value sent to the contract is recomputed." + TRUST + STUBS),
 "C29": ("model-based testing (proptest histories) of the contract under a Clarity interpreter", "Histories of calls by owners, former owners, contracts and strangers with boundary amounts; every balance, the supply, owner and key are compared with a model after every call." + CLARITY),
 "C30": ("model-based testing (proptest histories) of the contract under a Clarity interpreter", "Histories of mints and burns with valid, mutated and repeated proofs over generated chains, incl. the same transaction in two blocks; judged by an independent Merkle verifier and a record of used transactions." + CLARITY),
 "C31": (PBT + "an independent Merkle verifier, running both verification contracts under a Clarity interpreter", "Valid proofs and 23 kinds of mutation of transaction, position, path, header and height, and every proof the relay's code produces for generated blocks." + CLARITY),
 "C32": ("model-based property testing of the running relay against simulated chains and nodes, with injected faults", "The relay's main loop runs in virtual time against a fake bitcoind, Electrum server and Stacks node whose contract is the repository's own, run by a Clarity interpreter; single requests fail, lose their reply or race with a new block. The nodes judge every transaction on arrival." + TRUST + STUBS + CLARITY),
 "C33": (PBT + "independent BIP32 derivations and path resolution", "Generated configuration files in generated places, with valid and invalid fields; every setting and key is compared with what the file says." + TRUST + STUBS),
 "C34": ("model-based property testing of the running relay against simulated chains and nodes, with injected faults and process deaths", "The simulation of C32, in which the relay's log is read every simulated second and each record is held against the nodes' chains; at the end every transaction the nodes accepted must be in it with its outcome." + TRUST + STUBS + CLARITY),
 "C35": ("property-based testing of the devnet's scripts, run as they are against a fake Electrum server and a stand-in for docker", "What reached the fake node is verified like C21 and C22 (signatures, layout, accounts of the relay's mnemonic), and that a script which sent nothing, or was refused, failed. docker is a stand-in that runs the real sbtc program." + TRUST),
}
NA = {}
NOTES = "Run ./check.sh --replay <file> to run a saved case again."
