NOTE = 'All inputs of the analysed functions are symbolic; a discharged obligation holds for every value of them. Trusted: clang front end, the models of OpenSSL/std calls, the algebraic normaliser. Undecided obligations are listed in the evidence, never reported.'
P('C01', 'Proof challenges commit to the statement and all earlier messages',
  'Every challenge a proof or signature verifier uses is the hash of data that contains the incoming transcript, the complete statement being proved and every prover message sent before that challenge. No part of the statement and no prover message can be changed after the challenge is fixed while the challenge stays the same.',
  ['inputs'], 'for every statement, proof, message and incoming transcript',
  'A missing transcript element leaves every honest proof valid, so tests that prove and verify pass; only an adversarial prover who exploits the freedom would expose it.',
  ['zkp/nizk/*.hpp', 'zkp/bulletproofs/*.hpp', 'signature/*.hpp', 'gadget/range_proof.hpp'],
  [('Fiat-Shamir transcript string', 'transcript_str in every Prove/Verify pair'), ('hash to scalar', 'crypto/hash.hpp Hash::StringToBigInt')], note=NOTE)
P('C02', 'Honest proofs and signatures are always accepted',
  'A proof or signature produced by the prover for a true statement with a correct witness is accepted by the matching verifier (ordinary and fast variants alike), for every key, message, randomness and ring position. Prover and verifier leave the shared transcript in the same state, so composed proofs stay in step.',
  ['inputs'], 'for every key, witness, randomness and transcript; structure sizes enumerated at small values',
  'Tests run a few random instances at one size; a slip that depends on an index, an edge value, a size or the starting transcript is not sampled.',
  ['zkp/nizk/*.hpp', 'zkp/bulletproofs/*.hpp', 'signature/*.hpp', 'gadget/range_proof.hpp'],
  [('prover/verifier pairs', 'Prove and Verify/FastVerify of each proof system'), ('signing', 'signature/schnorr.hpp, signature/accountable_ring_sig.hpp')], note=NOTE + ' Recursion and vector sizes are bounded (inner product 1..4, range proofs up to 4 bits x 2 values, one-out-of-many up to 9 statements; larger in thorough).')
P('C03', 'Verifiers accept only when every verification equation holds',
  'Acceptance of a proof, signature, opening or range gadget implies each verification equation of its specification, over the statement actually supplied and the whole of it, and each required sub-proof. A proof that violates any single equation is rejected.',
  ['inputs'], 'for every statement and every (possibly malicious) proof object',
  'Tests exercise only honest proofs; a dropped or weakened equation still accepts all of them.',
  ['zkp/nizk/*.hpp', 'zkp/bulletproofs/*.hpp', 'signature/*.hpp', 'gadget/range_proof.hpp'],
  [('verification equations', 'Verify/FastVerify/Justify functions'), ('range gadget composition', 'gadget/range_proof.hpp')], note=NOTE)
P('C04', 'Decryption inverts encryption and homomorphic operations act on plaintexts',
  'For every key pair, message and randomness, decrypting an encryption gives back the message for each encryption scheme, including multi-recipient and group-element variants. Re-randomisation and re-encryption keep the plaintext; homomorphic addition, subtraction and scalar multiplication act on the plaintexts and leave their operands unchanged.',
  ['inputs', 'configurations'], 'for every key, message and randomness, on both group back ends; message recovery up to the bounded discrete logarithm solver',
  'Tests decrypt a handful of random messages; a scheme error that cancels on the sampled path, or an altered operand, is not seen.',
  ['pke/*.hpp', 'crypto/ec_point.hpp'],
  [('encryption schemes', 'pke/elgamal.hpp, pke/exponential_elgamal.hpp, pke/twisted_exponential_elgamal.hpp')], note=NOTE + ' The discrete-log search itself is taken by contract.')
P('C05', 'Big integers and curve points compute the operation they name',
  'Every arithmetic, modular, comparison, conversion and vector operation on big integers and curve points returns exactly the mathematical result its name says, for all operand values including zero, negatives, multiples of the modulus and operands that are the same object. Operations do not modify their operands, and fixed-length encodings have exactly the requested length.',
  ['inputs'], 'for every operand value, including aliased operands',
  'Tests call these wrappers on random operands; boundary values, aliasing and operand mutation are not sampled.',
  ['crypto/bigint.hpp', 'crypto/ec_point.hpp', 'utility/polymul.hpp'],
  [('big integer wrapper', 'crypto/bigint.hpp'), ('point wrapper', 'crypto/ec_point.hpp')], note=NOTE + ' OpenSSL BN/EC functions are trusted to compute their documented result.')
P('C06', 'Saved objects load back unchanged and byte strings cover the whole object',
  'Writing any key, ciphertext, proof, parameter set, transaction or filter to a file or buffer and reading it back restores every field, and writing does not change the object. Byte strings that are hashed or signed, and saved transactions without a reader, contain every component of the object, element by element for vectors.',
  ['inputs', 'histories'], 'for every object value, given that the target of a load has its vectors sized like the source where the format stores no length',
  'Round-trip tests exist for a few objects only; a dropped or misplaced field is invisible until the reloaded object is used in the one place that needs it.',
  ['crypto/*.hpp', 'pke/*.hpp', 'zkp/**/*.hpp', 'signature/*.hpp', 'adcp/adcp.hpp', 'filter/*.hpp', 'utility/serialization.hpp'],
  [('stream operators', 'operator<< / operator>> pairs'), ('save/fetch pairs', 'Save*/Fetch* in adcp, ote_oprf'), ('filter images', 'WriteObject/ReadObject')], note=NOTE + ' OKVS::WriteObject/ReadObject is not analysed (raw storage pointers).')
P('C07', 'Ledger changes only through verified transactions and conserves value',
  'A confidential transaction (1-to-1 or 1-to-n) is applied only if it verifies, its parties match the accounts, and it was made for the sender\'s current balance and serial number; otherwise no account changes and nothing is recorded. Verification demands every required sub-proof on the statement the transaction determines: equal amounts for all recipients and the supervisor, amounts and remaining balance in range, refreshed balance correct, sums equal. When applied, the sender loses exactly what the receivers gain, the serial number advances by one, and the supervisor opens the exact amounts. Audit policies accept only the proof of the stated policy, and honest transactions and justifications are accepted.',
  ['histories', 'inputs'], 'for every account state, amount, transaction and (possibly malicious) proof; receiver counts enumerated',
  'Tests push a few honest transactions through; replays, wrong accounts, missing sub-proofs and unbalanced updates never occur in them.',
  ['adcp/adcp.hpp'],
  [('transaction creation and verification', 'ADCP::CreateCTx, ADCP::VerifyCTx'), ('ledger update', 'ADCP::Miner, ADCP::UpdateAccount'), ('supervision and audit', 'ADCP::SuperviseCTx, ADCP::JustifyPolicy, ADCP::AuditPolicy')], note=NOTE + ' Proof systems and the bounded discrete logarithm enter by contract.')
P('C08', 'Oblivious transfer delivers exactly the chosen message at every position',
  'For every length, message list and choice string, the receiver of an oblivious transfer (base OT, the two OT extensions, their random, one-sided and byte-vector variants) ends with exactly one result per position: message 0 where its choice bit is 0 and message 1 where it is 1; one-sided variants deliver exactly the positions chosen. Sender and receiver exchange matching messages in the same order, and inputs are left unchanged.',
  ['inputs', 'configurations'], 'for every number of transfers, choice string, message contents and protocol randomness',
  'Tests use one length and one random choice string; a slip tied to a bit position, a row of the transposed matrix or a length class is not sampled.',
  ['mpc/ot/*.hpp'],
  [('base OT', 'mpc/ot/naor_pinkas_ot.hpp'), ('OT extension', 'mpc/ot/iknp_ote.hpp, mpc/ot/alsz_ote.hpp')], note=NOTE + ' Diffie-Hellman commutativity, AES and hash functions enter as functions of their arguments; bit packing and matrix transposition by contract.')
P('C09', 'The network channel delivers every value intact and never hangs on a dead peer',
  'For every Send/Receive pair of the channel the receiver obtains exactly the value sent, consumes exactly the bytes sent (so later messages stay in step) and the whole value goes on the wire, for every length including empty. The byte pump delivers the bytes in order for every way the operating system splits the transfer, flushes what it sent, and stops with an error when the peer closes instead of looping or inventing data.',
  ['inputs', 'schedules', 'faults'], 'for every value and length; every split of a transfer into partial reads/writes, and every point at which the stream ends',
  'Tests run over loopback, where transfers are rarely split and the peer never dies half-way.',
  ['netio/stream_channel.hpp'],
  [('typed messages', 'NetIO::Send*/Receive*'), ('byte pump', 'NetIO::SendDataInternal, NetIO::ReceiveDataInternal')], note=NOTE + ' The pump is analysed over every composition of 5 bytes (8 in thorough).')
P('C10', 'Private set operations output exactly the specified function of the two sets',
  'For all input sets and set sizes, equal or not: membership tests report for each client item whether it is in the server set; PSI returns exactly the common items, PSU the union without duplicates or padding, the cardinality protocol the number of common items, and the cardinality-sum protocol in addition the sum of the values of exactly the common items. The two parties exchange matching messages, parameters record the sizes they were made for, and inputs are left unchanged.',
  ['inputs', 'configurations'], 'for every pair of sets, every item, value, set size and protocol randomness',
  'Tests run one size with a fixed overlap (and mostly equal set sizes); unequal sizes, boundary positions and items found by only one path are not exercised.',
  ['mpc/psi/*.hpp', 'mpc/pso/*.hpp', 'mpc/rpmt/cwprf_mqrpmt.hpp'],
  [('multi-query private membership test', 'mpc/rpmt/cwprf_mqrpmt.hpp'), ('set operations', 'mpc/pso/mqrpmt_*.hpp, mpc/psi/cwprf_psi.hpp')], note=NOTE + ' OT and membership filters enter by contract; false positives of truncation and filters are outside the property.')
P('C11', 'Both parties of an OPRF, equality test or private-ID evaluate one same function',
  'In every oblivious PRF the client\'s output for item i is what the server computes for the same item under its key, at the position the (possibly permuted) protocol assigns, and depends on nothing but item and key. The private equality test reports 1 exactly for equal pairs, for every row and column permutation. In private-ID both parties derive the same identifier for the same item and obtain the same list of union identifiers.',
  ['inputs', 'configurations'], 'for every item, key, input length and permutation (permutations enumerated at small sizes)',
  'Tests compare one run at one size; a mismatch that needs a particular permutation, index or unequal input length is not sampled.',
  ['mpc/oprf/*.hpp', 'mpc/peqt/*.hpp', 'mpc/pso/mqrpmt_private_id.hpp'],
  [('DDH-based OPRF', 'mpc/oprf/ddh_oprf.hpp'), ('VOLE-based OPRF', 'mpc/oprf/vole_oprf.hpp'), ('equality test', 'mpc/peqt/*.hpp'), ('private-ID', 'mpc/pso/mqrpmt_private_id.hpp')], note=NOTE + ' OKVS encode/decode, VOLE and PSU enter by contract.')
P('C12', 'VOLE outputs satisfy B = C + A*Delta at every position',
  'For every Delta, requested length, number of noise positions, tree depth and punctured position, the vectors the two VOLE parties obtain satisfy B = C + A*Delta in GF(2^128) at every position and have the requested length. The punctured tree evaluation recovers every leaf except the punctured one, both parties apply the same linear code, and each sub-protocol is given at least as many inputs as it is run on.',
  ['inputs', 'configurations'], 'for every Delta, base correlation, seed and noise position (positions and depths enumerated at small values)',
  'Tests run two sizes with random noise positions; last-block shapes, depth edge cases and out-of-range reads that happen to be benign are not seen.',
  ['mpc/vole/*.hpp'],
  [('base VOLE', 'mpc/vole/basevole.hpp'), ('tree expansion', 'mpc/vole/vole.hpp FullEval/PuncEval'), ('silent VOLE', 'mpc/vole/vole.hpp tmpVOLE_A/B, VOLE_A/B'), ('dual code', 'mpc/vole/exconvcode.hpp')], note=NOTE + ' Depths 0..5; block counts and lengths enumerated.')
P('C13', 'Keys, coins, masks and generators are fresh, full-range and independent',
  'Every secret key, encryption or commitment coin, proof mask, blinding factor, protocol key, choice string and derived commitment generator is drawn anew for that one purpose from the cryptographic generator, uniformly over its whole range (scalars below the group order, points and byte strings over their full length). No two of them coincide or are computable from one another or from public constants; only hash-derived public parameters are deterministic.',
  ['inputs', 'histories'], 'for every call of every key generation, encryption, commitment, proof, signature, setup and protocol role',
  'A constant seed, a reused coin or a too-small range gives outputs that pass every functional test; only the distribution over runs differs.',
  ['crypto/*.hpp', 'pke/*.hpp', 'commitment/*.hpp', 'signature/*.hpp', 'zkp/**/*.hpp', 'adcp/adcp.hpp', 'mpc/**/*.hpp'],
  [('random generators', 'crypto/bigint.hpp GenRandomBigIntLessThan, crypto/ec_point.hpp GenRandomECPoint, crypto/prg.hpp PRG::SetSeed'), ('key and coin draws', 'KeyGen/Enc/Prove/Setup and protocol roles')], note=NOTE + ' RAND_bytes/BN_rand_range are trusted; the coins of ADCP::CreateAccount (hash of the identity, public initial balance) are by design and excluded.')
P('C14', 'What is disclosed depends on secrets only under fresh masks of its own',
  'Everything a prover publishes and everything a protocol party sends reveals its secrets only behind masks drawn for that purpose: each proof response is masked by its own uniform value and reduced modulo the group order, no combination of the published responses cancels the masks, committed values carry their own coin, and each message of an OT, OPRF, PSI-type or VOLE role is a hash, pseudo-random value or one-time-padded value of the secret, never the secret or a combination from which masks cancel. Lists a party returns to its peer carry no positions: they are permuted at random or sent as a filter.',
  ['inputs', 'histories'], 'for every witness, input set, choice string and all protocol randomness',
  'Leaking proofs and messages still verify and still give the right output; no functional test looks at what can be learnt from them.',
  ['zkp/**/*.hpp', 'signature/*.hpp', 'mpc/**/*.hpp'],
  [('proof responses', 'Prove functions of each proof system and signature'), ('protocol messages', 'every Send of every protocol role')], note=NOTE + ' Structural masking only: computational hardness (DDH, AES, hashes) and the ideal sub-protocols are assumed.')
P('C15', 'Symmetric layer: AES, PRG, hashes, pads and block helpers compute what they name',
  'For every key, block and length: AES decryption inverts encryption and uses the standard key schedule and round count; the stream generator expands seed and counter without repeating or skipping blocks, and repeated requests continue the stream; each hash entry point hashes exactly the bytes it is given (all of them, nothing else, padding included), byte-for-byte the same through its overloads; one-time-pad encryption and decryption invert each other; block operations (bit tests, set and clear, shifts, comparison, byte and bit conversion, 128-bit multiplication) and bit-matrix transposition compute their named function.',
  ['inputs', 'configurations'], 'for every key, data word and length (lengths and word positions enumerated at small sizes and block boundaries)',
  'Tests cover one key and a few aligned lengths; odd tails, boundary bit positions, unaligned sizes and rarely used overloads are never run.',
  ['crypto/aes.hpp', 'crypto/prg.hpp', 'crypto/prp.hpp', 'crypto/hash.hpp', 'crypto/block.hpp', 'utility/bit_operation.hpp', 'mpc/ot/*.hpp'],
  [('block cipher', 'crypto/aes.hpp'), ('stream generator', 'crypto/prg.hpp'), ('hashing', 'crypto/hash.hpp'), ('blocks and matrices', 'crypto/block.hpp')], note=NOTE + ' Intel intrinsics, SHA256 and OpenSSL digests are trusted to compute their documented result.')
P('C16', 'Membership filters never lose an element and delete exactly one',
  'Every element inserted into a Bloom or cuckoo filter is reported present afterwards, whatever else is inserted and through every insertion interface (single values, strings, points, byte vectors, ranges, containers); a cuckoo filter keeps it until it is deleted, through every relocation including the victim slot. Deleting an element removes one stored copy of it and nothing else. The same element has the same encoding in insertion, query and deletion, all of its bytes count, and a filter starts empty with a table of the size its parameters promise.',
  ['inputs', 'histories'], 'for every element, table content, bucket choice and hash value; insert/delete/query histories by induction over single steps',
  'Tests insert one word list and query a few words; evictions, full buckets, the victim slot, deletion and other element types are not exercised.',
  ['filter/bloom_filter.hpp', 'filter/cuckoo_filter.hpp'],
  [('Bloom filter', 'filter/bloom_filter.hpp'), ('cuckoo filter', 'filter/cuckoo_filter.hpp')], note=NOTE + ' Hash functions are arbitrary functions of the element bytes; false-positive rates are outside the property.')
