TODO = "not decided yet: its check is still being built"
SMALL = "Bounded: decided for all values at the small prime fields, sizes and operand shapes listed in the evidence file; larger fields are outside the claim. Trusts the prime-field axioms of the ff/pairing crates, the engine's expression semantics and z3 (cvc5 cross-checks every unsat answer in the thorough tier; every model is replayed on the compiled code)."

KNOTE = "Bounded: decided by CBMC on the compiled code for all values at the sizes listed in the evidence file. The big-integer crate and the Blake2 compression are replaced by the exact/uninterpreted stand-ins described in DESIGN.md; trusts Kani/CBMC and those stand-ins. Every counterexample is replayed on a native build before it is reported."
GROUND = "closed SMT queries (QF_NIA, z3, cvc5 cross-check) over the parameters the compiled library returns"
BOTH = SYMX + "; byte-level encodings: " + KANI

prop("C01", "Circuit number arithmetic computes field arithmetic",
 "For circuit numbers of every shape (constants, allocated signals, linear combinations), addition, subtraction, negation, multiplication, squaring and division with circuit numbers or native numbers on either side yield a number that equals the field result in every satisfying assignment, and the value it carries equals the value of its linear combination. Combining only constants yields a constant. An honest prover can always complete the computation (division: for a non-zero divisor).",
 ["inputs","programs"], "all field values of all operands, all operand shapes (constant, wire, linear combination, shared wires), all assignments of the auxiliary wires an adversarial prover may choose",
 "The existing tests run each gadget once on random honest values; they never look at the constraints with a dishonest witness and do not reach constant/signal operand mixes (constant divided by signal was wrong).",
 ["src/circuit/num.rs"], [("CNum operator impls and the linear combination merge","src/circuit/num.rs")], ["constraints handed to ConstraintSystem::enforce","CNum::get_value","CNum::as_const"], True, SMALL)
prop("C02", "Zero, equality, bit and constant assertions mean exactly that",
 "In every satisfying assignment is_zero and is_eq return the exact truth value, and assert_zero, assert_nonzero, assert_eq, assert_bit and assert_const are satisfiable exactly when the asserted fact holds. Whenever the fact holds an honest prover succeeds, and constants that violate an assertion are refused.",
 ["inputs"], "all field values, constant and signal operands, all adversarial auxiliary witnesses",
 "Tests only exercise honest witnesses, so a missing constraint (for instance in the inverse trick of is_zero) is invisible to them.",
 ["src/circuit/num.rs","src/circuit/bool.rs","src/core/signal.rs"], [("is_zero / assert_* gadgets","src/circuit/num.rs")], ["constraints","returned CBool"], True, SMALL)
prop("C03", "Bit decomposition and comparison gadgets are exact and unforgeable",
 "Decomposing a number into n bits yields, in every satisfying assignment, boolean bits whose weighted sum is the number (n smaller than the field size: only numbers below 2^n are accepted), the strict decomposition yields exactly the canonical bits, and recomposition inverts decomposition. Comparing a bit string with a constant returns exactly whether the encoded integer exceeds the constant. Honest provers succeed on every representable number.",
 ["inputs"], "every number, every bit count up to the field size, every constant that fits, constant and signal bits, all adversarial witnesses (small fields); every number and adversarial witness of the two shipped 254/255-bit fields at the listed lengths and constants",
 "Tests decompose one random number with the honest witness and compare one pair; aliasing (value + modulus) and boundary constants are never reached.",
 ["src/circuit/bitify.rs","src/native/num.rs"], [("c_into_bits_le, c_into_bits_le_strict, c_from_bits_le, c_comp_constant","src/circuit/bitify.rs")], ["constraints","returned bits"], True, SMALL)
prop("C04", "Conditional selection and table lookup return the selected value",
 "switch (on numbers and booleans) returns the first branch when the selector is one and the second when it is zero, in every satisfying assignment, for constant and signal selectors and branches. The 3-bit multiplexer returns in every column the table entry addressed by its three bits, least significant first.",
 ["inputs"], "all selector, branch and table values, constant and signal shapes, all adversarial witnesses",
 "One random honest run per gadget; mixed constant/signal shapes and all eight addresses with every table are not reachable by the tests.",
 ["src/circuit/num.rs","src/circuit/bool.rs","src/circuit/mux.rs"], [("CNum::switch, CBool::switch, c_mux3","src/circuit/num.rs, src/circuit/mux.rs")], ["constraints","returned signals"], True, SMALL)
prop("C05", "Composite signals and public inputs preserve every component in order",
 "For numbers, booleans, points, tuples, fixed-size vectors and derived structs, allocation, constants, value reading, equality, constant assertions, switching and public-input export act on every component, in declaration order, with no component dropped, duplicated or left unconstrained. Exporting public inputs binds input k to component k. Reading the value or constant of a signal with missing components returns nothing instead of failing.",
 ["inputs","programs"], "all component values, constant/signal shapes, all adversarial witnesses, derived named and tuple structs",
 "There is no test of derived or composite signals beyond one honest use; dropping a component's constraint is invisible to honest runs.",
 ["src/core/signal.rs","src/circuit/num.rs","src/circuit/bool.rs","src/circuit/ecc.rs","src/circuit/poseidon.rs","fawkes-crypto_derive/src/lib.rs"], [("Signal impls for SizedVec and tuples","src/core/signal.rs"),("derive(Signal)","fawkes-crypto_derive/src/lib.rs")], ["constraints","allocated inputs","Signal::get_value","Signal::as_const"], True, SMALL)
prop("C06", "Circuit curve operations implement the twisted Edwards group",
 "For points on the curve, circuit addition, doubling, cofactor multiplication and conversion between Edwards and Montgomery form yield the group result in every satisfying assignment (Montgomery addition: for distinct abscissas). The on-curve assertion is satisfiable exactly for points of the curve. Honest provers always succeed on points in the subgroup for the operations' documented domains.",
 ["inputs"], "all points of each small complete twisted Edwards curve, constant and signal operands, all adversarial witnesses",
 "Tests run random points with honest witnesses on one curve; exceptional points (identity, order 2/4/8) and forged auxiliary wires are not covered.",
 ["src/circuit/ecc.rs"], [("CEdwardsPoint and CMontgomeryPoint methods","src/circuit/ecc.rs")], ["constraints","returned points"], True, SMALL)
prop("C07", "Circuit scalar multiplication equals the group scalar multiple",
 "Multiplying a subgroup point (constant or signal) by a scalar given as a little-endian bit string yields, in every satisfying assignment, the point added to itself that many times, for every bit string including zero, and honest provers always succeed.",
 ["inputs"], "every bit string up to the listed lengths, every subgroup base point, constant and signal base, constant and signal bits, all adversarial witnesses",
 "Tests multiply one random point by one random scalar; window boundaries, scalar zero and short scalars are not hit.",
 ["src/circuit/ecc.rs","src/circuit/mux.rs"], [("CEdwardsPoint::mul","src/circuit/ecc.rs")], ["constraints","returned point"], True, SMALL)
prop("C08", "Subgroup checks and point decompression accept exactly subgroup points",
 "The circuit subgroup assertion is satisfiable exactly for points of the prime-order subgroup. Circuit decompression of an abscissa is satisfiable exactly when a subgroup point with that abscissa exists and then yields that unique point, and honest provers succeed on every such abscissa.",
 ["inputs"], "every pair of coordinates / every abscissa of each small curve, all adversarial witnesses (including the divided point)",
 "Tests only decompress valid points honestly; small-order components and forged preimages are never tried.",
 ["src/circuit/ecc.rs","src/native/ecc.rs"], [("assert_in_subgroup, subgroup_decompress","src/circuit/ecc.rs")], ["constraints","returned point"], True, SMALL)
prop("C09", "Hash-to-curve is the same subgroup point natively and in the circuit",
 "Mapping a field element to the curve natively always returns a point of the prime-order subgroup determined by the element alone, whichever square root the field library returns. The circuit version is satisfiable with exactly that point and no other, and honest provers succeed (the element -1 is excluded).",
 ["inputs"], "every field element, every parameter u listed, both square-root conventions, all adversarial witnesses",
 "Tests compare one random element; the two-candidate selection and sign normalisation depend on rare branches and on forged witnesses.",
 ["src/circuit/ecc.rs","src/native/ecc.rs"], [("from_scalar","src/circuit/ecc.rs, src/native/ecc.rs")], ["constraints","returned point"], True, SMALL)
prop("C10", "Poseidon hash agrees natively, in the circuit and with its definition",
 "The native hash equals the sponge-free Poseidon permutation of the given shape (round constants added, fifth-power S-boxes on the full or first-only state, matrix multiplication; inputs padded with zeros; first state element returned) for every parameter set and input. The circuit hash equals it in every satisfying assignment, with and without salt and for constant inputs, and honest provers succeed. Wrong input counts are refused.",
 ["inputs","configurations"], "all inputs, all round constants and matrices (symbolic) at the listed shapes, all adversarial witnesses",
 "Tests compare circuit and native on random inputs for one shape, so a common error or an unconstrained S-box is invisible.",
 ["src/native/poseidon.rs","src/circuit/poseidon.rs"], [("poseidon, c_poseidon","src/native/poseidon.rs, src/circuit/poseidon.rs")], ["returned hash","constraints"], True, SMALL)
prop("C11", "Merkle roots agree natively, in the circuit and with the tree definition",
 "The root of a Merkle proof is the iterated two-to-one hash with the running value on the right when the path bit is one and on the left otherwise, natively and in every satisfying assignment of the circuit. The root of a leaf list is that of the binary tree over the zero-padded leaves, natively and in the circuit. Honest provers always succeed.",
 ["inputs"], "all leaves, siblings and paths at the listed depths and leaf counts, all adversarial witnesses",
 "Tests run one random proof and one random tree; swapped siblings at one level or padding errors for particular leaf counts survive.",
 ["src/native/poseidon.rs","src/circuit/poseidon.rs"], [("poseidon_merkle_proof_root, poseidon_merkle_tree_root and circuit versions","src/native/poseidon.rs, src/circuit/poseidon.rs")], ["returned root","constraints"], True, SMALL)
prop("C12", "EdDSA signatures verify exactly when the signature equation holds",
 "Signing is deterministic, with the personalised hash of the secret key and the message as its nonce (so the nonce varies with both), and the signature verifies under the public key for every message. Native verification accepts exactly when both the commitment and the public key decode to subgroup points and the equation s G = R + H(R, A, M) A holds. The verification circuit outputs exactly that truth value in every satisfying assignment and honest provers succeed for decodable inputs.",
 ["inputs"], "all secret keys and messages listed, all responses and messages, decodable and undecodable points, all adversarial witnesses",
 "Tests verify one honest signature; acceptance of wrong signatures and forged circuit witnesses are never tried.",
 ["src/native/eddsaposeidon.rs","src/circuit/eddsaposeidon.rs"], [("eddsaposeidon_sign, eddsaposeidon_verify, c_eddsaposeidon_verify","src/native/eddsaposeidon.rs, src/circuit/eddsaposeidon.rs")], ["returned booleans","constraints"], True, SMALL)
prop("C13", "The generated circuit does not depend on the witness",
 "Every gadget generates the same wires, constraints and output wiring whether it runs without a witness, with some values missing, with a valid witness or with an invalid one (as long as the run completes), so keys generated without a witness fit every proof. Circuit generation without a witness never fails.",
 ["inputs","programs"], "every gadget of the library, all witness values including invalid ones",
 "Tests never compare the constraint system of a witness-less run with a proving run; a data-dependent constraint only shows for particular values.",
 ["src/circuit/num.rs","src/circuit/bitify.rs","src/circuit/mux.rs","src/circuit/ecc.rs","src/circuit/poseidon.rs","src/circuit/eddsaposeidon.rs"], [("all gadgets","src/circuit")], ["constraints"], True, SMALL)
prop("C14", "The test constraint system accepts exactly satisfied constraints",
 "The testing constraint system panics on a constraint whose three operand values are known exactly when the product of the first two differs from the third. It hands out distinct variables, remembers the value given to each, and counts every constraint.",
 ["inputs","histories"], "all operand values and all combinations of missing values; sequences of allocations and constraints",
 "The library's own tests rely on it as their oracle; nothing tests the oracle.",
 ["src/core/cs.rs"], [("TestCS","src/core/cs.rs")], ["panic on unsatisfied constraint","num_constraints","variables"], True, SMALL)
prop("C15", "Conversions between field elements, integers, bytes and bits are exact",
 "Converting booleans, signed and unsigned machine integers and big integers to a field element yields the integer reduced modulo the field order (negative integers as additive inverses), and reading an element back as an integer, as big-endian bytes or as bits (both orders) yields its canonical representative. Round trips are the identity; converting to another field reduces the canonical representative; an element above 64 bits is refused as a machine integer; only zero and one convert to booleans.",
 ["inputs"], "all machine integers, all elements, all bit positions across machine words",
 "Tests convert a few random elements; word boundaries, negative extremes (the minimum integers overflowed) and multiples of the order are not sampled.",
 ["src/native/num.rs"], [("From/Into impls, BitIteratorLE, into_binary_be, from_binary_be, from_other, into_other","src/native/num.rs")], ["returned values"], True, KNOTE, tech=KANI)
prop("C16", "Native number operators are field operations; encodings are canonical",
 "Native number operators in all by-value, by-reference and assigning forms compute the field operation, and division by zero is refused. Binary serialization writes the canonical little-endian representative in a fixed width, reading it back is the identity, and any representative not below the field order or any short input is rejected. The textual serialization is the canonical decimal string and reading rejects anything not below the field order.",
 ["inputs"], "all elements, all byte strings of the encoding width",
 "Tests use random valid elements; non-canonical encodings near the order are never sampled.",
 ["src/native/num.rs","src/macros.rs"], [("operator impls, Borsh and serde impls","src/native/num.rs")], ["returned values","deserialization errors"], True, SMALL, tech=BOTH)
prop("C17", "Fixed-size vectors always have their declared length",
 "A fixed-size vector can only be built, collected or deserialized with exactly its declared number of elements; other lengths are refused. Elements keep their order through construction, iteration, indexing, serialization and deserialization.",
 ["inputs"], "all lengths and contents within the bounds",
 "No test deserializes or collects a wrong number of elements (deserialization accepted any number).",
 ["src/core/sizedvec.rs"], [("FromIterator, Deserialize, Index","src/core/sizedvec.rs")], ["panics/errors","contents"], True, KNOTE, tech=KANI)
prop("C18", "Native curve arithmetic is the twisted Edwards group",
 "On curve points, native addition, doubling, negation, cofactor and scalar multiplication, equality, on-curve, identity and subgroup tests, and conversions between affine, extended and Montgomery coordinates agree with the group of the curve, for every projective representation. Scalar multiplication uses every bit of the scalar, whatever its width.",
 ["inputs"], "all points of the listed curves in all projective representations, all scalars of the small scalar fields, selected wide scalars",
 "Tests check a few identities on random points of one curve; identity and small-order inputs and rare scalars are missed.",
 ["src/native/ecc.rs"], [("EdwardsPoint, EdwardsPointEx, MontgomeryPoint","src/native/ecc.rs")], ["returned points and booleans"], True, SMALL)
prop("C19", "Native point decoding and sampling return only valid points",
 "Decoding from an ordinate returns a curve point with that ordinate exactly when one exists. Decompression of an abscissa returns the unique subgroup point with it, or nothing if there is none, whichever square root the field library returns. Random sampling returns curve points, in the subgroup when asked for.",
 ["inputs"], "every coordinate of the listed curves, both square-root conventions, all random draws within the bound",
 "Tests decode points they just made; rejection and sign selection are not explored.",
 ["src/native/ecc.rs"], [("get_for_y, subgroup_decompress, rand, is_in_subgroup","src/native/ecc.rs")], ["returned points"], True, SMALL)
prop("C20", "Shipped curve parameters define valid, safe curves",
 "For both shipped parameter sets the curve is a complete twisted Edwards curve (the coefficient d is a non-square and -1 a square), the generator lies on the curve, is not the identity and has exactly the order of the scalar field, and the Montgomery coefficients and derived constants match d. The curve has eight times as many points as the scalar field, and the hash-to-curve constant is a non-square. The generator is the point the public seed text edwards_g is mapped to.",
 ["configurations"], "the two shipped parameter sets; the algebraic facts are ground statements over 254/255-bit fields",
 "A test only checks that the generator is in the subgroup and multiplies consistently.",
 ["src/native/bn256.rs","src/native/bls12_381.rs"], [("JubJubBN256, JubJubBLS12_381","src/native/bn256.rs, src/native/bls12_381.rs")], ["JubJubParams accessors"], True, "Closed facts about the two shipped parameter sets at full size, decided by the solver on the constants read from the compiled code. Uses Euler's criterion, Hasse's theorem and completeness of the Edwards law as theorems; primality is only Fermat-tested.", tech=GROUND)
prop("C21", "The proof-system adapter hands over exactly the circuit",
 "Every allocation, public input and constraint of a circuit reaches the underlying proof system once, in order, with the same variables, coefficients and values. Missing values are reported as missing instead of being invented, and only when a value is asked for.",
 ["programs","inputs"], "all linear combinations, values and allocation orders within the bounds",
 "The single end-to-end proof test passes with any adapter error that its one circuit does not exercise.",
 ["src/helpers/groth16/mod.rs","src/helpers/groth16/prover.rs"], [("Groth16CS","src/helpers/groth16/mod.rs")], ["calls to bellman::ConstraintSystem"], True, SMALL)
prop("C22", "Proof verification accepts exactly the pairing equation",
 "Verification returns true exactly when e(A,B) = e(alpha,beta) e(IC0 + sum input_i IC_i, gamma) e(C,delta), for every key, proof and input list. A wrong number of public inputs is an error, never a verdict. Truncating a key keeps exactly the elements verification needs.",
 ["inputs"], "all group elements and scalars of a symbolic bilinear group of small prime order; input lists up to the bound",
 "One valid proof is verified; no invalid proof, input or length is ever tried.",
 ["src/helpers/groth16/verifier.rs"], [("verify, truncate_verifying_key","src/helpers/groth16/verifier.rs")], ["result of verify"], True, SMALL)
prop("C23", "Verifying keys written to bytes read back and bad input is rejected",
 "Writing a truncated verifying key and reading it back is the identity, whatever readers and writers deliver per call. Reading rejects input that ends early, invalid points and points at infinity, and surfaces I/O errors.",
 ["inputs","faults"], "all keys over a symbolic engine up to the length bound, every truncation point, every short read or write and I/O error within the bound",
 "No test reads malformed keys (truncated keys were accepted).",
 ["src/helpers/groth16/verifier.rs"], [("TruncatedVerifyingKey::{read,write}","src/helpers/groth16/verifier.rs")], ["returned keys","errors"], True, SMALL)
prop("C24", "Contract-side encodings of keys and proofs are canonical and reversible",
 "The binary (Borsh) encoding of points, proofs and keys is the fixed concatenation of their coordinates (extension-field coordinates real part first), reading it back is the identity, and out-of-range coordinates or truncated input are rejected.",
 ["inputs"], "all coordinate values within the bounds, all truncations",
 "No test touches these encodings.",
 ["src/helpers/groth16/near.rs"], [("Borsh impls","src/helpers/groth16/near.rs")], ["bytes","errors"], True, SMALL, tech=BOTH)
prop("C25", "Seeded randomness is a fixed function of salt and position",
 "The n-th 32-bit word of the seeded generator is the little-endian word n mod 8 of the personalised hash of the block counter n div 8 followed, when a salt was given, by the hash of the salt. Equal salts give equal streams. A number made from a seed is the personalised hash of the seed, read big-endian and reduced.",
 ["inputs","histories"], "all salts within the bound, all positions within the bound",
 "Tests only use it through derived constants.",
 ["src/core/seedbox.rs"], [("SeedboxBlake2","src/core/seedbox.rs")], ["next_u32"], True, KNOTE, tech=KANI)
prop("C28", "Point and proof data converts back and invalid points are refused",
 "Converting a curve point, a proof or a verifying key of either shipped pairing curve to coordinate data and back is the identity, the point at infinity included; coordinate data holds the affine coordinates in a fixed order, zeros for infinity. Coordinate data that is off the curve or outside the prime-order subgroup is refused. Writing a proof to bytes and reading it back is the identity.",
 ["inputs"], "every coordinate tuple (on and off the curve, in and outside the subgroup) of small curves with the shipped equations, both pairing curves and both groups, every component of proofs and keys",
 "No test converts malformed points (points outside the subgroup were accepted).",
 ["src/helpers/groth16/mod.rs","src/helpers/groth16/prover.rs","src/helpers/groth16/verifier.rs"], [("G1PointData/G2PointData conversions, Proof and TruncatedVerifyingKey data forms","src/helpers/groth16/mod.rs")], ["returned points","panics"], True, SMALL + " The pairing crate is replaced by a copy of it over small base fields (DESIGN.md).")
prop("C26", "Generated Solidity verifier checks the same equation as the native verifier",
 "For a bn256 key with at least one public input the generated contract embeds every coordinate of the key in the order the pairing precompile expects (alpha or input points at infinity included), and verifyProof, given a proof's eight coordinate words and one word per public input, accepts exactly when every word is below its modulus, the proof's points are valid and the key's pairing equation holds.",
 ["inputs"], "all keys up to the length bound, arbitrary 256-bit proof words (valid, invalid and infinite points) and arbitrary 256-bit inputs, exponents modulo a small prime",
 "No test generates or runs the contract.",
 ["src/helpers/groth16/ethereum.rs","src/helpers/groth16/mod.rs"], [("generate_sol_data and the contract it writes","src/helpers/groth16/ethereum.rs")], ["generated contract"], True,
 "Bounded: decided for keys of up to the listed number of input points, the group replaced by its exponents modulo a small prime. The contract text comes from the compiled generator on every run and is executed by a symbolic interpreter of the Solidity subset it uses (DESIGN.md 2.1); trusts that interpreter, the model of the precompiles, z3 and the Solidity compiler.",
 tech=SYMX + "; the generated Solidity is executed symbolically on top of it")
prop("C27", "Honest Groth16 proofs verify, with keys and proofs freshly randomised",
 "With keys made by generate_keys for a circuit, the proof prove makes for any witness of that circuit is accepted by verify with the circuit's public values in the order they were made public, whatever randomness was drawn. Keys and proofs are made from operating-system randomness alone, no part of which is used twice, and two proofs share their first two elements only if they drew the same randomness.",
 ["inputs","histories"], "all witnesses of the listed circuits (products, linear combinations, constants and repeated public values, no public value, bit decomposition, hashing, division, selection), all prover randomness, exponents modulo a small prime",
 "One honest proof of one circuit with a single public input is tested; nothing looks at the randomness.",
 ["src/helpers/groth16/prover.rs","src/helpers/groth16/mod.rs","src/core/osrng.rs"], [("generate_keys, prove, HelperCircuit","src/helpers/groth16/prover.rs"),("OsRng","src/core/osrng.rs")], ["verdict of verify","proof elements","words requested from the operating system"], True,
 "Bounded: decided for all witnesses and all prover randomness of the listed circuits with the listed setup constants; the group is replaced by its exponents modulo a small prime and bellman's multi-exponentiation by the plain sum of products (DESIGN.md). Trusts the prime-field axioms, the engine, z3 and the operating system's generator.")
prop("C29", "Groth16 proofs are knowledge sound",
 "Nobody can produce a proof that verifies for public inputs for which they do not know a satisfying witness.",
 ["inputs"], "all efficient provers",
 "Tests only make honest proofs.",
 ["src/helpers/groth16/prover.rs"], [("verify","src/helpers/groth16/verifier.rs")], ["verify"],
 "a computational statement about all efficient algorithms under a cryptographic assumption; no solver query expresses it. What the repository itself contributes is claimed elsewhere: constraints that force the stated relations (C01-C12), the adapter handing them over unchanged (C21) and the verification equation (C22)")
prop("C30", "Hash parameters are the fixed public sequence for their sizes",
 "PoseidonParams::new(t,f,p) records its arguments and takes consecutive field elements from the seeded generator salted with the text fawkes_poseidon(t=<t>,f=<f>,p=<p>): first the f+p round constants in order, then the t by t mixing matrix row by row. Nothing else influences them, so every party derives the same parameters.",
 ["inputs"], "all sizes listed in the evidence file, every value of the drawn elements",
 "The tests compare the two implementations of the hash with each other under the same parameters, so any change of the parameters goes unnoticed.",
 ["src/native/poseidon.rs","src/core/seedbox.rs"], [("PoseidonParams::new","src/native/poseidon.rs")], ["fields of PoseidonParams"], True,
 "Bounded: decided for the listed sizes with the drawn elements symbolic (each tied to its place in the generator's stream by the word it was made from). Trusts the Blake2s crate, the engine and z3.")
prop("C31", "The command-line bindings prove, store and verify exactly what they are given",
 "In each of the four groth16_*_bindings! tools, setup makes the key of the circuit, and prove takes the parameters and the object in its files and writes a proof of the circuit on that object together with its public values, in the order of the circuit's public inputs and in the tool's own format (JSON decimals; base64 of big-endian words for Waves; base64 of a Borsh vector for NEAR). verify runs the verifier once, on exactly the key, the proof and the inputs in its files, and prints true exactly when the verifier returned true; it refuses files of the wrong kind, cut files, input files with bytes left over and numbers outside the field. generate-verifier writes the contract of the key in its file, and the default file names and the short options of the commands agree.",
 ["inputs","histories"], "all values of the public and secret parts, all verdicts of the verifier, all input files of up to 7 (thorough: 19) numbers, sessions with two keys, objects and proofs",
 "No test expands the bindings at all.",
 ["src/macros.rs"], [("groth16_ethereum_bindings!","src/macros.rs"),("groth16_waves_bindings!","src/macros.rs"),("groth16_waves_bindings_bn256!","src/macros.rs"),("groth16_near_bindings!","src/macros.rs")], ["files written by cli_main","output of verify"], True,
 "Bounded: one circuit shape (4 public, 2 secret values), field GF(13), sessions as listed. The Groth16 functions and the option parser are stand-ins (the former decided by C21-C28); malformed files are the listed ones. Trusts the engine, the stand-ins and z3.",
 tech="symbolic execution of the bindings expanded from /repo's macro source against recording stand-ins for the Groth16 layer (own engine, /verif/symb), obligations decided by z3; models replayed")
