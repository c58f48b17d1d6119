#!/usr/bin/env python3
"""Emits /verif/properties.jsonl (kept as Python so the text stays reviewable)."""
import json, os
S="packages/Spartan-secq/src/"; Q="packages/secq256k1/src/"; R="packages/circuit_reader/src/"
W="packages/spartan_wasm/src/"; E="packages/circuits/eff_ecdsa_membership/"; L="packages/lib/src/"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or files
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Proof-field scalar arithmetic is exact arithmetic modulo the field prime",
 "For all operands, addition, subtraction, multiplication, negation, doubling, squaring, exponentiation, inversion, batch inversion, sums, products, equality and conditional selection of the proof system's scalars give exactly the result of integer arithmetic modulo p = 2^256-2^32-977. Inversion reports failure exactly for zero, every operator variant (by value, by reference, assigning) gives the same result, and the small tool that prints the field's Montgomery constants prints the true values.",
 ["inputs"],"every pair/vector of field elements, including 0, 1, p-1, values around limb boundaries and the modulus, and every 256-bit exponent",
 "The unit tests check a few fixed values and chains from one start point; a carry or reduction error that shows only for particular limb patterns is not reached.",
 [S+"scalar/scalar.rs",S+"scalar/mod.rs",S+"bin/mont_params.rs"],[("Montgomery multiplication/reduction, borrow-masked subtraction",S+"scalar/scalar.rs"),("batch inversion",S+"scalar/scalar.rs")])
p("C02","Scalar encodings are canonical, total and round-trip",
 "Encoding a proof-field scalar to 32 little-endian bytes and decoding it gives the same scalar; decoding accepts exactly the byte strings whose integer value is below the field prime, and the 64-byte, raw-limb, machine-integer and serde decodings yield the integer they represent reduced modulo the prime. Conversion to the curve's scalar type preserves the integer value.",
 ["inputs"],"every 32-byte and 64-byte string, every u64/usize/bool, every scalar, and every truncation of a serialised scalar",
 "Tests decode a handful of constants; rejection of non-canonical encodings is commented out in the tests and serde is not tested.",
 [S+"scalar/scalar.rs",S+"scalar/mod.rs"],[("canonical check by trial subtraction",S+"scalar/scalar.rs from_bytes"),("two-digit Montgomery conversion",S+"scalar/scalar.rs from_u512"),("conversion to curve scalar",S+"scalar/mod.rs")])
p("C03","The secq256k1 coordinate field is exact arithmetic modulo its prime",
 "For all operands, the field of secq256k1 point coordinates (integers modulo the secp256k1 group order) adds, subtracts, multiplies, negates, squares, exponentiates, inverts and takes square roots exactly as integer arithmetic does. Square root succeeds exactly on squares and returns a root; decoding accepts exactly the canonical 32-byte encodings and round-trips, including through serde.",
 ["inputs"],"every field element and pair, every 32-/64-byte string, with emphasis on boundary limbs and on squares and non-squares",
 "The few in-crate tests are single examples and are not even compiled by the baseline build.",
 [Q+"field/field_secq.rs",Q+"field/mod.rs"],[("Montgomery arithmetic","field_secq.rs"),("Tonelli-Shanks style square root","field_secq.rs sqrt"),("repr codec","field_secq.rs from_repr/to_repr")])
p("C04","The secp256k1 coordinate field and the curve scalar type are exact",
 "For all operands, the secp256k1 coordinate field and the secq256k1 scalar type (both integers modulo p = 2^256-2^32-977) agree with integer arithmetic for every operation they implement, including inversion, square root, reduction of wide values, parity and byte encodings. Square root succeeds exactly on squares, and decoding accepts exactly canonical encodings and round-trips.",
 ["inputs"],"every field element and pair, every 32-/64-byte string, squares and non-squares",
 "Covered by a few examples only; square roots of non-residues, non-canonical encodings and serde are untested and uncompiled in the baseline build.",
 [Q+"field/field_secp.rs",Q+"field/mod.rs",Q+"scalar.rs"],[("Montgomery arithmetic","field_secp.rs"),("ScalarCore wrapper","scalar.rs")])
p("C05","The curve group obeys the group law for every point and scalar",
 "For all points (including the identity, equal points and inverses) and all scalars, addition, subtraction, doubling, negation, scalar multiplication and multi-scalar multiplication give the result of the mathematical group y^2 = x^3 + 7 over the coordinate field, and the result is on the curve. Scalar multiplication by proof-field scalars and by curve scalars agree, and every operator variant agrees.",
 ["inputs"],"every pair of points and scalars and every vector for multi-scalar multiplication, including zero scalars, repeated points and the identity",
 "One fixed multi-scalar example exists; equality with the group law for exceptional cases is not tested.",
 [Q+"affine.rs",Q+"lib.rs",S+"group.rs"],[("affine wrapper over projective arithmetic","affine.rs"),("curve constants and generator",Q+"lib.rs"),("vartime multi-scalar multiplication",S+"group.rs")])
p("C06","Point encodings round-trip and malformed encodings are refused cleanly",
 "Every curve point encodes to a compressed form that decodes to the same point, distinct points have distinct encodings, and decoding succeeds exactly for encodings of curve points. For every other byte string decoding reports an error: it neither crashes nor yields a point that is off the curve.",
 ["inputs"],"every point (identity included) and every byte string of the encoding's length and of other lengths",
 "No test decodes a malformed encoding.",
 [Q+"affine.rs",S+"group.rs"],[("SEC1 compress/decompress","affine.rs"),("fallible unpacking of proof elements",S+"group.rs")])
p("C07","Hash-to-curve and commitment generators are correct and independent",
 "Mapping bytes to the curve is a deterministic function that always lands on the curve and equals the simplified-SWU map followed by the isogeny, for every 128-byte input. The generators derived for a label equal the points obtained by mapping the label-seeded SHAKE256 stream, are pairwise distinct, never the identity, differ between labels, and a larger set extends a smaller one.",
 ["inputs","configurations"],"every field element / 128-byte string, every label and every requested number of generators",
 "One test maps a single value.",
 [Q+"hashtocurve.rs",Q+"affine.rs",S+"commitments.rs"],[("SSWU map and 3-isogeny","hashtocurve.rs"),("SHAKE256-seeded derivation",S+"commitments.rs")])
p("C08","The Poseidon hash equals its specification on every input",
 "For all inputs, the Poseidon permutation used for Merkle trees equals the specified permutation (width 3, exponent 5, 8 full and 56 partial rounds, the published constants regenerated from the Grain parameters) with the domain tag in the first slot and the second state element as digest. Hashing is a pure function: repeated use or reset of a hasher never leaks state between hashes.",
 ["inputs","histories"],"every pair of field elements and every history of hash calls on one hasher",
 "One input/output vector is tested.",
 ["packages/poseidon/src/lib.rs","packages/poseidon/src/k256_consts.rs","packages/poseidon/src/poseidon_k256.rs"],[("round structure","packages/poseidon/src/lib.rs"),("constants","k256_consts.rs")])
p("C09","The R1CS file reader returns exactly what the file encodes",
 "For every well-formed R1CS file over this field the reader returns exactly the wire counts, public-input/output counts and the constraint coefficients the file encodes, for every coefficient value, section order and constraint size, including files containing unknown sections. For files with a wrong magic, version, field size, prime or wire map, or that are truncated, it fails with an error rather than returning wrong constraints.",
 ["inputs"],"every R1CS file written by an independent writer from a random constraint system, and every corruption/truncation of one",
 "One 400-byte example file with tiny coefficients is read by the existing tests.",
 [R+"circom_reader.rs"],[("section scan and constraint parsing","circom_reader.rs")])
p("C10","Converting a circuit keeps its meaning and binds its public inputs",
 "For every constraint system read from a file, the proof-system instance generated from it is satisfied by a witness and a list of public inputs if and only if the assignment made of the constant one, those public inputs as the leading wires, and the witness's remaining wires satisfies every original constraint. The instance written to disk decodes to the same instance.",
 ["inputs","programs"],"every constraint system, every assignment to its wires and every list of public inputs (also assignments and inputs that were not produced by an honest prover)",
 "Existing tests prove one satisfying assignment; nothing checks that an unsatisfying one or unrelated public inputs are refused.",
 [R+"lib.rs",R+"bin/gen_spartan_inst.rs",S+"lib.rs"],[("translation of constraints into matrices",R+"lib.rs"),("instance construction",S+"lib.rs")])
p("C11","Instance construction and satisfiability checking match the definition of R1CS",
 "For all matrices, variables and inputs, an instance is reported satisfied exactly when (A.z)*(B.z)=(C.z) holds row by row for z=(variables,1,inputs), whatever padding the dimensions need. Construction rejects out-of-range indices and non-canonical coefficients with the documented errors, and assignments of the wrong length or with non-canonical values are rejected with the documented errors.",
 ["inputs","configurations"],"every size (0,1, non powers of two), every sparse matrix triple and every assignment",
 "Tests use one tiny and one synthetic instance.",
 [S+"lib.rs",S+"r1csinstance.rs",S+"sparse_mlpoly.rs"],[("padding and index remapping",S+"lib.rs Instance::new"),("sparse matrix-vector product",S+"sparse_mlpoly.rs")])
p("C12","NIZK completeness: every true statement has a proof that verifies",
 "For every instance and every satisfying assignment, of any admissible size, the non-interactive proof produced by the prover is accepted by the verifier given the same instance, inputs, parameters and transcript label. This also holds when proofs are produced repeatedly or in sequence on one transcript.",
 ["inputs","configurations","histories"],"every satisfiable instance (any shape, with and without public inputs, unpadded sizes) and every satisfying assignment",
 "Three fixed-size synthetic instances are proved in the existing tests.",
 [S+"lib.rs",S+"r1csproof.rs",S+"sumcheck.rs",S+"nizk/mod.rs",S+"nizk/bullet.rs",S+"dense_mlpoly.rs"],[("prover and verifier of the R1CS argument",S+"r1csproof.rs")])
p("C13","NIZK soundness: nothing but an honest proof of this statement is accepted",
 "The NIZK verifier never accepts a proof whose statement is false: proofs made from unsatisfying assignments, for other public inputs, for another instance, under another transcript label or other parameters, and proofs in which any element (point, scalar, or list length) was changed, are all refused by error or abort. In particular no algebraic or structural manipulation of an otherwise well-formed proof makes an unsatisfiable statement verify.",
 ["inputs","fault_sequences"],"every honest proof together with every single- or multi-element mutation, splice, truncation, list extension, and every mismatched statement",
 "Existing tests only check that honest proofs verify.",
 [S+"lib.rs",S+"r1csproof.rs",S+"sumcheck.rs",S+"nizk/mod.rs",S+"nizk/bullet.rs",S+"dense_mlpoly.rs"],[("verifier equations",S+"r1csproof.rs verify"),("inner-product verification",S+"nizk/bullet.rs")])
p("C14","SNARK completeness: every true statement has a proof that verifies",
 "For every instance and every satisfying assignment, with parameters sized for the instance, the preprocessed SNARK proof is accepted by the verifier that holds only the computation commitment and the public inputs. The commitment is a deterministic function of the instance.",
 ["inputs","configurations"],"every satisfiable instance shape within parameters: unbalanced rows/columns, repeated entries, different numbers of non-zero entries per matrix",
 "One fixed synthetic instance is proved in the existing tests.",
 [S+"lib.rs",S+"r1csinstance.rs",S+"sparse_mlpoly.rs",S+"product_tree.rs"],[("sparse polynomial evaluation argument",S+"sparse_mlpoly.rs"),("product circuit argument",S+"product_tree.rs")])
p("C15","SNARK soundness: altered proofs and false statements are refused",
 "The SNARK verifier never accepts a proof for a false statement: proofs from unsatisfying assignments, for other inputs or another computation commitment, or with false matrix evaluations, and proofs in which any element or the shape of any list was changed, are refused by error or abort.",
 ["inputs","fault_sequences"],"every honest proof together with every element mutation, list re-partition/truncation, and every mismatched statement",
 "Existing tests only check that honest proofs verify.",
 [S+"lib.rs",S+"r1csinstance.rs",S+"sparse_mlpoly.rs",S+"product_tree.rs"],[("hash-layer and product-layer verification",S+"sparse_mlpoly.rs"),("layered sum-check verification",S+"product_tree.rs")])
p("C16","Every challenge depends on the whole statement and all earlier prover messages",
 "In every proof run, each verifier challenge is derived from a transcript that already contains the instance (or its commitment), the public inputs and every earlier prover message, and prover and verifier derive the same challenges. Proofs and parameters stay compatible: previously generated valid proofs keep verifying.",
 ["inputs","histories"],"every statement and proof; every prover message position and every challenge position of the transcript",
 "Tests run prover and verifier of the same build against each other, so a message left out on both sides goes unnoticed.",
 [S+"transcript.rs",S+"lib.rs",S+"r1csproof.rs",S+"sumcheck.rs",S+"nizk/mod.rs",S+"nizk/bullet.rs",S+"sparse_mlpoly.rs",S+"product_tree.rs",S+"dense_mlpoly.rs"],[("Merlin transcript appends",S+"transcript.rs")])
p("C17","Proofs are freshly blinded and reveal no witness-determined value",
 "Two proofs of the same statement with the same witness share no witness-dependent element, every blinding value used in a proof is fresh, and every commitment to witness-derived data in a proof is blinded by a non-zero, never re-used amount. The prover's random values are seeded from operating-system entropy on every proof.",
 ["inputs","histories"],"every statement, witness and sequence of proofs by one or several provers",
 "Existing tests check verification only; a constant or re-used blinding factor still verifies.",
 [S+"random.rs",S+"r1csproof.rs",S+"sumcheck.rs",S+"nizk/mod.rs",S+"dense_mlpoly.rs"],[("random tape",S+"random.rs"),("blinded commitments",S+"commitments.rs")])
p("C18","Each sub-protocol is complete and refuses every false claim",
 "For all inputs, each building-block argument (knowledge of an opening, equality, product, dot product, logarithmic dot product, sum-check, product circuit, polynomial-commitment opening, sparse evaluation) accepts what its honest prover produces and refuses a claim that does not match the committed data or a proof with any element changed. Commitments are additively homomorphic and equal the generator combination they denote.",
 ["inputs","fault_sequences"],"every input vector of each admissible size (including size one), every false claim and every element mutation",
 "Each building block has one honest-path test.",
 [S+"nizk/mod.rs",S+"nizk/bullet.rs",S+"sumcheck.rs",S+"product_tree.rs",S+"dense_mlpoly.rs",S+"sparse_mlpoly.rs",S+"commitments.rs"],[("sigma protocols",S+"nizk/mod.rs"),("inner-product reduction",S+"nizk/bullet.rs"),("sum-check",S+"sumcheck.rs")])
p("C19","Polynomial algebra agrees with its definition",
 "For all tables and points, multilinear evaluation, the equality polynomial and its factored form, variable binding from either end, merging/extending/splitting, the identity polynomial, sparse-matrix and sparse-polynomial evaluation, and univariate interpolation/compression agree with direct evaluation of their definitions. The integer helpers they rely on (logarithm, powers of two, square root, bit decomposition) agree with integer arithmetic.",
 ["inputs"],"every table length that is a power of two (including one), every evaluation point including 0/1 coordinates, every sparse matrix",
 "A few fixed tables are tested; binding from the bottom, merging and sparse evaluation are not.",
 [S+"dense_mlpoly.rs",S+"sparse_mlpoly.rs",S+"unipoly.rs",S+"math.rs"],[("multilinear tables",S+"dense_mlpoly.rs"),("interpolation",S+"unipoly.rs"),("integer helpers",S+"math.rs")])
p("C20","Serialised proofs, instances and assignments decode to the same thing",
 "Every proof, instance and assignment survives serialisation: the decoded value serialises to the same bytes, and a decoded proof/instance behaves exactly like the original for verification and satisfiability. Truncated or corrupted bytes never decode into something the verifier accepts in place of the original statement.",
 ["inputs","fault_sequences"],"every proof/instance/assignment and every truncation or byte corruption of its encoding",
 "No existing test round-trips an instance or assignment or feeds damaged bytes.",
 [S+"lib.rs",S+"scalar/scalar.rs",S+"r1csinstance.rs",W+"wasm.rs"],[("serde derive and scalar codec",S+"scalar/scalar.rs"),("bincode at the API boundary",W+"wasm.rs")])
p("C21","The witness file parser returns exactly the witness the file encodes",
 "For every well-formed witness file over this field the parser returns exactly the encoded values in order, whatever the values are. Files with a wrong magic, an unsupported version, a wrong section layout, field size or prime, and truncated files, are refused with an error or abort.",
 ["inputs"],"every witness vector of field elements written by an independent writer, every header corruption and truncation",
 "One small example file is parsed by the existing tests.",
 [W+"wasm.rs"],[("wtns header and value parsing",W+"wasm.rs load_witness_from_bin_reader")])
p("C22","The client proving interface proves and verifies end to end",
 "For every circuit produced by the conversion tool and every valid witness file, the proving entry point returns bytes that the verifying entry point accepts with the same circuit and the public inputs equal to the witness's leading wires. It refuses every other list of public inputs, every proof of an invalid witness and every damaged proof, and the hash entry point agrees with the Poseidon hash on every input.",
 ["inputs","programs","fault_sequences"],"every circuit, witness and public-input list; every damaged proof; every pair of hash inputs",
 "One fixed circuit and proof are exercised, and only acceptance is checked.",
 [W+"wasm.rs",R+"lib.rs"],[("prove/verify/poseidon bindings",W+"wasm.rs")])
p("C23","The elliptic-curve circuits compute secp256k1 arithmetic for every input",
 "For all points and scalars in their documented domain, the circuits for incomplete addition, complete addition, doubling, scalar reduction and scalar multiplication have a valid witness whose outputs equal the secp256k1 group operation, including the identity, equal and opposite points, and scalars at or above the group order.",
 ["inputs","programs"],"all pairs of points (identity, equal, inverse, points with chosen coordinates relations) and all 256-bit field scalars",
 "Circuit tests cover about a dozen fixed points and need a circuit compiler that the baseline build does not run.",
 [E+"secp256k1/add.circom",E+"secp256k1/double.circom",E+"secp256k1/mul.circom"],[("complete addition by case selection",E+"secp256k1/add.circom"),("double-and-add with final complete steps",E+"secp256k1/mul.circom")])
p("C24","The hash and Merkle circuits equal the native Poseidon and Merkle root",
 "For all inputs, the Poseidon circuit outputs the native Poseidon hash, and the Merkle-inclusion circuit outputs the root obtained by hashing the leaf with the given siblings on the sides selected by the path bits, for every depth; path entries that are not bits are refused.",
 ["inputs","programs","configurations"],"all field inputs, all depths, all paths",
 "One fixed input is tested for Poseidon and no direct test exists for the Merkle circuit.",
 ["packages/circuits/poseidon/poseidon.circom","packages/circuits/poseidon/poseidon_constants.circom",E+"tree.circom"],[("round templates and constants","packages/circuits/poseidon"),("side selection",E+"tree.circom")])
p("C25","The address circuit computes the Ethereum address of every public key",
 "For every 512-bit public key the Keccak/address circuits output the last 20 bytes of Keccak-256 of the key as an integer, and the Keccak circuit equals Keccak-256 for every single-block message length it supports. Splitting a public key into chunks and flattening it gives the key's bits.",
 ["inputs","programs","configurations"],"all public keys, all message bit patterns and supported lengths",
 "One fixed key is tested.",
 [E+"to_address/vocdoni-keccak/keccak.circom",E+"to_address/vocdoni-keccak/permutations.circom",E+"to_address/vocdoni-keccak/utils.circom",E+"to_address/zk-identity/eth.circom",E+"eff_ecdsa_to_addr.circom"],[("keccak-f round templates","permutations.circom"),("padding and bit order","keccak.circom / eth.circom")])
p("C26","The membership circuits accept exactly the valid membership statements",
 "For every ECDSA signature, message, key and tree, the public-key and address membership circuits are satisfiable for the honest signature and Merkle path, and the effective-ECDSA circuits output exactly the recovered key/address. They are unsatisfied for a changed signature, root, path, sibling, or effective public inputs belonging to another message or key.",
 ["inputs","programs","configurations"],"all keys, messages, signatures, trees, indices and single-component alterations, for several depths",
 "One fixed example per circuit, accept path only.",
 [E+"pubkey_membership.circom",E+"addr_membership.circom",E+"eff_ecdsa.circom",E+"eff_ecdsa_to_addr.circom","packages/circuits/instances/pubkey_membership.circom","packages/circuits/instances/addr_membership.circom"],[("composition of recovery, hashing and inclusion",E)])
p("C27","Circuit constraints determine the outputs: no second solution",
 "For every input, any assignment that satisfies all constraints of a circuit has the outputs the circuit is specified to compute; a dishonest prover who replaces any freely chosen intermediate value cannot obtain different outputs while satisfying the constraints. The public inputs of the deployed circuits are exactly root, T and U, in that order.",
 ["inputs","programs","fault_sequences"],"all inputs in the documented domain and all substitutions of prover-chosen intermediate values",
 "Tests generate honest witnesses only, so a missing constraint is invisible to them.",
 [E+"secp256k1/add.circom",E+"secp256k1/double.circom",E+"secp256k1/mul.circom",E+"tree.circom",E+"to_address/zk-identity/eth.circom","packages/circuits/poseidon/poseidon.circom",E+"eff_ecdsa_to_addr.circom"],[("constraints paired with each prover-chosen value",E+"secp256k1")])
p("C28","Effective-ECDSA public inputs are computed and checked correctly",
 "For every valid signature, the client computes T = r^-1*R and U = -(m*r^-1)*G such that s*T + U is the signer's public key. Verification of a public input accepts exactly when T and U are the values determined by its r, recovery bit and message, and returns false (it never throws or accepts) for altered, out-of-range or malformed values.",
 ["inputs","fault_sequences"],"all keys, messages, signatures (both parities, all v encodings) and all single-field alterations of a public input",
 "Two fixed signatures are tested.",
 [L+"helpers/publicInputs.ts",L+"helpers/utils.ts"],[("T/U computation and comparison",L+"helpers/publicInputs.ts")])
p("C29","Client-side encodings round-trip without loss",
 "For all values, serialising and deserialising a public input, circuit public input or byte/big-integer conversion gives back the same value, keeps fixed widths and the documented byte order and field order, and does not modify its arguments. Parsing a signature yields its r, s and v for every valid signature string.",
 ["inputs"],"all public inputs (including values with leading zero bytes), all integers below 2^256 and all byte strings of the expected widths",
 "One fixed example is tested.",
 [L+"helpers/publicInputs.ts",L+"helpers/utils.ts"],[("fixed-width packing",L+"helpers/publicInputs.ts"),("byte conversions",L+"helpers/utils.ts")])
p("C30","The client Merkle tree and hash wrapper agree with the circuits",
 "For every depth and every history of insertions, the tree's root equals the root of the reference Merkle tree over the inserted leaves, each proof it creates recomputes that root with the circuits' hashing rule, and the index lookup finds exactly the inserted leaves. The hash wrapper passes values to the native hash in the byte order it expects and decodes the digest without loss.",
 ["inputs","histories","configurations"],"every depth, leaf sequence and index; every pair of hash inputs and every key buffer",
 "One fixed tree is tested.",
 [L+"helpers/tree.ts",L+"helpers/poseidon.ts"],[("incremental tree wrapper",L+"helpers/tree.ts"),("hash byte order",L+"helpers/poseidon.ts")])
p("C31","The client prover and verifier pass exactly the right statement",
 "For every signature, message and Merkle proof, the client prover hands the circuit exactly the private and public inputs derived from them and returns a proof together with a public input that encodes them. The client verifier returns true only if both the effective-ECDSA public input check and the proof check succeed on the circuit public inputs contained in the public input, and returns false otherwise.",
 ["inputs","fault_sequences"],"all signatures, messages, Merkle proofs, profiles/configurations, and all failures of the underlying checks",
 "Existing tests need network, a browser-style wasm build and fixed keys; they never run here.",
 [L+"core/prover.ts",L+"core/verifier.ts",L+"config/index.ts"],[("witness input assembly",L+"core/prover.ts"),("two-part verification",L+"core/verifier.ts")])
p("C32","The deployed membership circuits prove and verify end to end",
 "For every key, message and tree of the deployed depth 20, and for each deployed circuit (public-key and address membership), the client prover run over the converted circuit returns a proof that the client verifier accepts for its public input. The verifier refuses that proof when the proof, the root, the message or the effective public inputs are others, and nobody gets an accepted proof for a signature that does not verify, a key outside the tree, or another path or root.",
 ["inputs","configurations"],"all keys, signatures, messages, trees of depth 20 and members, both deployed circuits at their full size, and all alterations of proof and public input",
 "No existing test runs a whole proof from this repository's circuits, and the sizes of the deployed circuits are met nowhere in the Rust tests.",
 ["packages/circuits/instances/pubkey_membership.circom","packages/circuits/instances/addr_membership.circom","packages/circuit_reader/src/lib.rs","packages/spartan_wasm/src/wasm.rs","packages/Spartan-secq/src/lib.rs","packages/Spartan-secq/src/r1csinstance.rs",L+"core/prover.ts",L+"core/verifier.ts"],[("client entry points","packages/spartan_wasm/src/wasm.rs"),("order of the public signals","packages/circuits/eff_ecdsa_membership/pubkey_membership.circom"),("conversion","packages/circuit_reader/src/lib.rs")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P),"properties")
