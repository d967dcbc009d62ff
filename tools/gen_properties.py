"""Writes properties.jsonl (kept as code so that the wording is reviewed in one place)."""
import json
S = "packages/Spartan-secq/src/"
Q = "packages/secq256k1/src/"
C = "packages/circuits/eff_ecdsa_membership/"
P = []


def p(id, title, statement, over, qtext, why, files, mechanism, state=None):
    a = {"files": files, "mechanism": [{"name": mechanism, "where": files[0]}]}
    if state:
        a["state"] = state
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})


p("C01", "Proof-field addition, subtraction, negation and doubling are exact",
  "For all elements a, b of the proof system's scalar field (integers modulo q = 2^256 - 2^32 - 977), a+b, a-b, -a and 2a computed by the library equal the mathematical result modulo q. "
  "Every result is again a canonical (fully reduced) field element, for every operator form (by value, by reference, assigning).",
  ["inputs"], "every pair of canonical field elements (2^512 pairs)",
  "The unit tests add, subtract and negate a handful of fixed elements; carries and borrows across limbs and the final conditional reduction only misbehave on rare limb patterns.",
  [S + "scalar/scalar.rs"], "limb-wise add/sub with carry, conditional subtraction of the modulus")
p("C02", "Proof-field multiplication and squaring are exact",
  "For all elements a, b of the scalar field, the library's product a*b and square a^2 equal the mathematical result modulo q. Every result is again canonical, and a*a equals the square of a.",
  ["inputs"], "every pair of canonical field elements",
  "Tests multiply a few values obtained by repeated addition; a dropped carry in one of the ~40 carry chains needs inputs of probability about 2^-64 to show.",
  [S + "scalar/scalar.rs"], "schoolbook multiplication followed by Montgomery reduction; dedicated squaring with doubled cross terms")
p("C03", "Field elements and their 32-byte encodings correspond one to one",
  "Decoding a 32-byte little-endian string succeeds exactly when its value is below q, and yields the element with that value; encoding an element yields its value below q, so encode and decode are mutually inverse. "
  "Two elements compare equal (by either comparison) exactly when their values are equal.",
  ["inputs"], "all 2^256 byte strings and all pairs of field elements",
  "Tests decode the modulus, its neighbours and a few constants; all other strings near limb boundaries are unexplored.",
  [S + "scalar/scalar.rs"], "canonicality check by trial subtraction, conversion to and from Montgomery form, limb-wise constant-time comparison")
p("C04", "Integers of any supported width are reduced into the field correctly",
  "Conversion from a 64-bit integer, from four raw 64-bit limbs, from 64 little-endian bytes, and from the eight words drawn by random sampling each yields the field element equal to that integer modulo q. "
  "In particular random sampling reduces a full 512-bit draw, so that its output is statistically uniform.",
  ["inputs"], "every 64-, 256- and 512-bit integer; every stream of random words",
  "Tests try 0, R, R^2, q-1 and all-ones; other limb combinations and the random path are not exercised.",
  [S + "scalar/scalar.rs"], "decomposition into two 256-bit digits multiplied by R^2 and R^3")
p("C05", "Inversion, batch inversion and exponentiation agree with field arithmetic",
  "Inverting a non-zero element yields the element whose product with it is one, and inverting zero reports failure. Batch inversion replaces each element of a list of non-zero elements by its own inverse and returns the product of all the inverses. "
  "Raising an element to a 256-bit power equals the repeated product, for the constant-time and the variable-time routine alike.",
  ["inputs"], "every field element, every list of non-zero elements (up to the stated length), every 256-bit exponent",
  "Tests invert one element repeatedly and compare with one fixed power; batch inversion is not tested at all.",
  [S + "scalar/scalar.rs"], "extended Euclid through big integers, prefix products for the batch, square-and-multiply")
p("C06", "Serialized field elements round-trip and bad input is an error, not a crash",
  "A field element written through serialization is a sequence of exactly its 32 encoding bytes, and reading that sequence back yields the same element. "
  "Reading a sequence that ends early or whose elements fail to decode returns an error to the caller and never panics.",
  ["inputs", "fault_sequences"], "every element; every byte sequence of length 0..40 with a failure at any position",
  "No test serializes or deserializes a scalar; proofs received from the network go through this path.",
  [S + "scalar/scalar.rs"], "sequence serializer over the 32 bytes and a visitor assembling four 64-bit words")
p("C07", "Selection, sums, products and erasure of field elements are exact",
  "Conditional selection between two elements returns the second exactly when the choice bit is set; the sum and the product over a list of elements equal folding addition from zero and multiplication from one; the default element is zero. "
  "Erasing an element leaves the value zero, and converting an element to text prints its 64 hexadecimal digits most significant first.",
  ["inputs"], "all elements and choice bits; all lists up to the stated length",
  "Not covered by any test.", [S + "scalar/scalar.rs"], "limb-wise select, iterator folds, zeroize")
p("C08", "Reading a circuit file returns exactly the circuit stored in it",
  "For every well-formed version-1 R1CS binary file with its sections in any order and with unknown sections present, the reader returns the header counts, every constraint's three sparse vectors in file order with the same wire indices and coefficients, and the wire mapping. "
  "The derived numbers of inputs, auxiliary wires and variables are consistent with the header.",
  ["inputs"], "all files up to the stated counts of constraints, terms, wires and section layouts, with every byte symbolic",
  "The existing test needs a prebuilt circuit file and the missing curve crate, so it does not run; section order and offsets are never varied.",
  ["packages/circuit_reader/src/circom_reader.rs"], "section table scan, seeks to sections, little-endian counted reads")
p("C09", "Corrupt circuit files are rejected",
  "A file whose magic number, version, field size, header size, wire-map size or first map entry is wrong, that lacks a section, declares fewer wires than public signals, holds a coefficient outside the field, or is truncated, is answered with an error: never with a circuit and never with a panic.",
  ["inputs", "fault_sequences"], "every corruption of the checked fields and every truncation point of files up to the stated size",
  "No test feeds a malformed file.", ["packages/circuit_reader/src/circom_reader.rs"], "explicit header checks, propagation of read errors")
p("C10", "Converting a circuit to a proving instance preserves every constraint",
  "The proving instance built from a parsed circuit contains, for every constraint and every one of its three sparse vectors, exactly the same (constraint, wire, coefficient) entries and no others. Its declared numbers of constraints, variables and public inputs are those of the circuit.",
  ["inputs"], "all circuits up to the stated number of constraints and terms, symbolic indices and coefficients",
  "The only test depends on a circuit file and the missing curve crate and checks nothing but that proving succeeds.",
  ["packages/circuit_reader/src/lib.rs", S + "lib.rs"], "flattening of constraints to matrix triples")
p("C11", "Size and bit helpers compute exact logarithms, powers and bit strings",
  "The power-of-two helper returns 2^n for n below the word size, the logarithm helper returns the least k with 2^k >= n for every positive n, and the bit helper returns the lowest n bits of a number most significant first. The square-root helper returns the integer square root for every number below 2^52.",
  ["inputs"], "all machine words (square root: all n below 2^52)",
  "No test calls these helpers, although all padding and index splitting depends on them.",
  [S + "math.rs"], "bit tricks and leading-zero counts; floating-point square root")
p("C12", "Curve base-field arithmetic is exact for both moduli",
  "For both primes of the curve cycle (p = 2^256-2^32-977 and the secp256k1 group order n), addition, subtraction, negation, doubling, multiplication and squaring of field elements, and sums and products of lists, equal the mathematical result modulo the prime, in canonical form, for every operator form. "
  "Byte decoding (both byte orders) accepts exactly the canonical encodings and is inverse to encoding; integers and 64-byte strings convert to their residue; equality, zero and parity tests and conditional selection are exact; "
  "the declared constants (two-adicity, generator, root of unity, bit sizes) are those of the prime, and random sampling by rejection keeps exactly the first canonical draw.",
  ["inputs"], "every pair of canonical elements, every 32-byte string and every 512-bit integer, for each field",
  "The tests of this crate cannot even be built here, and sample a few values at most.",
  [Q + "field/field_secp.rs", Q + "field/field_secq.rs"], "Montgomery arithmetic on four/five limbs with per-field constants")
p("C13", "Hashing to the curve is total and follows its specification",
  "For every 128-byte string, the map used to derive commitment generators reduces each half to a field element u and returns the sum of two points of secq256k1, without ever panicking, including for the exceptional inputs. "
  "Each point is the image under the 3-isogeny of the point (x, y) of the auxiliary curve that the simplified SWU map (RFC 9380) gives for u: x is the first of the two candidates whose right-hand side is a square, and y has the parity of u. "
  "The isogeny maps the auxiliary curve into the curve and has no pole on it; the declared curve equation, generator and order belong together.",
  ["inputs"], "all pairs of field elements (as rational functions over the field), exceptional inputs included",
  "Tests check two fixed vectors and cannot be built here; exceptional inputs (zero denominators, vanishing Z u^2 + 1) have negligible probability in sampling.",
  [Q + "hashtocurve.rs", Q + "affine.rs"], "simplified SWU map to an isogenous curve, then a 3-isogeny")
p("C14", "The native Poseidon hash and the circuit Poseidon hash are the same function",
  "For every pair of field elements the native hash returns the value to which the circuit constrains its output, using the same domain tag, round structure, round constants and mixing matrix. The S-box, constant-addition and mixing layers of both follow the Poseidon specification (x^5, 8 full and 56 partial rounds, width 3).",
  ["inputs"], "all pairs of field elements; all rounds",
  "A test compares a handful of vectors in JavaScript; it needs missing packages and cannot run.",
  ["packages/poseidon/src/lib.rs", "packages/poseidon/src/k256_consts.rs", "packages/circuits/poseidon/poseidon.circom"], "sponge permutation with fixed constants on both sides")
p("C15", "Multilinear polynomial evaluation, equality tables and folding are exact",
  "The table of the equality polynomial at a point lists, for every Boolean index (most significant variable first), the product of the chosen r_i or 1-r_i factors; evaluating a dense multilinear polynomial at a point equals the inner product of its table with that equality table. "
  "Fixing the top (or bottom) variable to a value halves the table accordingly, and the factored (left, right) tables multiply to the full table.",
  ["inputs"], "all coefficient tables and points over the field, up to the stated number of variables",
  "The tests evaluate one 2-variable polynomial and small random cases.",
  [S + "dense_mlpoly.rs"], "recursive construction of equality evaluations, in-place folding")
p("C16", "Round polynomials are interpolated, evaluated and compressed without loss",
  "The round polynomial built from its values at 0, 1, 2 (and 3) takes exactly those values there; evaluating at any point, at zero and at one gives the polynomial's value. Dropping the linear coefficient and restoring it from the sum of the values at 0 and 1 gives back the same polynomial.",
  ["inputs"], "all value triples/quadruples, points and hints over the field",
  "Tests use two fixed polynomials.", [S + "unipoly.rs"], "closed-form interpolation with constant inverses, compression with a hint")
p("C17", "Sum-check verification accepts exactly the honest chain of round claims",
  "For each sum-check variant, the messages of the honest prover are accepted and lead prover and verifier to the same point and to a final claim equal to the product/combination of the folded tables. The verifier's round check ties each round polynomial to the previous claim, so that a changed round message changes the outcome.",
  ["inputs"], "all tables over the field up to the stated number of rounds; all alterations of a message",
  "Sum-check has no unit test of its own.", [S + "sumcheck.rs"], "claim updates with transcript challenges")
p("C18", "Satisfiability checking equals the R1CS definition and padding is harmless",
  "An assignment is reported satisfying exactly when, for every constraint row, the product of the two left linear forms equals the right one, with variables, the constant one and the public inputs in their documented columns. Padding the numbers of constraints and variables never changes the verdict, and entries with an out-of-range row or column, or non-canonical values, are refused.",
  ["inputs"], "all matrices, assignments and inputs over the field up to the stated sizes",
  "Tests use synthetic satisfiable instances of fixed size and two tiny examples.", [S + "r1csinstance.rs", S + "lib.rs"], "matrix-vector products; constructor checks and padding")
p("C19", "Each zero-knowledge block accepts honest proofs and enforces its relation",
  "For the proofs of knowledge, equality, product and dot product, an honestly generated proof is always accepted for every witness and blinding. The verifier's acceptance condition is exactly the defining group equation, with each proof element, commitment and the challenge in its place, so that altering any of them is noticed.",
  ["inputs"], "all witnesses, blinding factors and challenges over the field; every proof component",
  "Tests run one random instance and never a tampered proof.", [S + "nizk/mod.rs", S + "nizk/bullet.rs", S + "commitments.rs"], "Schnorr-style sigma protocols over Pedersen commitments; logarithmic inner-product argument")
p("C20", "An honest proof of a satisfiable circuit always verifies",
  "For every satisfied R1CS instance within the stated size, with any matrices, witness, inputs and randomness, the proof produced is accepted by the verifier when given the same public inputs. With different public inputs, an altered proof or a different instance the verifier's equations do not reduce to an identity.",
  ["inputs"], "all satisfied instances within the size bound, all randomness",
  "End-to-end tests use random synthetic instances of one size and one example each.", [S + "lib.rs", S + "r1csproof.rs", S + "r1csinstance.rs", S + "dense_mlpoly.rs", S + "sumcheck.rs"], "Spartan NIZK: two sum-checks, polynomial opening, blinded commitments")
p("C21", "Prover and verifier derive challenges from the same complete transcript",
  "In every protocol the prover and the verifier append the same messages under the same labels in the same order before each challenge. Every public statement component and every prover message preceding a challenge is absorbed before that challenge is drawn.",
  ["inputs"], "all runs within the stated sizes, comparing the symbolic transcripts",
  "A missing absorption leaves honest proofs valid, so no positive test can see it.", [S + "transcript.rs", S + "lib.rs", S + "r1csproof.rs", S + "sumcheck.rs", S + "nizk/mod.rs", S + "nizk/bullet.rs", S + "commitments.rs"], "labelled append/challenge calls on the transcript")
p("C22", "In-circuit point doubling and addition compute the secp256k1 group law",
  "Any assignment satisfying the doubling or incomplete-addition constraints outputs the secp256k1 sum for inputs on the curve with distinct x coordinates (non-zero y for doubling), and the output is again on the curve. Complete addition outputs the group sum for all pairs of curve points, including the identity, equal and opposite points.",
  ["inputs"], "all curve points and all satisfying witnesses",
  "JavaScript tests check a few points with honest witnesses only; a malicious witness is never tried.",
  [C + "secp256k1/add.circom", C + "secp256k1/double.circom"], "slope constraints and selector gates")
p("C23", "The efficient-ECDSA circuit constrains the public key to the signature relation",
  "In the signature circuit the public key output is the sum of the signature scalar times the signature point T and the point U, in that order, so that for a valid (T, U, s) it is the signer's key. Scalar multiplication gives scalar times point for every scalar below the group order, for every witness that satisfies the constraints: the scalar is decomposed uniquely and no incomplete addition meets an exceptional case.",
  ["inputs"], "all scalars, points and satisfying witnesses",
  "A JavaScript test checks one signature with its honest witness.", [C + "eff_ecdsa.circom", C + "secp256k1/mul.circom"], "double-and-add multiplication and complete addition")
p("C24", "Merkle membership in the circuit equals recomputing the root",
  "For every leaf, path and index bits, the circuit's root output equals folding the two-to-one hash along the path with the left/right order given by each bit, and non-Boolean path bits are impossible. The membership circuits constrain the public root to the one computed from the hash (or address) of the public key recovered from the signature, and require nothing else; the public signals of their instances are root, Tx, Ty, Ux, Uy in this order.",
  ["inputs"], "all leaves, siblings and path bits; every level",
  "A JavaScript test inserts a few leaves.", [C + "tree.circom", C + "pubkey_membership.circom", C + "addr_membership.circom", C + "eff_ecdsa_to_addr.circom"], "per-level selection and hashing")
p("C25", "Public inputs are serialized faithfully and checked against the message",
  "Serializing a proof's public inputs gives r (32 bytes), v (1 byte), root, Tx, Ty, Ux, Uy (32 bytes each) and the message hash, most significant byte first, and reading back gives the same values, for all values in range. "
  "The derived points are T = r^-1 R and U = -(r^-1 m) G with R the point of abscissa r whose parity v - 27 says (v being 27 or 28; for other values one of the two points of that abscissa, or a refusal); the public-input check accepts exactly these. "
  "The verifier hands circuit, proof and the serialized circuit part to the proof system and accepts exactly if both the proof and the public inputs are right; a proof system that throws means rejection.",
  ["inputs"], "all 256-bit values, every recovery byte, every verdict of the proof system; message hashes of the stated lengths; r in 1..n-1 for the derived points",
  "JavaScript tests verify one hard-coded public input and one proof; leading zero bytes, other parities and single wrong coordinates are not tried, and they cannot run without the npm dependencies.",
  ["packages/lib/src/helpers/publicInputs.ts", "packages/lib/src/helpers/utils.ts", "packages/lib/src/core/verifier.ts"], "fixed-width byte packing; recomputation of T and U")
p("C26", "Witness files are read as the field elements stored in them",
  "For every well-formed version-2 witness file the reader returns exactly the stored values in order. A file with a wrong magic number, version, section count, section type or size, field size, a value outside the field, or one that is truncated never yields a witness (the reader fails by error or panic).",
  ["inputs", "fault_sequences"], "all files up to the stated number of witness values, symbolic bytes, every truncation",
  "Needs a prebuilt file and missing crates; malformed files are never tried.", ["packages/spartan_wasm/src/wasm.rs"], "binary header and section reads")
p("C27", "Commitments bind every message entry and blind to its own generator",
  "A commitment to a vector is the sum of each entry times its own generator plus the blind times the blinding generator; splitting and scaling a generator set preserves which generator belongs to which entry, and committing is linear in messages and blinds.",
  ["inputs"], "all messages, blinds and scalings up to the stated vector length",
  "Only exercised indirectly by honest proofs, where consistent misuse cancels out.", [S + "commitments.rs"], "multi-scalar multiplication over generator slices")
p("C28", "Sparse-matrix commitments open to the committed matrices' evaluations",
  "Evaluating a sparse multilinear polynomial equals summing value times the row and column equality factors over its entries, and the memory-checking product circuits evaluate to the product of all their inputs with each layer the pairwise product of the one below.",
  ["inputs"], "all entries and points up to the stated sizes",
  "Tests use one random instance.", [S + "sparse_mlpoly.rs", S + "product_tree.rs"], "offline memory checking with layered product circuits")

p("C29", "Curve base-field inversion, powers and square roots are exact",
  "For both primes, inversion gives the multiplicative inverse of every nonzero element and reports zero as not invertible, batch inversion agrees with it, and exponentiation by any 256-bit exponent equals repeated multiplication. "
  "A square root is reported exactly for squares and squares back to its argument; the square-root ratio of u and nonzero v says whether u/v is a square and returns a root of u/v, or of Z u/v for the fixed non-square Z of the hash-to-curve map.",
  ["inputs"], "every element and exponent of both fields (powers: four exponent words; ratios: every nonzero u, v and u = 0)",
  "The tests of this crate cannot be built here and take roots of a few small squares; non-residues and elements whose order has an unusual 2-part are not sampled.",
  [Q + "field/field_secp.rs", Q + "field/field_secq.rs"], "addition chains, Tonelli-Shanks/constant-time square-root ratio, num-bigint inverse")
p("C30", "Scalars of the secq256k1 group are integers modulo the group order",
  "Scalars of the curve group compute sums, differences, negatives, doubles and products modulo the group order p = 2^256-2^32-977 with a canonical result, for every operator form. "
  "Decoding and conversion from 256-bit integers accept exactly values below p, reduction subtracts the order exactly when needed, encodings, bit decompositions and conversions give the scalar's value, comparisons (zero, odd, above half the order, equality) and selection are exact, "
  "the declared constants are those of the group order, and random scalars are the first draw below the order.",
  ["inputs"], "every pair of scalars, every 256-bit integer",
  "Two tests print sums of small numbers without comparing them; wrap-around at the group order is never reached.",
  [Q + "scalar.rs"], "wrapper of a generic integer core; products through the base field of the dual curve")

p("C31", "Every operator form on curve points is the group operation it names",
  "On points of secq256k1, every form of addition, subtraction, negation, doubling, scalar multiplication and summation of lists (by value, by reference, assigning, through the generic group interface) gives the group operation it names on its operands, in the right roles; "
  "the identity and generator constants agree between interfaces, summing no points gives the identity, and a point is recognised as the identity exactly when it is.",
  ["inputs"], "all points and scalars; lists of 0 to 3 points",
  "No test uses these operators except one addition; a subtraction that adds or a sum that drops its first element would pass.",
  [Q + "affine.rs"], "operator forwarding to the generic projective point type")

p("C32", "The client hands the prover and the hash exactly the caller's values",
  "For a signature (r, s, v), message hash and Merkle proof, the client proves with public inputs r, v, message hash, root and the points derived from them, generates the witness from s, the Merkle proof and the same points, and passes circuit, witness and the serialized circuit part to the proof system, returning its proof. "
  "Hashing a list of numbers passes each as 32 little-endian bytes in order and returns the little-endian value of the digest; hashing a public key hashes its two big-endian halves.",
  ["inputs"], "all 256-bit values and both recovery values; lists and message hashes of the stated lengths",
  "JavaScript tests prove for one key and one message; numbers with leading zero bytes are met by chance only.",
  ["packages/lib/src/core/prover.ts", "packages/lib/src/helpers/poseidon.ts", "packages/lib/src/helpers/utils.ts"], "byte-order conversions, assembling of witness inputs")
p("C33", "The WebAssembly entry points hand the proof system exactly their arguments",
  "The proving entry point hands the proof system the deserialized circuit, every witness value in order as the variables, and the consecutive 32-byte public inputs in order, with generators for the circuit's sizes, and returns the serialized proof. "
  "The verifying entry point hands over the same circuit, sizes, public inputs and transcript start and returns true exactly when the proof system accepts the given proof. The hash entry point hashes its two 32-byte numbers in order.",
  ["inputs"], "all byte values and declared sizes; up to the stated numbers of public inputs and witness values",
  "The one test needs missing crates and proves a prebuilt circuit whose three public inputs are all 1.",
  ["packages/spartan_wasm/src/wasm.rs"], "slicing of the public input bytes, witness reader, verdict mapping")
p("C34", "A proof is bound to the circuit's public wires",
  "The proving instance built from a circuit maps the circuit's constant wire to the instance's constant column and the public wires, in order, to its input columns, and every other wire to a variable column. Then a proof for given public inputs shows the circuit satisfiable with those very inputs.",
  ["inputs"], "all circuits up to the stated numbers of constraints and terms, symbolic wire numbers and counts",
  "Tests verify proofs with the public inputs they were made with; a malicious prover is never played.",
  ["packages/circuit_reader/src/lib.rs"], "wire numbering of circom against the (variables, 1, inputs) layout of the proof system")
p("C35", "The address computed in the circuit is the Ethereum address of the key",
  "The Keccak gadget computes Keccak-256 (original padding) of its message bits for every message of one block: each round is the specified round, the permutation is the 24 rounds in order, and the message is padded, permuted and truncated as specified. "
  "The address gadget yields the number made of the last 20 bytes of Keccak-256 of the big-endian coordinates x, y of the key, and flattening a key lists the bits of y, then of x, whatever the chunking. No output can be chosen by the prover.",
  ["inputs"], "all states, messages of whole bytes up to one block, all keys",
  "No test runs these templates; a wrong rotation or padding bit makes addresses wrong or, unconstrained, forgeable.",
  ["packages/circuits/eff_ecdsa_membership/to_address"], "five-lane step mappings written out by hand, bit and byte order of keys and digests")
p("C36", "The client's Merkle tree proves membership the way the circuit checks it",
  "After any insertions and deletions the tree's root is the Merkle root, under the given hash, of the inserted leaves with zero for deleted and missing ones. The proof of a leaf has that root, one sibling per level from the bottom and path index 0 exactly when the node is the left one, so that hashing leads from the leaf to the root. "
  "Verifying a proof for a leaf succeeds exactly when these hashes lead from the leaf to the proof's root. Leaves and positions are reported as inserted, a position being the first that holds the number.",
  ["inputs", "histories"], "all leaves and hashes; depths, sequences of insertions and deletions as stated",
  "The tests build one tree and use it once; deletions, equal leaves and proofs against other roots are not tried.",
  ["packages/lib/src/helpers/tree.ts"], "proof fields handed on to the circuit, zero leaf, depth")

p("C37", "A proof reveals nothing about the witness",
  "For every circuit, public inputs and challenges, the values a proof consists of have the same joint distribution for every satisfying witness: the prover masks each of them with values of its random tape, never uses one of these twice in a way that lets proof elements be combined into something that depends on the witness, and the tape is seeded with randomness of the operating system before anything is drawn from it. "
  "This holds for the proof with and the proof without a committed circuit.",
  ["inputs", "histories"], "all witnesses and all values of the random tape; circuits as stated",
  "A test sees one proof; that no combination of its elements depends on the witness is a statement about the distribution of all proofs.",
  ["packages/Spartan-secq/src/lib.rs", "packages/Spartan-secq/src/r1csproof.rs", "packages/Spartan-secq/src/sumcheck.rs", "packages/Spartan-secq/src/dense_mlpoly.rs", "packages/Spartan-secq/src/nizk/mod.rs", "packages/Spartan-secq/src/nizk/bullet.rs", "packages/Spartan-secq/src/random.rs"], "random tape, blinded commitments and masked responses")

p("C38", "A proof with a point that does not decode is an error, not a crash",
  "Unpacking the encoding of a point gives that point; unpacking bytes that encode no point gives an error with these bytes, and decompressing them gives nothing. "
  "Every verifier (of a commitment opening, of the proofs of knowledge, equality, product and dot product, of the zero-knowledge sum-check, and of the proof with and without a committed circuit) that meets such bytes in any place of a proof returns an error: it neither accepts nor panics.",
  ["inputs", "fault_sequences"], "every place of a point in proofs of the stated sizes, every value of all other elements",
  "No test verifies a malformed proof.",
  ["packages/Spartan-secq/src/group.rs", "packages/Spartan-secq/src/errors.rs", "packages/Spartan-secq/src/sumcheck.rs", "packages/Spartan-secq/src/r1csproof.rs", "packages/Spartan-secq/src/dense_mlpoly.rs", "packages/Spartan-secq/src/nizk/mod.rs", "packages/Spartan-secq/src/nizk/bullet.rs"], "decoding of commitments, error propagation in the verifiers")

with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
