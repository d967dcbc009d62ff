RD = "symbolic execution of the real reader's LLVM IR on files with symbolic contents; bit-vector queries (z3)"
CHECKS.update({
    "C08": (RD, "All files of 17 shapes (every section order, unknown sections, up to 2 constraints, 4 terms, 4 wires), every content byte symbolic; more constraints in the thorough tier."),
    "C09": (RD, "Each structural field (alone or in pairs) and the file length symbolic over their full width on files of up to 2 constraints."),
    "C10": ("symbolic execution of the real conversion's LLVM IR; structural and bit-vector queries (z3)", "Circuits of up to 4 constraints with up to 3 terms per vector, all indices and coefficients; Instance::new is a recording stand-in."),
    "C11": (IR + "; bit-vector queries (z3), square root by one nonlinear integer query set per exponent over the IEEE rounding condition",
            "All machine words (square root: all numbers below 2^52)."),
    "C26": (RD, "Witness files of up to 4 values (8 thorough), header fields and length symbolic over their full width; a panic counts as rejection."),
})
SY = "symbolic execution of the real Spartan sources over symbolic field elements (scalar and group types substituted); identities and implications of polynomial systems over F_q decided by z3"
CHECKS.update({
    "C15": (SY, "Polynomials of 0 to 5 variables (8 thorough), every coefficient and point arbitrary."),
    "C16": (SY, "Degrees 2 and 3, every value arbitrary."),
    "C17": (SY, "Up to 3 rounds (5 thorough), degrees 2 and 3, batches of up to 2 + 2 instances; malformed proofs: every list one shorter, one longer, empty, alone and with a sibling, every point undecodable."),
    "C18": (SY, "Up to 8 constraints, 8 variables, 7 inputs (16 thorough), including instances without constraints or inputs and duplicate entries."),
    "C19": (SY, "Vectors of up to 4 (dot product) and 8 (logarithmic) elements; every proof element, statement and challenge arbitrary; malformed proofs as in C17."),
    "C20": (SY, "Whole NIZK and SNARK proofs of instances of up to 4 constraints, 4 variables, 2 inputs; every proof element arbitrary."),
    "C21": (SY, "The protocols of C17, C19, C20, C27, C28 at small sizes: what each challenge depends on, for arbitrary messages."),
    "C27": (SY, "Commitments to up to 8 scalars, polynomials of up to 4 variables (6 thorough), with and without blinding."),
    "C28": (SY, "Trees of up to 8 leaves, batches of 2 + 2, three sparse matrices of up to 4x4 with 3 entries."),
})
CI = "symbolic elaboration of the real circom sources (own front end); "
CHECKS.update({
    "C14": (CI + "the real Rust hash executed over recorded field elements; both in a normal form of linear layers and powers, compared by z3 over F_p", "Full width: all inputs, all rounds."),
    "C22": (CI + "case analysis over F_p with the curve relations, identities decided by z3, counterexamples replayed on the constraints", "No bound: all curve points, all witnesses. circomlib (not shipped) by its documented contract."),
    "C23": (CI + "linear integer arithmetic (z3) for the scalar decomposition, linear forms over scalar bits for the group operations", "No bound: all scalars below n, all points, all witnesses; the point gadgets by C22."),
    "C24": (CI + "polynomial identities over F_p with uninterpreted hashes, decided by z3", "Depths 1 to 3 and 20 (1 to 32 thorough), all values."),
})
CHECKS.update({
    "C12": (IR + "; integer encodings of the carry chains (z3, nonlinear monomials abstracted), bit-vector queries", "All operands, both fields; lists of 0 to 4 elements for sums and products; two draws of rejection sampling."),
    "C29": (IR + " with products replaced by their meaning in a discrete-logarithm normal form; linear and bit-vector queries (z3)",
            "All nonzero elements of both fields, all 256-bit exponents; square root of field_secq by the contract of k256's; batches of up to 3."),
    "C30": (IR + "; 256-bit bit-vector queries (z3); products by composition with C12", "All scalars, all 256-bit integers; two draws of rejection sampling."),
})
CHECKS.update({
    "C13": (IR + " with field elements as nodes of an expression graph and tests on them as boolean atoms; rational-function identities over F_n decided by z3", "No bound on values: all inputs, the exceptional ones separately."),
    "C31": (IR + " with points as integer combinations of symbols; coefficient equality decided by z3", "All points and scalars; lists of up to 3. The group law itself is a missing dependency (stand-in)."),
})
TSX = "symbolic execution of the real TypeScript (operators and conditions redirected into a symbolic runtime, branches by re-execution); bit-vector queries (z3), scalar coefficients modulo the group order by integer queries (z3)"
CHECKS.update({
    "C25": (TSX, "All 256-bit values; message hashes of 0, 1, 32, 33 bytes (more when thorough). elliptic and bn.js are stand-ins."),
    "C32": (TSX, "All 256-bit values; hashes of 1 to 3 numbers, message hashes of 32 bytes (more when thorough). elliptic, bn.js, snarkjs are stand-ins."),
    "C33": (IR + " with a recording stand-in for the proof system; word queries (z3)", "Up to 5 public inputs and 3 witness values (6 and 6 thorough), all bytes symbolic."),
    "C34": (IR + " of the circuit conversion on symbolic circuits; bit-vector queries (z3)", "Circuits of up to 2 constraints (3 thorough). One known finding."),
})
CHECKS.update({
    "C35": (CI + "signals as Boolean terms over symbolic input bits, equality with the specification decided by z3 per lane", "All 2^1600 states per round; messages of 5 lengths (all 135 when thorough), every content; gates of circomlib by their contract."),
})
CHECKS.update({
    "C36": (TSX, "Depths 1 to 3, up to 5 operations, every 256-bit number, any hash. @zk-kit/incremental-merkle-tree is a stand-in."),
})
CHECKS.update({
    "C37": ("symbolic execution of the prover over field elements; triangular elimination of tape values, independence of the witness by polynomial identities decided by z3", "Circuits of up to 8 constraints and 16 variables (64 and 128 thorough); every witness and tape value; challenges, generators and coefficients at one generic value each. Real group and transcript are idealised."),
})
CHECKS.update({
    "C38": ("symbolic execution of the verifiers over field elements with one point at a time undecodable; identities decided by z3", "Proofs of the listed small sizes; every other element arbitrary; comparisons taken as passed, so that verification goes as far as it can."),
})
HOOKS = None
NA = {}
