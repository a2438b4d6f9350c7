package main

// What each check's rule is, in words; used for the evidence files and MANIFEST.json.

type ruleText struct {
	technique, rule string
	assum           []string
	min             int
}

const absint = "static analysis: whole-program abstract interpretation over SSA (guarded symbolic values joined at every merge; no execution, no solver)"

const (
	asCurve  = "the elliptic-curve package's Add/Double/ScalarMult/ScalarBaseMult implement the group (premises checked by the field and curve properties where claimed)"
	asPoints = "points handed in by a caller are on the curve or the identity (0,0)"
	asSHA    = "SHA-256 has no collisions and no digest is 0 modulo the group order"
	asStd    = "the Go standard library behaves as documented (contracts in zkstat/ext.go)"
)

var rules = map[string]ruleText{
	"C01": {absint, "Each verifier is interpreted once on a proof whose every field is an unconstrained symbol. Rule: every cube of the guard under which true is returned must entail, by Gaussian elimination over GF(N) on point and scalar facts, each equation of the protocol for the caller's statement. The point primitives used by the verifiers are interpreted against their group contracts in the same run.", []string{asCurve, asPoints, asSHA, asStd}, 40},
	"C02": {absint, "Each verifier is interpreted once on a proof whose every field is an unconstrained symbol. Rule: every cube of the guard under which true is returned must entail each equation of the protocol (including the sum of the OR challenges) for the caller's statement. The point primitives are interpreted against their group contracts in the same run.", []string{asCurve, asPoints, asSHA, asStd}, 40},
	"C03": {absint, "The range verifier and its goroutines are interpreted on proofs of 0,1,2,3,40 and 64 (thorough: all of 0..64, two completion orders) entries with unconstrained symbolic contents, and on a symbolic count above 64. Rule: the acceptance guard entails the hashed ring equation with the right power of two per entry and both commitment sums; an over-long proof has an infeasible acceptance guard.", []string{asCurve, asPoints, asSHA, asStd}, 40},
	"C04": {absint, "Prover and verifier are interpreted back to back on symbolic witnesses and symbolic nonces. Rule: success of the prover and acceptance by the verifier are entailed by the documented precondition, and no panic is reachable.", []string{asCurve, asSHA, asStd, "an identity point arising from random scalars is not specially excluded: the group contract covers it"}, 60},
	"C05": {absint, "Generation and verification are interpreted on a value of 40 symbolic bits (all 2^40 values at once) under two goroutine completion orders, and on symbolic out-of-range values. Rule: the success and acceptance guards are valid; the out-of-range success guard is infeasible.", []string{asCurve, asSHA, asStd}, 40},
	"C06": {absint, "Each prover is interpreted on unconstrained symbolic statement and witness. Rule: every cube of the success guard entails the witness relation; out-of-domain witnesses have an infeasible success guard.", []string{asCurve, asPoints, asSHA, asStd}, 20},
	"C07": {absint, "In the acceptance guard of each verifier the challenge is traced to its hash atom. Rule: the byte sequence hashed is a concatenation containing the 32-byte fixed-width encodings of both coordinates of every statement point, generator and prover commitment; challenges are reduced mod N; the prover's hash input is the same sequence.", []string{asSHA, asStd, asPoints}, 12},
	"C08": {absint, "Every prover, commitment and key-generation path is interpreted with each randomness draw allowed to fail. Rule: each draw reads crypto/rand.Reader with bound exactly N, no success guard is compatible with a failed draw, and no panic is reachable from one.", []string{asCurve, asStd, "in the 40-worker range prover one draw fails at a time (each of the 80+ draws in turn)"}, 300},
	"C09": {absint, "Published scalars of one proof and of two successive proofs are put in polynomial normal form over the nonce symbols. Rule: Gaussian elimination of the linear nonce terms over GF(N) leaves no nonce-free combination containing a witness symbol; every scalar's interval is within [0,N-1]; every published commitment contains a nonce under every bit pattern.", []string{asCurve, asSHA, asStd}, 200},
	"C10": {absint, "Each verifier is interpreted on arbitrary proofs, on a nil proof and (range) on proofs with every component independently missing. Rule: acceptance guard and nil-error guard are equivalent; nil or missing components have infeasible acceptance; no panic, deadlock or missing return is reachable.", []string{asCurve, asPoints, asSHA, asStd}, 40},
	"C11": {absint, "Point comparison is interpreted on four unconstrained coordinates. Rule: the result guard is equivalent to equality of both coordinates.", []string{asStd}, 4},
	"C12": {absint, "Each operation is interpreted on unconstrained points and integers (any sign and size) against the curve contracts. Rule: the abstract result equals the group expression under every guard; booleans are equivalent to the opening equation; blinding factors and keys are single fresh nonces.", []string{asCurve, asPoints, asStd}, 50},
	"C13": {absint, "Bytes and the matching FromBytes are interpreted back to back on a proof whose integers are unconstrained symbols within +-(2^256-1) (range proofs: 0,1,3,40,64 entries), through the real wire encoding. Rule: the error guard is infeasible and every integer of the parsed proof equals, as a polynomial under every guard, the one that was serialized; same set of components before and after.", []string{asStd, "proof components are present and below 2^256 in magnitude, as every prover guarantees (C09)"}, 250},
	"C14": {absint, "Each FromBytes is interpreted on an input of symbolic length and content (loops that depend on it are covered by a widened generic iteration), and on every strict prefix (symbolic cut) of a symbolic serialized proof. Rule: no panic guard is feasible, every allocation is bounded by the input length or 1 MiB, a nil error entails that no component is nil, the success guard of a strict prefix is infeasible.", []string{asStd}, 60},
	"C15": {absint, "Each wire primitive is interpreted per value class on symbolic values with a writer that may fail at any write and a reader that delivers any chunking. Rule: exactly the specified bytes are written and read back to the same value, nothing after the encoding is consumed, a failed write and a short or non-canonical input is an error, nothing is allocated beyond the limit.", []string{asStd, "io.Reader and io.Writer arguments follow their interface contracts"}, 100},
	"C16": {"static analysis: effect (write-set) analysis by whole-program abstract interpretation over SSA", "Every exported function and method of the root and wire packages is interpreted on arbitrary arguments; every object reachable from an argument or from package-level state carries its origin. Rule: no store, in-place big.Int operation, append into spare capacity or copy has a feasible guard and a destination of such origin (the wire buffer free list, which is a channel, excepted; see C19).", []string{asStd, "slices of proofs have 2 or 3 entries (64 generator powers, 40 range bits)"}, 40},
	"C17": {"static analysis: happens-before (race), typestate and termination analysis of goroutines over SSA by abstract interpretation", "The range prover and verifier are interpreted with all their goroutines; every access to memory is logged with goroutine, guard and locks. Rule: two accesses of different goroutines to overlapping memory, one of them a write, are ordered by spawn, channel receive, WaitGroup or a common lock under every guard; every worker signals on every path and is waited for on every path; no message is left without receiver or room; WaitGroup.Add precedes the start.", []string{asStd, asCurve, "randomness failures in up to two workers of each phase"}, 30},
	"C18": {absint, "The package initialisers are interpreted. Rule: the published generators, the 64 powers and the identity constants denote the group elements their documentation states, in terms of the generators that the base multiplications use.", []string{asCurve, asStd, "H has no known discrete logarithm with respect to G (only its value is checked)"}, 60},
	"C19": {"static analysis: typestate and escape analysis of pooled buffers by abstract interpretation over SSA", "Every exported wire function is interpreted with a free list in an arbitrary state. Rule: a buffer is sent to the free list at most once per borrow and whole, is not read or written afterwards, and never escapes in a result.", []string{asStd}, 40},
	"C20": {"static analysis: abstract interpretation over SSA in the domain of rational functions over GF(P) with magnitude and normalization typestate", "Add, Double, IsOnCurve and the Jacobian routines are interpreted on symbolic coordinates, once per relation between the operands (different x, equal, opposite, either the identity, same object) and per aliasing of the result. Rule: on every feasible path the result, as a rational function reduced by the curve equation, is the group-law expression; every field operation stays within its magnitude contract; equality tests on non-normalized values are given an arbitrary outcome.", []string{"the contracts of the field methods (established by C21)", asStd}, 200},
	"C21": {"static analysis: abstract interpretation over SSA in the domain of integer polynomials over symbolic words with quotient and low-bits atoms", "Each field method is interpreted on ten symbolic words bounded only by the magnitude. Rule: the polynomial of the result words equals the exact result modulo P after expanding low-bits atoms, and the interval of every word respects the magnitude; for Normalize every conjunction of branch conditions yields, by linear reasoning with integer rounding, the same residue, reduced words and a value below P; Inverse's exponent chain is P-2.", []string{"operands respect the documented magnitude limits (checked at every use by C20)", asStd}, 1500},
	"C22": {"static analysis: abstract interpretation over SSA in the domain of guarded linear combinations of base points", "ScalarMult, ScalarBaseMult(H) and NAF are interpreted from source with every bit of the scalar (or of the two halves, for a grid of byte lengths up to the bound that interval reasoning gives) a free condition; additions and doublings are the group operations of C20. Rule: for each sign and carry case the weighted digits of every base point sum to the scalar bit by bit (decided on BDDs by a symbolic adder), and with the endomorphism's eigenvalue the halves recombine to the scalar modulo the order; the result is a point in affine form, and no path panics.", []string{"the contracts of addJacobian, doubleJacobian and field methods (established by C20 and C21)", "the precomputed tables hold the multiples of G and H that their layout says", "the point argument is on the curve and of order N", "quick: 13 (thorough: about 110) of the 324 combinations of lengths of the halves", asStd}, 1000},
	"C23": {"static analysis: abstract evaluation of package initialisation over SSA (constant domain), with the tables embedded in the source decoded by the analyser", "The initialisation of the curve is interpreted from source down to the words of every table entry (245760 stores per table). Rule: each scalar constant equals the standard's; lambda is the eigenvalue of multiplication of x by beta and both lattice vectors are multiples of the order; entry (i, j) satisfies x = X/Z^2, y = Y/Z^3 for the affine point j*256^(31-i) times the generator, computed independently; coordinates X and Y are normalised and Z has magnitude 1, the form C20 and C22 assume.", []string{"base64 and zlib decode as documented (the analyser decodes the string constants with the same formats)"}, 200},
	"C24": {absint, "Key construction, generation, accessors and serialization are interpreted on a symbolic secret, once per byte length of the secret (0 to 32), and PrivKeyFromBytes on byte strings of symbolic length and content. Rule: the public part is, as a group expression, the secret times G; the serialized bytes are laid out as one 32-byte big-endian number equal to the secret; parsing them restores secret and public part; ecdsa.GenerateKey reads crypto/rand.Reader and its failure guard equals the error guard.", []string{asCurve, asStd, "ecdsa.GenerateKey returns a uniform secret in [1,N-1] with its public point, or an error"}, 150},
	"C25": {absint, "ParsePubKey is interpreted on 33, 65, 0 and any other number of symbolic bytes for each first byte 0 to 8 and all above; the serializers on a symbolic curve point per pair of coordinate lengths (quick: 94, thorough: 1024 pairs), and ParsePubKey on their standard output. Rule: the success guard entails format, range, curve equation (a polynomial congruence modulo P) and parity; it is infeasible for other formats; serialized bytes are laid out as the standard says and the round trip restores both coordinates; no panic guard is feasible.", []string{"IsOnCurve decides the curve equation and panics only for coordinates of more than 32 bytes (C20, C21)", "a power (P+1)/4 of the square of y is y or P-y", asStd, "first byte 5 with 65 bytes is tolerated like 4, as in the original library"}, 2000},
	"C26": {absint, "Serialize is interpreted on a signature whose R and (low or high) S are symbols of a given byte length and top bit (quick: about 740, thorough: about 8000 of those classes), both parsers on the standard encoding, and both parsers on byte strings of symbolic content of 0 to 7 and any larger number of bytes. Rule: the bytes are laid out as DER of R and the smaller of S and N-S and both parsers restore them; the guard of success on arbitrary bytes entails every clause of the format and the range, and is entailed by their conjunction; R and S are the integers of the announced sub-ranges; no index, slice or nil panic is feasible.", []string{asStd, "the announced length may be shorter than the input (trailing bytes are ignored), as in the original library"}, 3000},
	"C27": {absint, "Sign is interpreted down to HMAC calls on a symbolic secret (per byte length) and hash (0, 1, 20, 31, 32, 33, 64 and any larger number of bytes; below and at or above N), once for each pattern of up to three refused nonce candidates; Verify on an arbitrary key, hash and signature. Rule: the nonce is, as a term over HMAC-SHA256, the first candidate of RFC 6979 in [1,N-1]; R is the x coordinate of nonce*G reduced, S*nonce = +-(e+d*R) modulo N as polynomials with e the first 256 bits of the hash; interval and guard reasoning give 1 <= R < N and 1 <= S <= (N-1)/2; refusal entails R = 0 or S = 0; Verify's result is equivalent to ecdsa.Verify of exactly its arguments.", []string{asCurve, asStd, "crypto/ecdsa.Verify decides ECDSA validity on the given curve", "no multiple of G has x coordinate exactly N", "at most three nonce candidates are refused (each is with probability 2^-127)"}, 300},
	"C28": {absint, "RecoverCompact is interpreted on every one of the 256 header bytes with arbitrary contents, on 0, 1, 64, 66 and any other number of bytes, and, per header 27 to 34 and per length class of the hash, on R and S such that a symbolic point K has x coordinate R (or R+N) and the parity the header names; SignCompact on a symbolic key and signature (R, S) for each of the four K, each number of bytes of R with each (thorough) or two (quick) of S, with and without another point of x coordinate R. Rule: the key's coordinates are, as terms over group elements, those of (S/R)*K - (e/R)*G; success is equivalent to that point not being the identity; acceptance entails header 27 to 34, x < P, R not 0 modulo N; the compressed flag is exactly header >= 31; SignCompact returns header, R and S in 1+32+32 bytes with the header of the K which recovers the signer's key.", []string{asCurve, asStd, "PrivateKey.Sign returns 1 <= R < N and 1 <= S <= (N-1)/2 (C27)", "of the four points only one recovers the signer's key, or the first one does"}, 300},
	"C29": {absint, "Encrypt is interpreted on a plaintext of every length below 16 and of 16n+r bytes for every r and unbounded n, with an ephemeral key of coordinates of given numbers of bytes, and spare memory behind the plaintext; Decrypt on what Encrypt writes (each length likewise), on every short length and on arbitrary bytes of length 16n+r, for each r. Rule: Encrypt's result equals, as a term over AES-CBC, HMAC-SHA256, SHA-512 and group elements, the format's; it reads 16 random bytes for the vector and fails when they or the key fail; Decrypt of that term is the plaintext; acceptance of arbitrary bytes entails length, curve, coordinate length, curve membership and MAC; the path condition of every AES decryption entails that the MAC agrees; arguments are byte for byte what they were after the call.", []string{asCurve, asStd, "AES-CBC decryption inverts encryption under the same key and vector; HMAC-SHA256 and SHA-512 are functions of exactly their inputs", "ecdsa.GenerateKey returns a secret in [1,N-1] with its public point, or an error", "d*(e*G) = e*(d*G)"}, 300},
}
