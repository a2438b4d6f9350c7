
add("C13", "Serialized proofs are read back exactly",
    "Serializing any proof and parsing the resulting bytes succeeds and yields a proof equal to the original in every component, in number and order of entries, sign and value of every integer. Verification of the parsed proof therefore gives the same verdict as verification of the original.",
    I, "every proof of every serializable type, including zero, short, negative and maximal integers and identity points",
    "Tests round-trip one or two random proofs per type; integers with leading zero bytes, zeros and negative numbers are not sampled.",
    "gspfs.go equivalence.go consistency.go disjunctive.go abc.go rangeproof.go crypto.go wire/common.go",
    [("parse after serialize is the identity on every component", "Bytes methods and New*FromBytes")], "parsed proof, error")
add("C14", "Parsing untrusted bytes is safe and total",
    "Parsing any byte string as any proof type returns, without a panic and without allocating more memory than the input is long (or a small constant). It returns either an error or a proof in which no component is missing; every strict prefix of a serialized proof is rejected with an error.",
    I, "every byte string of every length, and every truncation of every serialized proof",
    "Tests parse only bytes produced by the library itself.",
    "gspfs.go equivalence.go consistency.go disjunctive.go abc.go rangeproof.go crypto.go wire/common.go",
    [("no reachable panic, bounded allocation, complete result", "New*FromBytes, ReadECPoint, ReadBigInt, ReadVarBytes")], "result or error; memory")
add("C15", "Wire primitives encode canonically and report every failure",
    "Variable-length integers are written in their shortest form, little-endian as documented, occupy exactly the advertised size, and are read back to the same value; longer-than-necessary forms are rejected. Byte strings, points and big integers (sign included) written are read back unchanged, consuming exactly their own encoding however the reader delivers the bytes; lengths above the limit are rejected before allocation; short input and failed writes are reported as errors. Random 64-bit numbers use all 64 bits of the system randomness and report its failure.",
    "inputs fault_sequences", "every value, every trailing data, every chunking of reads, a write failure at any point",
    "Tests write a few values to memory buffers, which never fail or deliver partial reads.",
    "wire/common.go crypto.go",
    [("encoder and decoder compared on value classes", "WriteVarInt, ReadVarInt, VarIntSerializeSize, WriteVarBytes, ReadVarBytes, WriteECPoint, ReadECPoint, WriteBigInt, ReadBigInt, RandomUint64")], "bytes written and consumed, values, errors")
add("C16", "No operation modifies its arguments or shared state",
    "Proving, verifying, committing, serializing, parsing and point arithmetic leave everything the caller passed in (points, scalars, proofs, byte slices including spare capacity behind them, curve parameters) and all package-level state unchanged. Repeating a call therefore sees the same inputs, and calls running concurrently on shared inputs do not interfere.",
    "inputs histories", "every exported operation of the proof and wire packages, every argument, on success and failure",
    "Tests use each argument once or with values that happen to be unaffected by an in-place reduction.",
    "crypto.go zksigma.go gspfs.go equivalence.go consistency.go disjunctive.go abc.go inequality.go rangeproof.go wire/common.go",
    [("no feasible write to an object reachable from arguments or globals", "every exported function")], "arguments after the call")
add("C17", "Range-proof workers are race-free and always finish",
    "The concurrent workers of range-proof generation and verification never access the same memory without synchronization, and every result and error a worker produces is visible to the call that started it. Each call waits for all its workers on every path, including when randomness fails in some of them, and neither blocks forever nor leaves a worker blocked behind.",
    "schedules inputs fault_sequences", "every interleaving of the workers, every value and proof, randomness failures",
    "Tests see one schedule per run and no randomness failure; a race rarely changes a result.",
    "rangeproof.go",
    [("happens-before over logged accesses; worker typestate", "proofGenA, proofGenB, verifyGen, NewRangeProof, RangeProof.Verify")], "results under any schedule; goroutines left behind")
add("C18", "Published curve parameters are the generators the library computes with",
    "The ready-made parameter set contains the curve, the generator and second generator that fixed-base multiplication uses, and 64 points of which entry i is exactly 2^i times the generator; the identity constants are (0,0) and 0.",
    I, "every entry of the parameter set and every initialisation order of the packages",
    "Range proofs of small values in tests never touch the higher powers.",
    "zksigma.go crypto.go btcec/btcec.go",
    [("abstract evaluation of package initialisation", "TestCurve, Zero, BigZero, init")], "values of the exported variables")
add("C19", "Pooled wire buffers are never shared or retained",
    "A scratch buffer taken from the wire package's free list is returned at most once, is returned whole, is never touched after it was returned, and never becomes part of a result. No call can therefore observe or corrupt the data of another call, whatever the free list contains, and none panics because of it.",
    "inputs histories schedules fault_sequences", "every wire operation, every state of the free list, every read or write failure",
    "Tests run one call at a time, so a retained or doubly returned buffer has no visible effect.",
    "wire/common.go",
    [("borrow/return typestate", "binaryFreeList and its users")], "returned data under concurrent use")
add("C20", "Curve addition and doubling implement the group law",
    "For all points of secp256k1 in canonical affine form, including the identity (0,0), equal points, opposite points and one object passed twice, curve addition and doubling return the canonical coordinates of the group sum, and the curve-membership test is exact. The same holds for the internal Jacobian routines for every representation of the operands (any nonzero z, non-normalized words, results written over an operand, the identity in any form).",
    I, "every pair of points, every Jacobian representation, every aliasing of result and operand",
    "Tests add a few fixed points; exceptional cases and non-normalized operands need particular field values.",
    "btcec/btcec.go",
    [("rational-function identities over GF(P)", "Add, Double, IsOnCurve, addJacobian and its variants, doubleJacobian and its variants, fieldJacobianToBigAffine")], "coordinates of the result")
add("C21", "Field arithmetic is exact modulo the secp256k1 prime",
    "On every word representation within the documented magnitude, field addition, negation, multiplication, squaring, inversion, small-integer operations and byte conversions compute the exact residue modulo P, with no word or carry overflowing and the documented magnitude on the result; receivers may coincide with operands. Normalization yields the unique representation below P, and the zero, equality and parity tests are exact on normalized values.",
    I, "every combination of word values within the magnitude limits, every aliasing of receiver and operands",
    "A wrong carry shows only for particular word patterns among 2^256 or more.",
    "btcec/field.go",
    [("limb polynomials with quotient and low-bits atoms; linear case analysis for Normalize", "all methods of fieldVal")], "words of the result")
add("C22", "Scalar multiplication returns exactly the scalar multiple",
    "For every point of secp256k1 (the identity included) and every big-endian scalar of any length, multiplication of the point, of G and of H returns the canonical affine coordinates of scalar times point; scalars longer than 32 bytes count modulo the group order, shorter ones as they are, and leading zero bytes change nothing. The non-adjacent form of a byte string is two strings of equal length whose difference is the number, with no digit both plus and minus one and no two neighbouring digits nonzero.",
    I, "every scalar of every length, every point, every carry and sign pattern of the decomposition",
    "Carries of the recoding and signs or lengths of the two halves take particular values only for rare scalars.",
    "btcec/btcec.go",
    [("digit sums as guarded linear combinations; endomorphism eigenvalue; linear reasoning for the split", "ScalarMult, splitK, NAF, moduloReduce, ScalarBaseMult, ScalarBaseMultH")], "coordinates of the result, digits of NAF")
add("C23", "Curve constants and precomputed tables are those of secp256k1",
    "The shared curve object carries the standard parameters of secp256k1 (P, N, B, G, cofactor 1, (P+1)/4, half the order) and an endomorphism whose constants agree with one another. Every one of the 2x32x256 entries of the precomputed tables, as decoded at start-up, is the multiple j*256^(31-i) of its generator in a form the addition accepts. The second generator is the even point whose x coordinate is the SHA-256 digest of Gx+2, as documented, so that nobody knows its discrete logarithm.",
    I, "every constant, every table entry",
    "A test multiplies a few scalars; each touches 32 of 16384 table entries.",
    "btcec/btcec.go btcec/precompute.go btcec/secp256k1.go btcec/secp256k1H.go",
    [("abstract evaluation of the initialisation, recomputation of every entry by affine arithmetic on numbers", "initS256, loadS256BytePoints, loadS256BytePointsH, QPlus1Div4, Params")], "fields of S256()")
add("C24", "Private keys keep their secret and carry the matching public key",
    "A private key made from bytes, or freshly generated, has the secret times the generator as its public part, and making a key from bytes keeps the number they encode. Serializing writes every secret below the group order as exactly 32 big-endian bytes and reading them back restores the same key. Generation draws from crypto/rand only and returns a key exactly when it reports no error; PubKey and ToECDSA return the same key.",
    "inputs fault_sequences", "every secret, every byte string, failure of key generation",
    "Secrets with leading zero bytes appear once in 256 keys; a randomness failure never in tests.",
    "btcec/privkey.go btcec/pubkey.go",
    [("abstract evaluation, one case per secret length", "PrivKeyFromBytes, NewPrivateKey, PrivateKey.Serialize, PubKey, ToECDSA, paddedAppend")], "secret, coordinates and serialized bytes")
add("C25", "Public keys are parsed strictly and survive serialization",
    "Parsing a public key from arbitrary bytes never panics and succeeds only for 33 bytes starting with 2 or 3 or 65 bytes starting with 4 to 7, with both coordinates below P, on the curve, equal to the encoded ones, and for compressed and hybrid form with the parity the first byte states; a key is returned exactly when there is no error. Every key serializes to the standard compressed, uncompressed and hybrid encoding of fixed length, and parsing that gives the same key. IsCompressedPubKey recognises exactly the compressed format and IsEqual compares both coordinates.",
    I, "every byte string of every length, every point with coordinates of every byte length",
    "Coordinates with leading zeros, x values without a point, and coordinates at or above P are rare among random inputs.",
    "btcec/pubkey.go",
    [("acceptance entailment on arbitrary bytes; symbolic round trip per coordinate length", "ParsePubKey, decompressPoint, Serialize*, IsCompressedPubKey, IsEqual")], "key or error from parsing, serialized bytes")
add("C26", "Signature encoding is canonical and parsed strictly",
    "Every signature with 1 <= R, S < N serializes to the one DER encoding of R and the smaller of S and N-S, without changing the signature, and both parsers read exactly those numbers back. On arbitrary bytes parsing never panics and succeeds exactly when the bytes within the announced length are two non-empty integers in a sequence with both values in [1, N-1], and for the DER parser neither negative nor needlessly padded; a signature is returned exactly when there is no error. IsEqual compares both numbers.",
    I, "every byte string of every length, every pair (R, S)",
    "Length bytes that disagree with the data, padding and boundary values are a handful of bytes among all inputs.",
    "btcec/signature.go",
    [("symbolic offsets and lengths with linear reasoning; acceptance equivalence; symbolic round trip per length class", "Signature.Serialize, parseSig, ParseSignature, ParseDERSignature, canonicalizeInt, canonicalPadding, Signature.IsEqual")], "serialized bytes, parsed numbers or error")
add("C27", "Signatures are deterministic, canonical and verify under the signer's key",
    "For every private key and hash of any length, signing uses as nonce the first candidate of the RFC 6979 chain for that secret and hash in [1, N-1], and returns R, the x coordinate of nonce times G modulo N, and S in [1, (N-1)/2] with S*nonce = +-(e + d*R), where e is the first 256 bits of the hash; hence the signature verifies under the key's public part. It fails only when R or S would be 0, never panics, and returns a signature exactly when there is no error. Verify accepts exactly the signatures that are valid ECDSA signatures of that hash under that key.",
    I, "every secret, every hash of every length, refused nonce candidates, every signature",
    "Refused nonces, hashes at or above N, short secrets and R above N occur with probability below 2^-100 in tests.",
    "btcec/signature.go btcec/privkey.go",
    [("abstract interpretation over terms of HMAC, group elements and scalars", "signRFC6979, nonceRFC6979, mac, int2octets, bits2octets, hashToInt, PrivateKey.Sign, Signature.Verify")], "nonce, R and S, verdict of Verify")
add("C28", "Compact signatures recover the signer's key and nothing else",
    "For every key and hash, SignCompact returns 65 bytes: a header 27 to 34 that says whether the key is compressed and which nonce point K was used, then R and S padded to 32 bytes each. For any bytes and hash, RecoverCompact returns the key (S*K - e*G)/R, with its curve and the header's compressed flag, for K the point with x coordinate R (or R+N) and the parity the header names. It refuses, without a panic and without a key, exactly when the length is not 65, the header is another, R is 0 modulo N, x is not below P, there is no such K, or that key is the identity.",
    I, "every header, every R and S, every hash of every length, short R and S",
    "Identity keys, x coordinates above N and short R or S occur with negligible probability in sampled signatures.",
    "btcec/signature.go btcec/pubkey.go",
    [("abstract interpretation over terms of group elements and scalars", "SignCompact, RecoverCompact, recoverKeyFromSignature, decompressPoint, hashToInt")], "recovered key, refusal, bytes of the signature")
add("C29", "Encryption to a key: only authentic ciphertexts decrypt, to what was encrypted",
    "For every key and plaintext of any length, Encrypt returns a fresh random 16-byte vector, the ephemeral public key, AES-256-CBC of the text with PKCS#7 padding and an HMAC-SHA256 over all of it, under the halves of SHA-512 of the shared x coordinate; Decrypt with the private key returns that plaintext. For any other bytes Decrypt neither panics nor decrypts anything unless length, curve, coordinate lengths, the ephemeral point and the MAC over everything before it are right. Encrypt fails when randomness does, a result is returned exactly when there is no error, and neither writes to the caller's buffers.",
    I, "every plaintext length and content, every ciphertext, failing randomness, spare capacity behind a buffer",
    "A forged byte, a buffer with spare capacity or a padding byte only a malicious sender writes are not among the samples.",
    "btcec/ciphering.go btcec/pubkey.go btcec/privkey.go",
    [("abstract interpretation over terms of AES-CBC, HMAC and group elements", "Encrypt, Decrypt, GenerateSharedSecret, addPKCSPadding, removePKCSPadding, ParsePubKey")], "ciphertext, plaintext, errors, caller's buffers")
