#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below and the analyser's own rule texts."""
import json, subprocess, sys, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def P(id, title, statement, over, qtext, why, files, mech, observe="", na=None, state=""):
    return dict(id=id, title=title, statement=statement, over=over.split(), qtext=qtext, why=why,
                files=files.split(), mech=mech, observe=observe, na=na, state=state)

I = "inputs"
PROPS = []
def add(*a, **k): PROPS.append(P(*a, **k))

add("C01", "Knowledge, equivalence and consistency verifiers enforce their equations",
    "Whenever verification of a proof of knowledge, an equivalence proof or a consistency proof returns true, every algebraic equation of that sigma protocol holds between the proof, the Fiat-Shamir challenge recomputed from the transcript, and the statement the verifier was given. In particular no field of the proof and no statement point can be changed independently of the others without the verdict changing to false.",
    I, "every proof value (all field contents, including hostile ones) and every statement of curve points or the identity",
    "Tests verify a handful of honest proofs and a few mutations; forgeries are found only by considering every proof value.",
    "gspfs.go equivalence.go consistency.go crypto.go",
    [("acceptance condition implies each verification equation", "Verify methods in gspfs.go, equivalence.go, consistency.go")],
    "boolean result of verification")
add("C02", "Disjunctive, ABC and inequality verifiers enforce their equations",
    "Whenever verification of a disjunctive, ABC or inequality proof returns true, every algebraic equation of that protocol holds (including that the two sub-challenges of an OR proof add up to the hashed challenge), with respect to the statement the verifier was given. No proof is accepted that satisfies only part of the equations.",
    I, "every proof value and every statement of curve points or the identity",
    "Tests verify honest proofs and a few mutated ones; a dropped or weakened equation is invisible to them.",
    "disjunctive.go abc.go inequality.go crypto.go",
    [("acceptance condition implies each verification equation", "Verify methods in disjunctive.go, abc.go, inequality.go")],
    "boolean result of verification")
add("C03", "Range verifier enforces the whole ring-signature relation",
    "Whenever verification of a range proof returns true, the challenge in the proof equals the hash of all per-bit ring points, each computed for its own power of two from that entry's commitment and response, and the entry commitments add up both to the aggregate in the proof and to the commitment being verified. A proof with more entries than there are supported powers of two is never accepted.",
    "inputs schedules", "every proof value, every commitment, and every order in which the concurrent workers finish",
    "Tests check honest proofs of a few values; they never build proofs with hostile entries, nor control worker scheduling.",
    "rangeproof.go crypto.go",
    [("acceptance implies ring equation and both sum equations", "RangeProof.Verify and its workers")],
    "boolean result of verification")
add("C04", "Every honestly generated sigma proof is produced and verifies",
    "For every true statement and witness satisfying the documented preconditions, proof generation succeeds without error when randomness is available, and the proof it returns is accepted by the matching verifier for the same statement. This holds for every value of the witness, including zero, negative and larger than the group order where the protocol allows it, and for every random draw.",
    I, "every witness, every random draw, both disjunction sides and both ABC options",
    "Tests prove a few dozen small or random values; special values (zero scalars, values with leading zero bytes, multiples of the order) are not sampled.",
    "gspfs.go equivalence.go consistency.go disjunctive.go abc.go inequality.go crypto.go",
    [("prover output satisfies verifier for all witnesses", "New*Proof and Verify")],
    "error of generation and verdict of verification")
add("C05", "Every in-range value gets an accepted range proof; others get none",
    "For every value from zero up to the supported limit, range-proof generation succeeds when randomness is available, the proof verifies against the Pedersen commitment of the value under the blinding factor that was returned, and nothing depends on worker scheduling. For every negative value and every value at or above the limit, generation returns an error.",
    "inputs schedules", "every value (all bit patterns), every random draw, worker completion orders",
    "Tests try a few dozen values; there are 2^40 bit patterns and boundary values were wrong.",
    "rangeproof.go", [("40 symbolic bits through generation and verification", "NewRangeProof, RangeProof.Verify")],
    "proof, blinding factor, error")
add("C06", "Provers refuse witnesses that do not match the statement",
    "If proof generation returns no error, the witness it was given really opens the statement it was given (the commitment, token and public-key equations hold, and the values claimed to be unequal or invertible are). A caller is never handed a proof of a statement that is false for its own witness.",
    I, "every witness and every statement",
    "Tests try one or two wrong witnesses per prover.",
    "gspfs.go equivalence.go consistency.go disjunctive.go abc.go inequality.go rangeproof.go",
    [("success condition implies witness relation", "New*Proof preamble checks")],
    "error of generation")
add("C07", "The Fiat-Shamir challenge binds the entire statement and transcript",
    "The challenge used for acceptance is the hash of an unambiguous encoding of every statement point, every generator and every prover commitment of the proof, reduced modulo the group order. Two transcripts that differ in any of these points are hashed from different inputs, and prover and verifier hash the same input.",
    I, "every pair of transcripts, including points whose coordinates have leading zero bytes",
    "An omitted or ambiguously encoded point changes no honest verification result, so no test sees it.",
    "gspfs.go equivalence.go consistency.go disjunctive.go abc.go rangeproof.go crypto.go",
    [("hash input of challenge contains fixed-width encoding of each point", "GenerateChallenge calls; ECPoint.Bytes")],
    "challenge value in the proof")
add("C08", "All nonces are fresh, uniform and from the system CSPRNG; failures abort",
    "Every secret nonce, blinding factor and generated key is drawn from the operating system's cryptographic randomness, uniformly over the scalar field. If any draw fails, the operation reports an error and hands out no proof, commitment or key.",
    "inputs fault_sequences", "every call, and a failure of the randomness source at each possible draw",
    "The randomness source never fails in tests, and tests cannot observe bias or reuse of a nonce.",
    "gspfs.go equivalence.go consistency.go disjunctive.go abc.go rangeproof.go crypto.go",
    [("source, bound and error handling of each draw", "rand.Int call sites")],
    "error results; values drawn")
add("C09", "Published responses never expose the witness",
    "Every response scalar in a proof is masked by a nonce that masks nothing else in that proof or in any other proof, and is published reduced into the scalar range. No combination of published scalars cancels all nonces while still depending on the witness, and every published commitment carries a nonce.",
    "inputs histories", "every witness and every pair of proofs generated in one process",
    "Leakage through nonce reuse or unreduced integers does not affect verification, so tests pass.",
    "gspfs.go equivalence.go consistency.go disjunctive.go abc.go inequality.go rangeproof.go",
    [("linear algebra over nonces in published scalars", "response computation in each prover")],
    "published proof fields")
add("C10", "Verification verdicts are consistent and total",
    "Verification returns true exactly when it returns no error. Verifying an absent proof returns false with an error, and so does verifying a range proof in which any component is missing; neither panics, blocks or leaks workers.",
    I, "every proof type, every proof content; absent proofs; range proofs with any subset of components missing",
    "Tests look at the boolean or the error, not both, and only for sampled proofs.",
    "gspfs.go equivalence.go consistency.go disjunctive.go abc.go inequality.go rangeproof.go",
    [("true iff nil error on all paths; nil guards", "Verify methods")],
    "verdict and error pair")
add("C11", "Point equality is exact",
    "Two points compare equal exactly when both coordinates are equal; in particular a point never equals its negation or an unrelated point, and comparison is reflexive and symmetric.",
    I, "every pair of points (including the identity)",
    "Tests compare a few random points, which differ in every coordinate.",
    "crypto.go", [("equality condition is X=X' and Y=Y'", "ECPoint.Equal")], "boolean result")
add("C12", "Point operations and Pedersen commitments compute what they claim",
    "Point multiplication, addition, subtraction and negation return the group-theoretic result for all scalars (negative, zero, larger than the order) and all points including the identity; commitments and tokens are exactly value·G + r·H and r·PK, opening checks accept exactly the matching openings, key generation returns sk and sk·base, and the challenge hash is SHA-256 of the concatenated inputs reduced modulo the order.",
    I, "every scalar and every pair of points or identities",
    "Tests sample random scalars and points; identity, inverse pairs, zero and oversized scalars are not reached.",
    "crypto.go zksigma.go", [("abstract result equals group element", "Mult, Add, Sub, Neg, PedCommit, PedCommitR, CommitR, Open, VerifyR, KeyGen, GenerateChallenge")],
    "returned points and booleans")
add("S01", "Computational soundness and zero knowledge against efficient adversaries",
    "No efficient adversary can produce an accepted proof of a false statement, and proofs reveal nothing beyond the truth of the statement.",
    I, "every efficient adversary", "Not observable by tests.",
    "gspfs.go equivalence.go consistency.go disjunctive.go abc.go inequality.go rangeproof.go",
    [("security reductions", "whole library")],
    na="Rests on the discrete-logarithm and random-oracle assumptions; a static analysis of the source can establish the verification equations, transcript binding and nonce discipline that the reduction needs (C01-C09) but not the computational claim itself.")

exec(open(os.path.join(ROOT, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "props_more.py")) else None

def main():
    desc = {d["id"]: d for d in json.loads(subprocess.check_output([sys.argv[1] if len(sys.argv) > 1 else "/tmp/zk", "-describe"]))}
    PROPS.sort(key=lambda p: (p["id"][0] != "C", p["id"]))
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            if p["observe"]: a["observe_at"] = [p["observe"]]
            if p["state"]: a["state"] = p["state"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": a}, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in PROPS:
        d = desc.get(p["id"])
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]}); continue
        assert d, p["id"]
        checks.append({"property": p["id"], "quick_cmd": "bash run.sh %s quick" % p["id"], "thorough_cmd": "bash run.sh %s thorough" % p["id"],
            "technique": d["technique"], "level": "other", "level_note": d["rule"] + (" Assumes: " + "; ".join(d["assum"]) + "." if d["assum"] else "")})
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
    extra = set(desc) - {p["id"] for p in PROPS}
    if extra: print("checks without property:", extra)
main()
