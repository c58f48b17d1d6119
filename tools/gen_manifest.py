#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (one row per claimed property)."""
import json, os
D = {}
def c(i, technique, note):
    D[i] = (technique, note)
FIELD = "property-based testing: generated operands and operation histories against a schoolbook-integer model (proptest, seeded, shrinking)"
c("C01", FIELD, "Every operation is exercised on about a million generated operand tuples and histories, edge-heavy as integers and in Montgomery form, and compared with exact integers; no claim beyond the explored cases. Trusts the integer model and the dependency stand-ins.")
c("C02", "property-based testing: generated byte strings, limbs and values, round-trip and reference-integer oracle (proptest)", "Acceptance is compared with integer comparison on generated strings around every boundary; explored cases only.")
c("C03", FIELD, "As C01 for the coordinate field; square roots are checked by squaring and by Euler's criterion in the model.")
c("C04", FIELD, "As C03 for the second field, plus the curve scalar type; one open finding (square root of non-residues) is recognised by its exact value.")
CURVE = "property-based testing: generated points and scalars (small multiples, torsion-free, identity, inverse pairs, scaled projective representatives) against an affine big-integer model (proptest)"
c("C05", CURVE, "Group laws and scalar multiplication are compared with an independent affine model on generated points; explored cases only.")
c("C06", "property-based testing: round trips and generated malformed encodings against a decoding model (proptest)", "All byte-level mutations of encodings are judged by an independent curve-membership model; explored cases only.")
c("C07", "property-based testing: generated messages, labels and sizes against an independent SSWU+isogeny and generator model (proptest)", "Outputs are compared with a second implementation of the map; independence of generators is checked as distinctness over the explored labels.")
c("C08", "property-based testing: differential against a from-scratch Poseidon (own Grain LFSR parameters), including re-use histories of one hasher (proptest)", "The reference regenerates constants from the specification; explored inputs only.")
c("C09", "property-based testing: generated R1CS files (own writer: section orders, unknown sections, damage, truncation) against the content they were written from (proptest)", "Files of up to a few hundred wires; count fields are not damaged at random because the reader allocates what they ask for.")
c("C10", "property-based testing: generated circuits that are satisfied by construction, then mutated; the converted instance, in memory and on disk, against direct evaluation of the constraints (proptest)", "Explored circuits have up to 140 wires and 70 constraints.")
c("C21", "property-based testing: generated witness files, damage and truncations (own writer) against the values they were written from (proptest)", "Witnesses of up to 80 values, also through readers that return short reads.")
c("C22", "property-based testing: generated circuits and witnesses through circuit file, witness file, prove and verify; mutated inputs, witnesses, circuits and proof bytes must be refused (proptest)", "Circuits of up to 24 wires plus the repository's own; dependencies absent here are replaced by stand-ins.")
c("C11", "property-based testing: generated matrices and assignments of all small sizes, valid and invalid, against direct evaluation of the definition (proptest)", "Explored instances have up to 140 rows and columns; error variants are compared with the documented ones.")
c("C12", "property-based testing: instances satisfied by construction (all shapes), proved and verified, also repeatedly and in sequence on one transcript (proptest)", "Instances of up to 140 constraints or variables, plus the repository's synthetic generator.")
c("C13", "property-based testing and fault injection: every element and list of honest proofs changed, multi-element edits, transplants, false statements, hybrid provers, and reference provers that carry a false claim up to one equation; the verdict is compared with a reference verifier (proptest)", "Explores concrete forgery strategies; it is not a cryptographic soundness proof.")
c("C14", "property-based testing: instances satisfied by construction (tall, wide, lopsided, degenerate), encoded, proved and verified with independently made parameters and commitment (proptest)", "Instances of up to 140 constraints or variables.")
c("C15", "property-based testing and fault injection: elements, lists, pairs and parts of honest proofs changed, false statements, other inputs or commitments, hybrid provers, and reference provers that carry a false claim up to one equation; the verdict is compared with a reference verifier (proptest)", "Explores concrete forgery strategies; it is not a cryptographic soundness proof.")
c("C16", "property-based testing: transcripts of generated proof runs are recorded and searched for every message and input, challenges are compared between changed statements and messages (metamorphic), stored proofs of the original tree have to verify, and proofs cross-verify with a reference prover and verifier (proptest)", "Looks at every position of the recorded transcripts of explored statements; 23 stored proofs.")
c("C17", "property-based testing: generated statements proved under fixed challenges while the prover's randomness is varied (as a whole, value by value, entropy byte by byte); differences and their linear rank are checked (metamorphic, proptest)", "Blinding is judged through linear relations of proof elements under varied randomness on explored statements; it is no zero-knowledge proof.")
c("C18", "property-based testing and fault injection: every sub-protocol run over generated inputs (degenerate ones included), every kind of element, list and claim change, proofs of false claims by the prover's own code; commitments against the reference model's generator combinations (proptest)", "Explored inputs and sizes (vectors up to 16, cubes up to 2^5); soundness is judged against explored attacks, not proved.")
c("C19", "property-based testing: differential comparison of every algebra routine with its definition in an independent model, and histories of bindings (proptest)", "Tables up to 2^11 and sparse dimensions up to 2^4 are explored; the integer square root is judged where doubles are exact.")
c("C20", "property-based testing and fault injection: round trips of generated proofs, instances and assignments through four decoders, behavioural comparison, and damaged or truncated bytes that must not be accepted (proptest)", "Explored statements and damage only; encodings that decode to the same statement count as undamaged.")
CI = "The circuits are elaborated and evaluated by our own circom interpreter (no circom compiler exists here), which also collects and checks every R1CS constraint; circomlib is a stand-in."
c("C23", "property-based testing: generated points and scalars (related, opposite, identity, at and above the group order, crafted carries) through the circuits' honest witness, all constraints checked, against an affine model (proptest)", CI)
c("C24", "property-based testing: three-way differential of the Poseidon and Merkle circuits, the native hash and a from-scratch model over generated inputs, paths and depths, non-bit paths included (proptest)", CI)
c("C25", "property-based testing: generated keys, messages of every supported length and states through the Keccak and address circuits against an independent Keccak (proptest)", CI)
c("C26", "property-based testing: generated honest statements must be accepted and altered ones (single edits, transplants from other signatures, off-by-one, other members) refused by the circuits' constraints (proptest)", CI)
c("C27", "fault injection and property-based testing: every value a dishonest prover may choose (each hint, each signal no constraint pins) is replaced by generated and targeted values and the remaining witness is recomputed; no satisfying assignment may have other outputs; the deployed circuits' public signals are compared (proptest)", CI + " A search for second solutions, not a uniqueness proof.")
TS = "The TypeScript client is bundled from the working tree with stand-ins for its absent packages; its wasm glue runs over the native build. "
c("C28", "property-based testing: generated keys, nonces and messages against T, U and the public key computed independently (OpenSSL and own arithmetic); single and double alterations and out-of-range values must be judged exactly (fast-check)", TS + "Explored cases only.")
c("C29", "property-based testing: round trips, layouts and widths of generated values and bytes (views into larger buffers included), signature strings in every encoding, and call histories through the wasm glue with injected traps and memory growth (fast-check)", TS + "Explored cases only.")
c("C30", "stateful model-based testing: histories of insertions, deletions, proofs and look-ups on two trees sharing a hasher, against a model tree over the reference hash; altered proofs; hash inputs in and out of range (fast-check)", TS + "Depths 1 to 32, up to 30 operations.")
c("C31", "property-based testing and fault injection: what the prover and verifier hand to the witness generator and the native side is recorded for concurrent calls, native failures and malformed inputs are injected, and whole runs through the repository's pubkey membership circuit and native prover are made and altered (fast-check)", TS + "Whole runs use trees of depth 1 to 3 (own witness generator).")
c("C32", "property-based testing of the whole system: generated keys, messages and trees of depth 20 go through the client prover, the two deployed circuits (compiled by our circom interpreter, converted by the repository's tool) and the native prover; honest proofs must verify, altered proofs and statements and dishonest members must not (fast-check)", TS + "The circuit compiler is our own (copies eliminated, as circom does); few but full-size cases.")
#MORE
ALL = ["C%02d" % i for i in range(1, 33)]
NA = {}
m = {
    "version": 1,
    "setup_cmd": "true",
    "checks": [
        {
            "property": i,
            "quick_cmd": "VERIF_TIER=quick ./check %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough ./check %s" % i,
            "technique": D[i][0],
            "level": "exploration",
            "level_note": D[i][1],
        }
        for i in ALL if i in D
    ],
    "not_applicable": [{"property": i, "reason": NA.get(i, "its check is still being built")} for i in ALL if i not in D],
    "notes": "No hooks: private items are reached by compiling /repo's module files under a generated crate root. See DESIGN.md.",
}
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json")
json.dump(m, open(out, "w"), indent=1)
print(len(m["checks"]), "checks")
