#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept as a script so that the long records stay editable).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Every signature produced by Sign verifies under the matching public key",
  "For every supported parameter set, key, message and unused sequence number, the signature that signing returns is accepted by verification with that key pair's public key and that message. It carries exactly the sequence number that was consumed, and it is the signature RFC 8391 prescribes for the stored seeds, that sequence number and that message.",
  ["inputs","configurations","histories"],"all parameter sets (hash function, n, height, layers, w, PRF construction), all seeds, all messages, all sequence numbers, cache hit or miss for every subtree",
  "Tests sign a handful of messages at a few (mostly random or middle) sequence numbers for a few instances; chain lengths, leaf parities, subtree boundaries and the w/n combinations are sampled, not covered.",
  ["api.go","core.go","wots.go","hash.go","address.go"],
  [("WOTS+ signing and chain iteration","wots.go: wotsSignInto, wotsGenChainInto, wotsGenChainsX4Into, genWotsSk"),("assembling the hypertree signature","api.go: PrivateKey.SignFrom; core.go: subTreePathForSeqNo, AuthPath, getSubTree")],
  [("merkleTree.buf","flat array of all nodes of one subtree","core.go")],["PrivateKey.Sign","PublicKey.Verify"])
p("C02","Verify accepts exactly the signatures RFC 8391 accepts",
  "Verification returns true with no error if and only if the root recomputed by the RFC 8391 / SP 800-208 algorithm from the message, the signature's index, randomizer, one-time signatures and authentication paths equals the public key's root. In every other case, including a signature made for other parameters or a message that cannot be read, it returns false together with a non-nil error.",
  ["inputs","configurations"],"all public keys, signatures (arbitrary field contents) and messages, all parameter sets with height at most 63",
  "Tests verify honest signatures and one wrong message per key; they never alter the index, randomizer, individual chain values, individual authentication nodes or layers, so a verifier that ignores some of them passes.",
  ["api.go","core.go","wots.go","hash.go","address.go"],
  [("root recomputation","api.go: PublicKey.VerifyFrom"),("WOTS+ public key from signature","wots.go: wotsPkFromSigInto"),("L-tree","core.go: lTreeInto"),("base-w digits and checksum","wots.go: wotsChainLengths")],
  None,["PublicKey.Verify","PublicKey.VerifyFrom","Verify"])
p("C03","A signature sequence number is never used twice",
  "Across every history of signing, reserving, closing, reloading, failed writes and crashes, no sequence number is ever used by two signatures of the same key (unless the caller resets it with the explicitly dangerous setter). Before a signature is released, a sequence number strictly greater than the one it uses is already recorded durably in the private key container, and a failed container write never lets a later signature use a number that the container may not have recorded.",
  ["histories","crash_points","fault_sequences","schedules"],"all interleavings of Sign, BorrowExactly[IfBelow], Close and reload, any container write failing before or after taking effect, a crash between any two steps",
  "The tests never crash, never fail a write, and sign sequentially apart from one run of four goroutines whose sequence numbers they do not compare.",
  ["core.go","api.go","container.go"],
  [("reservation of one number","core.go: PrivateKey.getSeqNo"),("bulk reservation","api.go: borrowExactly, BorrowExactlyIfBelow"),("returning unused numbers","api.go: Close"),("rollback on failed write","container.go: BorrowSeqNos, SetSeqNo")],
  [("PrivateKey.seqNo / borrowed","next number and size of the reserved window","api.go"),("fsContainer.seqNo","number recorded on disk","container.go")],
  ["PrivateKey.Sign","PrivateKey.SeqNo","PrivateKeyContainer"])
p("C04","The private key file survives a crash at any point",
  "Whenever the process or machine stops, the private key file holds either the complete previous record or the complete new record (parameters, sequence number, reservation count, secret key), never a mixture or a truncated file. When an operation that records a sequence number reports success, the new record has been flushed, atomically put in place and its directory entry flushed; every failure of one of those steps is reported as an error, and the in-memory numbers are then as before.",
  ["crash_points","fault_sequences","inputs"],"a stop or an I/O error at any step of any write of the key file; all parameters, keys, sequence numbers and reservation counts",
  "The tests never interrupt a write nor inject an I/O error, and a missing flush or a swallowed error is invisible to a test that reads back through the page cache.",
  ["container.go"],
  [("write temp, fsync, rename, fsync directory","container.go: fsContainer.writeKeyFile"),("rollback","container.go: BorrowSeqNos, SetSeqNo"),("first write","container.go: Reset")],
  [("key file","header followed by the three secret seeds","container.go: fsKeyHeader")],["the key file on disk"])
p("C05","Verifying or parsing untrusted bytes never panics",
  "Whatever bytes are passed as signature, public key, public key text or compressed parameters, and whatever parameter sets they name, decoding them and verifying with the result returns normally: either a value or a non-nil error. Inputs of the wrong length, with unsupported parameters, or with a signature and public key of different parameter sets are rejected with an error instead of crashing.",
  ["inputs"],"all byte strings of all lengths for each of the three inputs of Verify and for each decoder",
  "The tests only feed back encodings produced by the library itself.",
  ["api.go","params.go","misc.go","hash.go"],
  [("decoders","api.go: Signature.UnmarshalBinary, PublicKey.UnmarshalBinary/UnmarshalText; params.go: Params.UnmarshalBinary"),("parameter validation","api.go: NewContext"),("verification","api.go: VerifyFrom")],
  None,["Verify","Signature.UnmarshalBinary","PublicKey.UnmarshalBinary","PublicKey.UnmarshalText","Params.UnmarshalBinary"])
p("C06","Signature and public key encodings are exact and lossless",
  "Encoding a signature or public key and decoding the result yields an equal value (parameters, sequence number, randomizer, every one-time signature and authentication path; root and public seed), in binary and in text form. The binary encoding is the compressed parameters followed by the fields in RFC 8391 order and sizes with the sequence number big-endian, it fills exactly the advertised length, and every decodable byte string is the encoding of the value it decodes to.",
  ["inputs","configurations"],"all signatures and public keys of all encodable parameter sets; all byte strings that decode",
  "Tests round-trip one signature and one key, and check only hashes of encodings for a few instances at a single sequence number.",
  ["api.go","params.go","misc.go"],
  [("signature codec","api.go: Signature.WriteInto, MarshalBinary, UnmarshalBinary"),("public key codec","api.go: PublicKey.WriteInto, MarshalBinary, UnmarshalBinary, MarshalText, UnmarshalText"),("big-endian integers","misc.go: encodeUint64Into, decodeUint64")],
  None,["Signature.MarshalBinary","Signature.UnmarshalBinary","PublicKey.MarshalBinary","PublicKey.UnmarshalBinary"])
p("C07","Compressed parameters round-trip and reject everything else",
  "Encoding a parameter set either fails or yields the documented 4-byte layout, and decoding that yields the same parameter set; no two different parameter sets share an encoding. Decoding rejects every 4-byte string with a wrong magic, version, hash or Winternitz code and every string of another length, and each string it accepts re-encodes to itself.",
  ["inputs"],"all parameter values representable in the parameter structure; all byte strings",
  "Tests encode only the named instances (with three values of w) and decode only those encodings; rejection is never tested.",
  ["params.go"],[("encoder","params.go: Params.WriteInto, MarshalBinary"),("decoder","params.go: Params.UnmarshalBinary")],None,
  ["Params.MarshalBinary","Params.UnmarshalBinary"])
p("C08","A one-time signature never discloses what is needed to sign another digest",
  "For every supported n and w, the hash chain positions derived from two different message digests are never component-wise ordered: each digest has at least one chain whose position is strictly smaller than the other's. The positions are the base-w digits of the digest followed by the digits of the complete checksum, all below w.",
  ["inputs","configurations"],"all pairs of n-byte digests, all supported n and w",
  "Tests sign and verify (which also succeeds with a useless checksum) and pin reference hashes for w=16 only; forgeability is a statement about all pairs of digests.",
  ["wots.go","params.go","misc.go"],
  [("digits and checksum","wots.go: wotsChainLengths, toBaseW"),("number of checksum chains","params.go: WotsLen1, WotsLen2, WotsLogW")],None,["Sign","Verify"])
p("C09","Hash functions and PRFs are instantiated as RFC 8391 and SP 800-208 say",
  "For every parameter set the tweakable hashes, the PRFs, the key-derivation PRF and the message hash feed exactly the prescribed byte string (domain separator of the prescribed length, key, address or index, masked input) into the prescribed hash function and return exactly the first n bytes of its output. They write nothing but their output and private scratch space, also when the output buffer is the input buffer or is followed by other data.",
  ["inputs","configurations"],"all keys, addresses, inputs, message indices and messages; all hash functions, n and PRF constructions; aliased input and output",
  "Tests compare a few vectors for RFC instances; NIST prefixes, n=16/24 truncation, aliasing and neighbouring memory are not covered.",
  ["hash.go","address.go","misc.go"],
  [("F, H, PRF, PRF_keygen, H_msg","hash.go: fInto, hInto, prfAddrInto, prfUint64Into, prfKeyGenInto, hashMessageInto, precomputeHashes, hashInto"),("address encoding","address.go: writeInto and setters")],None,
  ["Sign","Verify","Derive"])
p("C10","The vectorised SHAKE path computes the same values as the scalar path",
  "For every parameter set, keys, signatures and verification results are the same whether or not the fourway vectorised implementation is used: the fourway PRF and chain hash equal four independent scalar evaluations and leave unused lanes untouched, and the grouped chain iteration equals iterating each chain alone. The vectorised path is used only for parameter sets for which this holds.",
  ["inputs","configurations"],"all seeds, addresses, inputs, subsets of active lanes, chain start and length vectors; all parameter sets",
  "Tests compare one fixed input per n with all four lanes active, and sign/verify on one machine always take the same path on both sides, which hides a path-dependent result.",
  ["hash.go","wots.go","api.go","internal/f1600x4/f1600x4_amd64.go"],
  [("fourway PRF and F","hash.go: prfAddrX4Into, fX4Into"),("fourway chains","wots.go: wotsGenChainsX4Into, wotsPkGenInto"),("path selection","api.go: NewContext")],None,
  ["Sign","Verify","Derive"])
p("C11","Subtrees are the RFC 8391 trees, whatever the number of threads",
  "For every seed and subtree position, generating a subtree fills every leaf with the compressed one-time public key of its own index and every inner node with the tree hash of its two children at its own address, for every thread count and worker schedule. Node storage for different nodes never overlaps and always lies inside the subtree buffer, and the authentication path of a leaf lists exactly the siblings on its path to the root.",
  ["inputs","configurations","schedules"],"all seeds, subtree addresses, subtree heights, thread counts and schedules of the worker goroutines",
  "Tests compare roots for a few instances on one machine's default thread count; a leaf generated twice, skipped or raced depends on thread count, height and schedule.",
  ["core.go","wots.go","address.go"],
  [("tree generation","core.go: genSubTreeInto, genLeafInto, lTreeInto"),("node layout","core.go: merkleTree.Node, AuthPath, Root")],None,["Derive","Sign"])
p("C12","Distinct cached subtrees never share storage, and reopening finds them again",
  "At any time, the buffers handed out for different cached subtrees occupy disjoint parts of the cache file, each large enough for a subtree of the key's parameters and disjoint from all bookkeeping data, after any history of allocating, dropping and reopening. A subtree is reported present exactly from its allocation until it is dropped or the cache is reset, also across closing and reopening, and dropping one subtree changes no other.",
  ["histories","inputs","configurations"],"all histories of GetSubTree, DropSubTree, ResetCache and reopen over all subtree addresses, all parameter sets, page sizes and alignments",
  "One test allocates four subtrees, drops two and reopens once, at the page size of this machine.",
  ["container.go"],
  [("slot allocation and offsets","container.go: GetSubTree, subTreeOffset, mmapSubTree"),("release","container.go: DropSubTree"),("reopen","container.go: openCache, writeCacheHeader")],
  [("cacheIdxLut / cacheFreeIdx","slot of each cached subtree and the free slots","container.go")],["PrivateKeyContainer.GetSubTree","DropSubTree","ListSubTrees"])
p("C13","A corrupt, stale or half-written cached subtree never reaches a signature",
  "Whatever the subtree cache contains when a key is loaded, for instance after a crash while a subtree was being generated in new or recycled cache space, every subtree used by signing afterwards is the correct subtree for its position: it is either regenerated or its recorded checksum for that very position matched its content. A subtree that is still being generated by another goroutine is not read before it is complete.",
  ["crash_points","histories","schedules"],"arbitrary cache file contents at load, crash at any point of subtree generation, all interleavings of concurrent signers",
  "Tests never corrupt the cache nor stop in the middle of generating a subtree.",
  ["core.go","container.go"],
  [("ready/checked protocol and checksum","core.go: getSubTree"),("registering cached subtrees at load","core.go: newPrivateKey")],
  [("subTreeReady / subTreeChecked","per subtree: filled, and trusted in this run","api.go")],["Sign","LoadPrivateKey"])
p("C14","Cached subtrees are dropped only when no signature can need them any more",
  "A cached subtree is discarded only after every signature whose sequence number it serves has been finished, whatever order concurrent signatures finish in; once all earlier signatures are finished it is discarded. The reported number of unretired sequence numbers always equals the number of signatures begun but not finished.",
  ["histories","schedules"],"all orders in which signatures with arbitrary sequence numbers start and finish",
  "One test runs four goroutines for 4000 signatures and only logs the counters.",
  ["core.go","api.go"],[("retirement","core.go: retireSeqNo, incLeastSeqNoInUse"),("counter","api.go: UnretiredSeqNos")],
  [("leastSeqNoInUse / retiredSeqNos","lower end of the window in use and finished numbers above it","api.go")],["PrivateKey.UnretiredSeqNos","PrivateKeyContainer.DropSubTree"])
p("C15","Reloading a stored key restores exactly that key",
  "Loading a private key from its container yields the parameters, secret seeds, public key and next sequence number that were stored, so that the public key before and after is identical and signing continues where it stopped. A missing, malformed or mismatching key file or container yields an error, never a different key, and secret and public parts are kept apart: only the root and public seed occur in the public key.",
  ["inputs","configurations","histories"],"all seeds, parameter sets and sequence numbers; all key file contents",
  "One test reloads one key of one instance.",
  ["api.go","core.go","container.go"],
  [("storing","api.go: DeriveInto; container.go: Reset, writeKeyFile"),("loading","container.go: OpenFSPrivateKeyContainer; api.go: LoadPrivateKeyFrom; core.go: newPrivateKey")],None,["LoadPrivateKey","Derive","PrivateKey.PublicKey"])
p("C16","Algorithm names and OIDs identify the right parameters",
  "Every registered name and OID maps to the parameters the RFC 8391 and SP 800-208 registries give for it, names and OIDs are unique, and looking up a context's name and OID returns the registered pair; the RFC and NIST membership flags hold exactly for the instances those documents list. Printing any supported parameter set and parsing the printed name returns the same parameter set, and names that do not denote a parameter set are rejected.",
  ["inputs","configurations"],"all registry entries; all supported parameter sets; all strings as names",
  "Tests compare the registry only with itself; no test compares OIDs with the standards or prints an unlisted parameter set.",
  ["params.go","api.go","hashfunc_enumer.go"],
  [("registry","params.go: registry, init"),("parse and print","params.go: parseParamsFromName, Params.String"),("lookup","params.go: LookupNameAndOid, FromRFC, FromNIST; api.go: NewContextFromOid, NewContextFromName, NewContextFromName2")],None,
  ["NewContextFromName2","NewContextFromOid","Params.String","Context.Oid"])
p("C17","A private key container is used by one process at a time",
  "Opening a filesystem container succeeds only if its lock was acquired; if the lock is held by another process or acquiring it fails for any other reason, opening fails with an error, marked as locked in the former case, and no container is returned. The lock stays held until the container is closed, and closing releases it.",
  ["histories","fault_sequences"],"all outcomes of acquiring and releasing the lock, all later operations",
  "No test opens a container twice or makes locking fail.",
  ["container.go"],[("locking","container.go: OpenFSPrivateKeyContainer, Close")],None,["OpenFSPrivateKeyContainer","LoadPrivateKey","Error.Locked"])
p("C18","A private key may be shared by concurrent goroutines",
  "Every access that the private key's methods make to its mutable state and to its container happens while the key's lock is held, no method acquires the lock while it already holds it or returns without releasing it, and none waits for a background worker while holding what that worker needs. Hence concurrent use by any number of goroutines, with subtree precomputation on or off, neither races nor deadlocks on the key.",
  ["schedules","histories"],"all interleavings of all methods of one private key from any number of goroutines",
  "The tests run four goroutines for a moment without the race detector and never close a key while it is in use by a background worker.",
  ["api.go","core.go"],[("mutex and condition variable","api.go: PrivateKey.mux, cond; all PrivateKey methods"),("background precomputation","core.go: getSeqNo; api.go: EnableSubTreePrecomputation, Close")],None,["all methods of PrivateKey"])
p("C19","Signing stops when the key is exhausted",
  "A key of height h never produces a signature with a sequence number of 2^h - 1 or more: once its sequence number has reached that point, or lies beyond it for whatever reason, signing and every later attempt return an error and change nothing. Below that point exhaustion is never reported.",
  ["inputs","configurations","histories"],"all heights, all sequence numbers including ones set by reloading or reserving past the end",
  "No test signs near the end of a key's life.",
  ["core.go","params.go","api.go"],[("bound check","core.go: getSeqNo, newPrivateKey; params.go: MaxSignatureSeqNo")],None,["PrivateKey.Sign"])
p("C20","Reserved but unused sequence numbers are accounted for",
  "After reserving, exactly the requested number of sequence numbers is available without further container writes; closing returns the unused ones so that nothing is reported lost. If the process stops without closing, the number of possibly lost signatures reported at the next load is at least the number actually lost and at most the number reserved, and it is zero when nothing was reserved.",
  ["histories","crash_points"],"all histories of reserving more or fewer, signing, closing, crashing and reloading",
  "One test reserves once and ignores the result; lost signatures are only checked to be zero after a clean close without reservation.",
  ["api.go","container.go"],[("reservation","api.go: borrowExactly, BorrowExactlyIfBelow, Close; container.go: BorrowSeqNos, SetSeqNo, GetSeqNo")],None,["PrivateKey.BorrowExactly","LoadPrivateKey lostSigs"])
p("C21","Contexts exist exactly for supported parameters and have the right geometry",
  "Creating a context fails exactly when the hash function, PRF construction, n, w or the split of the height into layers is unsupported. Otherwise its derived sizes (chain counts, subtree height, index, signature, key and subtree sizes, largest sequence number) are those the RFC 8391 formulas give, and every buffer derived from them is large enough for what is written to it.",
  ["inputs","configurations"],"all values of all fields of the parameter structure",
  "Tests build contexts for a dozen valid parameter sets and none for an invalid one.",
  ["api.go","params.go","core.go"],[("validation and derived sizes","api.go: NewContext"),("formulas","params.go: WotsLen1, WotsLen2, WotsSignatureSize, BareSubTreeSize, CachedSubTreeSize, MaxSignatureSeqNo"),("scratch space","core.go: newScratchPad and buffer accessors")],None,
  ["NewContext","Context.SignatureSize"])
p("C22","A failing container makes operations fail, nothing worse",
  "If any operation of the private key container fails, the signing, loading, reserving or closing call that needed it returns a non-nil error and no signature; it does not panic. The key stays usable: once the container works again, signing succeeds with fresh sequence numbers and produces valid signatures.",
  ["fault_sequences","histories"],"every container operation failing, at every point of every key operation, followed by any further operations",
  "No test injects a container failure.",
  ["core.go","api.go","container.go"],[("error paths","core.go: getSubTree (abort), getSeqNo, newPrivateKey; api.go: SignFrom, LoadPrivateKeyFrom, Sign")],None,["PrivateKey.Sign","LoadPrivateKey"])
with open("/verif/properties.jsonl","w") as f:
    for r in P: f.write(json.dumps(r)+"\n")
print(len(P))
