#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a script so statements stay easy to edit).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
                 "mechanism":[dict(name=a,where=b) for a,b in mech],
                 "observe_at":observe or [], "hook_needed":hook}})

p("C01","A signature sequence number is never used twice",
  "Across any sequence of Sign, BorrowExactly, BorrowExactlyIfBelow, Close and reload, with private-key-container calls failing at arbitrary points (whether or not the failed call took effect) and with the process dying at arbitrary points between container calls, no two signatures carry the same sequence number. Whenever a signature is handed out, the container already stores a sequence number strictly greater than the one used.",
  ["histories","fault_sequences","crash_points"],
  "every bounded history of signing, borrowing, closing and reloading, from any stored sequence number, with any pattern of container failures and any crash point",
  "tests sign a handful of messages with a container that never fails and never crashes; reuse only shows in specific failure/crash histories",
  ["api.go","core.go"],[("getSeqNo","core.go"),("borrowExactly","api.go"),("Close","api.go")],
  ["Signature.SeqNo()","PrivateKeyContainer.GetSeqNo()"],
  [("seqNo/borrowed","next number and how many are reserved on disk","PrivateKey in api.go")])
p("C02","The key file survives a crash at any point without going back",
  "If the machine crashes at any point while the filesystem container creates or updates its key file, reopening finds either the state before or the state after the interrupted update, never a torn one, and once an update has been reported successful it is never lost. Parameters and secret seeds read back are the ones written.",
  ["crash_points","fault_sequences"],
  "every crash point between file-system operations, every subset of unsynced data/renames that may reach the disk, any key contents and sequence numbers",
  "tests never crash or fail file-system calls; durability order (fsync before rename, directory fsync) is invisible without a crash",
  ["container.go"],[("writeKeyFile","container.go"),("OpenFSPrivateKeyContainer","container.go")],
  ["key file as seen by OpenFSPrivateKeyContainer"])
p("C03","Lost-signature accounting never under-reports",
  "After reopening a key, the reported number of possibly lost signatures is zero if the key was closed properly and otherwise at least the number of sequence numbers that were reserved but never used for a signature. After a proper Close the next sequence number is exactly the one following the last one used.",
  ["histories","crash_points"],
  "every bounded history of borrow/sign/close with arbitrary amounts, followed by a proper close or a crash",
  "tests only check one close/reopen with no outstanding reservation",
  ["api.go","container.go"],[("borrowExactly/Close","api.go"),("BorrowSeqNos/SetSeqNo/GetSeqNo","container.go")],
  ["LoadPrivateKeyFrom lostSigs","PrivateKey.SeqNo()"])
p("C04","Signing stops at the end of the key",
  "A private key never produces a signature whose sequence number does not fit the tree (is not below 2^height): once the numbers run out Sign returns an error, keeps doing so, and does not change the stored state; loading a key whose stored number is out of range is refused. This holds for every supported height, including when numbers have been borrowed.",
  ["inputs","histories"],
  "every starting sequence number near the limit, every supported full height up to 63, with and without borrowed numbers",
  "no test reaches the end of a key (2^10 to 2^60 signatures)",
  ["core.go","api.go","params.go"],[("getSeqNo limit check","core.go"),("newPrivateKey range check","core.go"),("MaxSignatureSeqNo","params.go")],
  ["Sign() error","Signature.SeqNo()"])
p("C05","Every signature produced verifies under its public key",
  "For every supported instance, key, sequence number and message, the signature produced by Sign verifies under the corresponding public key for that message, also after both have been serialized and deserialized.",
  ["inputs","configurations"],
  "all seeds, all messages up to the bound, all sequence numbers, all hash outputs (hashes uninterpreted), Winternitz parameters and tree shapes within the bound",
  "tests check a few keys and one fixed message; the digest decides the chain lengths, so particular digests are never exercised",
  ["api.go","wots.go","core.go"],[("SignFrom/VerifyFrom","api.go"),("wotsSignInto/wotsPkFromSigInto","wots.go")],
  ["PublicKey.Verify after PrivateKey.Sign"])
p("C06","Verification accepts exactly what RFC 8391 accepts",
  "For every public key, signature and message, Verify returns true exactly if the root recomputed by the RFC 8391 / SP 800-208 verification algorithm equals the public root, and an error with false otherwise. In particular the result depends on every byte of the message, the signature (index, randomizer, WOTS+ chains, authentication paths) and the public key as the standard prescribes.",
  ["inputs"],
  "arbitrary signature contents, index, key and message bytes within the bound; hash functions uninterpreted",
  "tests check one accepting and one rejecting case per key",
  ["api.go","wots.go","core.go","address.go","hash.go"],[("VerifyFrom","api.go"),("wotsPkFromSigInto","wots.go"),("lTreeInto","core.go")],
  ["PublicKey.Verify / VerifyFrom result"])
p("C07","Keys and signatures are the ones RFC 8391 defines for the seeds",
  "For all seeds, sequence numbers and messages the derived public key and the signature bytes are those the RFC 8391 / SP 800-208 algorithms (with pseudorandom key generation from the secret seed, as in the reference implementation) define for that instance.",
  ["inputs","configurations"],
  "all seeds, messages and indices within the bound; hash functions uninterpreted",
  "known-answer tests cover 14 instances with one seed, index and message each",
  ["core.go","wots.go","hash.go","api.go"],[("genSubTreeInto","core.go"),("wotsPkGenInto","wots.go"),("SignFrom","api.go")],
  ["PublicKey.MarshalBinary","Signature.MarshalBinary"])
p("C08","Untrusted public keys and signatures never crash the verifier",
  "Parsing an arbitrary byte string as public key, signature or parameters, and verifying with what was parsed, never panics and never reads outside the input: it returns an error, false or true. Inputs that are too short or that encode unsupported parameters are rejected with an error.",
  ["inputs"],
  "every byte string up to the bound, for keys, signatures and parameter blocks",
  "tests only parse what the library itself serialized",
  ["api.go","params.go"],[("Signature.UnmarshalBinary","api.go"),("PublicKey.UnmarshalBinary","api.go"),("Params.UnmarshalBinary","params.go"),("NewContext","api.go")],
  ["xmssmt.Verify(pk, sig, msg)"])
p("C09","A signature for other parameters is never accepted",
  "Verifying a signature whose encoded parameters differ in any field from those of the public key fails with an error; it neither panics nor returns true.",
  ["inputs","configurations"],
  "every pair of differing supported parameter sets within the bound and arbitrary signature contents",
  "no test mixes parameter sets",
  ["api.go"],[("VerifyFrom","api.go")],["PublicKey.Verify result"])
p("C10","Signatures and public keys survive serialization unchanged",
  "Serializing a signature or public key (binary or text form, or writing into a caller's buffer) and parsing it gives back an equal value, the encoding has exactly the documented length and layout (parameter prefix, big-endian index of the prescribed width, randomizer, then for each layer the WOTS+ signature and authentication path; for keys root then public seed), and parsing followed by serializing reproduces the bytes.",
  ["inputs","configurations"],
  "arbitrary field contents and every index value, for parameter sets within the bound",
  "tests round-trip two or three concrete values",
  ["api.go","misc.go"],[("Signature.WriteInto/UnmarshalBinary","api.go"),("PublicKey.WriteInto/UnmarshalBinary","api.go"),("encodeUint64Into/decodeUint64","misc.go")],
  ["MarshalBinary/UnmarshalBinary/MarshalText/UnmarshalText"])
p("C11","The compressed parameter encoding is exact",
  "Every parameter set is either refused by the encoder or encoded into four bytes, laid out as documented, that decode to exactly the same parameter set; every four bytes either are rejected or decode to parameters that encode back to the same four bytes. No unrepresentable parameter set is encoded silently as a different one.",
  ["inputs"],
  "all values of every parameter field and all 2^32 encodings",
  "tests cover the registry entries only",
  ["params.go"],[("Params.WriteInto","params.go"),("Params.UnmarshalBinary","params.go")],
  ["Params.MarshalBinary/UnmarshalBinary"])
p("C12","Algorithm names and parameters correspond",
  "The name printed for any valid parameter set parses back to the same parameter set, and a name that is accepted denotes parameters with exactly the numbers (height, layers, output bits, Winternitz parameter), hash function and PRF construction written in it; any other string is refused with an error, without panicking.",
  ["inputs"],
  "every valid parameter set, and name strings with arbitrary characters up to the bound",
  "tests cover the 77 registered names",
  ["params.go"],[("Params.String","params.go"),("parseParamsFromName","params.go"),("NewContextFromName2","api.go")],
  ["Params.String","ParamsFromName2","NewContextFromName2"])
p("C13","The instance registry is the one the standards publish",
  "For every 32-bit OID and both families, looking up the OID yields exactly the instance that RFC 8391 or NIST SP 800-208 assigns to it (hash, output size, height, layers, w=16, PRF construction) and nothing for unassigned OIDs; the name lookup agrees, and the predicates telling whether an instance comes from the RFC or from NIST and whether it is multi-tree are right for every instance, registered or not.",
  ["inputs","configurations"],
  "all 2^32 OIDs in both families; all parameter sets for the predicates",
  "tests look up some OIDs; nothing compares the table with the standards",
  ["params.go","api.go"],[("registry","params.go"),("NewContextFromOid/Name","api.go"),("FromRFC/FromNIST","params.go")],
  ["NewContextFromOid","NewContextFromName","LookupNameAndOid"])
p("C14","Only valid parameter sets are accepted, with the right sizes",
  "A context is created exactly for parameter sets with supported hash function, n, w and PRF, nonzero layers dividing the height, and heights the library can represent; for each of them the WOTS+ chain counts, subtree sizes, index width, signature size and number of signatures equal the RFC 8391 formulas.",
  ["inputs","configurations"],
  "all values of all parameter fields",
  "tests use about twenty parameter sets and never check sizes against formulas",
  ["api.go","params.go"],[("NewContext","api.go"),("WotsLen1/WotsLen2/WotsSignatureSize/BareSubTreeSize","params.go")],
  ["NewContext error","Context.SignatureSize","Params methods"])
p("C15","WOTS+ checksum: no digest's chains dominate another's",
  "For any two different digests at least one WOTS+ chain (message or checksum) is strictly shorter for the first than for the second, so a one-time signature on one digest never lets anyone derive one on another by hashing forward. The chain lengths are the RFC 8391 base-w digits of digest and checksum.",
  ["inputs"],
  "all digests of 128, 192, 256 and 512 bits, for w = 4, 16 and 256",
  "the tests that existed did not notice the forgery bug fixed in 1.5.0; pairs of digests cannot be sampled",
  ["wots.go","params.go"],[("wotsChainLengths","wots.go"),("toBaseW","wots.go"),("WotsLen2","params.go")],
  ["chain values revealed in WOTS+ signatures"])
p("C16","Every hash construction has exactly the standard's input",
  "F, H, H_msg, PRF and PRF_keygen hash exactly the byte strings RFC 8391 and SP 800-208 prescribe (domain prefix of the instance's prefix length, key, masks, address words in big-endian order, index) with the prescribed function (SHA-256/512, SHAKE128/256) and truncation, for every instance family, for all inputs, and independently of previous computations.",
  ["inputs","configurations"],
  "all keys, addresses, indices and blocks, for every combination of hash function, n and PRF construction",
  "known-answer tests give one input for four to seven of the combinations",
  ["hash.go","address.go"],[("fInto/hInto/prf*Into/hashMessageInto/precomputeHashes","hash.go"),("address.writeInto","address.go")],
  ["F/H/PRF outputs"])
p("C17","Four-way vectorized hashing gives the same results as scalar hashing",
  "With the four-way SHAKE implementation enabled, every PRF, F, WOTS+ key, signature and recomputed public key is identical to what the scalar code computes, for all inputs, chain-length patterns and subsets of active lanes.",
  ["inputs","configurations"],
  "all inputs; lane subsets; chain-length patterns within the bound; both vectorized output sizes",
  "tests compare the two on one input with all lanes active",
  ["hash.go","wots.go"],[("prfAddrX4Into/fX4Into","hash.go"),("wotsGenChainsX4Into","wots.go")],
  ["prfAddrX4Into, fX4Into, wotsSign, wotsPkFromSig"])
p("C18","The AVX2 permutation is Keccak-f[1600] on each of four states",
  "For every 4x1600-bit input the assembly routine, with the round constants it is given, transforms each of the four interleaved states by Keccak-f[1600] independently of the other three, touching nothing but the 100 state words.",
  ["inputs"],
  "all 2^6400 inputs",
  "the test runs the zero state and looks at lane 0 only",
  ["internal/f1600x4/f1600x4_amd64.s","internal/f1600x4/f1600x4_amd64.go"],[("f1600x4","internal/f1600x4/f1600x4_amd64.s"),("Initialize/Zero/Permute","internal/f1600x4/f1600x4_amd64.go")],
  ["State.Permute"])
p("C19","The subtree cache never changes a signature",
  "Keys and signatures are the same whether subtrees come from a fresh cache, a cache kept from earlier runs, an empty or lost cache, or a cache with corrupted entries: an entry whose checksum does not match is recomputed before use, and a missing or unreadable cache file does not make the key unusable.",
  ["inputs","histories","fault_sequences"],
  "arbitrary cache contents and any set of entries cached, missing or corrupted",
  "tests never corrupt or remove cache entries",
  ["core.go","container.go","api.go"],[("getSubTree checksum","core.go"),("openCache/ResetCache","container.go"),("LoadPrivateKeyFrom","api.go")],
  ["Sign() and PublicKey() after LoadPrivateKeyFrom"])
p("C20","The subtree cache file behaves as a map of separate buffers",
  "Over any sequence of get, drop, list, close and reopen operations the filesystem container returns for each cached subtree address a buffer of the prescribed size that keeps its contents until dropped, reports existence correctly, and buffers of different addresses, and the file headers, never overlap.",
  ["histories","inputs","configurations"],
  "every bounded operation sequence over arbitrary addresses, any page size/alignment and parameter set within the bound",
  "one test runs a fixed 15-step sequence",
  ["container.go"],[("GetSubTree/DropSubTree/subTreeOffset/openCache","container.go")],
  ["PrivateKeyContainer cache methods"])
p("C21","A key container is only usable while holding its lock",
  "Opening a filesystem container only succeeds after its lock file was acquired; if acquiring it fails for whatever reason an error is returned and no container, and if the key is held by another process the error says so. A closed container no longer hands out or records sequence numbers or the private key, and the lock is released exactly when the container is closed.",
  ["fault_sequences","histories"],
  "every outcome of the lock-file operations and every sequence of container calls around open and close",
  "no test opens a locked container or makes locking fail",
  ["container.go"],[("OpenFSPrivateKeyContainer","container.go"),("Close","container.go")],
  ["OpenFSPrivateKeyContainer result, Error.Locked()"])
p("C22","Retirement tracks signatures in use and drops subtrees only after",
  "The number of unretired sequence numbers always equals the number handed to Sign calls that have not finished, whatever the order in which they finish and whatever the sequence numbers are; a cached subtree is dropped only when every signature that needs it has finished, and eventually is dropped.",
  ["histories","inputs"],
  "every completion order of a bounded number of overlapping signatures, from every starting sequence number",
  "one test signs 4000 times from sequence number 0 and asserts nothing about retirement",
  ["core.go","api.go","misc.go"],[("retireSeqNo/incLeastSeqNoInUse","core.go"),("UnretiredSeqNos","api.go")],
  ["UnretiredSeqNos()","PrivateKeyContainer.DropSubTree calls"])
p("C23","Concurrent use is safe",
  "Concurrent Sign calls on one private key, with or without background subtree precomputation, never use the same sequence number, never deadlock or panic and produce the same signatures as sequential use under every interleaving; generating a subtree gives the same result for any number of worker threads.",
  ["schedules","configurations"],
  "every interleaving at synchronization operations of a bounded number of goroutines",
  "the one concurrent test samples a few schedules and checks nothing about the results",
  ["core.go","api.go"],[("mux/cond/subTreeReady","core.go"),("genSubTreeInto workers","core.go"),("EnableSubTreePrecomputation","api.go")],
  ["Sign results, genSubTree"])
p("C24","Failures surface as errors and leave the key usable",
  "If reading the message, or any container operation, fails during key loading, signing, borrowing or closing, the call returns that failure as an error (and no signature) instead of panicking or blocking, and once the cause is gone later calls succeed with valid signatures.",
  ["fault_sequences","histories"],
  "every pattern of failing container calls and message reads within the bound",
  "no test injects a failure",
  ["core.go","api.go"],[("getSubTree abort","core.go"),("SignFrom","api.go")],
  ["Sign/SignFrom/LoadPrivateKeyFrom/BorrowExactly errors"])
p("C25","A reloaded key is the same key",
  "Deriving a key requires seeds of the prescribed length and stores them so that loading the key again, by path or container, yields the same public key, the same parameters, the stored next sequence number and identical signatures for equal sequence number and message.",
  ["inputs","configurations","histories"],
  "all seeds, sequence numbers and messages within the bound",
  "one test reloads one key and compares the public key",
  ["api.go","container.go"],[("DeriveInto","api.go"),("LoadPrivateKeyFrom","api.go"),("writeKeyFile/OpenFSPrivateKeyContainer","container.go")],
  ["PublicKey bytes, Signature bytes after reload"])
p("C26","Signing and verifying a stream equals signing and verifying its bytes",
  "SignFrom and VerifyFrom depend only on the sequence of bytes the reader delivers, however it is split over reads, and give the same result as Sign and Verify on those bytes; a reader that fails makes them fail. Signing and verifying modify none of their inputs.",
  ["inputs","fault_sequences"],
  "every way of splitting a bounded message into reads, and every point of failure",
  "tests only use byte slices",
  ["api.go","hash.go"],[("hashMessageInto","hash.go"),("SignFrom/VerifyFrom","api.go")],
  ["SignFrom/VerifyFrom results"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P), max(len(x["title"]) for x in P))
