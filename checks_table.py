check("C11", [
    job("VH_C11_decode", bound="all 2^32 four-byte inputs, any prior contents of the receiver", reach=["accepted", "rejected"]),
    job("VH_C11_encode", bound="all parameter values (full width of every field)", reach=["encoded", "refused"]),
    job("VH_C11_length", bound="all inputs of 0 to 9 bytes", reach=["refused"]),
  ], "Exhaustive over all field values and all four-byte inputs; lengths up to 9.",
  outside="inputs longer than 9 bytes",
  assumptions=["errors are compared with nil only"])

check("C13", [
    job("VH_C13_oid", bound="all 2^32 OIDs of both families", reach=["assigned", "unassigned"]),
    job("VH_C13_params", bound="all parameter values, four query orders", reach=["registered", "unregistered"]),
    job("VH_C13_name", bound="all strings of up to 29 bytes", reach=["known", "unknown"]),
    job("VH_C13_list", bound="the complete registry"),
  ], "Exhaustive over OIDs and parameter values; names up to 29 bytes (the longest assigned name has 27).",
  outside="names longer than 29 bytes",
  assumptions=["the table of assigned instances in the harness is written from RFC 8391 section 8 and SP 800-208"])

check("C12", [
    job("VH_C12_tail", params=dict(max=5), bound="eleven fixed beginnings followed by all strings of up to 5 bytes", reach=["accepted", "refused"], timeout=120, tier="quick"),
    job("VH_C12_head", params=dict(max=9), bound="all strings of up to 9 bytes, alone and before four fixed endings", reach=["accepted", "refused"]),
    job("VH_C12_digits", sweep=dict(what=[0,1,2,3,4]), bound="every number replaced by all digit strings of up to 5 digits and of up to 12 digits around 2^32", timeout=120),
    job("VH_C12_roundtrip", params=dict(hmax=16), bound="all usable parameters with height and layers below 16", reach=["named"], tier="quick", timeout=120),
    job("VH_C12_tail", params=dict(max=7), bound="eleven fixed beginnings followed by all strings of up to 7 bytes", tier="thorough", timeout=600),
    job("VH_C12_roundtrip", params=dict(hmax=64), bound="all usable parameters", tier="thorough", timeout=600),
  ], "All strings within the length bounds next to fixed text; all usable parameters.",
  outside="longer arbitrary text; digit strings of more than 18 characters",
  assumptions=["strconv.Atoi, strings.* and fmt.Sprintf(%s,%d) are modelled by small Go functions (stubs/vgo)"])

check("C14", [
    job("VH_C14_accept", bound="all parameter values (full width of every field)", reach=["accepted", "refused"]),
    job("VH_C14_sizes", bound="all usable parameters", reach=["accepted"], timeout=120),
  ], "Exhaustive over all field values.", outside="nothing within the API of Params and NewContext")

check("C10", [
    job("VH_C10_sig", bound="16 parameter sets covering every index width, n, w, hash function and PRF construction; arbitrary contents", reach=["done"]),
    job("VH_C10_reuse", bound="three parameter sets in any order, arbitrary contents"),
    job("VH_C10_pk", bound="16 parameter sets, arbitrary contents", reach=["done"]),
    job("VH_C10_text", params=dict(win=3), bound="three parameter sets, any 3 consecutive aligned bytes arbitrary", reach=["done"]),
    job("VH_C10_text", params=dict(win=6,ps=1), bound="n=16, any 6 consecutive aligned bytes arbitrary", reach=["done"]),
  ], "Arbitrary contents for 16 parameter sets.", outside="other parameter sets (the sizes are covered for all of them by C14)")

check("C08", [
    job("VH_C08_pk", bound="all contents of 19 lengths from 0 to 133", reach=["accepted", "refused"], timeout=120),
    job("VH_C08_sig", bound="all contents of 12 lengths from 0 to 344", reach=["accepted", "refused"], timeout=120),
    job("VH_C08_short", bound="16 parameter sets, the last 80 lengths up to the complete one and 7 intermediate stretches", timeout=120),
    job("VH_C08_text", params=dict(max=7), bound="all texts of up to 7 bytes", timeout=120),
    job("VH_C08_text2", bound="base64 of 10 lengths with an arbitrary header byte", reach=["accepted"]),
    job("VH_C08_verify", bound="all contents of 5 signature and 4 key lengths", timeout=120),
  ], "Arbitrary contents within the listed lengths.", outside="other lengths with arbitrary headers")

check("C15", [
    job("VH_C15_lengths", sweep=dict(n=[0,1,2,3],w=[0,1,2]), bound="all digests of 16/24/32/64 bytes (n) for w=4,16,256"),
    job("VH_C15_step", sweep=dict(n=[0,1,2,3],w=[0,1,2]), bound="the checksum digits encode, without loss, every checksum reachable (n,w as above)"),
    job("VH_C15_checksum", sweep=dict(n=[0,1,2,3],w=[0,1,2]), bound="order lemma for base-w digits of the checksum (n,w as above)"),
    job("VH_C15_dominate", sweep=dict(n=[0,1,2,3],w=[0,1,2]), bound="two digests differing in two arbitrary bytes, three surrounding patterns"),
  ], "All digests for the exact digits; the domination statement follows by the two lemmas and is checked directly on digests with two arbitrary bytes.",
  outside="nothing for the exact chain lengths")

check("C16", [
    job("VH_C16_hashes", sweep=dict(func=[0,1,2],n=[16,24,32,64],prf=[0,1]), bound="all inputs, every address word; messages of 0 to 200 bytes (12 lengths); two consecutive computations on one scratch pad", reach=["done"], timeout=200),
    job("VH_C16_inner", sweep=dict(func=[0,1,2],n=[16,24,32,64],prf=[0,1]), bound="all inputs; H into its own input and PRF of any 64-bit index", reach=["done"], timeout=60),
  ], "All inputs for every family (hash function, n, prefix length).", outside="messages of other lengths (streams are covered by C26)",
  assumptions=["SHA-2, SHAKE and Keccak-f are uninterpreted functions of their complete input"])

check("C06", [
    job("VH_C06_wotsPkFromSig", sweep=dict(n=[16,24,32,64]), params=dict(w=4), bound="w=4: all digests, signatures, seeds and addresses", reach=["done"], timeout=200),
    job("VH_C06_wotsPkFromSig", sweep=dict(n=[16,32],func=[0,1,2]), params=dict(w=16,sym=4), bound="w=16: digests with 4 arbitrary bytes, all signatures, seeds and addresses", reach=["done"], timeout=200),
    job("VH_C06_wotsPkFromSig", sweep=dict(base=[0,240]), params=dict(w=256,n=16,sym=1,split=8,bits=4,cases=1), bound="w=256: digests with 4 arbitrary bits (one case for each value), all signatures, seeds and addresses", reach=["done"], timeout=200),
    job("VH_C06_wotsPkFromSig", sweep=dict(base=[0,32,64,96,128,160,192,224]), params=dict(w=256,n=16,sym=1,split=8,bits=5,cases=1), bound="w=256: digests with 1 arbitrary byte (one case for each value)", reach=["done"], timeout=800, tier="thorough"),
    job("VH_C06_verify", sweep=dict(api=[0,1]), params=dict(h=2,d=1), bound="XMSS h=2, n=16, w=4: every index, signature, key and message of 3 bytes", reach=["done"], timeout=200),
    job("VH_C06_verify", sweep=dict(func=[1,2],prf=[0,1]), params=dict(h=2,d=1), bound="the same for SHAKE and both PRFs", reach=["done"], timeout=400, tier="thorough"),
    job("VH_C06_verify", params=dict(h=4,d=2), bound="XMSSMT 4/2, n=16, w=4: every index, signature, key and message of 3 bytes", reach=["done"], timeout=800, tier="thorough"),
    job("VH_C06_honest", sweep=dict(idx=[0,1,2,3]), params=dict(h=2,d=1,n=32,w=16,split=4), bound="XMSS h=2, n=32, w=16: the standard's signatures for all seeds and messages", reach=["accepted"], timeout=200),
    job("VH_C06_honest", sweep=dict(idx=[0,6,9,15]), params=dict(h=4,d=2), bound="XMSSMT 4/2: the standard's signatures at four indices", reach=["accepted"], timeout=200),
    job("VH_C06_honest", params=dict(h=40,d=20,idx=739710001477), bound="XMSSMT 40/20: the standard's signatures at one index above 2^32", reach=["accepted"], timeout=300, tier="thorough"),
    job("VH_C06_path", sweep=dict(idx=[0,3,15]), params=dict(h=4,d=2,change=1), bound="XMSSMT 4/2 at three more indices, as below", reach=["accepted","changed"], timeout=400, tier="thorough"),
    job("VH_C06_path", params=dict(h=4,d=2,change=1,idx=9), bound="XMSSMT 4/2: signatures of the standard along one path (arbitrary seeds, message of 2 bytes, randomizer and nodes beside the path), as they are and with one byte of a part changed", reach=["accepted","changed"], timeout=200),
    job("VH_C06_path", params=dict(h=20,d=1,idx=1046234,change=1), bound="the same for XMSS h=20", reach=["accepted"], timeout=200),
    job("VH_C06_path", sweep=dict(func=[0,1,2],idx=[0,65535,524288,1048575]), params=dict(h=20,d=1), bound="XMSS h=20 at four indices, every hash function: signatures along one path", reach=["accepted"], timeout=200),
    job("VH_C06_path", sweep=dict(d=[3,6,12]), params=dict(h=60,idx=2**59+2**53+2**40+123456789), bound="XMSSMT 60/3, 60/6, 60/12: signatures along one path at an index above 2^59", reach=["accepted"], timeout=200),
    job("VH_C06_path", sweep=dict(h=[10,16,20]), params=dict(d=1,idx=777,n=32,w=16,split=4), bound="XMSS-SHA2 of heights 10, 16, 20 with n=32, w=16: signatures along one path", reach=["accepted"], timeout=200),
    job("VH_C06_path", sweep=dict(d=[2,4,8]), params=dict(h=40,idx=2**39+2**33+54321,n=32,w=16,func=1,split=4), bound="XMSSMT-SHAKE 40/2, 40/4, 40/8 with n=32, w=16", reach=["accepted"], timeout=800, tier="thorough"),
    job("VH_C06_path", sweep=dict(d=[3,6,12]), params=dict(h=60,idx=2**60-2,n=32,w=16,split=4), bound="XMSSMT-SHA2 60/3, 60/6, 60/12 with n=32, w=16", reach=["accepted"], timeout=800, tier="thorough"),
    job("VH_C06_path", sweep=dict(d=[3,6,12]), params=dict(h=60,idx=2**60-1,change=1), bound="XMSSMT 60/3, 60/6, 60/12 with n=16, w=4 and one byte of a part changed", reach=["accepted"], timeout=800, tier="thorough"),
    job("VH_C06_honest", sweep=dict(idx=[0,1,511,512,1023]), params=dict(h=10,d=2,n=32,w=16), bound="XMSSMT 10/2, n=32, w=16", reach=["accepted"], timeout=800, tier="thorough"),
  ], "All values within small trees; digests, signatures, seeds, keys and messages are arbitrary.  For trees of the standardised heights, all signatures whose seeds, randomizer and nodes beside the path are arbitrary, at chosen indices.",
  outside="other indices of tall trees and longer messages (C26 covers how messages are read)", assumptions=["hash functions are uninterpreted functions of their complete input", "indices of 2^h and above, for which the standards define nothing, are left to C08"])

check("C07", [
    job("VH_C07_sign", sweep=dict(idx=[0,1,2]), params=dict(h=2,d=1), reach=["derived","signed"], bound="XMSS h=2: all seeds and messages of 3 bytes, every index", timeout=200),
    job("VH_C07_sign", sweep=dict(idx=[0,6,11,14]), params=dict(h=4,d=2), reach=["derived","signed"], bound="XMSSMT 4/2: all seeds and messages, four indices", timeout=200),
    job("VH_C07_sign", params=dict(h=40,d=20,idx=739710001477), reach=["derived","signed"], bound="XMSSMT 40/20: one index above 2^32", timeout=300),
    job("VH_C07_sign", sweep=dict(func=[0,1,2],n=[16,24,32,64],prf=[0,1]), params=dict(h=1,d=1,idx=0), reach=["derived","signed"], bound="every hash function, n and PRF: height 1, w=4", timeout=300),
    job("VH_C07_sign", sweep=dict(func=[0,1,2]), params=dict(h=1,d=1,idx=0,n=32,w=16), reach=["derived","signed"], bound="n=32, w=16: height 1", timeout=300),
    job("VH_C07_subtree", sweep=dict(func=[0,1,2]), params=dict(h=4,d=2), reach=["done"], bound="subtrees of height 2 at any layer (32 bits) and position (64 bits), all seeds, every hash function", timeout=200),
    job("VH_C07_subtree", sweep=dict(prf=[0,1]), params=dict(h=3,d=1,n=32,w=16), reach=["done"], bound="subtrees of height 3 at any layer and position, n=32, w=16", timeout=200),
    job("VH_C07_sign", sweep=dict(d=[30,60]), params=dict(h=60,idx=2**59+2**53+2**40+123456789), reach=["derived","signed"], bound="XMSSMT 60/30 and 60/60: one index above 2^59", timeout=800, tier="thorough"),
    job("VH_C07_sign", sweep=dict(idx=list(range(15))), params=dict(h=4,d=2), reach=["derived","signed"], bound="XMSSMT 4/2: every index", timeout=300, tier="thorough"),
    job("VH_C07_sign", sweep=dict(idx=[0,1,31,32,33,511,1022]), params=dict(h=10,d=2,n=32,w=16), reach=["derived","signed"], bound="XMSSMT 10/2, n=32, w=16", timeout=800, tier="thorough"),
    job("VH_C07_sign", sweep=dict(idx=[0,5]), params=dict(h=3,d=3,n=16,w=256,split=8), reach=["derived","signed"], bound="XMSSMT 3/3, n=16, w=256", timeout=800, tier="thorough"),
  ], "All seeds and messages for small trees, every hash function, n and PRF.",
  outside="other tree heights and indices", assumptions=["hash functions are uninterpreted functions of their complete input"])

check("C05", [
    job("VH_C05_roundtrip", sweep=dict(idx=[0,1,2]), params=dict(h=2,d=1), reach=["verified"], bound="XMSS h=2: all seeds and messages of 3 bytes, every index", timeout=200),
    job("VH_C05_roundtrip", sweep=dict(idx=[0,6,11,14]), params=dict(h=4,d=2), reach=["verified"], bound="XMSSMT 4/2: all seeds and messages, four indices", timeout=200),
    job("VH_C05_roundtrip", sweep=dict(func=[0,1,2],n=[16,24,32],prf=[0,1]), params=dict(h=1,d=1,idx=0), reach=["verified"], bound="every hash function and PRF, n=16, 24, 32: height 1, w=4", timeout=200),
    job("VH_C05_roundtrip", params=dict(h=1,d=1,idx=0,n=64), reach=["verified"], bound="n=64: height 1, w=4", timeout=200),
    job("VH_C05_roundtrip", params=dict(h=36,d=9,idx=36650387592), reach=["verified"], bound="XMSSMT 36/9: one index above 2^32", timeout=300),
    job("VH_C05_roundtrip", sweep=dict(idx=[0,1,2]), params=dict(h=2,d=1,n=32,w=16), reach=["verified"], bound="XMSS h=2, n=32, w=16", timeout=300),
    job("VH_C05_roundtrip", sweep=dict(idx=[0,1,31,32,33,511,1022]), params=dict(h=10,d=2,n=32,w=16), reach=["verified"], bound="XMSSMT 10/2, n=32, w=16", timeout=800, tier="thorough"),
    job("VH_C05_roundtrip", params=dict(h=60,d=20,idx=739710001477123456), reach=["verified"], bound="XMSSMT 60/20: one index", timeout=850, tier="thorough"),
  ], "All seeds and messages for small trees, every hash function and PRF.",
  outside="other tree heights and indices", assumptions=["hash functions are uninterpreted functions of their complete input"])

check("C26", [
    job("VH_C26_split", params=dict(h=2,what=0,mlen=3), bound="signing 3 arbitrary bytes delivered in every split with up to one empty read, end of file with or after the last bytes, failing at every position", reach=["signed","failed"], timeout=200),
    job("VH_C26_split", params=dict(h=2,what=0,mlen=2,func=1), bound="the same for 2 bytes with SHAKE", reach=["signed","failed"], timeout=200),
    job("VH_C26_split", params=dict(h=2,what=1,mlen=2), bound="verifying 2 arbitrary bytes, delivered as above, against a signature on other bytes", reach=["verified","failed"], timeout=300),
    job("VH_C26_long", sweep=dict(func=[0,1,2],n=[16,64]), bound="70000 bytes, of which 8 around buffer boundaries are arbitrary, in pieces of 4 sizes, failing at 4 positions", reach=["hashed","failed"], timeout=200),
    job("VH_C26_split", params=dict(h=2,what=0,mlen=4,empty=2), bound="4 bytes, up to two empty reads", reach=["signed","failed"], timeout=800, tier="thorough"),
    job("VH_C26_split", params=dict(h=2,what=1,mlen=3), bound="verifying 3 bytes", reach=["verified","failed"], timeout=850, tier="thorough"),
  ], "Every way a reader can deliver up to 3 bytes; chosen ways for a long stream.",
  outside="other lengths; readers that break the io.Reader contract", assumptions=["hash functions are uninterpreted functions of their complete input"])

check("C17", [
    job("VH_C17_lanes", sweep=dict(n=[16,32]), params=dict(func=1,sponge=1,again=0), x4=True, bound="n=16, 32: every subset of the lanes, all inputs and addresses, in place or not", reach=["done"], timeout=200),
    job("VH_C17_lanes", params=dict(func=1,sponge=1,n=16), x4=True, bound="n=16: two consecutive calls on one scratch pad", reach=["done"], timeout=200),
    job("VH_C17_wots", sweep=dict(n=[16,32],w=[4,16],prf=[0,1]), params=dict(func=1,sponge=1,what=0), x4=True, bound="WOTS+ keys for w=4, 16 and both PRFs: all seeds and addresses", reach=["done"], timeout=200),
    job("VH_C17_wots", sweep=dict(what=[1,2],pat=[0,1,2,3],pos=[0,15]), params=dict(func=1,sponge=1,n=16,w=4,bits=4), x4=True, bound="n=16, w=4, signing and verifying: digests with 4 arbitrary bits in 4 patterns at 2 positions, all seeds, signatures and addresses", reach=["done"], timeout=200),
    job("VH_C17_wots", sweep=dict(what=[1,2],pat=[0,1,2,3]), params=dict(func=1,sponge=1,n=32,w=16,bits=2), x4=True, bound="n=32, w=16: digests with 2 arbitrary bits in 4 patterns", reach=["done"], timeout=200),
    job("VH_C17_wots", sweep=dict(what=[1,2],prf=[1]), params=dict(func=1,sponge=1,n=16,w=4,bits=2), x4=True, bound="n=16, w=4, NIST PRF", reach=["done"], timeout=200),
    job("VH_C07_sign", sweep=dict(n=[16,32]), params=dict(func=1,sponge=1,sigs=0,h=2,d=1,w=4), x4=True, bound="public keys of XMSS h=2: all seeds", reach=["derived"], timeout=200),
    job("VH_C17_wots", sweep=dict(what=[1,2],pat=[0,1,2,3],pos=[0,7,15]), params=dict(func=1,sponge=1,n=16,w=4,bits=8), x4=True, bound="n=16, w=4: digests with 8 arbitrary bits in 4 patterns at 3 positions", reach=["done"], timeout=850, tier="thorough"),
    job("VH_C17_wots", sweep=dict(what=[1,2],pat=[0,1,2,3],pos=[0,31]), params=dict(func=1,sponge=1,n=32,w=16,bits=8), x4=True, bound="n=32, w=16: digests with 8 arbitrary bits", reach=["done"], timeout=850, tier="thorough"),
    job("VH_C17_wots", sweep=dict(what=[1,2]), params=dict(func=1,sponge=1,n=16,w=256,bits=2,split=8), x4=True, bound="n=16, w=256: digests with 2 arbitrary bits", reach=["done"], timeout=850, tier="thorough"),
  ], "Every subset of lanes and all inputs for F and PRF; WOTS+ for digests with few arbitrary bits (the chains are sorted by length, one path per chain-length pattern).",
  outside="other digests; the permutation itself (C18)", assumptions=["Keccak-f is an uninterpreted permutation applied to each lane (C18 shows this of the assembly)"])

check("C18", [
    job("VH_C18_permute", params=dict(asm=1), x4=True, bound="every contents of the 100 state words, all four alignments of the state, all 24 rounds of the assembly as it stands in the source", reach=["done"], timeout=200),
    job("VH_C18_permute", params=dict(asm=1,again=1), x4=True, bound="two consecutive permutations on one state", reach=["done"], timeout=200),
  ], "Exhaustive over state contents and alignments; every instruction of the assembly is executed symbolically over four 64-bit words per register, and each round's outputs are compared with FIPS 202.",
  outside="processors without AVX2 (the repository has no other implementation)", assumptions=["the meaning of the twelve kinds of instructions used is written down in engine/asm.go", "the assembler encodes the instructions faithfully"])

check("C09", [
    job("VH_C09_relabel", sweep=dict(idx=[0,2]), bound="XMSS h=2, n=16, w=4: signatures that would be accepted, relabelled and laid out for 18 other parameter sets that differ in hash function, PRF, n, w, height or layers; all seeds, messages and added bytes", reach=["refused"], timeout=200),
    job("VH_C09_relabel", sweep=dict(func=[0,1,2],prf=[0,1]), params=dict(h=1,d=1,idx=0,n=24,w=16), bound="the same for height 1, n=24, w=16 and every hash function and PRF", reach=["refused"], timeout=200),
    job("VH_C09_relabel", params=dict(h=4,d=2,idx=6), bound="the same for XMSSMT 4/2", reach=["refused"], timeout=200),
    job("VH_C09_any", sweep=dict(h=[1,2,4]), params=dict(d=1), bound="pairs in both directions, arbitrary contents", reach=["refused"], timeout=200),
    job("VH_C09_any", params=dict(h=40,d=8,n=32,w=16,func=1), bound="pairs with XMSSMT 40/8", reach=["refused"], timeout=200),
    job("VH_C09_relabel", sweep=dict(idx=[0,6]), params=dict(h=4,d=2,n=32,w=16), bound="XMSSMT 4/2, n=32, w=16", reach=["refused"], timeout=800, tier="thorough"),
  ], "Six parameter sets, each paired with the sets that differ from it in one field (height and layers together): every content of signature, key and message for arbitrary signatures, and honest signatures relabelled.",
  outside="other pairs of parameter sets", assumptions=["hash functions are uninterpreted functions of their complete input"])

FSMODEL = ["the packages os, io/ioutil, github.com/edsrzf/mmap-go and github.com/nightlyone/lockfile are replaced by models (stubs/vos, vioutil, vmmap, vlockfile): renaming is atomic, contents are durable once synced (until then a crash leaves anything in their place), the changes to a directory become durable in order and at the latest when it is synced"]

def hist(prop, **kw):
    q = []
    P = dict(conc=1, prop=prop)
    what = "all amounts, thresholds and records of earlier borrowing (32 bits), one call to the container failing anywhere with or without taking effect, and the process dying before any call or between operations"
    q.append(job("VH_C01_history", sweep=dict(idx=[0,1,2,3]), params=dict(P, h=2, d=1, ops=2, faults=2), reach=["reopened"], bound="XMSS h=2, every stored number, two operations, two failures: " + what, timeout=100))
    q.append(job("VH_C01_history", sweep=dict(idx=[0,1],op0=[0,1,2,4]), params=dict(P, h=2, d=1, ops=3), reach=["reopened"], bound="XMSS h=2, three operations: " + what, timeout=150))
    q.append(job("VH_C01_history", sweep=dict(idx=[0,1]), params=dict(P, h=2, d=1, ops=3, op0=1, amounts=4, faults=0), reach=["reopened"], bound="XMSS h=2, three operations with amounts from 0 to 3", timeout=150))
    q.append(job("VH_C01_history", sweep=dict(idx=[4294967294,68719476733,68719476735]), params=dict(P, h=36, d=12, ops=2, warm=1), reach=["reopened"], bound="XMSSMT 36/12, numbers around 2^32 and at the end, two operations: " + what, timeout=150))
    q.append(job("VH_C01_history", sweep=dict(op0=[1,2,4]), params=dict(P, h=60, d=60, ops=2, first=1), reach=["reopened"], bound="XMSSMT 60/60, every stored number (64 bits), borrowing, closing and reopening: " + what, timeout=150))
    FS = dict(P, files=1, func=0, n=16, w=4, prf=0)
    fwhat = "the container on the (modelled) filesystem, all amounts, thresholds and records of earlier borrowing, one writing, renaming, removing or syncing operation failing with or without effect, and the process dying before any of them or between operations"
    q.append(job("VH_C01_history", model=True, sweep=dict(idx=[1,2]), params=dict(FS, h=2, d=1, ops=2), reach=["reopened"], bound="XMSS h=2, two operations: " + fwhat, timeout=150))
    q.append(job("VH_C01_history", model=True, sweep=dict(op0=[1,2]), params=dict(FS, h=60, d=60, ops=2, first=1), reach=["reopened"], bound="XMSSMT 60/60, every stored number (64 bits), two operations: " + fwhat, timeout=150))
    q.append(job("VH_C01_history", model=True, params=dict(FS, h=60, d=60, ops=1, first=1, beyond=1), reach=["reopened", "refused"], bound="XMSSMT 60/60, every stored number, in range or not: " + fwhat, timeout=150))
    q.append(job("VH_C01_history", sweep=dict(h=[1,2]), params=dict(P, d=1, ops=1, first=1, beyond=1), reach=["refused"], bound="XMSS h=1 and h=2, every stored number (64 bits), in range or not", timeout=150))
    q.append(job("VH_C01_history", params=dict(P, h=60, d=60, ops=1, first=1, beyond=1), reach=["refused"], bound="XMSSMT 60/60, every stored number (64 bits), in range or not", timeout=150))
    q.append(job("VH_C01_history", model=True, sweep=dict(idx=[0,1],op0=[0,1,2,4]), params=dict(FS, h=2, d=1, ops=3), reach=["reopened"], bound="XMSS h=2, three operations: " + fwhat, timeout=850, tier="thorough"))
    q.append(job("VH_C01_history", model=True, sweep=dict(idx=[1],op0=[0,1,2,4]), params=dict(FS, h=2, d=1, ops=1, allops=1, power=1), reach=["reopened"], bound="XMSS h=2, one operation, dying or losing power before, and failure of, every filesystem operation", timeout=850, tier="thorough"))
    q.append(job("VH_C01_history", sweep=dict(idx=[0,1],op0=[0,1,2,4]), params=dict(P, h=2, d=1, ops=4), reach=["reopened"], bound="XMSS h=2, four operations: " + what, timeout=850, tier="thorough"))
    q.append(job("VH_C01_history", sweep=dict(idx=[0,1,2],op0=[1,4]), params=dict(P, h=2, d=1, ops=3, amounts=4), reach=["reopened"], bound="XMSS h=2, three operations with amounts from 0 to 3: " + what, timeout=850, tier="thorough"))
    q.append(job("VH_C01_history", sweep=dict(idx=[4294967294,68719476732],op0=[0,1,2]), params=dict(P, h=36, d=12, ops=3, warm=1), reach=["reopened"], bound="XMSSMT 36/12, three operations: " + what, timeout=850, tier="thorough"))
    q.append(job("VH_C01_history", sweep=dict(op0=[1,2,4]), params=dict(P, h=60, d=60, ops=3, first=1), reach=["reopened"], bound="XMSSMT 60/60, three operations: " + what, timeout=850, tier="thorough"))
    q.append(job("VH_C01_history", model=True, sweep=dict(op0=[1]), params=dict(FS, h=60, d=60, ops=3, first=1, op1=2, op2=1), reach=["reopened"], bound="XMSSMT 60/60: borrowing, closing and borrowing: " + fwhat, timeout=850, tier="thorough"))
    q.append(job("VH_C02_crash", model=True, sweep=dict(op=[0,1]), params=dict(ops=2, crash=0), bound="the container on the filesystem: two updates, one failing; the record of borrowing (every value) before, between and after", reach=["reopened", "updated", "failed"], timeout=150))
    return q + kw.get("more", [])

HIST = dict(outside="longer histories; messages, keys and seeds are fixed (they do not influence the numbers)",
  assumptions=["the container in memory (harness/vhctr.go) behaves as the interface documents"] + FSMODEL)
check("C01", hist(1), "All histories of up to three operations within the listed bounds.", **HIST)
check("C03", hist(3), "All histories of up to three operations within the listed bounds.", **HIST)
check("C04", hist(4), "All histories of up to three operations within the listed bounds.", **HIST)

def fs(h, **kw): return job(h, model=True, **kw)

check("C02", [
    fs("VH_C02_crash", sweep=dict(op=[0,1,2,3]), params=dict(ops=2), bound="a stored key (arbitrary seeds, sequence number and record of borrowing), two updates (SetSeqNo, BorrowSeqNos, Reset to another key, closing and reopening; arbitrary amounts), one filesystem operation failing anywhere with or without taking effect, a crash before any operation or afterwards, every number of unsynced directory changes kept, unsynced contents arbitrary and of three lengths", reach=["crashed", "reopened", "updated", "failed"], timeout=200, maxpaths=2000000),
    fs("VH_C02_crash", params=dict(new=1, ops=2), bound="the same for a container without a key", reach=["crashed", "reopened"], timeout=200, maxpaths=2000000),
    fs("VH_C02_crash", sweep=dict(ps=[1,2]), params=dict(ps2=1, ops=1), bound="other parameters, one update", reach=["crashed", "reopened"], timeout=200),
    fs("VH_C02_crash", sweep=dict(op=[0,1,2,3]), params=dict(ops=2, faults=2), bound="two updates, two failures", timeout=850, tier="thorough", maxpaths=2000000),
    fs("VH_C02_crash", params=dict(new=1, ops=2, faults=2), bound="a container without a key, two updates, two failures", timeout=850, tier="thorough", maxpaths=2000000),
    fs("VH_C02_crash", sweep=dict(op=[0,1,2,3]), params=dict(ops=3, faults=1), bound="three updates, one failure", timeout=850, tier="thorough", maxpaths=2000000),
  ], "All crash points and single failures in up to two updates of the key file.",
  outside="longer histories; filesystems with weaker guarantees than the model; damage to synced data", assumptions=FSMODEL)

KEY = dict(conc=1, func=0, n=16, h=4, d=2, w=16, prf=1)
check("C19", [
    fs("VH_C19_cache", sweep=dict(kind=list(range(11)), idx=[3]), params=KEY, bound="XMSSMT 4/2 at the last signature of a subtree; the cache kept, lost, unreadable, truncated to 13 lengths, with each byte of the magic or version arbitrary, with 6 other counts and 12 other alignments, of the original version, with any entries freed, with 8 arbitrary bytes at 6 places of any entry or in the checksum of every entry (the checksum not matching)", reach=["done"], timeout=200),
    fs("VH_C19_crash", sweep=dict(idx=[3]), params=KEY, bound="XMSSMT 4/2: the process killed or power lost while the subtree that replaces a dropped one is generated; any blocks on the disk", reach=["crashed"], timeout=200),
    fs("VH_C19_crash", sweep=dict(idx=[3]), params=dict(KEY, d=4, h=4, loss=0), bound="XMSSMT 4/4: the process killed while subtrees of several layers are generated", reach=["crashed"], timeout=250),
    fs("VH_C19_cache", sweep=dict(kind=[2,5,7,8], idx=[1]), params=dict(KEY, d=4, rounds=1), bound="XMSSMT 4/4", reach=["done"], timeout=200),
    fs("VH_C19_cache", sweep=dict(kind=list(range(11)), idx=[2]), params=dict(KEY, d=4, h=4, n=32, func=1, signs=2, after=2), bound="XMSSMT 4/4, SHAKE, n=32", timeout=850, tier="thorough"),
    fs("VH_C19_crash", sweep=dict(idx=[3,7,11]), params=dict(KEY, block=512), bound="XMSSMT 4/2 with blocks of 512 bytes", timeout=850, tier="thorough"),
    fs("VH_C19_crash", sweep=dict(idx=[3]), params=dict(KEY, d=4), bound="XMSSMT 4/4: power lost while subtrees of several layers are generated", timeout=850, tier="thorough"),
    fs("VH_C19_crash", sweep=dict(idx=[3]), params=dict(KEY, n=32, w=4), bound="XMSSMT 4/2 with subtrees of two blocks", timeout=850, tier="thorough"),
  ], "The listed damages and crash points for two shapes of key; signatures and public keys are compared with RFC 8391.",
  outside="other sizes; damage that leaves the checksum of an entry valid or changes the address in its header (the checksum does not cover it); the seeds are fixed",
  assumptions=FSMODEL + ["xxhash of arbitrary contents is an uninterpreted function"])

check("C20", [
    fs("VH_C20_map", params=dict(ops=4), bound="four operations on three arbitrary addresses (getting, dropping, closing and reopening; listing after each), arbitrary contents, n=16", reach=["got", "dropped", "reopened"], timeout=200),
    fs("VH_C20_map", params=dict(ops=4, addrs=4), bound="the same for four addresses", timeout=200),
    fs("VH_C20_map", params=dict(ops=4, addrs=2, ps=2), bound="n=24, subtrees of height 2 of five layers", timeout=200),
    fs("VH_C20_map", sweep=dict(hdr=[-1,1,17,100,4096,5000]), params=dict(ops=4), bound="cache files of the original version and with alignments 0, 17, 100, 4096, 5000", timeout=200),
    fs("VH_C20_map", sweep=dict(page=[16384]), params=dict(ops=4), bound="pages of 16384 bytes", timeout=200),
    fs("VH_C20_map", params=dict(ops=4,hdr=-1,page=16384), bound="pages of 16384 bytes and a cache file made with 4096", timeout=200),
    fs("VH_C20_map", params=dict(ops=5), bound="five operations on three addresses", timeout=850, tier="thorough"),
    fs("VH_C20_map", sweep=dict(hdr=[-1,17,1000]), params=dict(ops=5), bound="five operations, other alignments", timeout=850, tier="thorough"),
    fs("VH_C20_map", params=dict(ops=4, addrs=4, ps=1), bound="n=32", timeout=850, tier="thorough"),
  ], "All histories of four operations with arbitrary distinct addresses and contents.",
  outside="longer histories, other alignments and page sizes", assumptions=FSMODEL)

check("C21", [
    fs("VH_C21_open", params=dict(faults=2, faults2=2), bound="a stored key (arbitrary contents): the key locked by another process or not, up to two lock or filesystem operations failing in every way while opening and closing; every method of a closed container with arbitrary arguments", reach=["closed", "locked", "refused"], timeout=200),
    fs("VH_C21_open", params=dict(key=0), bound="a container without a key", reach=["closed", "locked", "refused"], timeout=200),
    fs("VH_C21_open", params=dict(ps=1), bound="n=32", timeout=200),
    fs("VH_C21_load", params=dict(KEY, h=2, d=1), bound="XMSS h=2: loading with an operation failing, without cache, with unusable parameters or number", reach=["failed", "loaded"], timeout=200),
    fs("VH_C21_load", params=KEY, bound="the same for XMSSMT 4/2", reach=["failed", "loaded"], timeout=200),
    fs("VH_C21_load", params=dict(KEY, h=2, d=1, derive=1), bound="deriving with an operation failing or seeds of the wrong length", reach=["failed"], timeout=200),
    fs("VH_C21_open", params=dict(faults=4, faults2=4), bound="up to four failures", timeout=850, tier="thorough"),
  ], "All outcomes of the lock operations and failures within the bound.",
  outside="opening a key twice in one process (the lock file names the process, so the second opening succeeds); damaged key files with absurd parameters", assumptions=FSMODEL)

R = dict(func=0, n=16, h=2, d=1, w=16, prf=1)
check("C25", [
    fs("VH_C25_reload", sweep=dict(how=[0,2], idx=[0,2]), params=R, bound="XMSS h=2, n=16: arbitrary seeds and two-byte messages, reloaded by path and from the container", reach=["reloaded"], timeout=200),
    fs("VH_C25_reload", sweep=dict(func=[1,2]), params=dict(R, how=0, idx=0, n=24, prf=1, h=1), bound="n=24, SHAKE", reach=["reloaded"], timeout=200),
    fs("VH_C25_reload", params=dict(R, how=0, idx=1, d=2, prf=0, n=32, func=1), bound="XMSSMT 2/2, n=32", reach=["reloaded"], timeout=200),
    fs("VH_C25_seqno", params=dict(R, conc=1), bound="every stored number (64 bits), XMSS h=2", reach=["loaded", "refused"], timeout=200),
    fs("VH_C25_seqno", params=dict(R, conc=1, h=60, d=60), bound="every stored number (64 bits), XMSSMT 60/60", reach=["loaded", "refused"], timeout=200),
    fs("VH_C25_seeds", params=dict(R, conc=1), bound="seeds of lengths 0, n-1, n, n+1, 2n in all combinations", reach=["refused"], timeout=200),
    fs("VH_C25_reload", sweep=dict(idx=[0,3,4]), params=dict(R, how=0, h=4, d=2), bound="XMSSMT 4/2", reach=["reloaded"], timeout=850, tier="thorough"),
  ], "Arbitrary seeds and short messages for the listed shapes.",
  outside="other parameters; GenerateKeyPair beyond drawing the seeds", assumptions=FSMODEL + ["hash functions are uninterpreted functions of their complete input"])

# retirement: real hashes of concrete keys (conc=1)
T = dict(conc=1, func=0, n=16, w=16, prf=1)
check("C22", [
    job("VH_C22_retire", sweep=dict(signs=[2,3]), params=dict(T, h=6, d=3, symb=1), bound="XMSSMT 6/3: every starting number; two and three overlapping signatures starting and finishing in every order", reach=["dropped", "idle", "done"], timeout=200),
    job("VH_C22_retire", params=dict(T, h=6, d=6, signs=3, symb=1), bound="XMSSMT 6/6: every starting number", reach=["dropped", "idle", "done"], timeout=200),
    job("VH_C22_retire", params={**T, **dict(h=36, d=18, signs=3, symb=1, span=6), "from": 2**32-5}, bound="XMSSMT 36/18: starting within 2^32-5 … 2^32", reach=["dropped", "idle", "done"], timeout=200),
    job("VH_C22_retire", sweep={"from": [2**32-5, 2**60-6]}, params=dict(T, h=60, d=20, signs=3, symb=1, span=6), bound="XMSSMT 60/20: starting around 2^32 and at the end of the key", reach=["idle", "done"], timeout=200),
    job("VH_C22_retire", sweep=dict(idx=[2,5]), params=dict(T, h=4, d=2, signs=3), bound="XMSSMT 4/2, subtrees generated as needed, all signatures made", reach=["idle", "done"], timeout=200),
    job("VH_C22_retire", params=dict(T, h=4, d=4, idx=6, signs=4, failing=2), bound="XMSSMT 4/4: four signatures one of which cannot read its message", reach=["dropped", "idle", "done"], timeout=200),
    job("VH_C22_retire", sweep=dict(panics=[1,2,4], noTree=[2,4]), params=dict(T, h=4, d=2, idx=2, signs=3), bound="XMSSMT 4/2: reading the message panics for one signature and a subtree is not available for another", reach=["dropped", "idle", "done"], timeout=200),
    job("VH_C22_retire", params={**T, **dict(h=6, d=3, signs=4, symb=1)}, bound="XMSSMT 6/3: four overlapping signatures", timeout=850, tier="thorough"),
    job("VH_C22_retire", sweep={"from": [2**31-4, 2**32-7, 2**33-4]}, params=dict(T, h=36, d=12, signs=4, symb=1, span=8), bound="XMSSMT 36/12: four overlapping signatures around powers of two", timeout=850, tier="thorough"),
    job("VH_C22_retire", params=dict(T, h=36, d=18, w=4, idx=2**32-2), bound="XMSSMT 36/18, all signatures made", timeout=850, tier="thorough"),
  ], "Every order in which up to three (four) overlapping signatures start and finish, from every number of small keys and around 2^32.",
  outside="more overlapping signatures; subtrees whose last signature was made before the key was loaded; containers that fail to drop a subtree; subtree precomputation overtaken by the signatures (it may leave a subtree behind)",
  assumptions=["the subtrees in the cache of the runs over all numbers have arbitrary fixed contents"])

L = dict(conc=1, func=0, n=16, w=4, prf=1)
check("C24", [
    job("VH_C24_fail", sweep=dict(idx=[2,5]), params=dict(L, h=4, d=4, ops=1), bound="XMSSMT 4/4: signing, borrowing, closing and reloading with any container call failing (with or without taking effect), or the message unreadable after two bytes; two more signatures, closing, loading and signing afterwards", reach=["signing failed", "borrowing failed", "closing failed", "loading failed", "signing an unreadable message failed", "done"], timeout=200),
    job("VH_C24_fail", sweep=dict(lost=[0,1]), params=dict(L, h=4, d=4, idx=2, ops=1, load=1), bound="XMSSMT 4/4: any container call failing while loading (with or without a cache) or in the operation that follows", reach=["loading failed", "signing failed", "done"], timeout=200),
    job("VH_C24_fail", sweep=dict(op=[0,1,2,3,4,5]), params=dict(L, h=4, d=4, idx=3, ops=2), bound="XMSSMT 4/4: two operations, any container call failing", reach=["done"], timeout=300),
    job("VH_C24_fail", params=dict(L, h=2, d=1, idx=0, ops=1, faults=2, lost=1, load=1), bound="XMSS h=2: two failures", reach=["done"], timeout=200),
    job("VH_C24_together", params=dict(L, h=3, d=3, idx=1, signs=3), bound="XMSSMT 3/3: two goroutines signing while any single fetching of a subtree fails, switching where one waits", reach=["failed", "done"], timeout=200, replay="sched"),
    job("VH_C24_together", params=dict(L, h=3, d=3, idx=2, signs=3, slow=1), bound="XMSSMT 3/3: two goroutines signing, both using a subtree that is not generated yet, switching where one waits and before the fetching fails", reach=["failed", "done"], timeout=200, replay="sched"),
    job("VH_C24_together", params=dict(L, h=2, d=2, idx=0, signs=3, preempt=1), bound="XMSSMT 2/2: the same with one preemption", reach=["failed", "done"], timeout=200, replay="sched"),
    job("VH_C24_together", params=dict(L, h=3, d=3, idx=1, signs=4, goroutines=3), bound="XMSSMT 3/3: three goroutines", reach=["failed", "done"], timeout=850, tier="thorough", replay="sched"),
    fs("VH_C24_files", sweep=dict(op=[0,1,2,3], lost=[0,1]), params=dict(L, h=4, d=2, idx=3), bound="XMSSMT 4/2: any filesystem operation failing (with or without taking effect) while opening and loading a key (with or without a cache), signing with the last number of a subtree, borrowing or closing; everything works afterwards", reach=["done"], timeout=200),
    fs("VH_C24_files", sweep=dict(op=[0,1]), params=dict(L, h=4, d=4, idx=3), bound="XMSSMT 4/4: subtrees of several layers are generated", reach=["done"], timeout=200),
    job("VH_C24_fail", sweep=dict(op=[0,1,2,3,4,5]), params=dict(L, h=4, d=4, idx=3, ops=2, faults=2), bound="XMSSMT 4/4: two operations, two failures", timeout=850, tier="thorough"),
    job("VH_C24_fail", sweep=dict(op=[0,1,2,3,4,5]), params=dict(L, h=4, d=2, idx=3, ops=3, faults=1), bound="XMSSMT 4/2: three operations", timeout=850, tier="thorough"),
    fs("VH_C24_files", sweep=dict(op=[0,1,2,3], idx=[3,7]), params=dict(L, h=4, d=2, faults=2), bound="XMSSMT 4/2: two failures", timeout=850, tier="thorough"),
  ], "All single failures (two in the thorough tier) in up to two operations of small keys.",
  outside="longer histories; failures while deriving (see C21); failing to drop a subtree that is not needed anymore is not reported by Sign", assumptions=FSMODEL)

S = dict(conc=1, n=16, w=4, prf=1)
check("C23", [
    job("VH_C23_sign", params=dict(S, h=4, d=2, idx=3, preempt=1), bound="XMSSMT 4/2: two goroutines signing across a subtree boundary, every schedule with one preemption", reach=["done"], timeout=300, replay="sched"),
    job("VH_C23_sign", params=dict(S, h=2, d=2, idx=0, preempt=2), bound="XMSSMT 2/2: two goroutines signing, two preemptions", reach=["done"], timeout=300, replay="sched"),
    job("VH_C23_sign", params=dict(S, h=3, d=3, idx=1, goroutines=3, signs=3, preempt=0), bound="XMSSMT 3/3: three goroutines signing, switching where one waits", reach=["done"], timeout=300, replay="sched"),
    job("VH_C23_sign", params=dict(S, h=3, d=3, idx=1, goroutines=2, main=1, signs=3, preempt=0, borrow=1), bound="XMSSMT 3/3: two goroutines signing while another borrows", reach=["done"], timeout=300, replay="sched"),
    job("VH_C23_sign", params=dict(S, h=2, d=2, idx=0, goroutines=1, each=2, precompute=1, preempt=0), bound="XMSSMT 2/2: two signatures next to subtree precomputation, switching where one waits", reach=["done"], timeout=400, replay="sched"),
    job("VH_C23_sign", params=dict(S, h=2, d=1, idx=0, precompute=1, preempt=0), bound="XMSS h=2: two goroutines signing with precomputation enabled", reach=["done"], timeout=300, replay="sched"),
    job("VH_C23_close", sweep=dict(when=[0,1]), params=dict(S, h=2, d=2, idx=0, signs=1), bound="XMSSMT 2/2: closing while a subtree is precomputed, one preemption", reach=["done"], timeout=300, replay="sched"),
    job("VH_C23_close", params=dict(S, h=2, d=2, idx=1, signs=1, when=1, preempt=0), bound="XMSSMT 2/2: closing while the next subtree is precomputed after the last signature of one, switching where one waits", reach=["done"], timeout=300, replay="sched"),
    job("VH_C23_race", sweep=dict(a=[0,1,2,3,4,5,6,7]), params=dict(S, h=2, d=2, idx=1, preempt=0), bound="XMSSMT 2/2: every pair of nine operations of a private key, watched for data races, switching where one waits", reach=["done"], timeout=300, replay="race"),
    job("VH_C23_verify", params=dict(S, h=2, d=2, idx=0, preempt=1), bound="two goroutines verifying and encoding the same signature and key, watched for data races, one preemption", reach=["done"], timeout=300, replay="race"),
    job("VH_C23_threads", params=dict(S, h=6, d=1, threads=2, preempt=1), bound="a subtree of height 6 generated by two workers, one preemption", reach=["done"], timeout=300, replay="sched"),
    job("VH_C23_threads", params=dict(S, h=7, d=1, threads=3, preempt=0), bound="a subtree of height 7 generated by three workers", reach=["done"], timeout=300, replay="sched"),
    job("VH_C23_threads", params=dict(S, h=6, d=1, threads=2, preempt=0, races=1), bound="a subtree of height 6 generated by two workers, watched for data races", reach=["done"], timeout=300, replay="race"),
    job("VH_C23_sign", params=dict(S, h=4, d=2, idx=3, preempt=2), bound="XMSSMT 4/2: two preemptions", timeout=850, tier="thorough", replay="sched"),
    job("VH_C23_sign", params=dict(S, h=3, d=3, idx=1, goroutines=3, signs=3, preempt=1), bound="XMSSMT 3/3: three goroutines, one preemption", timeout=850, tier="thorough", replay="sched"),
    job("VH_C23_sign", params=dict(S, h=2, d=2, idx=0, precompute=1, preempt=0), bound="XMSSMT 2/2: two goroutines next to precomputation", timeout=850, tier="thorough", replay="sched"),
    job("VH_C23_close", sweep=dict(when=[0,1]), params=dict(S, h=3, d=3, idx=1, signs=2, preempt=0), bound="XMSSMT 3/3: closing while subtrees are precomputed", timeout=850, tier="thorough", replay="sched"),
    job("VH_C23_race", sweep=dict(a=[0,1,2,3,4,5,6,7]), params=dict(S, h=4, d=2, idx=3, preempt=1), bound="XMSSMT 4/2: every pair of operations, one preemption", timeout=850, tier="thorough", replay="race"),
    job("VH_C23_threads", params=dict(S, h=6, d=1, threads=3, preempt=1), bound="three workers, one preemption", timeout=850, tier="thorough", replay="sched"),
  ], "Every schedule at synchronization operations within the stated number of preemptions of two or three goroutines; data races by happens-before over the accesses of every explored schedule.",
  outside="more goroutines or preemptions; weak-memory effects of racy programs (races are reported instead)",
  assumptions=["goroutines switch only at synchronization operations (sound for race-free programs; races are looked for separately)", "the schedules are those of sync.Mutex, Cond and WaitGroup without spurious wake-ups"])
