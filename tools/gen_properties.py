#!/usr/bin/env python3
# Writes /verif/properties.jsonl (one JSON object per line).
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Any k or more shares of a split reconstruct exactly the secret",
 "For every non-empty secret and every 2<=k<=n<=255, whichever of the shamir splitting functions produced the n shares and whatever random values it drew, combining any k or more of those shares, in any order, succeeds and returns exactly the secret. The result does not depend on which sufficient subset is used or on its order.",
 ["inputs", "configurations"],
 "all secret contents and lengths, all (n,k), all random coefficients, all share tags, all subsets of size >= k and all their orders",
 "Tests split a handful of random secrets with (4,2), (5,2), (20,k) and always combine the first shares in order; a wrong result confined to particular byte values, tags, lengths, (n,k) or subsets is not sampled.",
 ["shamir/shamir.go", "shamir/polynomial.go", "shamir/tables.go", "galois/vector_amd64.go", "galois/vector_amd64.s"],
 [("the five splitting functions and their validation", "shamir/shamir.go Split, SplitWithRandomizer, SplitWithRandomizerOld, SplitGeneric, SplitP"),
  ("polynomial evaluation and transposition", "shamir/polynomial.go evaluatePolynomialsAt*, transpose*, evaluate"),
  ("Lagrange interpolation", "shamir/shamir.go Combine, shamir/polynomial.go interpolatePolynomial, mult, div")],
 observe=["shares returned by the splitters", "secret returned by Combine"])

prop("C02", "Shares are well formed: n shares, secret+1 bytes, distinct non-zero tags",
 "A successful shamir split (any splitting function) returns exactly n shares, each exactly one byte longer than the secret, and the final byte (tag) of every share is non-zero and different from every other share's tag. This holds whatever the random source delivers; a share with tag zero would carry the secret in clear.",
 ["inputs", "configurations"],
 "all (n,k), all secret lengths, all values delivered by the random source",
 "Tests never look at the tags; tag zero or a repeated tag appears only for rare values of the random source.",
 ["shamir/shamir.go", "csprng/csprng.go"],
 [("choice of x coordinates and tag byte", "shamir/shamir.go out[idx][len(secret)] = uint8(xCoordinates[idx]) + 1"),
  ("distinct bytes from the generator", "csprng/csprng.go Perm, GetUniqueBytes")],
 observe=["last byte of every share"])

prop("C03", "Splitters accept exactly 2<=k<=n<=255 with a non-empty secret",
 "Every splitting entry point (the shamir ones, the SSMS ones and the worker) succeeds exactly when the secret is non-empty and 2<=k<=n<=255, for every integer n and k including negative and huge ones. In every other case it returns an error and no shares, and it never panics.",
 ["inputs"],
 "all pairs of machine integers (n,k), empty and non-empty secrets, secret lengths up to the stated bound",
 "No test passes invalid parameters, and valid ones are few; acceptance and rejection are claims about every pair of integers.",
 ["shamir/shamir.go", "krawczyk/krawczyk.go", "worker/worker.go"],
 [("sanity checks at the head of each splitter", "shamir/shamir.go, krawczyk/krawczyk.go"),
  ("erasure-coder parameter handling", "krawczyk/krawczyk.go reedsolomon.New / Split")],
 observe=["error result of each splitter"])

prop("C04", "Fewer than k shamir shares say nothing about the secret",
 "For every set of at most k-1 shares of a split, the joint distribution of their contents over the random coefficients is the same for every secret of that length. This holds jointly for the shares of several splits made one after another, including splits made with the same random generator.",
 ["inputs", "histories", "configurations"],
 "all pairs of secrets, all (n,k) and tags and share subsets of size < k within the bound, sequences of two or more splits with one generator",
 "No test examines what partial shares reveal; it is a statement about all secrets and the whole distribution of coefficients, and reconstruction works just as well when it is false.",
 ["shamir/shamir.go", "shamir/polynomial.go", "csprng/csprng.go", "utils/bufferpool.go"],
 [("random coefficients", "shamir/polynomial.go makePolynomials*"),
  ("fresh keystream for every read", "csprng/csprng.go Read"),
  ("degree k-1 polynomial evaluated at non-zero points", "shamir/polynomial.go")],
 observe=["any k-1 returned shares"])

prop("C05", "A CSPRNG delivers one AES-CTR keystream, never the same part twice",
 "Successive reads from one generator (csprng.CSPRNG or randomizer.Randomizer) deliver consecutive, non-overlapping parts of the AES-CTR keystream determined by its 16-byte key and 16-byte IV, filling the whole buffer regardless of what it contained and regardless of later changes to the caller's key/IV buffer. Two generators built from equal key and IV deliver the same sequence; generators created without a key are seeded from separate random draws.",
 ["histories", "inputs"],
 "all keys and IVs, all sequences of read sizes within the bound, all prior buffer contents",
 "The only test checks the first read of a generator into a zeroed buffer with the all-zero key; repetition shows on the second read.",
 ["csprng/csprng.go", "randomizer/randomizer.go"],
 [("keystream position", "csprng/csprng.go Read, randomizer/randomizer.go Read"), ("construction from key and IV", "csprng/csprng.go NewCSPRNG, NewCSPRNGWithKeyIV")],
 observe=["bytes delivered by Read"])

prop("C06", "Perm and unique-byte draws are in range, duplicate free and never panic",
 "For every n and every keystream, the permutation drawn by either generator contains each of 0..n-1 exactly once, and the unique-byte draw returns n pairwise distinct bytes in 0..254. Neither ever panics.",
 ["inputs"],
 "all n in 0..255 and all keystream contents, with a stated bound on rejected draws",
 "TestPerm draws one permutation of 255; failures depend on particular keystream bytes (about 1 in 256) and on small n.",
 ["csprng/csprng.go", "randomizer/randomizer.go"],
 [("Fisher-Yates shuffle", "csprng/csprng.go Perm, randomizer/randomizer.go Perm"), ("rejection of repeated bytes", "csprng/csprng.go GetUniqueBytes")],
 observe=["returned slice"])

prop("C07", "Scalar GF(2^8) operations implement one field",
 "Addition, subtraction, both multiplications, division and exponentiation (by exponents from 0 up) all agree, for every operand, with arithmetic in GF(2^8) modulo x^8+x^4+x^3+x^2+1; division inverts multiplication and is refused only for a zero divisor. The arithmetic used to combine shares is in the same field as the arithmetic used to create them.",
 ["inputs"],
 "all pairs of field elements; exponents 0..2^63-1",
 "galois has no tests, only benchmarks; a wrong table entry affects one operand pair in 65536.",
 ["galois/galois.go", "galois/tables.go", "shamir/polynomial.go", "shamir/tables.go"],
 [("lookup tables", "galois/tables.go, shamir/tables.go"), ("log/exp arithmetic", "galois/galois.go, shamir/polynomial.go mult, div")],
 observe=["results of the exported galois functions", "Combine on two-byte shares"])

prop("C08", "Vector kernels equal element-wise field arithmetic on every CPU path",
 "For every constant and every vector of every length, constant multiplication and vector addition return element by element what the scalar field operations give, on every CPU-feature path (AVX2, SSSE3, SSE2, none, portable, batch and NEON versions). They touch no memory outside the two vectors and do not modify operands they are not documented to modify.",
 ["inputs", "configurations"],
 "all constants, all vector contents, all lengths up to the stated bound, all CPU feature combinations, all buffer alignments",
 "galois has no tests; only the path chosen by the test machine's CPU is ever run, and only for the lengths that occur in the shamir tests.",
 ["galois/vector_amd64.go", "galois/vector_amd64.s", "galois/vector_noasm.go", "galois/vector.go", "galois/vector_arm64.go", "galois/vector_arm64.s"],
 [("block loops in assembly and tails in Go", "galois/vector_amd64.go, galois/vector_amd64.s, galois/vector_arm64.*"), ("nibble tables", "galois/tables.go mulTableLow, mulTableHigh")],
 observe=["returned vectors", "bytes around the vectors"])

prop("C09", "Calls leave their inputs alone and share no memory with other results",
 "No split, combine or regenerate call (shamir, SSMS or worker) modifies the caller's secret or share contents, and what it returns shares no writable memory with its inputs, with other returned shares (appending to one share never changes another), or with anything a later call uses. A result, once returned, never changes because of later calls.",
 ["histories", "inputs"],
 "all inputs within the bound; sequences of calls followed by arbitrary writes to returned slices",
 "Tests use each result once, immediately; aliasing shows only when results are kept, modified or appended to across calls.",
 ["shamir/shamir.go", "shamir/polynomial.go", "krawczyk/krawczyk.go", "utils/bufferpool.go"],
 [("pooled scratch buffers", "shamir/shamir.go bPool, shamir/polynomial.go polynomialBufferPool"), ("one backing array carved into shares", "shamir/shamir.go out[idx] = buff[s:e], krawczyk newByteMatrix")],
 observe=["caller's slices after the call", "earlier results after later calls"])

prop("C10", "Regenerated shares lie on the same polynomial under fresh tags",
 "Given any k or more shares of a split and a count r, regeneration returns r new shares with non-zero tags different from each other and from the given shares' tags, for every random draw, or an error when fewer than r such tags remain or r is negative. Any k or more shares taken from old and new ones together reconstruct exactly the original secret.",
 ["inputs", "histories"],
 "all secrets, coefficients, tags, random draws and r within the bound; all mixtures of old and new shares",
 "Two tests regenerate once from (5,2) and combine two shares; repeated or zero tags depend on the random draw and are not looked at.",
 ["shamir/shamir.go"],
 [("new tag selection", "shamir/shamir.go Regenerate"), ("interpolation at the new tag", "shamir/polynomial.go interpolatePolynomial")],
 observe=["regenerated shares"])

prop("C11", "Shamir combine and regenerate reject malformed share sets, never panic",
 "For every collection of byte slices, combining or regenerating returns an error exactly when there are fewer than two shares, shares of different lengths, shares shorter than two bytes, or two shares with the same tag, and otherwise succeeds with a secret one byte shorter than the shares. Neither ever panics.",
 ["inputs"],
 "all collections of up to the stated number of slices of independently chosen lengths and contents, including nil",
 "No test passes malformed shares.",
 ["shamir/shamir.go", "shamir/polynomial.go"],
 [("validation", "shamir/shamir.go Combine, Regenerate"), ("duplicate detection before division", "shamir/shamir.go checkMap")],
 observe=["error and result of Combine and Regenerate"])

prop("C12", "SSMS: any k of n shares reconstruct exactly the secret",
 "For every non-empty secret and every 2<=k<=n<=255 an SSMS split (with or without a caller-supplied generator) succeeds, and combining any k or more of its shares with the same n and k, in any order and with missing shares left out or given as nil, returns exactly the secret, whatever key and randomness were drawn.",
 ["inputs", "configurations"],
 "all secret contents, lengths, (n,k), keys and coefficients within the bound; all sufficient subsets, orders and nil patterns",
 "Tests use n=5,k=2 and a few others with one or two secrets; failures tied to particular lengths (padding, buffer capacity), k=n or particular subsets are not sampled.",
 ["krawczyk/krawczyk.go", "krawczyk/aes.go", "shamir/shamir.go"],
 [("encrypt, erasure-code, share the key", "krawczyk/krawczyk.go Split, SplitWithRandomizer"), ("reverse path", "krawczyk/krawczyk.go Combine"), ("stream cipher", "krawczyk/aes.go encrypt, decrypt")],
 observe=["secret returned by Combine"])

prop("C13", "SSMS combine never panics on untrusted shares",
 "For every collection of byte slices (including empty, nil, truncated, inconsistent or tampered shares) and every integer n and k, SSMS combine returns normally with either a secret or an error. It returns an error whenever the parameters are outside 1<=k<=n<=255, a non-nil share is too short to be one, a part id is not below n, or fewer than k distinct shares are given.",
 ["inputs"],
 "all collections of up to the stated number of slices with arbitrary lengths and contents, all n and k within the bound",
 "No test passes malformed shares to the SSMS combine.",
 ["krawczyk/krawczyk.go"],
 [("validation and part-id check", "krawczyk/krawczyk.go Combine")],
 observe=["error and result of Combine"])

prop("C14", "SSMS share layout: n shares of 22+ceil(len/k) bytes, part ids 0..n-1",
 "A successful SSMS split returns exactly n shares, each of 22+ceil(len/k) bytes; the last byte of share i is i, its first 21 bytes are a well-formed shamir share (distinct non-zero tags) of the 16-byte key and the 4-byte little-endian secret length, and the rest is its erasure-coded part of the ciphertext.",
 ["inputs", "configurations"],
 "all secret contents and lengths, (n,k), keys and coefficients within the bound",
 "One test checks the length for one secret; layout of the other fields is never examined.",
 ["krawczyk/krawczyk.go"],
 [("assembly of the final shares", "krawczyk/krawczyk.go Split, SplitWithRandomizer, newByteMatrix")],
 observe=["returned shares"])

prop("C15", "Fewer than k SSMS shares say nothing about the secret, given ideal AES",
 "With the cipher's keystream idealised as independent uniform bytes per key, every set of at most k-1 SSMS shares has the same distribution for every secret of that length, jointly over successive splits made with the same generator. In particular every split uses a fresh key that is not recoverable from fewer than k shares.",
 ["inputs", "histories", "configurations"],
 "all pairs of secrets, share subsets of size < k, (n,k) and lengths within the bound, sequences of two splits",
 "No test examines what partial shares reveal or whether keys repeat.",
 ["krawczyk/krawczyk.go", "krawczyk/aes.go", "csprng/csprng.go"],
 [("fresh key per split", "krawczyk/krawczyk.go key := ..., randomizer.Read(key)"), ("encryption before erasure coding", "krawczyk/krawczyk.go encrypt")],
 observe=["any k-1 returned shares"])

prop("C16", "A worker does what its named algorithm does, call after call",
 "For every sequence of calls on one worker, splitting with a known algorithm name and combining at least k of the returned shares under the same name and parameters returns the secret; results follow the named algorithm's own share format and parameter rules. Every other algorithm name is rejected with an error and no result.",
 ["histories", "inputs"],
 "all algorithm names up to a bounded length, sequences of calls within the bound, all secrets and parameters within the bound",
 "The worker has no tests.",
 ["worker/worker.go"],
 [("dispatch", "worker/worker.go Split, Combine")],
 observe=["results of Worker.Split and Worker.Combine"])

prop("C17", "Concurrent calls do not affect one another",
 "When splits, combines and generator reads run concurrently in several goroutines, under every interleaving each call gives a result it could have given alone: every split reconstructs to its own secret, no data race occurs, all calls finish, and a csprng.CSPRNG shared by goroutines delivers no keystream part twice. The goroutine-parallel splitter gives correct shares under every schedule of its workers.",
 ["schedules"],
 "all interleavings of two concurrent calls at synchronisation operations within a stated preemption bound; race freedom by happens-before on every explored schedule",
 "The parallel tests check nothing about the results and sample a few schedules.",
 ["shamir/shamir.go", "shamir/polynomial.go", "utils/bufferpool.go", "csprng/csprng.go"],
 [("channel-based buffer pools", "utils/bufferpool.go"), ("disjoint index ranges per worker", "shamir/shamir.go SplitP"), ("keystream position", "csprng/csprng.go Read")],
 observe=["results of concurrent calls"])

prop("C18", "The buffer pool never blocks and never hands one buffer to two holders",
 "For every sequence of gets and puts, from one or several goroutines, a buffer obtained from the pool is not held by anyone else until it is put back, neither operation ever blocks, and the pool retains at most its capacity, discarding the excess. A get always returns a usable buffer.",
 ["histories", "schedules"],
 "all sequences of operations and all pool sizes within the bound; two goroutines under every interleaving within the bound",
 "The pool has no tests; it is only exercised implicitly.",
 ["utils/bufferpool.go"],
 [("non-blocking channel operations", "utils/bufferpool.go Get, Put")],
 observe=["buffers returned by Get"])

prop("C19", "A call's result depends only on its own inputs and fresh randomness",
 "What a split, combine or regenerate call returns is a function of its own arguments and of the random values it draws: nothing computed for an earlier call (its secret, coefficients or shares, of whatever sizes) influences it, although scratch buffers are recycled. With a generator built from a given key and IV, the shares are therefore reproducible.",
 ["histories"],
 "all contents of the earlier and the later call, sequences of sizes and parameters within the bound",
 "Tests do not compare a call against the same call with a different history.",
 ["shamir/shamir.go", "shamir/polynomial.go", "utils/bufferpool.go", "csprng/csprng.go"],
 [("recycled buffers are fully overwritten", "shamir/polynomial.go makePolynomialsWithBuff*, csprng/csprng.go Read")],
 observe=["results of a call after different histories"])

prop("C20", "The randomness the generators start from is unpredictable",
 "Keys, coefficients and tags are drawn from a source an attacker cannot predict or reconstruct.",
 ["configurations"], "all attackers; seeds and process start times",
 "Unpredictability is a property of the entropy source, not of any input/output behaviour a test observes.",
 ["csprng/csprng.go", "shamir/shamir.go"],
 [("seeding from the clock and math/rand", "csprng/csprng.go init, NewCSPRNG")])

prop("C21", "Splitting and combining leak nothing through timing",
 "The time taken by splitting and combining does not depend on secret or share contents.",
 ["inputs"], "all secrets and shares",
 "Timing is not observed by tests; the README disclaims the property.",
 ["shamir/polynomial.go", "galois/galois.go"],
 [("constant-time selects in div and mult", "shamir/polynomial.go")])

prop("C22", "Splitting is faster than the Hashicorp implementation",
 "Throughput of splitting large secrets exceeds the per-byte implementation's by a large factor on every supported CPU.",
 ["configurations"], "all supported CPUs and secret sizes",
 "Benchmarks measure one machine.",
 ["shamir/shamir.go", "galois/vector_amd64.go"],
 [("vectorised evaluation", "shamir/polynomial.go")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
