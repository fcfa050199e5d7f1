#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py > properties.jsonl)."""
import json

P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


prop("C01", "Every shipped constant table equals the published standard",
     "Every constant the library ships for a standardised algorithm - S-boxes, permutation and lookup tables, round constants, initial hash values, "
     "ZUC and SM4 constants, CMAC reduction constants, ASN.1 digest prefixes, curve domain parameters and the precomputed P-256 table - "
     "has exactly the value the standard defines, in every build configuration.",
     ["inputs", "configurations"],
     "all entries of all constant tables, in the AES-NI and in the portable build",
     "The known-answer tests touch a fraction of the table entries, never the portable AES tables on a machine with AES-NI, and never most curve parameters.",
     ["src/aes/const_tables.rs", "src/des/const_tables.rs", "src/sha/const_tables.rs", "src/md5/md5.rs", "src/sm3", "src/sm4", "src/keccak", "src/zuc/zuc_const_tables.rs",
      "src/cmac/const_tables.rs", "src/elliptic", "src/rsa/pkcs1.rs", "src/hmac/hmac.rs"],
     [("constant items and literal tables", "src/*/const_tables.rs"), ("curve parameter constructors", "src/elliptic/elliptic.rs"), ("digest-info prefixes", "src/rsa/pkcs1.rs")])

prop("C02", "Reset returns a digest, MAC, stream or counter to its initial state",
     "After reset, a hash, MAC, cipher stream, keystream cipher or counter behaves exactly like a newly constructed one with the same key and parameters: "
     "nothing absorbed, buffered, counted or cached before the reset influences anything produced after it.",
     ["histories"],
     "every history of writes, checksums, finishes and partial blocks before the reset",
     "Tests reset after a handful of histories; a field left stale matters only for particular buffered lengths or call orders.",
     ["src/md5", "src/sha", "src/sm3", "src/sha3", "src/keccak", "src/hmac", "src/cmac", "src/zuc", "src/cipher_mode"],
     [("reset methods", "impl Digest::reset of every hash and MAC"), ("stream reset methods", "src/cipher_mode/cipher_mode_macros.rs"), ("Counter::reset", "src/cipher_mode/counter.rs")])

prop("C03", "Asking again for a digest returns the same digest",
     "Requesting the checksum of a hash or MAC several times with no data written in between yields the same bytes each time and leaves the object in the same state as requesting it once. "
     "Writing new data or resetting always invalidates what was cached.",
     ["histories"],
     "every state a digest object can be in when the checksum is requested, every later write",
     "Tests mostly call checksum once per message; the cached path and the interplay with later writes are barely reached.",
     ["src/md5", "src/sha", "src/sm3", "src/sha3", "src/hmac", "src/cmac", "src/zuc/zuc_mac.rs"],
     [("finalised flag and cached digest", "impl Digest::checksum/write of every hash and MAC")])

prop("C04", "Outputs replace the destination and report their true length",
     "Whenever an encryption, decryption, checksum or signature operation succeeds, what the destination holds afterwards does not depend on what it held before, "
     "a fixed-length digest has exactly the advertised number of bytes, a block operation produces exactly one block, and a reported count equals the number of bytes now in the destination.",
     ["inputs", "histories"],
     "every previous content of the destination, every input",
     "Tests reuse empty or same-length destination vectors and seldom check the returned count.",
     ["src/aes", "src/des", "src/sm4", "src/zuc", "src/cipher_mode", "src/md5", "src/sha", "src/sm3", "src/sha3", "src/hmac", "src/cmac", "src/rsa", "src/dsa/signature.rs"],
     [("clear-then-fill of the destination", "every Cipher::encrypt/decrypt and Digest::checksum")])

prop("C05", "Wrong sizes and parameters are rejected, right ones accepted",
     "Block ciphers succeed exactly on inputs of one block; key and IV slices are accepted exactly at the standard lengths; set IVs must be one block, CTR counters at least one block wide, CFB segments whole bytes from one byte to one block, ECB and CBC ciphertexts whole blocks, RSA messages short enough for the modulus. "
     "Sponges accept exactly rates between 0 and the width, permutations the seven standard widths, SHA-512/t every t from 1 to 511 but 384, CMAC the block sizes it has a constant for. Everything else is refused with an error or None, in both backends.",
     ["inputs", "configurations"],
     "every input, key, IV and parameter length, both AES backends",
     "Tests feed valid sizes almost exclusively; a check that is missing or off by one at a boundary is invisible to them.",
     ["src/aes", "src/des", "src/sm4", "src/zuc", "src/cipher_mode", "src/keccak", "src/sha/sha512.rs", "src/hmac", "src/cmac"],
     [("length guards before use", "constructors and encrypt/decrypt entry points")])

prop("C06", "A digest does not depend on how the message was split",
     "For every hash and MAC, each byte passed to write is taken in exactly once and in order: whole blocks reach the compression step in sequence, the rest is kept pending, the message-length counter grows by exactly the bytes written and a later write continues where the previous one stopped, "
     "and so the digest depends only on the concatenation of the pieces and not on their boundaries.",
     ["inputs", "histories"],
     "every way of cutting a message into writes, including empty, block-sized and block-crossing pieces",
     "The number of splits is unbounded; tests use one or two fixed chunkings.",
     ["src/md5/md5.rs", "src/sha", "src/sm3", "src/sha3", "src/keccak", "src/hmac", "src/cmac", "src/zuc/zuc_mac.rs"],
     [("block buffering in write", "impl Digest::write")])

prop("C07", "Final padding is right for every message length",
     "When a Merkle-Damgard hash is finished, the message is followed by one 0x80 byte, the minimal number of zero bytes and the bit length in the standard's width and byte order, so that for every message length the padded message is a whole number of blocks. A new object starts from an empty message, and the digest delivered is the leading part of the final chaining value in the standard's byte order.",
     ["inputs"],
     "every message length, split by residue modulo the block size",
     "A wrong boundary shows only for a single residue class of the message length, and the tests cover a few short messages.",
     ["src/md5/md5.rs", "src/sha/sha1.rs", "src/sha/sha256.rs", "src/sha/sha512.rs", "src/sm3/sm3.rs"],
     [("padding computation in checksum", "impl Digest::checksum")])

prop("C08", "Each block mode combines blocks exactly as its standard prescribes",
     "In one-shot and streaming use alike, ECB applies the cipher to each block alone, CBC chains every block - padded ones included - through the previous ciphertext block, CFB and OFB feed back ciphertext respectively keystream, and CTR encrypts successive counter values with none reused; "
     "the first block depends on the configured IV or counter, and CFB, OFB and CTR use only the forward cipher for both directions.",
     ["inputs", "histories"],
     "every message length, padding scheme and split of the message",
     "The known-answer tests use block-multiple messages; padded tails, later messages and partial segments are not covered.",
     ["src/cipher_mode"],
     [("chaining value handling", "src/cipher_mode/{cbc,cfb,ofb,ctr,ecb}.rs")])

prop("C09", "Cipher streams lose no byte and start each message afresh",
     "A cipher stream produces each byte of its result exactly once and in order however the input is split: input not yet processed is kept for the next call, nothing processed is kept. "
     "After finish, the buffered remainder is empty and the chaining value is the configured IV again, so the next message is processed like the first.",
     ["inputs", "histories"],
     "every split of every message, any number of messages through one stream",
     "Tests stream one message per object with a couple of split points.",
     ["src/cipher_mode"],
     [("remainder buffer and chaining register", "stream write/finish in src/cipher_mode/*.rs"), ("output pond", "src/cipher_mode/pond.rs")])

prop("C10", "A signature is accepted only after every prescribed check",
     "Verification returns success only if the signature components lie in their prescribed range and every byte of the recovered encoding, respectively the recomputed value, equals what the message, the digest and the scheme prescribe; "
     "no path skips or weakens one of these comparisons.",
     ["inputs"],
     "all signatures, messages and keys",
     "Tests verify honest signatures and a few corrupted ones; a dropped or narrowed comparison admits forgeries no random corruption hits.",
     ["src/rsa/pkcs1.rs", "src/rsa/pss.rs", "src/dsa/dsa.rs", "src/ecdsa/ecdsa.rs"],
     [("verification conditions", "verify functions of RSA-PKCS1, RSA-PSS, DSA and ECDSA")])

prop("C11", "RSA decryption releases a message only from a valid encoding",
     "OAEP and PKCS#1 v1.5 decryption return a message only if the ciphertext is as long as the modulus and its integer below the modulus, and the decrypted block has the prescribed leading bytes, label hash, padding of the prescribed minimum length and separator; "
     "what is returned is exactly the part after the separator.",
     ["inputs"],
     "all ciphertexts and labels",
     "Random corruption practically never produces a nearly valid encoding, so tests cannot see a dropped check.",
     ["src/rsa/oaep.rs", "src/rsa/pkcs1.rs"],
     [("encoding checks after decryption", "decrypt functions of OAEP and PKCS1")])

prop("C12", "Private-key operations need a private key and self-check signatures",
     "Signing and decryption with an object holding only a public key fail with an error, verification and encryption never use private-key material, "
     "and an RSA signature is released only after raising it to the public exponent has given back the encoded message.",
     ["inputs", "fault_sequences"],
     "all keys and messages, and any fault in the private-key computation",
     "A correct private-key computation never triggers the self-check, and tests use complete key pairs.",
     ["src/rsa", "src/dsa/dsa.rs", "src/ecdsa/ecdsa.rs"],
     [("private_key() guards", "sign/decrypt functions"), ("check after private operation", "src/rsa/rsa.rs")])

prop("C13", "Every secret random value is drawn fresh and in full",
     "Each OAEP seed, PKCS#1 padding string, PSS salt, DSA nonce, ECDSA entropy, blinding factor and generated IV or key consists entirely of output drawn from the random source during that very operation, "
     "has the full prescribed length, excludes the forbidden values (zero padding bytes, zero nonces), and a rejected candidate is redrawn rather than reused.",
     ["inputs", "histories"],
     "all random sources, lengths and sequences of operations",
     "Output that is partly constant or reused still verifies and decrypts, so functional tests pass.",
     ["src/rsa", "src/dsa/dsa.rs", "src/ecdsa", "src/cipher_mode/initial_vec.rs", "src/elliptic"],
     [("random source draws", "encrypt/sign/generate functions")])

prop("C14", "A failed inner step makes the whole operation fail",
     "When any inner fallible operation of an encryption, decryption, signing, verification, key or constructor call reports an error, the enclosing public operation reports an error too; no error is swallowed or turned into success.",
     ["fault_sequences"],
     "every fallible inner call failing at every point",
     "Inner failures practically never occur in tests, so the error paths are not executed.",
     ["src/cipher_mode", "src/rsa", "src/dsa", "src/ecdsa", "src/elliptic", "src/cmac", "src/hmac", "src/aes", "src/des", "src/zuc"],
     [("? operator and match on Result", "all fallible calls")])

prop("C15", "Internally used digests start clean and hash exactly what is prescribed",
     "Whenever a signature, encryption or MAC scheme computes a digest, the digest object is reset before the first byte goes in, absorbs exactly the prescribed fields in order (label; message; seed and counter; padded hash and salt; key and message), "
     "and is not extended after its value was taken.",
     ["inputs", "histories"],
     "every earlier use of the same scheme object",
     "A missing reset shows only when the previous use left the digest dirty, e.g. after an early error return.",
     ["src/rsa", "src/dsa/dsa.rs", "src/ecdsa/ecdsa.rs", "src/hmac/hmac.rs"],
     [("reset/write/checksum sequences", "all uses of the Digest parameter")])

prop("C16", "Run-time selected algorithms behave like the concrete ones",
     "An algorithm object whose variant is chosen at run time, and every wrapper around another hash or stream, performs for each operation exactly the same operation of the selected concrete algorithm with the same arguments, and its name-like constructor selects the algorithm it is named after.",
     ["programs", "inputs"],
     "every variant times every operation",
     "The facades have many arms and tests exercise a few variants.",
     ["src/sha/sha.rs", "src/sha3/sha3.rs", "src/cipher_mode"],
     [("match dispatch", "impl Digest for SHA and SHA3"), ("stream wrappers", "src/cipher_mode/cipher_mode_macros.rs")])

prop("C17", "Objects with hidden mutable state cannot be shared between threads",
     "Every public type whose shared-reference methods modify internal state is not shareable between threads; no public method hands out exclusive access to internal state through a shared reference.",
     ["schedules", "programs"],
     "all programs using the public API, all thread schedules",
     "The tests are single threaded; a data race is a matter of types, not of a run.",
     ["src/cipher_mode", "src/sm4", "src/des/tdes.rs", "src/zuc/zuc_cipher.rs", "src/rsa"],
     [("Cell and PhantomData<*const u8> fields", "struct definitions")])

prop("C18", "Operations never modify keys, parameters or caller-owned integers",
     "No operation changes the numeric value of a key, a domain or curve parameter, or an integer passed in by reference; in-place big-integer arithmetic happens only on storage owned by the operation itself. "
     "A key built from integers passed by reference keeps its own copy of them.",
     ["inputs", "histories"],
     "every operation on every key, any number of times",
     "Big integers share storage on clone, so corruption depends on aliasing and may show only in a later operation.",
     ["src/rsa", "src/dsa", "src/elliptic", "src/ecdsa"],
     [("deep copies before in-place arithmetic", "all big-integer code")])

prop("C19", "A clone carries the complete state and is independent",
     "Cloning a cipher, mode, hash, MAC, counter or key gives an object holding the same key, parameters, chaining, buffered and counting state as the original at that moment, and later use of either never affects the other.",
     ["histories"],
     "every state at the time of cloning",
     "Tests clone freshly built objects only.",
     ["src/cipher_mode", "src/zuc", "src/sm4", "src/des", "src/aes", "src/rsa", "src/dsa", "src/elliptic"],
     [("hand-written Clone impls", "impl Clone blocks"), ("derive(Clone)", "struct definitions")])

prop("C20", "Malformed signatures and ciphertexts never abort the program",
     "Verification and decryption of arbitrary byte strings with a valid key end by returning success or an error; they never abort through an out-of-range index, a length mismatch, an arithmetic overflow or an impossible unwrap.",
     ["inputs"],
     "all byte strings of all lengths",
     "The aborting inputs are rare lengths and boundary values that the tests do not use.",
     ["src/rsa", "src/dsa", "src/ecdsa"],
     [("length guards before slicing", "verify/decrypt functions")])

prop("C21", "Curve and cipher word arithmetic never traps on overflow",
     "Fixed-width word arithmetic inside the hash, cipher, stream-cipher and curve cores never triggers an arithmetic-overflow or shift-range trap, for any operand values.",
     ["inputs"],
     "all operand values of every core routine",
     "The trapping operand values are rare; a run with random data need not meet them.",
     ["src/elliptic/p256.rs", "src/elliptic/p224.rs", "src/md5", "src/sha", "src/sm3", "src/sm4", "src/zuc", "src/keccak", "src/aes", "src/des"],
     [("wrapping arithmetic", "core routines")])

prop("C22", "Cores compute the standard functions",
     "For every key and message the block ciphers, hashes, MACs, field and group operations compute exactly the mathematical function of their standard, and decryption inverts encryption.",
     ["inputs"], "all keys and messages",
     "Known-answer vectors sample a vanishing part of the input space.",
     ["src"], [("round functions and field arithmetic", "src")])

prop("C23", "Generated keys are distributed as prescribed",
     "Generated RSA, DSA and elliptic-curve keys are uniformly distributed over the prescribed sets and the primes are prime with the prescribed error probability.",
     ["inputs"], "all random sources", "A distribution cannot be judged from a few samples.",
     ["src/rsa/rsa.rs", "src/dsa/dsa.rs", "src/elliptic"], [("key generation", "generate functions")])

prop("C24", "Block padding is minimal and reversible",
     "Padding data to whole blocks appends one byte 0x80 followed by the fewest zero bytes that complete a block. Unpadding removes exactly such a tail and reports an error for data that does not end in one, "
     "so that data padded and unpadded again is unchanged for every length.",
     ["inputs"],
     "data of every length including the empty one, every block size, every content",
     "Every length modulo every block size matters, and malformed tails are never tried.",
     ["src/cipher_mode/padding.rs"],
     [("padding and unpadding", "src/cipher_mode/padding.rs")])

prop("C25", "Signatures and ciphertexts are built as their schemes prescribe",
     "The integer an RSA scheme raises is exactly the prescribed encoding of the message (PKCS#1 v1.5 signature and encryption, OAEP, PSS) for every message length including zero, and the result is its power in exactly as many big-endian bytes as the modulus has. "
     "A DSA or ECDSA signature holds r and then s, both nonzero, where r is reduced modulo the group order and s = (digest + secret*r)/nonce modulo it, with the leftmost digest bits as many as the order has.",
     ["inputs"],
     "all messages, keys, digests and random values",
     "Random padding and nonces hide a wrong encoding from a round trip, and the cases where a length or bit count is one off occur rarely.",
     ["src/rsa/pkcs1.rs", "src/rsa/oaep.rs", "src/rsa/pss.rs", "src/dsa/dsa.rs", "src/dsa/signature.rs", "src/ecdsa/ecdsa.rs"],
     [("signing and encryption", "src/rsa, src/dsa, src/ecdsa")])

prop("C26", "MACs and sponges close the message as their standards prescribe",
     "The subkeys of CMAC are the encrypted zero block doubled once and twice in the field of the block size; a complete last block is combined with the first, an incomplete one is completed by a one bit and zeros and combined with the second. "
     "SHA-3 and SHAKE append their suffix bits to the message, pad it by 1 0* 1 to whole rate blocks, use the rate 1600 less twice the strength and 24 rounds, and deliver the advertised number of bits.",
     ["inputs"],
     "all keys, messages and lengths",
     "The rare cases (a carry out of the doubled block, a message that leaves room for the suffix but not the padding) are not in the usual vectors, and one wrong constant shows for one variant only.",
     ["src/cmac/cmac.rs", "src/keccak/keccak.rs", "src/sha3/sha3.rs", "src/sha3/shake.rs"],
     [("CMAC and Keccak", "src/cmac, src/keccak, src/sha3")])

prop("C27", "The numbers of a generated key belong together",
     "A generated RSA modulus is the product of the requested number of pairwise different primes and has the requested number of bits, and the private operation, blinded or not and for every number of primes, undoes the public one. "
     "Generated DSA parameters have tested primes p and q of the requested lengths with p = 1 modulo q and a generator h^((p-1)/q) other than 1. "
     "A generated DSA or curve secret is not zero and below the group order, and the public value is the generator raised to it (the base point multiplied by it).",
     ["inputs"],
     "all random values and requested sizes; 2, 3 and 4 primes",
     "Wrong values occur for random choices a test never meets (a repeated prime, a zero secret), and a wrong recombination for more than two primes is not exercised.",
     ["src/rsa/rsa.rs", "src/dsa/dsa.rs", "src/elliptic/elliptic.rs", "src/ecdsa/ecdsa.rs"],
     [("key generation and RSA private operation", "src/rsa, src/dsa, src/elliptic, src/ecdsa")])

prop("C28", "Encrypting, signing and padding never abort the program",
     "Encryption, signing and padding of data of any content and length, with any valid key, hash and random source, end by returning success or an error; they never abort through an out-of-range index, a length mismatch, an arithmetic overflow or an impossible unwrap.",
     ["inputs"],
     "all data, lengths and key sizes, both backends",
     "The aborting combinations (a small modulus with a long hash, an empty message, a public key only) are outside what tests try.",
     ["src/rsa", "src/dsa", "src/ecdsa", "src/cipher_mode", "src/aes", "src/des", "src/sm4"],
     [("encryption and signing", "src/rsa, src/dsa, src/ecdsa, src/cipher_mode, block ciphers")])

prop("C29", "Adding and doubling curve points follow the group law",
     "On every supported curve, adding two points and doubling a point give the result of the group law of y\u00b2 = x\u00b3 \u2212 3x + b, also for the point at infinity, equal points, opposite points and points with a zero coordinate. A point is reported to be on the curve exactly if its coordinates satisfy that equation. A coordinate that is zero is handled as the number zero wherever coordinates are converted.",
     ["inputs"],
     "all points of every supported curve, including the exceptional cases",
     "The exceptional cases (opposite points, a zero coordinate, infinity, an intermediate that happens to be equal) are a vanishing part of all points and random tests never meet them.",
     ["src/elliptic"],
     [("curve operations", "src/elliptic")])

for p in P:
    assert len(p["title"]) <= 80, p["title"]
    print(json.dumps(p, ensure_ascii=False))
