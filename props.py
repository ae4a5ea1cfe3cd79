AI = 'abstract interpretation of LLVM IR (intervals, pointers, taint)'

prop('C01', 'Elliptic-curve secret operations run in secret-independent time',
     'For every supported curve, creating or manipulating private keys, signing, and deriving shared secrets '
     'never branch on, index memory by, or divide values computed from the private key or nonce, '
     'whatever their value and whether or not they are valid. '
     'The only exception is the verdict that is deliberately published (success or failure, retry of an invalid nonce).',
     ['inputs', 'configurations'], 'every private key, message and peer key, on both word-size builds',
     'The timing tests trace a few sampled keys on one build; a secret-dependent branch taken only for rare keys '
     '(zero, out of range, leading zero limbs) or present only in the portable build is invisible to them.',
     ['src/ecc.c', 'src/mpi.c', 'src/fields/'],
     [('constant-time select/swap and full table scans', 'src/ecc.c'), ('validity accumulated with &=', 'src/ecc.c')],
     AI + ', secret taint reaching branches, addresses and divisions',
     'all curves, both word sizes, keys fully unknown; inputs of the documented sizes')

prop('C02', 'Hash, MAC, stream cipher, KDF and DRBG code is secret-independent in time',
     'The arithmetic primitives (all hashes except GOST94, MD2 and Whirlpool; HMAC, HKDF, PBKDF2, PGP and OpenSSL derivation, '
     'ChaCha20, Salsa20, Poly1305, SipHash, ChaCha20-Poly1305, secret boxes, the hash- and HMAC-based generators, and the '
     'constant-time comparison and xor helpers) never branch on, index memory by, or divide key or message contents. '
     'Only lengths, public parameters and published verdicts may influence timing.',
     ['inputs', 'configurations'], 'every key and message content, lengths around every block boundary, both builds',
     'Timing is not asserted by any test for these primitives, and no sample of inputs covers all contents.',
     ['src/hash.c', 'src/stream.c', 'src/mac.c', 'src/kdf.c', 'src/drbg.c', 'src/aead.c', 'src/ies.c', 'src/util.c'],
     [('arithmetic-only round functions', 'src/hash.c, src/stream.c, src/mac.c'), ('accumulating comparison', 'src/util.c')],
     AI + ', secret taint reaching branches, addresses and divisions',
     'message lengths enumerated around block boundaries')

prop('C03', 'No result depends on uninitialised memory',
     'No public operation branches on, computes an address from, or returns data that was never initialised, '
     'for any input including invalid keys, empty messages and rejected signatures. '
     'Whenever an operation reports success its output buffers are completely written.',
     ['inputs', 'histories', 'configurations'], 'every input of every operation, both builds',
     'Memory checkers only see the paths the tests take; failure paths and rarely taken loop exits stay unobserved.',
     ['src/ecc.c', 'src/hash.c', 'src/drbg.c', 'src/kdf.c', 'src/stream.c', 'src/mac.c', 'src/aead.c', 'src/ies.c'],
     [('outputs written on every path', 'src/ecc.c'), ('accumulators zeroed before use', 'src/ecc.c')],
     AI + ', initialisation lattice per byte',
     'variable-time verification code is judged on definite uses only')

prop('C04', 'Every operation stays within the buffers it is given',
     'With every caller buffer exactly the documented size, no operation reads or writes outside a buffer, '
     'uses freed memory, dereferences a null pointer or modifies constant data. '
     'This holds for every message length, key content and malformed input.',
     ['inputs', 'configurations'], 'every content, lengths around block boundaries, both builds',
     'Sanitizer runs observe sampled lengths and contents, mostly with buffers larger than required.',
     ['src/ecc.c', 'src/hash.c', 'src/drbg.c', 'src/kdf.c', 'src/stream.c', 'src/mac.c', 'src/aead.c', 'src/ies.c'],
     [('explicit size arithmetic', 'src/'), ('size checks in decoders', 'src/')],
     AI + ', interval bounds of every access',
     'variable-time verification code is judged on definite violations only')

prop('C05', 'Field arithmetic never loses carries',
     'On every curve and with either word-size backend, no sequence of field additions, subtractions, multiplications and '
     'conversions performed by the curve operations overflows a machine word or the headroom of an unreduced element, for any input. '
     'Every unreduced intermediate is reduced before its range could exceed what the next step accepts.',
     ['inputs', 'configurations'], 'every field element value, both backends',
     'An overflow needs operands with nearly all limbs saturated, which random vectors practically never produce.',
     ['src/ecc.c', 'src/fields/'],
     [('carry after addition except where marked safe', 'src/ecc.c'), ('fiat-crypto style bounds', 'src/fields/')],
     AI + ', exact range of every limb operation',
     'ranges are tracked per calling context of each curve operation')

VN = 'value numbering (Herbrand terms over abstract interpretation of LLVM IR)'

prop('C06', 'Feeding data in pieces or in place never changes the result',
     'For every hash, Poly1305, ChaCha20, Salsa20 and ChaCha20-Poly1305, the result depends only on the concatenation of the '
     'bytes supplied, not on how they were divided into calls. Processing in place gives the same output as processing into a separate buffer.',
     ['inputs', 'histories'], 'every message content, every cut of the input around block boundaries',
     'Tests use a few fixed cuts of fixed vectors; the buffering code has many combinations of fill level and chunk size.',
     ['src/hash.c', 'src/mac.c', 'src/stream.c', 'src/aead.c'],
     [('partial block buffering', 'src/hash.c, src/mac.c'), ('keystream position', 'src/stream.c')],
     VN + ', whole input against pieces', 'up to three pieces and byte-wise feeding, messages up to three blocks and a bit')

prop('C07', 'Length fields and block counters stay right for very long inputs',
     'For hashes with length padding, a message of any total length (including beyond 2^29 and 2^32 bytes) gets exactly the standard padding '
     'and length encoding; BLAKE2 byte counters, the ChaCha20-Poly1305 length block and the ChaCha20 and Salsa20 block counters carry correctly. '
     'A stream positioned at a later block produces the tail of the stream positioned earlier.',
     ['inputs', 'histories'], 'every message content, totals at and around every counter boundary',
     'Reaching the boundaries by feeding data needs gigabytes of input; no test does.',
     ['src/hash.c', 'src/stream.c', 'src/aead.c'],
     [('bit length appended at finalisation', 'src/hash.c'), ('counter increment with carry', 'src/stream.c')],
     VN + ', finalisation against explicit padding', 'totals sampled at the counter boundaries, contents fully unknown')

prop('C08', 'Keyed constructions equal their published definition',
     'HMAC (any hash), HKDF, PBKDF2, the OpenPGP string-to-key functions, OpenSSL key derivation, the HMAC-based random generator, ChaCha20-Poly1305 and '
     'secret boxes produce exactly what their specification prescribes over the underlying hash, MAC and stream functions. '
     'This holds for every key, salt and output length, including empty inputs, keys longer than a block and partial last blocks.',
     ['inputs', 'histories'], 'every content, lengths around every block boundary, repeated generation and reseeding',
     'Published vectors cover few length combinations; rarely used ones (empty salt, multi-block output with odd length, long keys) are unobserved.',
     ['src/hash.c', 'src/kdf.c', 'src/drbg.c', 'src/aead.c', 'src/ies.c'],
     [('key block preparation', 'src/hash.c'), ('block index and chaining', 'src/kdf.c'), ('additional data handling', 'src/drbg.c')],
     VN + ', implementation against definition', 'definitions are written in the harness over the public primitives')

prop('C09', 'Sealed messages are accepted exactly when authentic; comparisons are exact',
     'Opening a secret box succeeds for a box sealed with the same key and nonce and returns the original message; it fails for every other tag and for boxes shorter than a tag. '
     'The equality and ordering helpers report equality exactly for equal strings and order byte strings lexicographically; the xor helpers compute the xor of all bytes.',
     ['inputs'], 'every message, key and tag',
     'Tests flip a few bits of a few tags; a comparison that ignores one byte or one bit of the tag passes them.',
     ['src/ies.c', 'src/util.c'],
     [('tag comparison', 'src/ies.c'), ('accumulating comparison', 'src/util.c')],
     VN + ', verdict constant on every class of tags', 'lengths enumerated')

prop('C10', 'Cipher modes compute their definition however the input is split',
     'For every cipher mode, the ciphertext, tag and recovered plaintext do not depend on how the input is cut into pieces, decryption returns the encrypted message, '
     'written lengths equal the expected ones and never exceed the size predicted beforehand. '
     'The ciphertext and tag are exactly what the mode prescribes over the block cipher (electronic codebook, CBC, CTR, CFB, OFB, XTS, GCM, CCM, EAX), including counter carries, '
     'partial blocks, nonce lengths and associated-data length encodings.',
     ['inputs', 'histories'], 'every key, nonce, associated data and message content; lengths and cuts around every block boundary',
     'Vectors use single-shot inputs of few lengths; a fault at one residue, one cut position or one counter carry is not exercised.',
     ['src/cipher.c'],
     [('buffering of incremental input', 'src/cipher.c'), ('counter increment', 'src/bio.h'), ('field doubling and hashing', 'src/cipher.c')],
     VN + ' with the block cipher uninterpreted, implementation against definition and against itself on cut input',
     'lengths up to a few blocks (64 KiB for CCM); GCM hash key fixed to two constants where the message is non-empty; ciphertext stealing for CBC only round trip')

prop('C11', 'Decryption refuses bad tags, missing tags and bad padding exactly',
     'Authenticated decryption reports success exactly if the supplied tag equals the computed one in every byte, never without a tag and never for a tag length the mode does not permit. '
     'Padded decryption succeeds exactly if the last block carries well-formed padding, and then removes exactly it. '
     'Keys and initialisation vectors of the wrong length, equal tweak-mode key halves and lengths a mode cannot process are refused.',
     ['inputs'], 'every ciphertext, tag and last plaintext block',
     'Tests corrupt one byte of a few tags and never enumerate malformed paddings.',
     ['src/cipher.c', 'src/util.c'],
     [('tag verification', 'src/cipher.c'), ('padding check', 'src/cipher.c')],
     VN + ', verdict constant on every class of tags and paddings', 'block sizes 8 and 16')

POLY = 'abstract interpretation of LLVM IR with a polynomial-equality domain (words as bounded integer polynomials)'

prop('C12', 'Prime-field arithmetic is exact and field encodings are canonical',
     'For every pair of elements of each supported prime field, adding, subtracting, negating, carrying, multiplying by the '
     'small curve constants, multiplying and squaring give a value congruent to the exact result modulo the prime and within '
     'the bounds the next operation relies on. '
     'Encoding an element gives exactly its residue below the prime, and decoding bytes gives exactly the number they spell. '
     'This holds for the 64-bit and the 32-bit back end.',
     ['inputs', 'configurations'], 'every element in every redundant representation the library produces',
     'A dropped carry that only matters when a limb is all ones has a chance of 2^-30 to 2^-60 per random input, and only one '
     'back end is built at a time.',
     ['src/fields/', 'src/ecc.c'],
     [('generated field arithmetic', 'src/fields/'), ('scaling by curve constants', 'src/fields/')],
     POLY + ', residual vanishing modulo the prime', 'C code of both back ends; inversion, square roots and inline assembly are not included')

prop('C13', 'Scalar and multi-word integer arithmetic is exact',
     'For every pair of scalars below the group order of each supported curve, sums, differences, negations, products, squares, '
     'products with a word, Montgomery products and the reduction of wider numbers give exactly the residue, below the order; '
     'importing and exporting bytes preserves the number. '
     'The multi-word additions, subtractions, multiplications, squarings, negations and shifts they are made of give the exact result and carry.',
     ['inputs', 'configurations'], 'every scalar and every multi-word number of the sizes the curves use',
     'Wrong quotient estimates and lost carries occur for a vanishing fraction of scalars, which random tests do not hit.',
     ['src/ecc.c', 'src/mpi.c'],
     [('Barrett and Montgomery reduction', 'src/mpi.c'), ('word loops', 'src/mpi.c'), ('scalar operations', 'src/ecc.c')],
     POLY + ', residual vanishing modulo the group order', 'portable C of the word loops (inline assembly not included), 1 to 20 words')


prop('C14', 'Keys, tweaks, signatures and coordinates out of range are refused',
     'For every supported curve, ECDSA, both Schnorr variants and Ristretto accept a private key exactly when it is below the group order '
     '(and, except Ristretto, not zero); every operation that is given a key or tweak that is not below the order, a public key with an unknown prefix or wrong length '
     'or a coordinate not below the prime, or a signature with a number out of range returns failure (the X25519 and X448 functions, which reduce, aside). '
     'ECDSA additionally refuses zero signature components and, in verification and recovery, a high second component.',
     ['inputs'], 'every byte string in place of a key, tweak, coordinate or signature component',
     'A missing check makes signatures malleable or keys ambiguous, and only inputs next to the bound show it.',
     ['src/ecc.c'],
     [('scalar and field import', 'src/ecc.c'), ('public operations', 'src/ecc.c')],
     'abstract interpretation over intervals, one run per class of byte strings around each bound, unknown arithmetic results abstracted by contracts',
     'points off the curve and results that are zero are not part of this')

prop('C15', 'An ECDSA signature has exactly one accepted DER form',
     'For every pair of numbers below the group order, the DER export writes the shortest form: minimal lengths, one zero byte exactly when the top bit is set. '
     'Both importers take it back to the same signature. The strict importer refuses everything else: truncated or trailing data, wrong tags, wrong, long-form or '
     'indefinite lengths, empty, negative or padded integers, and numbers not below the order.',
     ['inputs'], 'every signature and every byte string in place of an encoding, grouped by how it deviates',
     'A lenient parser makes transactions malleable and splits consensus; a wrong pad byte shows only for particular leading bytes.',
     ['src/ecc.c', 'src/asn1.c'],
     [('integer and length coding', 'src/asn1.c'), ('signature coding', 'src/ecc.c')],
     VN + ' next to the definition; intervals for the refused classes',
     'refused classes are combined with every total length and five representative lengths of each number')
ALG = 'value numbering with field elements, scalars and points interpreted in an ideal algebra (normal forms of polynomials modulo the prime and the order)'

prop('C16', 'ECDSA signs, verifies, recovers and combines keys by the standard equations',
     'For every key and message (digests of any length, truncated to the leftmost bits of the order), ECDSA produces the signature r = x(kG) mod n, s = (m + ra)/k made low '
     'with the matching recovery number, and verification accepts exactly the low-s signatures satisfying the equation under a valid public key in any of its encodings, '
     'also when x(R) is at or above n. Recovery returns exactly the key that makes the equation hold. Key creation, conversion, tweaking, negation, '
     'addition, combination and shared-secret derivation return the result of the group operation in the requested form, and fail when it would be infinity or zero or an input is not on the curve.',
     ['inputs'], 'every key, message, signature and tweak, including those whose coordinates exceed the order or whose sums vanish',
     'The rare cases (x(R) at or above n, sums at infinity, odd or high intermediate values) have negligible probability, so no sampled test reaches them.',
     ['src/ecc.c'],
     [('signing, verification, recovery', 'src/ecc.c'), ('key operations', 'src/ecc.c'), ('point import and export', 'src/ecc.c')],
     ALG, 'field, scalar and point multiplication are taken as correct here (fields and scalars are decided separately); the nonce must come from the generator keyed with key and digest')

prop('C17', 'BIP-Schnorr and BIP340 sign, verify and batch-verify by their definitions',
     'On the 256-bit Weierstrass curves, both Schnorr variants compute nonce, challenge and response as defined (including the tagged hashes, auxiliary randomness and '
     'the even or square y rule), and verification accepts exactly the signatures satisfying the equation with the required kind of R; x-only key operations return the even-y result and its parity, or fail. '
     'A batch is accepted only if every chunk sums all its verification equations, each weighted by a coefficient independent of the others that depends on every message, '
     'signature and key in the batch, and it is refused when any entry is malformed.',
     ['inputs'], 'every key, message, signature and batch of up to three entries with scratch space of several sizes',
     'A batch that drops an entry, reuses a coefficient or seeds it from part of the data still accepts every valid batch and rejects random corruption.',
     ['src/ecc.c'],
     [('signing and verification', 'src/ecc.c'), ('batch verification', 'src/ecc.c'), ('x-only keys', 'src/ecc.c')],
     ALG, 'batches of zero to three entries, scratch sizes 2, 5 and 64; messages of 5, 8 and 32 bytes')

prop('C18', 'EdDSA signs, verifies, batch-verifies and combines keys by its definition',
     'On every Edwards curve and for every key, message, context and prehash flag, EdDSA signatures (plain, with a given scalar, and with tweaked keys) are R = kG, s = k + ea with the clamped '
     'hashed key, nonce and domain-separated challenge of the standard; exact verification accepts exactly when R = sG - eA and the cofactored one when hR = h(sG - eA), also for keys and R with a part of small order, '
     'and both refuse s at or above the order, undecodable points and stray bits. '
     'A batch is accepted only if every chunk sums all its cofactored equations weighted by independent coefficients that depend on every message, signature and key. '
     'Key and scalar operations, coordinate import and export, the small-order and torsion predicates and shared-secret derivation return the result of the group operation or refuse.',
     ['inputs'], 'every key, message, signature, context and tweak, including points with a component of small order',
     'Points with a small-order component, zero coordinates with a sign and non-reduced multipliers never arise from honestly generated keys.',
     ['src/ecc.c'],
     [('signing and verification', 'src/ecc.c'), ('batch verification', 'src/ecc.c'), ('key operations', 'src/ecc.c'), ('point decoding and encoding', 'src/ecc.c')],
     ALG + ', with a second ring for points of small order',
     'field, scalar and point arithmetic are taken as correct here; batches of up to three entries, contexts of 0, 3, 255 and 300 bytes')

prop('C19', 'Ristretto keys and X25519/X448 agreement compute the defined group operation',
     'For every valid private key and group element, Ristretto key creation, tweaking, negation, inversion, addition, combination, grinding and derivation return the encoding of the '
     'defined scalar or group operation, and refuse scalars at or above the order, undecodable elements and tweaked keys that vanish. '
     'X25519 and X448 public keys and secrets are the coordinate of the clamped (not reduced) multiple, a peer key of small order gives failure, and the validity, small-order and torsion predicates are exact.',
     ['inputs'], 'every private key, public key and tweak, including peer keys with a component of small order',
     'Reducing a clamped scalar modulo the order, or skipping the check for a vanishing result, changes nothing for honest keys.',
     ['src/ecc.c'],
     [('Ristretto key operations', 'src/ecc.c'), ('scalar clamping and key agreement', 'src/ecc.c')],
     ALG + ', with a second ring for points of small order',
     'the Ristretto encoding and the ladder are taken as correct here')
