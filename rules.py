"""One rule per property: which entry points are interpreted, which monitor
decides, and what must have been analysed for the answer to count."""
from vlib import finish

RULES = {}
WEI = ['p192', 'p224', 'p256', 'p384', 'p521', 'secp256k1']
MONT = ['x25519', 'x448']
EDW = ['ed25519', 'ed448', 'ed1174']
CURVES = WEI + MONT + EDW
HASHES = ('BLAKE2B_160 BLAKE2B_256 BLAKE2B_384 BLAKE2B_512 BLAKE2S_128 BLAKE2S_160 BLAKE2S_224 BLAKE2S_256 '
          'GOST94 HASH160 HASH256 KECCAK224 KECCAK256 KECCAK384 KECCAK512 MD2 MD4 MD5 MD5SHA1 RIPEMD160 SHA1 '
          'SHA224 SHA256 SHA384 SHA512 SHA3_224 SHA3_256 SHA3_384 SHA3_512 SHAKE128 SHAKE256 WHIRLPOOL').split()
TABLE_HASHES = ['GOST94', 'MD2', 'WHIRLPOOL']
SYM = ['blake', 'stream', 'mac', 'aead', 'kdf', 'hmacdrbg', 'hashdrbg', 'util']
TAB = ['arc4', 'scrypt', 'ctrdrbg']

CT = {'CT_BRANCH', 'CT_ADDR', 'CT_DIV', 'CT_CALL', 'CT_SELECT'}
UNINIT = {'UNINIT_BRANCH', 'UNINIT_ADDR', 'UNINIT_OUT'}
UNINIT_MAY = {k + '_MAY' for k in UNINIT}
MEMORY = {'OOB', 'USE_AFTER_FREE', 'NULLDEREF', 'BADPTR', 'WRITE_CONST'}

CLANG_NOTE = 'clang lowering of the C source; the gcc-only inline assembly of the big-integer kernel is not modelled'


def rule(pid):
    def deco(f):
        RULES[pid] = f
        return f
    return deco


def need_functions(ctx, res, names, what):
    seen = set()
    for d in res:
        seen.update(d['functions'])
    missing = [n for n in names if n not in seen]
    ctx.need(not missing, '%s: not reached: %s' % (what, ', '.join(missing)))
    return seen


def need_counter(ctx, res, name, least):
    n = sum(d['counters'].get(name, 0) for d in res)
    ctx.need(n >= least, 'only %d %s discharged, expected at least %d' % (n, name, least))
    return n


def summary(res):
    c = {}
    for d in res:
        for k, v in d['counters'].items():
            c[k] = c.get(k, 0) + v
    return dict(entries=sum(len(d['entries']) for d in res), functions=len(set(f for d in res for f in d['functions'])),
                steps=sum(d['steps'] for d in res), phases=sorted(set(p for d in res for p in d['phases'] if p)),
                counters=c, unmodelled=sorted(set(u for d in res for u in d['unmodelled'])))


def jobs_ec_secret(ctx, opts, cfgs=('64', '32')):
    return [(cfg, ctx.prog(cfg, 'ec.c'), 'tv_ct_' + c, opts) for cfg in cfgs for c in CURVES]


def jobs_ec_public(ctx, opts, cfgs=('64', '32')):
    out = []
    for cfg in cfgs:
        p = ctx.prog(cfg, 'ec.c')
        names = ['tv_pub%d_%s' % (i, c) for c in WEI for i in range(5)] + ['tv_pub5_secp256k1']
        names += ['tv_pub0_' + c for c in MONT] + ['tv_pub%d_%s' % (i, c) for c in EDW for i in range(4)]
        out += [(cfg, p, n, opts + ['--partition', '--unk=10']) for n in names]
    return out


def jobs_sym(ctx, opts, tables, cfgs=('64', '32')):
    out = []
    for cfg in cfgs:
        p = ctx.prog(cfg, 'sym.c')
        out += [(cfg, p, 'tv_hash_' + h, opts) for h in HASHES if tables or h not in TABLE_HASHES]
        out += [(cfg, p, 'tv_sym_' + s, opts) for s in SYM]
        if tables:
            out += [(cfg, p, 'tv_tab_' + s, opts) for s in TAB]
    return out


EC_API = ['torsion_' + n for n in (
    'ecdsa_sign_internal ecdsa_derive ecdsa_pubkey_create ecdsa_privkey_tweak_add bip340_sign '
    'bipschnorr_sign bip340_derive ecdh_pubkey_create ecdh_derive eddsa_sign eddsa_derive '
    'eddsa_pubkey_create ristretto_pubkey_create ristretto_derive').split()]
EC_PUB_API = ['torsion_' + n for n in (
    'ecdsa_verify ecdsa_recover ecdsa_pubkey_tweak_add ecdsa_sig_export bip340_verify '
    'bip340_verify_batch bipschnorr_verify eddsa_verify eddsa_verify_single eddsa_verify_batch ristretto_pubkey_grind').split()]
SYM_API = ['torsion_' + n for n in (
    'hash_update hash_final hmac_final chacha20_crypt salsa20_crypt poly1305_final siphash_sum hkdf_expand '
    'pbkdf2_derive eb2k_derive hmac_drbg_generate hash_drbg_generate chachapoly_final secretbox_open '
    'memequal memcmp memxor').split()]


@rule('C01')
def c01(ctx):
    res = ctx.run(jobs_ec_secret(ctx, ['--ct']), CT)
    need_functions(ctx, res, EC_API, 'secret operations')
    ctx.take(res, CT)
    cov = summary(res)
    cov['explanation'] = ('Abstract interpretation of every secret-key operation on every curve in both word-size '
                          'configurations with the key bytes unknown and tainted; every branch, memory address, '
                          'division, select and external call on a tainted value is reported.')
    return finish(ctx, 'other', cov, [CLANG_NOTE])


@rule('C02')
def c02(ctx):
    res = ctx.run(jobs_sym(ctx, ['--ct'], False), CT)
    need_functions(ctx, res, SYM_API, 'symmetric operations')
    ctx.take(res, CT)
    cov = summary(res)
    cov['explanation'] = ('Abstract interpretation of the symmetric primitives with keys and messages unknown and '
                          'tainted, lengths enumerated around block boundaries; every branch, memory address, '
                          'division, select and external call on a tainted value is reported. Table-driven '
                          'primitives (outside the property) are not analysed here.')
    return finish(ctx, 'other', cov, [CLANG_NOTE])


@rule('C03')
def c03(ctx):
    sec = ctx.run(jobs_ec_secret(ctx, ['--ct', '--uninit']) + jobs_sym(ctx, ['--uninit'], True), UNINIT | UNINIT_MAY)
    pub = ctx.run(jobs_ec_public(ctx, ['--uninit']), UNINIT)
    res = sec + pub
    need_functions(ctx, res, EC_API + EC_PUB_API + SYM_API, 'operations')
    ctx.take(sec, UNINIT | UNINIT_MAY)
    ctx.take(pub, UNINIT)
    cov = summary(res)
    need_counter(ctx, res, 'init_obligations', 500)
    cov['explanation'] = ('Abstract interpretation with every output buffer and every local initially marked '
                          'uninitialised; a branch or address on such data, or an output buffer still carrying it '
                          'after success, is reported.')
    return finish(ctx, 'other', cov, [CLANG_NOTE, 'in variable-time verification code only definite uses count'])


@rule('C04')
def c04(ctx):
    sec = ctx.run(jobs_ec_secret(ctx, ['--ct', '--oob']) + jobs_sym(ctx, ['--oob'], True), MEMORY | {'OOB_MAY'})
    pub = ctx.run(jobs_ec_public(ctx, ['--oob']), MEMORY)
    res = sec + pub
    need_functions(ctx, res, EC_API + EC_PUB_API + SYM_API, 'operations')
    ctx.take(sec, MEMORY | {'OOB_MAY'})
    ctx.take(pub, MEMORY)
    cov = summary(res)
    cov['explanation'] = ('Abstract interpretation with all caller buffers allocated at exactly the documented size; '
                          'every load and store whose offset interval leaves its object, touches a freed object or '
                          'writes constant data is reported.')
    return finish(ctx, 'other', cov, [CLANG_NOTE, 'in variable-time verification code only definite violations count'])


@rule('C05')
def c05(ctx):
    res = ctx.run(jobs_ec_secret(ctx, ['--ct', '--wrap']), {'LIMB_OVERFLOW'})
    need_functions(ctx, res, EC_API, 'field users')
    ctx.take(res, {'LIMB_OVERFLOW'})
    cov = summary(res)
    cov['explanation'] = ('Interval analysis of every limb operation of the field backends, in the calling context of '
                          'each curve operation, for unknown inputs; an operation whose exact result range does not '
                          'fit its machine word is reported.')
    return finish(ctx, 'other', cov, [CLANG_NOTE])


EQ = {'VN_DIFF', 'VN_LOST', 'ASSERT'}
HMACS = ('BLAKE2B_256 BLAKE2S_256 GOST94 HASH160 HASH256 KECCAK256 MD2 MD4 MD5 MD5SHA1 RIPEMD160 SHA1 SHA224 SHA256 '
         'SHA384 SHA512 SHA3_224 SHA3_256 SHA3_384 SHA3_512 WHIRLPOOL').split()
PADS = 'md4 md5 ripemd160 sha1 sha224 sha256 sha384 sha512 whirlpool blake2'.split()
VN = 'value numbering (Herbrand terms, every input byte a distinct unknown) on the abstract interpretation of LLVM IR'


def jobs(ctx, harness, entries, opts, cfgs=('64',)):
    return [(cfg, ctx.prog(cfg, harness), e, opts) for cfg in cfgs for e in entries]


def equational(ctx, jl, api, what, least, explanation, notes=(), also=()):
    kinds = EQ | set(also)
    res = ctx.run(jl, kinds)
    need_functions(ctx, res, ['torsion_' + n for n in api.split()], what)
    n = sum(d['counters'].get('equality_obligations', 0) + d['counters'].get('assert_obligations', 0) for d in res)
    if not any(r['kind'] in kinds for d in res for r in d['reports']):
        ctx.need(n >= least, '%s: only %d obligations discharged, expected at least %d' % (what, n, least))
    ctx.take(res, kinds)
    cov = summary(res)
    cov['obligations'] = n
    cov['explanation'] = explanation
    return finish(ctx, 'other', cov, [CLANG_NOTE] + list(notes))


@rule('C06')
def c06(ctx):
    jl = jobs(ctx, 'eq.c', ['tv_eqhash_' + h for h in HASHES] + ['tv_eq_chacha', 'tv_eq_salsa'], ['--vn'])
    jl += jobs(ctx, 'eq.c', ['tv_eq_poly', 'tv_eq_chachapoly'], ['--vn'], ('64', '32'))
    return equational(ctx, jl, 'hash_update hash_final poly1305_update chacha20_crypt salsa20_crypt chachapoly_encrypt '
                      'chachapoly_decrypt', 'incremental operations', 50000,
                      'Each incremental operation is interpreted with every message and key byte a distinct unknown, once '
                      'on the whole input and once on the same input cut into pieces around every block boundary (and byte '
                      'by byte, and in place); every output byte must be the same term.')


@rule('C07')
def c07(ctx):
    jl = jobs(ctx, 'eq.c', ['tv_pad_' + h for h in PADS] + ['tv_eq_seek', 'tv_pad_aead'], ['--vn'])
    return equational(ctx, jl, 'sha256_final sha512_final md5_final whirlpool_final blake2b_final blake2s_final '
                      'chacha20_crypt salsa20_crypt chachapoly_final', 'length and block counters', 5000,
                      'Hash states that already absorbed an amount of data at a counter boundary (unknown chaining value '
                      'and buffer, known length) are finished and must yield the same term as absorbing the standard padding '
                      'explicitly; stream ciphers crossing a counter boundary must continue with the block of the next counter.')


@rule('C08')
def c08(ctx):
    e = ['tv_eqhmac_' + h for h in HMACS] + ['tv_eq_hkdf%d' % i for i in range(3)] + ['tv_eq_pbkdf2%d' % i for i in range(3)]
    e += ['tv_eq_hmacdrbg%d' % i for i in range(3)] + ['tv_eq_pgpdf', 'tv_eq_eb2k']
    jl = jobs(ctx, 'eq.c', e, ['--vn']) + jobs(ctx, 'eq.c', ['tv_eq_chachapoly', 'tv_eq_secretbox'], ['--vn'], ('64', '32'))
    return equational(ctx, jl, 'hmac_init hmac_update hmac_final hkdf_extract hkdf_expand pbkdf2_derive pgpdf_derive_simple '
                      'pgpdf_derive_salted pgpdf_derive_iterated eb2k_derive hmac_drbg_generate hmac_drbg_reseed '
                      'chachapoly_final secretbox_seal', 'constructions', 20000,
                      'Each construction is interpreted next to its published definition written over the public hash, '
                      'MAC and stream functions, with every input byte a distinct unknown and lengths around every boundary; '
                      'every output byte must be the same term.')


@rule('C09')
def c09(ctx):
    jl = jobs(ctx, 'eq.c', ['tv_eq_secretbox', 'tv_eq_util'], ['--vn'], ('64', '32'))
    jl += jobs(ctx, 'eq.c', ['tv_long_util'], ['--unk=10'], ('64', '32'))
    return equational(ctx, jl, 'secretbox_open memequal memcmp memxor memxor3', 'comparisons', 1000,
                      'For every position, the class of tags (strings) that differ there and are arbitrary elsewhere is '
                      'interpreted as unknowns with a non-zero difference; the verdict must be the constant rejection, and '
                      'the constant acceptance for equal strings.')


MODES = ['tv_mode_%s%d' % (m, b) for m in 'raw ecb cbc cts xts cfb ofb ctr'.split() for b in (8, 16)] + ['tv_mode_nopad']
AEADS = ['tv_mode_' + m for m in 'gcm0 gcm1 ccm0 ccm1 ccm2 eax0 eax1 eax2'.split()]
CIPHER_NOTE = 'block cipher initialisation, encryption and decryption are replaced by an uninterpreted keyed permutation'


@rule('C10')
def c10(ctx):
    jl = jobs(ctx, 'mode.c', ['tv_def_gcm', 'tv_def_gcmiv', 'tv_def_gcmh', 'tv_def_xts8', 'tv_def_xts16', 'tv_def_eax8', 'tv_def_eax16'],
              ['--vnbits', '--xorcap=4096'])
    jl += jobs(ctx, 'mode.c', MODES + AEADS + ['tv_def_ccm', 'tv_def_ccma', 'tv_def_ccml'], ['--vn'])
    return equational(ctx, jl, 'cipher_stream_init cipher_stream_update cipher_stream_final cipher_stream_set_aad cipher_stream_set_ccm '
                      'cipher_stream_get_tag cipher_static_encrypt cipher_static_decrypt', 'cipher modes', 300000,
                      'Every mode is interpreted over an uninterpreted block cipher with every key, nonce, associated-data and message '
                      'byte a distinct unknown: once whole, once cut at every pair of points around block boundaries, forwards and '
                      'backwards, and against the definition of the mode; every byte must be the same term and every length the '
                      'expected constant.', [CIPHER_NOTE])


@rule('C11')
def c11(ctx):
    jl = jobs(ctx, 'mode.c', AEADS + ['tv_pkcs7_cbc16', 'tv_pkcs7_cbc8', 'tv_pkcs7_ecb16', 'tv_mode_refuse', 'tv_mode_nopad', 'tv_mode_cts16',
                                      'tv_mode_xts16', 'tv_mode_xts8', 'tv_mode_raw16'], ['--vn'])
    return equational(ctx, jl, 'cipher_stream_final cipher_stream_set_tag memequal', 'cipher verdicts', 10000,
                      'For every class of tags that differ at one position (arbitrary elsewhere), of last plaintext blocks by padding '
                      'length and first wrong padding byte, and of permitted lengths, the verdict must be the expected constant.',
                      [CIPHER_NOTE])


FIELDS = 'p192 p224 p256 p384 p521 secp256k1 p25519 p448 p251'.split()
SCALARS = 'q192 q224 q256 q384 q521 secq256k1 q25519 q448 q251'.split()
MPN = ['linear_%d' % n for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 14, 17, 20)]
MPN += ['product_' + n for n in '1_1 2_2 3_2 3_3 4_4 6_6 7_7 8_8 9_9 10_7 10_4 20_12'.split()]
MPN += ['square_%d' % n for n in (1, 2, 3, 4, 6, 7, 8, 9, 12, 17)]
POLY_NOTE = ('Words are integer polynomials over the input words with exact bounds; shifts and masks introduce named quotients. '
             'Inline assembly is not analysed: the portable C of the 64-bit and of the 32-bit back end is.')


@rule('C12')
def c12(ctx):
    jl = jobs(ctx, 'field.c', ['tv_field_%s_%s' % (f, k) for f in FIELDS for k in 'linear scale mul sqr bytes'.split()], ['--poly'], ('64', '32'))
    return equational(ctx, jl, '', 'field arithmetic', 600,
                      'Each field operation is interpreted with every input word an unknown within the bounds of the '
                      'representation; the value of the result minus the expected polynomial must vanish modulo the prime '
                      'and every result word must stay within its bounds; encodings must be the number itself, below the prime.',
                      [POLY_NOTE])


@rule('C13')
def c13(ctx):
    jl = jobs(ctx, 'scalar.c', ['tv_scalar_%s_%s' % (f, k) for f in SCALARS for k in 'sums negs muls word mont wide bytes'.split()], ['--poly'], ('64', '32'))
    jl += jobs(ctx, 'mpn.c', ['tv_mpn_' + e for e in MPN], ['--poly'], ('64', '32'))
    return equational(ctx, jl, '_mpn_add_n _mpn_sub_n _mpn_mul_1 _mpn_addmul_1 _mpn_mul _mpn_sqr _mpn_reduce', 'scalar arithmetic', 900,
                      'The word loops are interpreted with every input word an unknown, for every size the curves use: the '
                      'result and its carry must be the exact polynomial. With those as given, scalar sums, products and '
                      'reductions must be congruent to the expected polynomial modulo the group order and below it.',
                      [POLY_NOTE])


WEI = 'p192 p224 p256 p384 p521 secp256k1'.split()
EDW = 'ed25519 ed448 ed1174'.split()
CURVES = WEI + ['x25519', 'x448'] + EDW


@rule('C14')
def c14(ctx):
    iv = ['--unk=10', '--partition']
    jl = jobs(ctx, 'rej.c', ['tv_rej_' + c for c in CURVES], iv, ('32', '64'))
    jl += jobs(ctx, 'val.c', ['tv_val_' + c for c in CURVES] + ['tv_vals_' + c for c in EDW], iv, ('32', '64'))
    jl += jobs(ctx, 'val.c', ['tv_zero_' + c for c in CURVES], ['--vnbits'], ('32', '64'))
    return equational(ctx, jl, 'ecdsa_verify ecdsa_recover ecdsa_sign ecdsa_derive bip340_verify bip340_verify_batch '
                      'bipschnorr_verify bipschnorr_verify_batch eddsa_verify eddsa_verify_batch ristretto_derive', 'range checks', 90000,
                      'Every byte string is in exactly one class: equal to the bound, or equal up to some byte and then smaller '
                      '(larger) and arbitrary beyond. Each operation is interpreted once per class, and must accept '
                      'or refuse the whole class; arithmetic that does not decide the verdict may yield anything.')


@rule('C15')
def c15(ctx):
    jl = jobs(ctx, 'der.c', ['tv_der_' + c for c in WEI], ['--vn', '--unk=10', '--partition'], ('64', '32'))
    return equational(ctx, jl, 'ecdsa_sig_import ecdsa_sig_import_lax ecdsa_sig_export', 'DER signatures', 500000,
                      'The encoder and both decoders are interpreted for every length and leading bit of the two numbers, with '
                      'every byte a distinct unknown: the encoding must be the defined one byte for byte and decode to the same '
                      'bytes; each way of deviating from the form is a class that the strict decoder must refuse.')


ALG_NOTE = ('Scalar and field arithmetic, square roots and point multiplication are replaced by exact operations in an ideal algebra; '
            'parities, squareness and orderings of unknown values are enumerated, as are the rare coincidences.')


@rule('C16')
def c16(ctx):
    jl = jobs(ctx, 'proto.c', ['tv_%s_%s' % (k, c) for c in reversed(WEI) for k in 'sign verify recover keys'.split()], ['--vn', '--oob'])
    jl += jobs(ctx, 'proto.c', ['tv_digest_' + c for c in WEI], ['--vnbits', '--oob'])
    return equational(ctx, jl, 'ecdsa_sign ecdsa_verify ecdsa_recover ecdsa_pubkey_create ecdsa_pubkey_convert ecdsa_pubkey_import '
                      'ecdsa_pubkey_export ecdsa_pubkey_tweak_add ecdsa_pubkey_tweak_mul ecdsa_pubkey_add ecdsa_pubkey_combine '
                      'ecdsa_pubkey_negate ecdsa_privkey_tweak_add ecdsa_privkey_tweak_mul ecdsa_derive ecdsa_sig_normalize',
                      'ECDSA equations', 200000,
                      'Each operation is interpreted over unknown keys, messages and signatures with field elements and scalars as '
                      'polynomials; every output must have the normal form of the defining equation, and the verdict must be the '
                      'expected constant in every enumerated relation between the values.', [ALG_NOTE], ('OOB',))


@rule('C17')
def c17(ctx):
    jl = jobs(ctx, 'proto.c', ['tv_%s_%s' % (k, c) for k in 'schnorr_batch bip340_batch schnorr bip340'.split() for c in ('p256', 'secp256k1')], ['--vn', '--oob'])
    return equational(ctx, jl, 'bipschnorr_sign bipschnorr_verify bipschnorr_verify_batch bip340_sign bip340_verify bip340_verify_batch '
                      'bip340_privkey_tweak_add bip340_pubkey_tweak_add bip340_pubkey_tweak_add_check bip340_pubkey_tweak_mul_check '
                      'bip340_pubkey_combine bip340_pubkey_add bip340_derive', 'Schnorr equations', 200000,
                      'As for ECDSA; hashes are compared as terms. A batch is interpreted on unknown signatures: the linear combination '
                      'it tests must be the weighted sum of the verification equations, and the weights must be terms containing every '
                      'byte of the batch.', [ALG_NOTE], ('OOB',))


EDW = ('ed25519', 'ed448', 'ed1174')


@rule('C18')
def c18(ctx):
    jl = jobs(ctx, 'eddsa.c', ['tv_ed%s_%s' % (k, c) for k in 'batch verify sign keys'.split() for c in reversed(EDW)], ['--vn', '--oob'])
    return equational(ctx, jl, 'eddsa_sign eddsa_sign_with_scalar eddsa_sign_tweak_add eddsa_sign_tweak_mul eddsa_verify eddsa_verify_single '
                      'eddsa_verify_batch eddsa_pubkey_create eddsa_pubkey_import eddsa_pubkey_export eddsa_pubkey_add eddsa_pubkey_combine '
                      'eddsa_pubkey_tweak_add eddsa_pubkey_tweak_mul eddsa_pubkey_is_small eddsa_pubkey_has_torsion eddsa_derive',
                      'EdDSA equations', 200000,
                      'As for ECDSA; points are combinations of named points of prime order (coefficients modulo the order) and of small order '
                      '(coefficients modulo the cofactor), so the exact and the cofactored equation are told apart.', [ALG_NOTE], ('OOB',))


@rule('C19')
def c19(ctx):
    jl = jobs(ctx, 'eddsa.c', ['tv_ristretto_' + c for c in EDW] + ['tv_agree_x25519', 'tv_agree_x448'], ['--vn', '--oob'])
    return equational(ctx, jl, 'ristretto_pubkey_create ristretto_pubkey_tweak_add ristretto_pubkey_tweak_mul ristretto_pubkey_add ristretto_pubkey_combine '
                      'ristretto_pubkey_grind ristretto_privkey_tweak_add ristretto_privkey_tweak_mul ristretto_derive ecdh_pubkey_create ecdh_derive '
                      'ecdh_pubkey_is_small ecdh_pubkey_has_torsion', 'Ristretto keys and key agreement', 20000,
                      'As for EdDSA; Ristretto elements are encoded and decoded as a whole, Montgomery points are combinations up to sign.',
                      [ALG_NOTE], ('OOB',))
