"""Harness runs per property. h: harness file, entry, args, tags: situations that
must be reached (guards against vacuity), mt: time limit (s), tier: quick (both
tiers), thorough, quick-only; b: bounds; cs: conditional sums in normal form."""
def run(h, entry, *args, tags=(), mt=300, tier='quick', b='', known=None, **kw):
    d = dict(h=h, entry=entry, args=list(args), tags=list(tags), mt=mt, tier=tier, b=b, **kw)
    if known: d['known'] = known
    return d
SPECS = {}
P = 'dpf_point'
TYPES = ['u8', 'u16', 'u32', 'u64', 'u128', 'xor', 'xor8', 'mod', 'mod64', 'tup', 'tup3', 'tupmod']
BIG = {'u128', 'tup3'}
AT = ['at', 'off']
AES = 'AES is an uninterpreted function (any function; only the identities of the key schedule and of equal inputs are used)'
c01 = [run(P, 'dpf_point_' + t, 3, 0, tags=AT, cs=0, b='log domain 3, all alpha and x, symbolic beta and seeds') for t in TYPES]
c01 += [run(P, 'dpf_point_' + t, n, 0, tags=AT if n else ['at'], cs=0, b='log domain %d, all alpha and x, symbolic beta and seeds' % n) for n in (0, 1, 2) for t in ('u8', 'u32', 'u64', 'xor', 'mod', 'tup')]
c01 += [run(P, 'dpf_point_' + t, 5, 0, tags=AT, cs=0, b='log domain 5, all alpha and x') for t in ('u8', 'xor8')]
c01 += [run(P, 'dpf_point_' + t, 12, 2, tags=AT, cs=0, b='log domain 12, sparse alpha/x patterns, symbolic seeds') for t in ('u64', 'u8')]
c01 += [run(P, 'dpf_point_' + t, n, 3, tags=AT, cs=0, b='log domain %d, deep alpha/x patterns, one fixed seed, symbolic beta' % n) for t, n in (('u64', 64), ('u32', 40), ('u8', 40), ('tup', 40), ('mod', 40))]
c01 += [run(P, 'dpf_point_' + t, n, 4, tags=AT, cs=0, b='log domain %d, sparse alpha/x patterns, one fixed seed, symbolic beta' % n) for t, n in (('u64', 128), ('u128', 128), ('xor8', 128), ('u64', 127), ('u8', 65))]
c01 += [run(P, 'dpf_point_' + t, 4, 0, tags=AT, cs=0, tier='thorough', mt=1500, b='log domain 4, all alpha and x, symbolic beta and seeds') for t in TYPES]
c01 += [run(P, 'dpf_point_' + t, 6, 0, tags=AT, cs=0, tier='thorough', mt=1500, b='log domain 6, all alpha and x') for t in ('u8', 'u64', 'xor8')]
c01 += [run(P, 'dpf_point_' + t, 128, 3, tags=AT, cs=0, tier='thorough', mt=1500, b='log domain 128, deep alpha/x patterns, one fixed seed') for t in ('u64', 'u128', 'xor', 'tup')]
c01 += [run(P, 'dpf_point_mod5', n, 0, tags=AT if n else ['at'], cs=0, b='log domain %d, all alpha and x, symbolic beta and seeds' % n) for n in (0, 1, 2, 3)]
c01 += [run(P, 'dpf_point_' + t, 0, 0, tags=['at'], cs=0, b='log domain 0, symbolic beta and seeds') for t in ('tup8', 'tup17', 'tupq')]
c01 += [run(P, 'dpf_point_' + t, n, 4, tags=AT, cs=0, b='log domain %d, values of 4 to 9 AES blocks, one fixed seed, symbolic beta' % n) for t, n in (('tup8', 40), ('tup17', 20), ('tupq', 30), ('mod5', 20))]
SPECS['C01'] = dict(runs=c01, bounds='log domain 0..3 (all output types) and 5: every alpha and every x, beta and both seeds symbolic; log domain 12: symbolic seeds, sparse positions; log domains 40, 64, 65, 127, 128: one concrete seed, listed alpha/x patterns, beta symbolic. ' + AES,
    outside='IntModN with a 128-bit base; log domains above 12 with symbolic seeds; the HWY_SCALAR and non-AVX2 vector paths')
D = 'dpf_incr'
def cfgs(entry, cs_, *a, **k): return [run(D, entry, c, *a, **k) for c in cs_]
c02 = []
for how in (0, 1, 2, 3):
    for c in (0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11):
        slow = (c, how) in ((2, 2), (10, 2), (10, 3), (10, 1))
        c02.append(run(D, 'incr_correct', c, how, tags=AT, cs=0, tier='thorough' if slow else 'quick', mt=1500 if slow else 300, b='hierarchy configuration %d, evaluator %d: every alpha, level and prefix, symbolic betas and seeds' % (c, how)))
c02 += [run(D, 'incr_deep', c, h, tags=AT, cs=0, b='deep hierarchy %d (gaps of 64 levels and more), evaluator %d, 4 alphas, points around every boundary; one fixed seed, symbolic betas' % (c, h)) for c in range(6) for h in (0, 1)]
c02 += [run(D, 'incr_full', c, st, tags=['at'], cs=0, b='expansion of 2^8 to 2^11 points, full (0) or under every 1st/3rd prefix; one fixed seed, symbolic betas') for c in range(4) for st in (0, 1, 3)]
SPECS['C02'] = dict(runs=c02, bounds='log domains 70-128 with 2-4 levels (gaps up to 122) and full expansions of 2^8..2^11 points: one concrete seed, listed alphas and points, betas symbolic; otherwise: 11 hierarchy configurations (1-4 levels, log domains up to 5, integers of 8-128 bits, xor groups, integers modulo N, tuples, mixed per level), every alpha, every level; evaluators: single EvaluateAt, batches of 1..5, full EvaluateUntil, EvaluateAt with context. Betas and seeds symbolic. ' + AES,
    outside='log domains above 5 with symbolic seeds; more than 4 levels')
HT = ['until', 'at', 'complete']
c03 = [run(D, 'incr_history', c, 0, tags=HT, b='configuration %d, every history of EvaluateUntil/EvaluateNext/EvaluateAt(ctx) with skipped levels, 5 prefix choices per step' % c) for c in (0, 1, 2, 3, 4, 5, 7, 8, 9, 11)]
c03 += [run(D, 'incr_history', c, 1, tags=HT, b='configuration %d, every call sequence, 2 prefix choices per step' % c) for c in (6, 12)]
c03 += [run(D, 'incr_history', c, 0, tags=HT, tier='thorough', mt=1500, b='configuration %d, 5 prefix choices per step' % c) for c in (6, 10, 12, 13)]
c03 += [run(D, 'incr_hist_deep', c, tags=HT, b='log domains up to 128 with gaps of up to 123 levels, configuration %d, every sequence of levels and calls; one fixed seed, symbolic betas' % c) for c in range(4)]
SPECS['C03'] = dict(runs=c03, bounds='arbitrary well-formed keys (all seeds, control bits and corrections symbolic), 1-4 hierarchy levels with log domains up to 6, every sequence of the three stateful calls over increasing levels, prefix sets: all, reversed, one, first+last, duplicated/unsorted; 4 configurations with log domains up to 128 (gaps up to 123): generated keys from one seed, symbolic betas, 3 alphas. ' + AES, outside='log domains above 6 with symbolic seeds, prefix sets other than the listed patterns')
c04 = [run(D, 'apply_all', c, 3, tags=['complete'] + ([] if c in (0, 10, 11) else ['stopped']), b='configuration %d, 1..3 keys, every stop level, shifts, 4 point patterns' % c) for c in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11)]
c04 += [run(D, 'apply_all', c, 5, tags=['complete'], mt=1500, tier='thorough' if c == 9 else 'quick', b='configuration %d, 1..5 keys' % c) for c in (0, 1, 2, 3, 6, 8, 9)]
c04 += [run(D, 'batch_all', c, 9, tags=['batch', 'empty'], b='configuration %d, batches of 0..9 points at every level' % c) for c in (0, 1, 2, 3, 5, 6, 8, 9, 10, 11)]
c04 += [run(D, 'batch_all', c, 5, tags=['batch', 'empty'], b='configuration %d, batches of 0..5 points at every level' % c) for c in (4, 7)]
c04 += [run(D, 'apply_range', c, tags=['refused'], b='configuration %d, every point outside the domain' % c) for c in (0, 1, 3, 5, 8, 9)]
SPECS['C04'] = dict(runs=c04, bounds='arbitrary well-formed keys (all material symbolic), 12 parameter configurations with log domains 0..128, 1..5 keys by value and by pointer, right shifts 0..2, every early stop; batches of 0..9 points with and without context, and the context again at every earlier level. ' + AES, outside='more than 5 keys / 9 points per call')
S = 'seeds'
def EV(*a, **k): return run(S, 'eval_seeds', *a, tags=['evaluated'], cs=0, **k)
PL = {0: 'aligned', 1: 'in place', 2: 'seeds unaligned', 3: 'paths unaligned', 4: 'output unaligned'}
c05 = []
for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 17, 33):
    for i, lv in enumerate(range(0, 6)):
        for per in (0, 1):
            if n > 9 and (lv > 3 or per != n % 2): continue
            rs = (0, 2, 3, 126, 123, 59)[(i + n) % 6]
            c05.append(EV(0, n, lv, per, rs, (n + lv) % 2, 1, b='vector path, %d seeds, %d levels' % (n, lv)))
c05 += [EV(*a, b='vector path, all path bits, unaligned / in-place buffers') for a in ((0, 2, 2, 1, 0, 0, 0), (0, 3, 2, 0, 127, 2, 1), (0, 3, 2, 0, 5, 3, 1), (0, 3, 2, 1, 5, 4, 1))]
c05 += [EV(*a, b='portable path') for a in ((1, 5, 1, 0, 5, 0, 1), (1, 5, 1, 1, 5, 0, 1), (1, 1, 5, 0, 3, 0, 1), (1, 1, 5, 0, 123, 1, 1), (1, 2, 3, 1, 1, 1, 1), (1, 3, 2, 1, 5, 4, 1), (1, 1, 2, 0, 0, 0, 0), (1, 3, 0, 0, 0, 1, 1))]
c05 += [EV(*a, b='long batches (blocks of 64 and tails)') for a in ((1, 65, 1, 0, 3, 0, 2), (1, 66, 1, 1, 3, 0, 2), (1, 66, 2, 0, 3, 0, 2), (1, 66, 2, 1, 3, 1, 2), (1, 130, 2, 1, 3, 1, 2), (0, 130, 2, 1, 3, 2, 2), (0, 68, 2, 1, 3, 3, 2), (0, 130, 2, 1, 3, 0, 2))]
c05 += [run(S, 'eval_seeds_bad', 0, 4, 3, tags=['refused'], b='mismatched sizes')]
SPECS['C05'] = dict(runs=c05, bounds='every seed, control bit and correction word symbolic; 1..33 seeds with 0..5 levels under sixteen path patterns, all path bits enumerated for 2x2; batches of 65..130 seeds with three symbolic elements; right shifts 0..127; shared and per-seed correction words; aligned, unaligned and in-place buffers. The AES-NI instructions and the EVP calls are the same uninterpreted function. ' + AES,
    outside='more than 5 levels per call, batches above 130, the HWY_SCALAR and non-AVX2 vector targets')
H = 'seeds'
c13 = [run(H, 'fixed_hash', n, m, tags=['hashed'], b='%d blocks, %s' % (n, ('separate buffers', 'in place', 'moved object', 'called twice', 'split calls')[m])) for n in (0, 1, 2, 5, 7, 8, 9, 63, 64, 65, 127, 128, 129, 130) for m in range(5)]
c13 += [run(H, 'fixed_hash_sizes', 6, tags=['refused'], b='all input/output size pairs up to 6')]
SPECS['C13'] = dict(runs=c13, bounds='every key and block value symbolic, batches of 0..130 blocks, in place, moved, repeated and split calls; ' + AES, outside='batches above 130 blocks; AES itself')
G = 'groups'
GT = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 22, 23, 25, 26, 27, 28, 29]
c06 = [run(G, 'group_laws', t, tags=['laws'], b='type %d: all values' % t) for t in (0, 4, 5, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20, 22, 23, 25, 26, 27, 28, 29)]
c06 += [run(G, 'mod_reduce', w, tags=['reduced'], b='modulus %d: all integers' % w) for w in range(6)]
SPECS['C06'] = dict(runs=c06, bounds='no bound on values: all operands of 20 types (integers modulo N with 8..64-bit bases, xor wrappers, flat and nested tuples)', outside='integers modulo N with a 128-bit base (associativity is beyond the solver)')
c07 = [run(G, 'value_roundtrip', t, tags=['roundtrip'], b='type %d, every value' % t) for t in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 22, 23, 25, 26, 27, 28, 29)]
c07 += [run(G, 'value_decode', t, tags=['accepted', 'refused'], b='type %d, every well-formed or malformed message' % t) for t in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 14, 15, 18)]
c07 += [run(G, 'value_decode', t, tags=['refused'], b='tuple type %d, every non-tuple message' % t) for t in (20, 25)]
c07 += [run(G, e, tags=['accepted', 'refused'], b='tuple / repeated messages') for e in ('tuple_decode', 'values_array')]
SPECS['C07'] = dict(runs=c07, bounds='every value of 27 types; every value message of every kind (unset, integer narrow/wide, xor, modulo N, tuples of 0..4 elements) against 18 types', outside='messages nested deeper than 2')
c08 = [run(G, 'bytes_to_values', t, x, tags=['converted'], b='type %d, every byte string' % t) for t in [0, 4, 5, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 22, 23, 25, 26, 27, 28, 29] + list(range(30, 41)) for x in (0, 1)]
c08 += [run(G, 'sample_mod', w, n, sl, tags=['refused' if sl < 0 else 'sampled'], b='sampling %d elements' % n) for w in range(4) for n in (1, 2, 3) for sl in (0, 5, -1)]
c08 += [run(G, 'security_levels', f, tags=['accepted', 'refused'], b=('sampler', 'flat tuples', 'nested tuples')[f]) for f in range(3)]
c08 += [run(G, 'type_equality', tags=['compared', 'unset'], b='all pairs of types')]
SPECS['C08'] = dict(runs=c08, bounds='every byte string for 32 types (nested tuples included), exact and larger reservations; 1..3 sampled elements; security levels at and beside the limit for moduli of 1..128 bits, up to 1000 elements, flat and nested tuples', outside='the statistical distance itself (its published formula is the reference); types beyond those listed')
VA = 'valid'
AR = ['accepted', 'refused']
c09 = [run(VA, 'params_accept', n, dp, tags=AR if n else ['refused'], b='%d levels, every log domain size, bit size and modulus' % n) for n, dp in ((0, 0), (1, 1), (2, 0), (3, 0), (4, 0))]
c09 += [run(VA, 'params_accept', 1, 2, tags=AR, tier='thorough', mt=1500, b='one level, types nested twice'), run(VA, 'params_accept', 3, 1, tags=AR, tier='thorough', mt=1500, b='3 levels')]
c09 += [run(VA, 'params_map', n, t, tags=AR, b='%d levels, 20 log domain sizes, %d types' % (n, t)) for n, t in ((1, 9), (2, 5))]
c09 += [run(VA, 'params_map', 3, 1, tags=AR, b='3 levels'), run(VA, 'params_map', 2, 9, tags=AR, tier='thorough', mt=1500, b='2 levels, 9 types')]
c09 += [run(VA, 'key_valid', c, tags=AR, tier='thorough' if c in (2,) else 'quick', b='configuration %d: all structures of a key' % c) for c in range(10)]
c09 += [run(VA, 'ctx_valid', c, tags=AR, b='configuration %d: all single changes of a context, every previous and partial level' % c) for c in range(11)]
c09 += [run(VA, 'types_equal', c, tags=['same', 'different', 'error'], b='comparison of value types, one change anywhere') for c in range(6)]
c09 += [run(VA, 'gen_valid', c, 0, tags=['generated', 'refused'], b='configuration %d: every alpha, count of values' % c) for c in range(10)]
c09 += [run(VA, 'gen_valid', c, 1, tags=['generated', 'refused'], b='configuration %d: every value message at one level' % c) for c in range(10)]
SPECS['C09'] = dict(runs=c09, bounds='0..4 levels with every 32-bit log domain size, bit size, modulus (ValidateParameters); hierarchy mapping for 20 log domain sizes x 9 types on 1..3 levels; for 10 configurations every key structure (seed, correction words, value corrections present or missing), every previous/partial level and single change of a context, every alpha and value message',
    outside='more than 4 levels; several simultaneous changes of a context; security parameters other than 13 listed values; a modulus of zero')
ER = ['error', 'result']
c10 = [run(VA, 'mal_key', c, 1, h, tags=['error'] if (h == 3 and c in (2, 4, 5, 6, 8)) else ER, b='configuration %d, one arbitrary defect in the key, evaluator %d' % (c, h)) for c in range(10) for h in range(4)]
c10 += [run(VA, 'mal_key', c, 2, h, tags=ER, b='configuration %d, two arbitrary defects' % c) for c in (0, 3) for h in (0, 1, 2)]
c10 += [run(VA, 'mal_key', c, 2, h, tags=['error'] if (h == 3 and c in (4, 6, 8)) else ER, tier='thorough', mt=1500, b='configuration %d, two arbitrary defects' % c) for c in (0, 1, 3, 4, 6, 8) for h in range(4) if not (c in (0, 3) and h < 3)]
c10 += [run(VA, 'mal_ctx', c, h, 1, tags=ER, b='configuration %d, arbitrary context with up to 1 partial evaluation, call %d' % (c, h)) for c in (0, 1, 2, 5, 6) for h in range(3)]
c10 += [run(VA, 'mal_ctx', 1, h, 2, tags=ER, tier='quick' if h == 0 else 'thorough', mt=300 if h == 0 else 1500, b='arbitrary context with up to 2 partial evaluations') for h in (0, 1)]
c10 += [run(VA, 'too_large', t, f, tags=['error'], b='outputs of 2^63 values and more, %s' % ('first call', 'later call')[f]) for t in range(3) for f in (0, 1)]
SPECS['C10'] = dict(runs=c10, bounds='10 parameter configurations; keys with one (for some configurations two) arbitrary defects: missing seed, any party number, wrong counts of correction words and value corrections, value messages of any kind and size; contexts with any previous and partial level, up to 2 partial evaluations with any prefix, missing or changed parameters, missing key; points anywhere in 0..2^128-1; four evaluators; outputs of 2^63 values and more. Every memory access, CHECK and undefined operation on every path is checked',
    outside='three or more simultaneous defects; memory exhaustion by legitimately huge outputs')
DC = 'dcf'
BA = ['below', 'above']
BIGT = (4, 5, 10)
c11 = [run(DC, 'dcf_point', t, 2 if t in (4, 10) else 3, 0, tags=BA, cs=0, b='type %d, every alpha and x, symbolic beta and seeds' % t) for t in range(13)]
c11 += [run(DC, 'dcf_point', t, 1, 0, tags=BA, cs=0, b='type %d, log domain 1' % t) for t in range(13)]
c11 += [run(DC, 'dcf_point', 4, 3, 0, tags=BA, cs=0, b='128-bit integers, log domain 3'), run(DC, 'dcf_point', 10, 3, 0, tags=BA, cs=0, tier='thorough', mt=1500, b='type 10, log domain 3')]
c11 += [run(DC, 'dcf_point', t, 20, 2, tags=BA, cs=0, b='log domain 20, patterns, one fixed seed, symbolic beta') for t in (3, 6, 9)]
c11 += [run(DC, 'dcf_point', 4, 64, 3, tags=BA, cs=0, b='log domain 64, sparse patterns, one fixed seed, symbolic beta')]
c11 += [run(DC, 'dcf_point', t, n, 3, tags=BA, cs=0, b='log domain %d, sparse patterns, one fixed seed' % n) for t, n in ((3, 128), (6, 127), (9, 70), (0, 66))]
c11 += [run(DC, 'dcf_point', t, 4, 0, tags=BA, cs=0, tier='thorough', mt=1500, b='type %d, log domain 4, every alpha and x' % t) for t in (0, 3, 7, 12)]
c11 += [run(DC, 'dcf_batch', t, n, m, tags=['batch', 'empty'], cs=0, b='batches of 0..%d keys and points' % m) for t, n, m in ((3, 3, 3), (6, 4, 3), (0, 2, 4))]
c11 += [run(DC, 'dcf_refuse', n, tags=['alpha', 'beta', 'x'], cs=0, b='log domain %d: every alpha, x and beta outside the domain' % n) for n in (1, 3, 8)]
c11 += [run(DC, 'dcf_params', 0, tags=AR, cs=0, b='every log domain size, missing and invalid value types')]
SPECS['C11'] = dict(runs=c11, bounds='13 output types; log domains 1..3 with every alpha and x, beta and both seeds symbolic; log domains 20, 64 (thorough 127, 128): one concrete seed, listed alpha/x patterns, beta symbolic; batches of 0..4 keys. ' + AES, outside='log domains above 4 with symbolic seeds and every alpha/x')
IO = ['inside', 'outside']
c12 = [run(DC, 'mic_small', n, w, sd, tags=IO, cs=0, b='log group size %d, %s interval bounds, %s seeds' % (n, ('128-bit', '64-bit')[w], ('symbolic', 'fixed')[sd])) for n, w, sd in ((1, 0, 0), (1, 1, 0), (2, 0, 1), (2, 1, 1), (3, 1, 1))]
c12 += [run(DC, 'mic_small', n, w, sd, tags=IO, cs=0, tier='thorough', mt=1500, b='log group size %d' % n) for n, w, sd in ((2, 0, 0), (2, 1, 0), (3, 0, 1))]
c12 += [run(DC, 'mic_big', n, k, tags=IO, cs=0, mt=600, b='log group size %d, fixed seeds, intervals and masks at the extremes' % n) for n, k in ((8, 0), (16, 2), (64, 2))]
c12 += [run(DC, 'mic_big', n, k, tags=IO, cs=0, tier='thorough', mt=1500, b='log group size %d, fixed seeds' % n) for n, k in ((64, 1), (64, 0), (32, 2), (127, 0), (127, 2))]
c12 += [run(DC, 'mic_params', n, tags=AR, cs=0, b='%d intervals: every group size and bounds' % n) for n in (1, 2)]
c12 += [run(DC, 'mic_refuse', 3, tags=['masks', 'error', 'result'], cs=0, b='masks and inputs outside the group, malformed keys'), run(DC, 'mic_no_intervals', 4, tags=['none'], cs=0, b='no intervals')]
SPECS['C12'] = dict(runs=c12, bounds='log group sizes 1..3: every interval, input, input mask and output mask (128-bit symbolic output masks), seeds symbolic for size 1 (thorough: 2) and concrete above; sizes 8, 16, 64 (thorough 32, 127): one concrete seed, extreme intervals and positions. ' + AES, outside='log group sizes above 3 with all positions')
c10 += [run(DC, 'mic_refuse', 3, tags=['masks', 'error', 'result'], cs=0, b='malformed interval containment keys')]
PR = 'prng'
c14 = [run(PR, 'prng_stream', *a, tags=['stream'], b='%s, %d requests of %d lengths between 0 and 100' % (('seed', 'seed and nonce')[a[0]], a[1], a[2])) for a in ((0, 3, 10), (1, 3, 10), (1, 4, 6), (0, 5, 5))]
c14 += [run(PR, 'prng_long', *a, tags=['long'], b='two generators, %d bytes' % a[0]) for a in ((300, 37), (1030, 1015), (4100, 4090))]
c14 += [run(PR, 'prng_sizes', 34, tags=AR, b='all seed and nonce sizes up to 34'), run(PR, 'prng_seed', 4, tags=['failure', 'seed'], b='4 draws, a failure at any'), run(PR, 'basic_rng', 5, tags=['failure', 'drawn'], b='5 draws of any width, a failure at any')]
SPECS['C14'] = dict(runs=c14, bounds='every seed and nonce; up to 5 requests of 0..100 bytes in every order, split streams up to 4100 bytes; seed and nonce sizes 0..34; a failing random source at any of 5 draws. ' + AES + '; the counter step of AES_ctr128_encrypt is uninterpreted for symbolic blocks', outside='streams longer than 4100 bytes')
DB = 'pirdb'
c15 = [run(DB, 'product_all', *a, tags=['product'], b='every selection of %d records by %d queries' % (a[1], a[2])) for a in ((0, 4, 2, 16, 0), (0, 4, 2, 30, 16), (0, 5, 1, 3, 1), (0, 4, 2, 33, 32), (0, 8, 1, 2, 48), (1, 4, 2, 20, 0), (1, 5, 1, 7, 3), (0, 3, 3, 64, 0), (1, 3, 3, 30, 16))]
c15 += [run(DB, 'product_sizes', i, a, b, tags=['product'], b='every record length %d..%d at 7 alignments' % (a, b - 1)) for i in (0, 1) for a, b in ((0, 36), (36, 70), (125, 132))]
c15 += [run(DB, 'product_many', *a, tags=['product'], b='%d records, six selection patterns' % a[1]) for a in ((0, 128, 3, 1), (0, 129, 17, 2), (0, 300, 2, 2), (1, 129, 5, 2), (0, 64, 33, 3), (0, 127, 16, 4), (1, 257, 16, 1))]
c15 += [run(DB, 'product_refuse', n, tags=['accepted', 'refused', 'none'] if n else ['refused', 'none'], b='%d records: selection sizes, maximum sizes' % n) for n in (0, 1, 127, 128, 129)]
SPECS['C15'] = dict(runs=c15, bounds='every record content; every selection of up to 8 records by 1..3 queries, six selection patterns for 64..300 records; record lengths 0..70 and 125..131 at 7 alignments; selection bits beyond the records arbitrary; portable and AVX2 paths; every access checked', outside='more than 300 records; the HWY_SCALAR and non-AVX2 vector targets')
c16 = [run(DB, 'dense_build', *a, tags=['product', 'cleared'], b='%d inserts of %d record sizes, clone at any moment' % a[:2]) for a in ((0, 1, 1), (1, 8, 2), (2, 8, 2), (3, 4, 2), (4, 3, 1))]
c16 += [run(DB, 'dense_clear', n, tags=['product'], b='%d inserts, Clear at any moment' % n) for n in (3, 4)]
c16 += [run(DB, 'dense_many', *a, tags=['product'], b='%d records' % a[0]) for a in ((127, 1), (128, 1), (130, 2), (257, 1))]
c16 += [run(DB, 'dense_build', *a, tags=['product', 'cleared'], tier='thorough', mt=1500, b='%d inserts of %d record sizes' % a[:2]) for a in ((3, 8, 2), (5, 3, 2))]
SPECS['C16'] = dict(runs=c16, bounds='every record content; every sequence of 0..4 inserts from 8 record sizes with a clone or Clear at any moment; 127..257 records of three size patterns; six selection patterns, bits beyond the database arbitrary', outside='more than 257 records, records above 64 bytes')
HA = 'hashing'
c18 = []
for a in ((3, 3, 2, 2, 2, -1), (3, 3, 2, 2, 2, 0), (3, 3, 2, 2, 3, 1), (3, 2, 2, 2, 1, -1), (4, 2, 3, 2, 2, 1), (2, 2, 3, 3, 2, 0), (3, 3, 2, 2, 0, 2)):
    c18.append(run(HA, 'cuckoo', *a, tags=['inserted'] + (['refused'] if a[5] >= 0 and a != (2, 2, 3, 3, 2, 0) and a != (3, 3, 2, 2, 0, 2) and a != (4, 2, 3, 2, 2, 1) else []), b='cuckoo table, %d insertions of %d elements, %d buckets, %d functions, relocation limit %d, stash limit %d' % a))
c18 += [run(HA, 'cuckoo', *a, tags=['inserted'], tier='thorough', mt=1500, b='cuckoo table, %d insertions of %d elements, %d buckets, %d functions' % a[:4]) for a in ((3, 3, 3, 2, 2, 0), (4, 3, 2, 2, 3, 1), (4, 4, 2, 2, 2, -1))]
for a in ((0, 3, 2, 3, 2, 2), (1, 3, 3, 2, 2, 2), (1, 4, 3, 2, 2, 1), (0, 4, 3, 2, 1, 2), (0, 3, 2, 2, 3, -1), (1, 4, 2, 3, 3, 2), (0, 3, 3, 2, 2, 3)):
    c18.append(run(HA, 'bucket_tables', *a, tags=['inserted'] + ([] if a[5] < 0 else ['refused']), b='%s table, %d insertions of %d elements, %d buckets, %d functions, bucket limit %d' % ((('simple', 'multiple choice')[a[0]],) + a[1:])))
c18 += [run(HA, 'table_params', k, tags=AR, b='every relocation, stash and bucket limit') for k in (0, 1, 2)]
SPECS['C18'] = dict(runs=c18, bounds='hash functions with arbitrary outcomes (every assignment of 2..3 elements to 2..3 buckets by 1..3 functions), every insertion sequence of up to 4 elements with repetitions, every random relocation choice, relocation limits 0..3, stash limits none/0/1/2, bucket limits none/1/2/3; every 32-bit limit for the parameter checks', outside='more than 4 insertions or 3 buckets')
c19 = [run(HA, 'sha_hash', 0, tags=['hashed'], b='16 bounds, seeds and inputs of 0..33 bytes'), run(HA, 'sha_hash', 1, tags=['hashed'], tier='thorough', mt=1500, b='every bound'),
       run(HA, 'farm_hash', 0, tags=['hashed'], b='16 bounds'), run(HA, 'farm_hash', 1, tags=['hashed'], b='every bound'),
       run(HA, 'family', 13, tags=['family'], b='0..12 functions of a configured family'), run(HA, 'family_config', 3, tags=AR, b='every hash family number, number of functions and seed')]
SPECS['C19'] = dict(runs=c19, bounds='every seed and input of 0, 1, 7, 16, 33 bytes with 16 upper bounds (farm hash, thorough: SHA256, every 31-bit bound); families of 0..12 functions; SHA-256 and FarmHash are uninterpreted functions of their input bytes', outside='inputs longer than 33 bytes; SHA-256 and FarmHash themselves')
HD = 'hashdb'
c17 = [run(HD, 'cuckoo_db', *a, tags=['stored'] + (['refused'] if a[0] > 1 else []), b='%d records, %d buckets, %d functions, every outcome of the hash functions' % a) for a in ((1, 1, 2), (2, 2, 2), (2, 3, 2), (3, 3, 2))]
c17 += [run(HD, 'cuckoo_db', *a, tags=['stored'], b='%d records, %d buckets, %d functions, 4 hash assignments' % a) for a in ((3, 130, 2), (4, 257, 3))]
c17 += [run(HD, 'cuckoo_db', *a, tags=['stored'], tier='thorough', mt=1500, b='%d records, %d buckets, %d functions' % a) for a in ((2, 4, 3), (3, 4, 2))]
c17 += [run(HD, 'simple_db', *a, tags=['stored'], b='simple hashing, %d records, %d buckets' % a) for a in ((1, 1), (2, 2), (3, 3), (3, 2), (4, 2), (4, 130))]
c17 += [run(HD, 'simple_db', *a, tags=['stored'], tier='thorough', mt=1500, b='simple hashing, %d records, %d buckets' % a) for a in ((4, 4), (5, 3))]
c17 += [run(HD, 'db_history', *a, tags=['history'] + (['stored'] if a[0] == 0 else []), b='Clear, Clone and second Build at any moment, %d inserts, %d buckets' % a[1:]) for a in ((0, 2, 4), (0, 3, 6), (0, 2, 16), (1, 2, 3), (1, 3, 2))]
c17 += [run(HD, 'db_refuse', k, tags=AR, b='every small or negative parameter, missing family, seed, key') for k in (0, 1)]
SPECS['C17'] = dict(runs=c17, bounds='every value content; 1..4 records (5 key sizes, values of 0..9 bytes); cuckoo: every assignment of records to candidate buckets and every relocation choice for up to 3 records, 3 buckets, 2 functions (thorough 4 buckets or 3 functions), fixed assignments up to 257 buckets; simple: every assignment of 4 records to 2 buckets, 3 to 3; Clear/Clone/Build at any moment', outside='more than 5 records; keys that differ only in trailing zero bytes')
PN = 'pirnet'
AN = ['answered']
W = ('two plain servers', 'leader and helper', 'leader and helper, late callback')
c20 = [run(PN, 'dense_e2e', n, q, f, z, w, tags=AN, b='%d records, %d queries, %s randomness, %s' % (n, q, ('symbolic', 'fixed')[f], W[w])) for n, q, f, z, w in ((1, 1, 0, 1, 1), (2, 1, 0, 0, 0), (2, 1, 0, 2, 1), (3, 1, 0, 1, 0), (3, 1, 0, 1, 1), (4, 1, 0, 1, 0), (3, 2, 1, 1, 1), (4, 3, 1, 1, 2), (8, 2, 1, 1, 0), (5, 2, 1, 2, 1), (6, 2, 1, 0, 2))]
c20 += [run(PN, 'dense_e2e', n, -q, 1, z, w, tags=AN, b='%d records, %d queries at six positions, fixed randomness, %s' % (n, q, W[w])) for n, q, z, w in ((129, 1, 2, 1), (300, 1, 0, 0), (300, 2, 2, 1), (128, 2, 2, 0), (127, 1, 1, 2), (257, 1, 2, 1))]
c20 += [run(PN, 'dense_e2e', n, q, f, z, w, tags=AN, tier='thorough', mt=1500, b='%d records, %d queries, %s randomness' % (n, q, ('symbolic', 'fixed')[f])) for n, q, f, z, w in ((2, 2, 0, 0, 0), (2, 2, 0, 1, 1), (5, 1, 0, 1, 0), (8, 3, 1, 1, 1))]
c20 += [run(PN, 'dense_refuse', n, tags=AR, b='%d records, every 32-bit index' % n) for n in (1, 3, 200)]
c20 += [run(PN, 'dense_config_refuse', n, tags=AR, b='every size, role and configuration, %d records' % n) for n in (1, 3)]
c20 += [run(PN, 'dense_malformed', 3, tags=AR, b='requests and responses of the wrong kind')]
SPECS['C20'] = dict(runs=c20, bounds='every record content; 1..4 records with symbolic key-generation randomness (one query, thorough two), up to 8 records and 3 queries and 127..300 records with one fixed randomness; record sizes 0..17 in three patterns; every 32-bit query index; every database size below 64 in the configuration. ' + AES, outside='more than 300 records; symbolic randomness with more than 4 records')
KW = 'pirkw'
PA = ['present', 'absent']
c21 = [run(KW, 'kw_cuckoo', *a, tags=PA, b='cuckoo, %d records, %d buckets, %d functions, %d queries, %s randomness' % (a[:4] + (('symbolic', 'fixed')[a[4]],))) for a in ((1, 1, 2, 1, 1), (2, 2, 2, 1, 1), (2, 3, 2, 1, 1), (1, 1, 2, 1, 0), (3, 6, 3, 2, 1), (4, 7, 2, 1, 1), (3, 130, 2, 1, 1), (1, 2, 2, 1, 0), (3, 5, 2, 1, 1))]
c21 += [run(KW, 'kw_simple', *a, tags=PA, b='simple, %d records, %d buckets, %d queries, %s randomness' % (a[:3] + (('symbolic', 'fixed')[a[3]],))) for a in ((1, 1, 1, 1), (2, 2, 1, 1), (3, 3, 1, 1), (2, 2, 2, 1), (2, 2, 1, 0), (4, 130, 1, 1), (4, 2, 1, 1))]
c21 += [run(KW, 'kw_cuckoo', *a, tags=PA, tier='thorough', mt=1500, b='cuckoo, %d records, %d buckets, %d functions, %d queries' % a[:4]) for a in ((2, 2, 2, 1, 0), (3, 3, 3, 1, 1), (2, 3, 2, 2, 1))]
c21 += [run(KW, 'kw_simple', *a, tags=PA, tier='thorough', mt=1500, b='simple, %d records, %d buckets, %d queries' % a[:3]) for a in ((4, 3, 1, 1), (3, 2, 1, 0), (3, 2, 2, 1))]
c21 += [run(KW, 'kw_nul', k, w, tags=t, b='keys and queries with zero bytes') for k, w, t in ((0, 2, ['present']), (1, 0, ['absent']), (1, 1, ['absent']), (1, 2, ['present']))]
c21 += [run(KW, 'kw_nul', 0, 0, tags=['absent'], known='cuckoo-nul-query', b='a query that extends a stored key by a zero byte'), run(KW, 'kw_nul', 0, 1, tags=['absent'], known='cuckoo-nul-key', b='a stored key that extends the query by a zero byte')]
for e, tg in (('kw_server', AR), ('kw_configs', AR), ('kw_responses', AR)): c21 += [run(KW, e, k, tags=tg, b={'kw_server': 'fingerprints and malformed requests', 'kw_configs': 'every configuration, role and missing argument', 'kw_responses': 'every number of responses, wrong states'}[e] + (', cuckoo', ', simple')[k]) for k in (0, 1)]
c21 += [run(KW, 'kw_generate', 0, 6, tags=AR, b='parameters for 0..6 elements'), run(KW, 'kw_generate', 1, 6, tags=AR, b='parameters for 0..6 buckets')]
SPECS['C21'] = dict(runs=c21, bounds='every value content; 1..4 records and 4 kinds of absent query (longer, shorter, unrelated, empty); every outcome of the hash functions for up to 2 (cuckoo) or 4 (simple) records and 2..3 buckets, six fixed assignments for up to 130 buckets; symbolic key-generation randomness for 1..2 records, fixed above; seed fingerprints symbolic. ' + AES, outside='more than 4 records; keys with trailing zero bytes in cuckoo databases (known finding)')
RO = 'pirrole'
c22 = [run(RO, 'role_kinds', 3, tags=AR, b='every role and kind of request'), run(RO, 'role_null', 0, tags=['refused'], b='missing functions')]
LT = ['combined', 'helper_error', 'mismatch', 'not_called', 'own_error']
HT = ['bad_seed', 'masked', 'own_error', 'undecrypted', 'unreadable']
c22 += [run(RO, 'role_leader', n, tags=LT, b='leader: 0..%d answers of four sizes from each server, every failure' % n) for n in (1, 2)] + [run(RO, 'role_leader', 3, tags=LT, tier='thorough', mt=1500, b='leader: 0..3 answers')]
c22 += [run(RO, 'role_helper', n, tags=HT, b='helper: 0..%d answers of four sizes, every failure' % n) for n in (1, 2, 3)]
c22 += [run(RO, 'role_client', n, q, tags=['error', 'unmasked', 'empty'], b='client: %d records, %d queries, 0..2 responses of four sizes' % (n, q)) for n, q in ((2, 1), (3, 2), (300, 1))]
c22 += [run(RO, 'role_flow', q, f, tags=AN, b='the whole protocol, %d arbitrary answers of five sizes, %s randomness' % (q, ('symbolic', 'fixed')[f])) for q, f in ((1, 0), (2, 0), (2, 1), (3, 1))]
SPECS['C22'] = dict(runs=c22, bounds='every content of 0..3 answers of sizes 0, 1, 3, 17 on either side (equal or not), every combination of a failing helper, a failing leader, a callback called early, late or never, a failing or garbage decryption, pad seeds of 0, 15, 16, 17 bytes; every kind of request for every role; arbitrary seeds. ' + AES, outside='more than 3 answers; a sender that calls the callback twice')
SH = 'shape'
KT = ['keys']
c23 = [run(SH, 'shape_dpf', *a, tags=KT, b='configuration %d, %d calls, %s randomness' % (a[0], a[1], ('symbolic', 'fixed')[a[2]])) for a in ((0, 1, 0), (0, 2, 1), (1, 1, 0), (1, 2, 1), (2, 1, 0), (3, 1, 0), (4, 2, 0), (5, 1, 0), (6, 1, 0), (7, 2, 1), (8, 2, 1), (9, 2, 1), (3, 2, 1), (6, 2, 1))]
c23 += [run(SH, 'shape_dcf', *a, tags=KT, cs=0, b='comparison, type %d, log domain %d, %d calls, %s randomness' % (a[0], a[1], a[2], ('symbolic', 'fixed')[a[3]])) for a in ((0, 2, 1, 0), (0, 3, 2, 1), (1, 2, 2, 1), (1, 2, 1, 0), (2, 20, 1, 1), (2, 2, 1, 0), (3, 2, 1, 0), (3, 20, 2, 1))]
c23 += [run(SH, 'shape_mic', *a, tags=KT, b='gate, log group size %d, %d intervals, %d calls, %s randomness' % (a[0], a[1], a[2], ('symbolic', 'fixed')[a[3]])) for a in ((2, 2, 1, 0), (2, 2, 2, 1), (3, 3, 1, 1), (1, 0, 1, 0))]
c23 += [run(SH, 'shape_pir', *a, tags=['requests'], b='%s PIR, %d buckets or records, %d queries, %d calls, %s randomness' % ((('dense', 'cuckoo', 'simple')[a[0]],) + a[1:4] + (('symbolic', 'fixed')[a[4]],))) for a in ((0, 3, 1, 1, 0), (0, 2, 2, 1, 0), (0, 300, 2, 2, 1), (0, 4, 2, 2, 1), (1, 3, 2, 2, 1), (1, 200, 1, 2, 1), (2, 5, 2, 2, 1), (2, 3, 3, 2, 1))]
SPECS['C23'] = dict(runs=c23, bounds='every alpha up to log domain 4 (two patterns above, up to 128), every beta, every random draw; 10 hierarchy configurations, 4 comparison and 4 gate configurations, three PIR clients with 1..3 queries; two calls in a row; which of the two integer forms a number below 2^64 takes is not part of the shape. ' + AES, outside='indistinguishability of the key material itself (cryptographic)')
NA = {}
