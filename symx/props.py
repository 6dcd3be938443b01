"""What is run for each property."""

COMMON_ASSUMPTIONS = [
    'GMP integer functions compute their documented results (modelled as mathematical integers)',
    'malloc/new do not fail; no signals; single thread',
    'LLVM IR of clang -O1 is taken as the meaning of the source; counterexamples are replayed with g++',
]

FIELDS = ['fields/*.cpp']
ECC = ['fields/*.cpp', 'ecc/*.cpp']

PROPS = {}


def prop(pid, **kw):
    PROPS[pid] = kw


prop('F01', harness=['fields.cpp'], srcs=FIELDS,
     entries=[('%s_%s' % (f, c), {}) for f in ('f01', 'f01h') for c in ('secp_p', 'secp_n', 'bn_p', 'bn_n')],
     bounds=['operands: every residue of each of the four primes', 'integers: every k with |k| < 2^532', 'each operator also after every operator on other operands'])
prop('F02', harness=['fields.cpp'], srcs=FIELDS,
     entries=[('%s_%s' % (f, c), {}) for f in ('f02', 'f02h') for c in ('secp_p', 'secp_n', 'bn_p', 'bn_n')],
     bounds=['divisors: every non-zero residue; dividends: every residue of each of the four primes', 'also after inverting and dividing by any other value'])

CV = ('secp', 'bn')
prop('E02', harness=['ecc.cpp'], srcs=ECC,
     entries=[('%s_%s' % (f, c), {}) for f in ('e02', 'e02d', 'e02h') for c in CV],
     bounds=['every pair of points of each curve, the identity included', 'finite pairs also after all operators on related or arbitrary other points'])
prop('E03', harness=['ecc.cpp'], srcs=ECC,
     entries=[('%s_%s' % (f, c), {}) for f in ('e03', 'e03b', 'e02h') for c in CV],
     bounds=['every pair of points of each curve, the identity included', 'finite pairs also after all operators on related or arbitrary other points'])

prop('E01', harness=['ecc.cpp'], srcs=ECC,
     entries=[('%s_%s' % (f, c), {}) for f in ('e01', 'e01p', 'e01o', 'e01h') for c in CV],
     bounds=['every pair of integer coordinates with |x|,|y| < 2^304', 'also after validating a point of the same x, the same y or swapped coordinates'])
prop('E05', harness=['ecc.cpp'], srcs=ECC,
     entries=[('%s_%s' % (f, c), {}) for f in ('e05', 'e05e', 'e05h', 'e05g') for c in CV],
     bounds=['every finite point of each curve; every x-coordinate', 'also after encoding, decoding or evaluating any other point'])
from .group import NOINLINE
DME = ECC + ['dme/*.cpp']
GR = dict(srcs=DME, noinline=NOINLINE)
G0 = dict(install=['group'], misses=3)
GI = dict(install=['group'])
prop('E06', harness=['ecc.cpp', 'e06d.cpp'], **GR,
     entries=[('%s_%s' % (f, c), {}) for f in ('e06', 'e06i', 'e06c') for c in CV]
     + [('e06' + t, GI) for t in ('crs', 'pk', 'kp', 'ct', 'tm', 'td')],
     bounds=['every pair of points of each curve, the identity included; every value of every curve parameter',
             'every pair of CRSs, public keys, key pairs, ciphertexts and trapdoors'])
prop('E07', harness=['ecc.cpp', 'e07.cpp'], srcs=ECC, noinline=NOINLINE,
     entries=[('%s_%s' % (f, c), {}) for f in ('e07s',) for c in CV] + [('%s_%s' % (f, c), GI) for f in ('e07p', 'e07k', 'e07r') for c in CV],
     bounds=['every outcome of the random source'])

LENS = [[i for i in range(257) if i % 8 == j or (i == 256 and j == 4)] for j in range(8)]
LENS[0].remove(256)
prop('E04', harness=['e04.cpp'], srcs=ECC, noinline=NOINLINE, opts=dict(install=['group']),
     entries=[('e04_%s' % c, dict(group=('add', 'dbl'), split=dict(len=LENS), reachmodels=2, weight=5)) for c in CV]
     + [('e04o_%s' % c, {}) for c in CV]
     + [('e04h_%s' % c, dict(group=('add', 'dbl'), split=dict(len=[[0, 1], [2]] + ([[3]] if c == 'secp' else [])), reachmodels=2, weight=6)) for c in CV]
     + [('e04s_%s' % c, dict(group=('add', 'dbl'))) for c in CV] + [('e04c_%s' % c, dict(group=())) for c in CV],
     bounds=['every scalar below the group order times every multiple of the generator (every point of the curve)', 'scalars of 1, 3, 10 and 256 bits also after a multiplication of the inverse, of any other point, or by another scalar'])

prop('D01', harness=['d01.cpp'], opts=dict(maxcands=2), **GR,
     entries=[('d01', dict(GI, misses=1023, reachmodels=1, weight=9)), ('d01m', dict(GI, misses=63, reachmodels=1)), ('d01s', dict(GI, misses=24, reachmodels=1)), ('d01h', dict(GI, misses=12, reachmodels=1))],
     bounds=['every message below 2^245, an encoding found among the first 1024 candidates', 'up to three messages in sequence and instances destroyed in between (12 to 24 candidates)'])
prop('D02', harness=['dme.cpp'], opts=G0, **GR,
     entries=[('d02_' + x, {}) for x in ('messy', 'dec', 'rand', 'crs', 'mcrs')] + [('d02i_' + x, {}) for x in ('messy', 'dec', 'crs')],
     bounds=['every secret key, message point, integer message below 2^245, draw of the random source and CRS of group elements',
             'integer messages: encodings found within the first 4 candidates (all further candidates are the subject of D01)'])
prop('D03', harness=['dme.cpp'], opts=G0, **GR, entries=[('d03k', {}), ('d03h', dict(split=dict(same=[[0], [1]], branch=[[0], [1]]))), ('d03f', {}), ('d03w', {})],
     bounds=['every non-degenerate CRS, key, public key, message and randomness; after up to two earlier encryptions under the same key'])
prop('D04', harness=['dme.cpp'], opts=G0, **GR, entries=[('d04t', {}), ('d04h', {}), ('d04s', {})],
     bounds=['every non-degenerate CRS, key, message and randomness'])
prop('D05', harness=['dme.cpp'], opts=G0, **GR, entries=[('d05h', {}), ('d05n', {}), ('d05t', {})],
     bounds=['every pair of ciphertexts (any points) and secret key; by induction any number of them',
             'sequences of 2 to 4 fresh ciphertexts, a tree of 6 leaves'])

OT = DME + ['ot/*.cpp']
OTR = dict(srcs=OT, noinline=NOINLINE)
prop('O01', harness=['ot.cpp'], opts=G0, **OTR,
     entries=[('o01_' + x, {}) for x in ('messy', 'dec', 'rand', 'any')] + [('o01i_' + x, {}) for x in ('messy', 'dec', 'any')]
     + [('o01r', {}), ('o01s', {}), ('o01m', {})],
     bounds=['every CRS of group elements, selection, pair of messages and draw', 'up to three transfers with the same objects, two receivers',
             'integer messages: encodings found within the first 4 candidates (all further candidates are the subject of D01)'])
prop('O02', harness=['ot.cpp'], opts=G0, **OTR,
     entries=[('o02_%d' % k, {}) for k in (1, 2, 3, 5, 8)] + [('o02r_1', {}), ('o02r_3', {}), ('o02a', {}), ('o02_16', dict(only='thorough'))],
     bounds=['1, 2, 3, 5 and 8 senders (16 in the thorough run) for every CRS, message and draw; the componentwise sum for any ciphertexts'])
prop('G01', harness=['eg.cpp'], opts=G0, srcs=DME + ['elgamal/*.cpp'], noinline=NOINLINE,
     entries=[('g01', {}), ('g01d', {}), ('g01k', {}), ('g02', {})],
     bounds=['every key, message below 2^235 and draw; encodings found within the first 4 candidates', 'the exponent also after up to two earlier encryptions'])

SSS = ['fields/*.cpp', 'shamirss/*.cpp']
prop('S01', harness=['sss.cpp'], srcs=SSS, opts=dict(reachmodels=1),
     entries=[('s01_%d_%d' % (t, n), {}) for n in range(1, 5) for t in range(1, n + 1)]
     + [('s01_%d_5' % t, dict(weight=5)) for t in range(1, 6)]
     + [('s01_%d_6' % t, dict(only='thorough', weight=9)) for t in range(3, 7)]
     + [('s01b_6_10', {}), ('s01b_8_8', {}), ('s01b_10_20', dict(weight=3)), ('s01b_16_33', {}), ('s01b_40_64', dict(only='thorough', weight=5)), ('s01r', {}), ('s01_h', dict(weight=2))]
     + [('s01s_%d' % t, {}) for t in (1, 2, 3)] + [('s01s_4', dict(only='thorough', weight=9))],
     bounds=['all t <= n <= 5 (3 <= t <= 6 = n in the thorough run): every ordered selection of at least t shares, every secret and every draw',
             '6 of 10, 8 of 8, 10 of 20, 16 of 33 (40 of 64 in the thorough run): five selections',
             'interpolation at any 1, 2, 3 (4 in the thorough run) distinct non-zero places', 'three dealings in sequence with t of n from (2,3) (3,4) (1,3) (4,4), one object or three'])
prop('S02', harness=['sss.cpp'], srcs=SSS, opts=dict(reachmodels=1),
     entries=[('s02_%d_%d' % x, {}) for x in ((2, 2), (2, 3), (2, 5), (3, 3), (3, 5), (4, 4), (4, 6), (5, 5))]
     + [('s02h_2_3', {}), ('s02h_3_4', {}), ('s02h_5_6', {})] + [('s02b_8_16', {}), ('s02b_10_20', {})] + [('s02_5_7', {}), ('s02_6_8', dict(only='thorough')), ('s02b_16_33', dict(only='thorough'))],
     bounds=['t of n for (2,2) (2,3) (2,5) (3,3) (3,5) (4,4) (4,6) (5,5) (5,7) ((6,8) in the thorough run): every t-1 shares, pair of secrets and coefficients',
             '(8,16), (10,20) ((16,33) in the thorough run): two selections', '(2,3), (3,4), (5,6) after two earlier dealings known entirely'])

PU = dict(harness=['puda.cpp'], srcs=DME + ['puda/*.cpp'], noinline=NOINLINE)
FEW = dict(p0=[0], p1=[0], p2=[0])
prop('P01', **PU, native='plain', opts=dict(install=['group'], merge=False, intervals=True, maxcands=1),
     entries=[('p01m_%d' % n, dict(merge=True, intervals=False, weight=9)) for n in (1, 2, 4, 7, 10)] + [('p01h', dict(merge=True, intervals=False, weight=3))]
     + [('p01_2', dict(traces=False, split=dict(window=range(8), p0=[0])))]
     + [('p01e_1', dict(split=dict(window=[0]))), ('p01e_2', dict(split=dict(window=[0], p0=[1]))),
        ('p01e_1', dict(traces=False, split=dict(window=[2]))), ('p01e_3', dict(split=dict(window=[0]))),
        ('p01e_3', dict(traces=False, split=dict(window=[2], p0=[1], p1=[1]))), ('p01e_4', dict(split=dict(window=[0], p0=[3])))]
     + [('p01_2', dict(only='thorough', traces=False, split=dict(window=range(8), p0=[1]))), ('p01e_1', dict(only='thorough', traces=False, split=dict(window=[1]))),
        ('p01e_3', dict(only='thorough', traces=False, split=dict(window=[1, 2]))), ('p01e_4', dict(only='thorough', traces=False, split=dict(window=[0, 2], p0=range(3)))),
        ('p01e_5', dict(only='thorough', traces=False, split=dict(window=[0, 2], p0=[1], p1=[1]))), ('p01e_6', dict(only='thorough', traces=False, split=dict(window=[0, 2], **FEW)))],
     bounds=['two users: every pair of values whose sum is at most 65535 (all 65536 sums), every timestamp, key and draw',
             'one, three and four users: every set of values with a sum of at most 32 (all orders of three users, a quarter of those of four) or at least 65520 (one order); more users and orders in the thorough run'])
prop('P02', **PU, opts=dict(install=['group']),
     entries=[('p02_%d' % n, {}) for n in (1, 2, 3, 5, 10)] + [('p02h', {})],
     bounds=['1, 2, 3, 5 and 10 users, every value, timestamp, key and draw; two users also after another session and other timestamps'])
prop('P03', **PU, opts=dict(install=['group']),
     entries=[('p03_1', {}), ('p03_3', {})], bounds=['1 and 3 users, every value, wrong sum, timestamp, key and draw'])
NOT_APPLICABLE = {}

UT = dict(srcs=['utilities/[!a]*.cpp'])
AE = dict(srcs=['utilities/*.cpp'])


def lens(*l, n=8, **kw):
    """jobs of about equal cost over byte lengths"""
    l = sorted({x for r in l for x in ([r] if isinstance(r, int) else r)})
    return dict(split=dict({'len': [x for x in (l[i::n] for i in range(n)) if x]}, **{k: [v] for k, v in kw.items()}))


R = range
SH = R(130)
EDGE = (160, 191, 192, 193, 223, 224, 255, 256, 257, 319, 320, 383, 384, 511, 512, 513)
LONG = [x for x in R(130, 400) if x not in EDGE] + [767, 768, 769, 1023, 1024, 1025]
MID = sorted(set(R(41, 130, 4)) | {47, 48, 55, 56, 59, 63, 64, 67, 95, 96, 119, 127, 128, 160, 192, 255, 256, 257, 512})
MLONG = [x for x in R(41, 300) if x not in MID] + [383, 384, 385, 511, 513]
LENS, LLENS = 'every length from 0 to 129 bytes and 16 lengths up to 513 bytes', '0 to 399 and up to 1025 in the thorough run'
WLEN = 'lengths 1024, 2047 to 2049, 4095 to 4097, 8192 and 65536 bytes (also 65535 and 65537 in the thorough run): the first 8, the middle 8 and the last 12 bytes arbitrary, the rest fixed'
TH = 'thorough'
prop('U01', harness=['conv.cpp'], **UT,
     entries=[('u01', lens(SH, EDGE)), ('u01i', lens(SH, EDGE)), ('u01t', {}), ('u01w', dict(split=dict(longlen=[[i] for i in R(11)]))), ('u01', dict(lens(LONG), only=TH)), ('u01i', dict(lens(LONG), only=TH))],
     bounds=['every integer and every byte string of %s (%s)' % (LENS, LLENS), WLEN])
RB = dict(lemmas=False, reachmodels=1)
prop('R01', harness=['crc.cpp'], **UT, opts=RB,
     entries=[('r01', lens(R(66), offset=R(8))), ('r01', lens(R(66, 130), EDGE, offset=[0, 1, 6])), ('r01p', dict(split=dict(n=[R(i, 40, 8) for i in R(8)]))), ('r01h', dict(split=dict(n=[R(i, 40, 8) for i in R(8)]))),
              ('r01d', dict(split=dict(n=[R(i, 41, 6) for i in R(6)]))),
              ('r01w', dict(split=dict(offset=[0], long=[[10]]), weight=9)), ('r01w', dict(split=dict(offset=[[0, 3]], long=[[i] for i in R(8)]), weight=3)),
              ('r01w', dict(split=dict(offset=R(8), long=[[8, 9], [11], [12]]), only=TH, weight=9)),
              ('r01', dict(lens(R(66, 130), EDGE, offset=[2, 3, 4, 5, 7]), only=TH)), ('r01', dict(lens(LONG, n=32, offset=R(8)), only=TH)),
              ('r01p', dict(split=dict(n=[[i] for i in R(40, 100)]), only=TH))],
     bounds=['every buffer of 0 to 65 bytes at every alignment, of 66 to 129 bytes and 16 lengths up to 513 at three alignments (0 to 399 bytes and up to 1025 at every alignment in the thorough run), every initial value',
             'lengths 2040, 2048, 2055, 2056, 2100, 4096, 4105, 8200 and 65544 (65535, 65536, 65551, 66000 in the thorough run): 40 to 56 bytes at the start, in the middle and at the end arbitrary, the rest fixed, every initial value',
             'every cut of every buffer of up to 39 bytes (99 in the thorough run)', 'up to 39 bytes after other contents, lengths and initial values at the same place'])
prop('R02', harness=['crc.cpp'], **UT, opts=RB,
     entries=[('r02', lens(SH, EDGE)), ('r02f', lens(R(41), 52, 63, 64, 65, n=24)), ('r02s', lens(MID, n=12)), ('r02w', dict(split=dict(longlen=[[i] for i in (0, 1, 2, 3, 4, 5, 6, 7, 9)]), weight=3)), ('r02w', dict(split=dict(longlen=[[8], [10]]), only=TH)), ('r02', dict(lens(LONG), only=TH)),
              ('r02f', dict(lens([x for x in R(41, 130) if x not in (52, 63, 64, 65)], n=40), only=TH)), ('r02s', dict(lens(MLONG, n=40), only=TH))],
     bounds=['append, validate, remove: every integer of %s (%s)' % (LENS, LLENS), WLEN + ' (without corruption beyond 8192 bytes)',
             'corruption: every value of 0 to 40, 52 and 63 to 65 bytes (0 to 129 in the thorough run): every error pattern in every four consecutive bytes; 42 lengths from 41 to 512 bytes (41 to 299 and up to 513 in the thorough run): every error pattern at ten positions from the first to the last byte'])
prop('A01', harness=['aes.cpp'], **AE, opts=RB,
     entries=[('a01', lens(SH, EDGE, keylen=[0, 1])), ('a01c', lens(SH, EDGE, keylen=[0, 1])),
              ('a01', lens(R(18), 31, 32, 33, 47, 48, 49, keylen=R(2, 17))), ('a01c', lens(R(18), 27, 28, 29, keylen=R(2, 17))), ('a01v', dict(split=dict(keylen=R(17)))),
              ('a01w', dict(split=dict(keylen=[0], longlen=[[0], [3], [5], [7], [9]]), weight=3)), ('a01w', dict(split=dict(keylen=[0], longlen=[[i] for i in (1, 2, 4, 6, 8, 10)]), only=TH)),
              ('a01', dict(lens(LONG, keylen=[0, 5]), only=TH)), ('a01c', dict(lens(LONG, keylen=[0, 5]), only=TH)),
              ('a01', dict(lens(R(18, 130), EDGE, keylen=R(2, 17)), only=TH)), ('a01c', dict(lens(R(18, 130), EDGE, keylen=R(2, 17)), only=TH))],
     bounds=['every message of %s (%s), with every key of 16 and 15 bytes; every key of 0 to 14 bytes with messages of 0 to 17 bytes and around 28, 32 and 48 (all of 0 to 129 in the thorough run)' % (LENS, LLENS),
             WLEN.replace('2047 to 2049, 4095 to 4097', '2049, 4096'), 'every initialisation vector'])
prop('A02', harness=['aes.cpp'], **AE, opts=RB,
     entries=[('a02', lens(R(1, 41), n=24, keylen=[0], top=R(2))), ('a02s', lens(MID, n=16, keylen=[0])), ('a02', dict(lens([1, 9, 16], n=3, keylen=R(1, 17), top=R(2)))),
              ('a02', dict(lens(R(41, 90), n=40, keylen=[0], top=R(2)), only=TH)), ('a02s', dict(lens(MLONG, n=40, keylen=[0]), only=TH))],
     bounds=['every value of 1 to 40 bytes (89 in the thorough run) and every key of 16 bytes; every error pattern in every four consecutive bytes',
             '42 lengths from 41 to 512 bytes: every error pattern at ten positions',
             'shorter keys (0 to 15 bytes) with messages of 1, 9 and 16 bytes'])
prop('M01', parts=[dict(harness=['crc.cpp'], entries=[('m01c', lens(SH, EDGE)), ('m01c', dict(lens(LONG), only=TH))], **UT),
                   dict(harness=['aes.cpp'], entries=[('m01a', lens(SH, EDGE, keylen=[0, 4])), ('m01d', lens(R(14), 15, 16, 17, 20, 21, 24, 32, n=16, keylen=[0])),
                                                      ('m01a', lens(0, 1, 16, 17, keylen=R(17))), ('m01d', lens(0, 1, 5, 6, keylen=R(1, 17))),
                                                      ('m01a', dict(lens(LONG, keylen=[0, 4]), only=TH)), ('m01d', dict(lens(14, 18, 19, 22, 23, R(25, 49), 63, 64, 65, n=24, keylen=[0]), only=TH))], **AE)],
     opts=RB,
     bounds=['checksum routines: every integer of %s (%s)' % (LENS, LLENS),
             'cipher: the same messages with every key of 16 bytes and of 0 bytes, every shorter key with four lengths',
             'arbitrary checksummed ciphertexts of 0 to 13, 15 to 17, 20, 21, 24 and 32 bytes (0 to 48 and 63 to 65 in the thorough run)'])

from . import ideal
OP = dict(harness=['opprf.cpp'], srcs=DME + ['ot/*.cpp', 'opprf/*.cpp', 'utilities/*.cpp'], noinline=NOINLINE + ideal.NOINLINE, native='plain',
          opts=dict(install=['group', 'ideal'], redirect=ideal.REDIRECT, maxcands=2, reachmodels=1))
PM = dict(perm=range(6), perm2=range(6))
ISE = ['oblivious transfer is ideal (what O01 establishes), as is checksummed encryption (what A01 establishes): a ciphertext decrypts under its own key only; wrong keys are noticed (a wrong key passes the 32-bit checksum with probability 2^-32)',
       'no equation involving random draws holds by accident (equal 128-bit keys, identity masks)']
prop('Q01', **OP, entries=[('q01', dict(split=dict(PM, perm2=[0]))), ('q01', dict(split=dict(PM, perm2=range(1, 6)), traces=False)),
              ('q01r', dict(split=dict(PM, perm2=[4], above=range(2)))), ('q01r', dict(split=dict(PM, perm2=[0], above=range(2)), traces=False)),
              ('q01r', dict(split=dict(PM, perm2=[1, 2, 3, 5], above=range(2)), only=TH, traces=False))],
     bounds=['every 16-bit threshold and input with x <= theta, every secret element, all draws; two orders of the shuffled ciphertexts alternating between rounds (all 36 pairs of orders)',
             'a second evaluation after one with any input (12 pairs of orders; all 36 in the thorough run)'], assumptions=ISE)
prop('Q02', **OP, entries=[('q02', dict(split=dict(PM, perm2=[0]))), ('q02', dict(split=dict(PM, perm2=range(1, 6)), traces=False))],
     bounds=['every 16-bit threshold and input with x > theta, every secret element, all draws; two orders of the shuffled ciphertexts alternating between rounds (all 36 pairs of orders)'], assumptions=ISE)

prop('L01', harness=['l01.cpp'], srcs=OT + ['puda/*.cpp'], noinline=NOINLINE, opts=G0,
     entries=[('l01_' + x, dict(split=dict(how=range(3)))) for x in ('messy', 'dec', 'crs')] + [(x, dict(split=dict(how=range(3)))) for x in ('l01r', 'l01s', 'l01x', 'l01p')] + [('l01o', {}), ('l01e', {}), ('l01q', {})],
     bounds=['one copy by construction, by assignment over another object, or a copy of a copy assigned back; either object destroyed first; every draw, CRS of group elements, message, key, value and timestamp',
             'objects used before and after copying; sums up to 3 for aggregation'])
