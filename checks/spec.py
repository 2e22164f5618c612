"""Jobs per property: which harness, which bounds."""
ASSUME = [
 'the model of NTL, libc and libstdc++ runtime pieces in /verif/model stands for the real ones (validated by native replay of sample paths)',
 'clang 18 -O1 bitcode of the current source is what is executed; the native build uses g++ -O1 with AddressSanitizer',
]
UNITS = {}
PROPS = {}
def unit(name, src, **k): UNITS[name] = dict(src=src, **k)
def prop(pid, jobs, **k):
    PROPS[pid] = dict(jobs=jobs, **k)
def J(name, u, c=None, what='', **k): return dict(name=name, unit=u, c=c or {}, what=what, **k)

# ---------------------------------------------------------------- P01-P03 utilities
unit('util', 'h_util.cpp')
prop('P01', [J('bits16', 'util', {'CASE': 1}, 'count_bit, calc_1pos, getBitOfPos, setBitOfPos, isZero, 16 bit'),
             J('bits32', 'util', {'CASE': 2}, 'the same, 32 bit'), J('bits64', 'util', {'CASE': 3}, 'the same, 64 bit', w=5),
             J('setget8', 'util', {'CASE': 4}, 'bit access, 8 bit'), J('rev32', 'util', {'CASE': 5}, 'reverse_bit'), J('rev64', 'util', {'CASE': 6}, 'reverse_bit'),
             J('floor2p-u32', 'util', {'CASE': 7}, 'floor2p'), J('floor2p-u64', 'util', {'CASE': 8}, 'floor2p'), J('floor2p-int', 'util', {'CASE': 9}, 'floor2p', w=3)],
     bounds='none: every word of 8, 16, 32 and 64 bits (floor2p: every positive word)', outside='floor2p(0), which does not terminate by definition')
prop('P02', [J('range32', 'util', {'CASE': 10}, 'get_range, every start <= end', w=3), J('range64', 'util', {'CASE': 11}, 'get_range with 64-bit words', w=3),
             J('range32-onto', 'util', {'CASE': 10, 'ONTO': 1, 'LIM': 500}, 'every value is reachable', w=3), J('range64-onto', 'util', {'CASE': 11, 'ONTO': 1, 'LIM': 500}, 'every value is reachable', w=3),
             J('table32', 'util', {'CASE': 12}, 'fill_table, 16 entries'), J('table64', 'util', {'CASE': 13}, 'fill_table, 16 entries'), J('table16', 'util', {'CASE': 18}, 'fill_table, 16 entries')] +
            [J('table32-%d' % s, 'util', {'CASE': 12, 'SIZE': s, 'LG': 8}, 'fill_table, %d entries' % s) for s in (1, 2, 5, 37, 256)],
     bounds='every word, every start <= end whose size fits an int; reachability for |start|,|end| <= 500; tables of 1 to 256 entries with arbitrary contents', outside='start > end (documented exit); tables above 256 entries')
prop('P03', [J('conv%d' % b, 'util', {'CASE': c}, 'toGF2Vec / fromGF2Vec round trips') for b, c in ((8, 14), (16, 15), (32, 16), (64, 17))] +
            [J('conv%d-reused' % b, 'util', {'CASE': c, 'PRE': p}, 'into a vector used before with another length') for b, c, p in ((8, 14, 70), (32, 16, 3), (64, 17, 100))],
     bounds='none: every word of 8, 16, 32 and 64 bits and every vector of 8 to 128 entries', outside='')

for u, d in (('w128s', 'sfmtdc'), ('w128d', 'dSFMTdc')): unit(u, 'h_w128.cpp', flags=['-I$REPO/samples/' + d])
P04 = []
for u in ('w128s', 'w128d'):
    P04 += [J(u + '-logic', u, {'CASE': 1}, 'and, or, xor, not, equality, zero test, conversion, bit reversal')]
    for lo in (0, 32, 64, 96): P04 += [J(u + '-shift%d' % lo, u, {'CASE': 2, 'LO': lo}, 'shifts and masks %d to %d' % (lo, lo + 31)), J(u + '-pos%d' % lo, u, {'CASE': 3, 'LO': lo}, 'bit positions %d to %d' % (lo, lo + 31))]
    PROPS['P03']['jobs'].append(J(u + '-vector', u, {'CASE': 4}, 'every 128-bit vector to a word'))
prop('P04', P04, bounds='none: every pair of 128-bit words, shift counts 0 to 127, mask lengths 0 to 128, bit positions 0 to 127', outside='')

# ---------------------------------------------------------------- P05-P07 Mersenne Twisters
unit('mt', 'h_mt.cpp')
def mtj(n, c, what, **k): return J(n, 'mt', c, what, cut=12, reach=['compared'], **k)
P05 = [mtj('ctor-default', {'CASE': 2, 'MODE': 0}, 'default constructor'), mtj('ctor-seed', {'CASE': 2, 'MODE': 1}, 'constructor with every seed')]
for m in (0, 1, 2):
    for h in (0, 1, 399, 400, 401, 1023, 1024, 1700):
        P05.append(mtj('reseed-m%d-h%d' % (m, h), {'CASE': 1, 'MODE': m, 'HIST': h}, 'reseed after %d outputs' % h))
for k, nm in ((1, 'getUint32'), (2, 'getUint64'), (3, 'mixed')): P05.append(mtj('calls-' + nm, {'CASE': 1, 'KIND': k, 'HIST': 7}, nm))
P05.append(mtj('reseed-64', {'CASE': 1, 'HOW': 1, 'HIST': 100}, 'reseed through the 64-bit seed of the base class'))
prop('P05', P05, bounds='every 32-bit seed (64-bit for the wide overload), 1700 outputs after seeding (all 1024 slots of the ring are rewritten), reseeding after 0, 1, 399, 400, 401, 1023, 1024, 1700 outputs from a default, integer or array seeded generator in arbitrary memory', outside='outputs beyond the 1700th (2600 in the thorough tier)')
P06 = []
for k in (1, 2, 3, 4, 5, 623, 624, 625, 1000, 1249):
    for h, nm in ((0, 'ctor'), (1, 'seed')):
        P06.append(mtj('key%d-%s' % (k, nm), {'CASE': 3, 'KLEN': k, 'HOW': h, 'OUT': 1100, 'HIST': 37 if h else 0, 'MODE': 1 if h else 0}, 'array of %d words' % k))
for k in (1, 2, 8, 15, 16, 40, 624, 700):
    for h, nm in ((2, 'ctor'), (3, 'seed')):
        P06.append(mtj('str%d-%s' % (k, nm), {'CASE': 3, 'KLEN': k, 'HOW': h, 'OUT': 700, 'HIST': 411 if h == 3 else 0}, 'string of %d characters' % k, w=k // 100))
prop('P06', P06, bounds='every content of arrays of 1..5, 623, 624, 625, 1000, 1249 words and of 7-bit strings of 1 to 700 characters; 700 or 1100 outputs', outside='other lengths; characters above 127 (their value depends on the signedness of char); empty keys')
P07 = [mtj('ctor-default', {'CASE': 4, 'HOW': 0, 'OUT': 700}, 'default constructor'), mtj('ctor-seed', {'CASE': 4, 'HOW': 1, 'OUT': 1000}, 'every 64-bit seed')]
for h in (0, 1, 155, 156, 311, 312, 313, 700):
    for m in (0, 1): P07.append(mtj('reseed-m%d-h%d' % (m, h), {'CASE': 4, 'HOW': 2, 'MODE': m, 'HIST': h, 'OUT': 700}, 'reseed after %d outputs' % h))
for k in (1, 2, 4, 311, 312, 313, 500, 800):
    for h, nm in ((0, 'ctor'), (1, 'seed')): P07.append(mtj('key%d-%s' % (k, nm), {'CASE': 5, 'KLEN': k, 'HOW': h, 'OUT': 700, 'HIST': 33 if h else 0}, 'array of %d words' % k))
for k in (1, 9, 16, 312, 320):
    for h, nm in ((2, 'ctor'), (3, 'seed')): P07.append(mtj('str%d-%s' % (k, nm), {'CASE': 5, 'KLEN': k, 'HOW': h, 'OUT': 400, 'HIST': 9 if h == 3 else 0}, 'string of %d characters' % k, w=k // 100))
for k, nm in ((1, 'getUint64'), (2, 'getUint32')): P07.append(mtj('calls-' + nm, {'CASE': 4, 'HOW': 1, 'KIND': k, 'OUT': 700}, nm))
prop('P07', P07, bounds='every 64-bit seed, every content of arrays of 1..800 words (sampled lengths) and 7-bit strings; 400 to 1000 outputs, which rewrite every state word at least once', outside='other lengths, later outputs')

# ---------------------------------------------------------------- P08-P14 sources, primitivity, polynomials
unit('period', 'h_period.cpp', repo_src=['$REPO/lib/period.cpp', '$REPO/lib/AlgorithmPrimitivity.cpp'])
P08 = []
for c, t in ((1, 'u32'), (2, 'u64')):
    for h, nm in ((0, 'ctor'), (1, 'mask-ctor'), (2, 'reseed'), (3, 'seed64'), (4, 'seed32'), (5, 'copy')):
        P08.append(J('direct-%s-%s' % (t, nm), 'period', {'CASE': c, 'HOW': h, 'N': 10}, 'first 10 requests', reach=['done'] + ([] if h == 1 else ['exhausted'])))
    for k in (1, 2): P08.append(J('direct-%s-call%d' % (t, k), 'period', {'CASE': c, 'CALL': k, 'N': 10}, 'through ParameterGenerator', reach=['done', 'exhausted']))
    P08.append(J('induct-' + t, 'period', {'CASE': c + 2}, 'one step from s equals a fresh source at s-1', reach=['done']))
prop('P08', P08, bounds='every seed and mask; the first 10 requests, plus the inductive step (stepping from s is starting at s-1) for every s', outside='nothing: the step and the base cases cover any number of requests')
prop('P09', [J('mexp', 'period', {'CASE': 5}, 'every 32-bit degree', reach=['done'])], bounds='none: every 32-bit value', outside='completeness above 25964951 (only soundness is claimed there)')
P10 = []
for n in (2, 3, 4, 5, 6, 7, 8, 9):
    for h, nm in ((0, 'zz'), (1, 'str'), (2, 'alg')):
        if n >= 9 and h: continue
        P10.append(J('prim-%s-%d' % (nm, n), 'period', {'CASE': 6, 'DEG': n, 'HOW': h, 'ROT': n % 3}, 'every polynomial of degree <= %d' % (n + 1), reach=['primitive', 'not-primitive'], w=n))
for n in (2, 3, 4, 5, 6, 7, 8): P10.append(J('mersenne-%d' % n, 'period', {'CASE': 6, 'DEG': n, 'HOW': 3}, 'irreducible of Mersenne degree', reach=['primitive', 'not-primitive'], w=n))
P10 += [J('prim-zz-%d' % n, 'period', {'CASE': 6, 'DEG': n, 'HOW': 0}, 'every polynomial', thorough_only=True, t=800, q=600) for n in (10, 11)]
prop('P10', P10, bounds='every polynomial of degree at most n+1 for n = 2..9 (11 in the thorough tier), with the complete factor list of 2^n-1 in several orders', outside='larger degrees; incomplete lists')
P12 = [J('all-p%d' % p, 'period', {'CASE': 7, 'P': p}, 'every polynomial of degree < %d' % (2 * p), reach=['found', 'absent']) for p in (2, 3)]
P12 += [J('p5-deg%d' % d, 'period', {'CASE': 7, 'P': 5, 'DEG': d}, 'every polynomial of degree <= %d' % d, reach=['found', 'absent']) for d in (5, 6)]
P12 += [J('p5-deg7', 'period', {'CASE': 7, 'P': 5, 'DEG': 7}, 'every polynomial of degree <= 7', thorough_only=True, t=500)]
for q in (37, 41, 47, 55, 59, 61): P12.append(J('p5-q%d' % q, 'period', {'CASE': 7, 'P': 5, 'Q': q, 'DEG': 8}, 'irreducible %d times any cofactor of degree <= 3' % q, reach=['found']))
P12.append(J('p5-q37-deg9', 'period', {'CASE': 7, 'P': 5, 'Q': 37, 'DEG': 9}, 'cofactor of degree <= 4', reach=['found'], w=5))
for q in (19, 25, 31, 21, 7, 73): P12.append(J('p5-absent%d' % q, 'period', {'CASE': 7, 'P': 5, 'Q': q, 'DEG': {73: 9, 7: 6, 21: 8}.get(q, 8)}, 'multiples of %d' % q, reach=['absent']))
for q in (131, 137, 193): P12.append(J('p7-q%d' % q, 'period', {'CASE': 7, 'P': 7, 'Q': q, 'DEG': 10}, 'irreducible of degree 7 times any cofactor of degree <= 3', reach=['found']))
prop('P12', P12, bounds='every polynomial of degree < 2p for p = 2, 3; p = 5: every polynomial of degree <= 6 (7 thorough), and each irreducible of degree 5 times every cofactor of degree <= 3 or 4, multiples of several smaller products; p = 7: products', outside='larger p')
P13 = [J('defn-n%d-%s' % (n, t), 'period', {'CASE': c, 'N': n, 'DEFN': 1, 'POS': p, 'HOW': h}, 'definition', reach=['done']) for n in (1, 2, 3, 4) for c, t, p, h in ((9, 'u32', 0, 0), (10, 'u64', 63, 1), (11, 'u16', 7, 1))]
for p in (0, 1, 17, 31): P13.append(J('seq-u32-pos%d' % p, 'period', {'CASE': 9, 'N': 4, 'POS': p, 'HOW': 0}, 'bit %d' % p, reach=['done']))
for p in (0, 31, 32, 63): P13.append(J('seq-u64-pos%d' % p, 'period', {'CASE': 10, 'N': 4, 'POS': p, 'HOW': 1, 'OTHER': 3}, 'bit %d, explicit size above bitSize' % p, reach=['done']))
P13.append(J('seq-n6', 'period', {'CASE': 9, 'N': 6}, 'six state bits', reach=['done'], thorough_only=True)); P13.append(J('seq-n5', 'period', {'CASE': 9, 'N': 5, 'POS': 2, 'HOW': 1, 'OTHER': 9}, 'five state bits', reach=['done']))
prop('P13', P13, bounds='every output sequence of a generator of 1..5 state bits (6 thorough), bit positions of 16, 32, 64-bit outputs', outside='larger state sizes; the Berlekamp-Massey step is NTL\'s and enters as a model')
P14 = [J('lcm-%d' % n, 'period', {'CASE': 8, 'DEG': n, 'ALIAS': a}, 'every pair of polynomials of degree <= %d' % n, reach=['done']) for n in (1, 2, 3) for a in (0,)] + [J('lcm-4', 'period', {'CASE': 8, 'DEG': 4}, 'degree <= 4', reach=['done'], thorough_only=True)]

LIB = ['$REPO/lib/period.cpp', '$REPO/lib/AlgorithmPrimitivity.cpp']
for w in (32, 64):
    unit('equi%d' % w, 'h_equi.cpp', flags=['-DWORD=uint%d_t' % w])
    unit('red%d' % w, 'h_red.cpp', flags=['-DWORD=uint%d_t' % w], repo_src=LIB)
    unit('search%d' % w, 'h_search.cpp', flags=['-DWORD=uint%d_t' % w], repo_src=LIB)
for w, b, n, t, st, l in ((32, 32, 1, 3, 2, 'true'), (32, 32, 2, 3, 1, 'false'), (64, 64, 2, 2, 1, 'true'), (64, 64, 1, 3, 3, 'false')):
    unit('pb%d_%d_%d_%d_%s' % (w, n, t, st, l[0]), 'h_search.cpp', flags=['-DWORD=uint%d_t' % w, '-DPB_BITS=%d' % b, '-DPB_PARAMS=%d' % n, '-DPB_TRY=%d' % t, '-DPB_STEP=%d' % st, '-DPB_LSB=' + l], repo_src=LIB)
def NM(n, u, c, what='', **k):
    k.setdefault('reach', ['done']); return J(n, u, c, what, nomerge=True, **k)

for w in (32, 64):
    for n, f, v in ((3, 0xb, 2), (3, 9, 3), (4, 29, 1), (4, 17, 2), (4, 23, 3), (4, 30, 2), (5, 37, 2)):
        if w == 64 and n == 4: continue
        P14.append(NM('charpoly%d-n%d-%d' % (w, n, f), 'red%d' % w, {'CASE': 2, 'N': n, 'F': f, 'V': v}, 'characteristic polynomial of every output map of %d live bits, transition polynomial %d' % (v, f)))
prop('P14', P14, bounds='LCM: every pair of nonzero polynomials of degree <= 3 (4 thorough); characteristic polynomial: every output map of 1..3 live bits over 3 to 5 state bits, several transition polynomials', outside='larger degrees')
P15 = [J('annihilate32', 'red32', {'CASE': 1}, 'every transition polynomial of degree 4, polynomial of degree <= 5, state', w=4, reach=['done']), J('annihilate64', 'red64', {'CASE': 1, 'DEG': 3}, '64-bit outputs', reach=['done'], w=2), J('annihilate-rev', 'red32', {'CASE': 1, 'DEG': 3, 'REV': 1}, 'reversed output mode', reach=['done']),
       J('char32', 'red32', {'CASE': 1, 'CHAR': 1}, 'characteristic polynomial', reach=['done']), J('annihilate-n6', 'red32', {'CASE': 1, 'N': 6, 'DEG': 3}, 'six state bits', reach=['done'], w=3), J('annihilate-deg0', 'red32', {'CASE': 1, 'N': 3, 'DEG': 0}, 'constants', reach=['done']),
       J('annihilate-deg8', 'red32', {'CASE': 1, 'N': 3, 'DEG': 8}, 'polynomial of higher degree than the state', reach=['done'], thorough_only=True, t=400)]
prop('P15', P15, bounds='every cyclic linear transition on 3, 4 or 6 state bits, every polynomial of degree <= 5 (8 thorough), every state and output map; anni() of sfmtdc and dSFMTdc: large factor of degree 3 or 5, cofactor of degree 1 to 3 (4 thorough), one or two arbitrary output columns, every state', outside='larger states; non-cyclic transitions')
E = lambda n, bits, c, what='', **k: NM(n, 'equi%d' % bits, c, what, **k)
P16 = [E('n2v2', 32, {'N': 2, 'F': 7, 'V': 2}, 'every output map'), E('n3v2', 32, {'N': 3, 'F': 11, 'V': 2}, 'every output map'), E('n3v2-13', 32, {'N': 3, 'F': 13, 'V': 2}), E('n3v2-reducible9', 32, {'N': 3, 'F': 9, 'V': 2}, 'reducible transition'), E('n3v2-nilpotent8', 32, {'N': 3, 'F': 8, 'V': 2}, 'nilpotent transition'),
       E('n3v3', 32, {'N': 3, 'F': 11, 'V': 3}, 'every output map', w=16), E('n4v2', 32, {'N': 4, 'F': 19, 'V': 2}, 'every output map', w=8), E('n4v2-17', 32, {'N': 4, 'F': 17, 'V': 2}, w=8),
       E('n3v2-single', 32, {'N': 3, 'F': 11, 'V': 2, 'HOW': 1}, 'get_equidist', w=3), E('n3v2-mexp', 32, {'N': 3, 'F': 11, 'V': 2, 'MEXP': 5}, 'bound from an explicit Mersenne exponent'), E('n3v2-warm', 32, {'N': 3, 'F': 11, 'V': 2, 'WARM': 3, 'S': 5}, 'from another state'),
       E('n7v3-a', 32, {'N': 7, 'F': 131, 'V': 3, 'SYM': 5}, 'two arbitrary columns', w=5), E('n7v3-b', 32, {'N': 7, 'F': 137, 'V': 3, 'SYM': 34, 'SEED': 3}, 'two arbitrary columns', w=5), E('n8v3', 32, {'N': 8, 'F': 285, 'V': 3, 'SYM': 66}, 'two arbitrary columns', w=5), E('n7v7', 32, {'N': 7, 'F': 131, 'V': 7, 'SYM': 2}, 'one arbitrary column, seven accuracies', w=30),
       E('n6v4-single', 32, {'N': 6, 'F': 67, 'V': 4, 'SYM': 8, 'HOW': 1}, 'get_equidist, one arbitrary column', w=3),
       E('u64-n3v2', 64, {'N': 3, 'F': 11, 'V': 2}, '64-bit outputs', w=2), E('u64-n6v3', 64, {'N': 6, 'F': 67, 'V': 3, 'SYM': 6}, '64-bit outputs', w=6), E('u64-n3v2-single', 64, {'N': 3, 'F': 13, 'V': 2, 'HOW': 1}, '64-bit outputs', w=3)]
for f in range(8):
    P16.append(E('n5v2-%d' % f, 32, {'N': 5, 'F': 37, 'V': 2, 'NFIX': 3, 'FIX': f}, 'every output map, part %d of 8' % f, w=5, thorough_only=f not in (3, 6)))
    P16.append(E('n4v3-%d' % f, 32, {'N': 4, 'F': 25, 'V': 3, 'NFIX': 3, 'FIX': f}, 'every output map, part %d of 8' % f, t=300, thorough_only=True))
prop('P16', P16, bounds='every linear output map for (state bits, accuracies) = (2,2), (3,2), (3,3), (4,2), parts of (5,2) [all of (5,2), (4,3) thorough]; 6..8 state bits with one or two arbitrary output columns up to 7 accuracies; 32- and 64-bit outputs; all lower output bits arbitrary', outside='larger states; generators whose orbit does not generate the state space (the definition the calculator uses)')
R = lambda n, c, what='', w=32, **k: NM(n, 'red%d' % w, c, what, **k)
P17 = [R('p3q1', {'CASE': 3}, 'x^3+x+1 times x+1, every output map'), R('p3q2', {'CASE': 3, 'Q': 7, 'SYM': 6}, 'times x^2+x+1'), R('p3q1-single', {'CASE': 3, 'HOW': 1, 'SYM': 7}, 'get_equidist', w=32), R('p3q1-warm', {'CASE': 3, 'WARM': 2, 'SYM': 6}, 'from another state'), R('p3q1-low', {'CASE': 3, 'SYM': 6, 'LOW': 1}, 'an arbitrary lowest bit below the accuracies'), R('p3q2-low', {'CASE': 3, 'Q': 7, 'SYM': 2, 'LOW': 1}),
       R('p3sq', {'CASE': 3, 'Q': 5, 'SYM': 6}, 'times (x+1)^2'), R('p3x', {'CASE': 3, 'Q': 2, 'SYM': 7}, 'times x'), R('p5q2', {'CASE': 3, 'P': 37, 'Q': 7, 'V': 3, 'SYM': 6}, 'degree 5, three accuracies', t=200), R('p4q3', {'CASE': 3, 'P': 19, 'Q': 11, 'V': 3, 'SYM': 9}, 'degree 4, cofactor of degree 3'), R('u64', {'CASE': 3, 'SYM': 7}, '64-bit outputs', w=64),
       R('p5q1', {'CASE': 3, 'P': 37, 'Q': 3, 'V': 3, 'SYM': 7}, 'degree 5, three arbitrary columns', thorough_only=True, t=300), R('p7q1', {'CASE': 3, 'P': 131, 'Q': 3, 'V': 4, 'SYM': 9}, 'degree 7, four accuracies', thorough_only=True, t=300)]
prop('P17', P17, bounds='large factor of degree 3, 4 or 5 (7 thorough), cofactor of degree 1 to 3 (coprime or not squarefree), every output map of 2 accuracies (some columns fixed in the larger cases), 3 accuracies for degree 5', outside='larger degrees; outputs that do not see the large factor')
for u, d, f in (('simd', 'sfmtdc', []), ('dsimd', 'dSFMTdc', ['-DDSFMT'])): unit(u, 'h_simd.cpp', flags=['-I$REPO/samples/' + d] + f)
P18 = []
for n, u, c, w, what in (('32-n3', 'simd', {'N': 3, 'SYM': 15}, 3, 'one column of each element arbitrary'), ('32-n3b', 'simd', {'N': 3, 'SYM': 0x3c, 'SEED': 4}, 3, ''), ('32-n4', 'simd', {'N': 4, 'F': 19, 'SYM': 0x1212}, 5, ''), ('32-n5', 'simd', {'N': 5, 'F': 37, 'SYM': 0x11111}, 9, 'all columns of one element'), ('32-n5b', 'simd', {'N': 5, 'F': 61, 'SYM': 0x50505}, 20, ''),
      ('32-n5v2', 'simd', {'N': 5, 'F': 37, 'V': 2, 'SYM': 0x105}, 8, 'two accuracies'), ('32-n7v2', 'simd', {'N': 7, 'F': 131, 'V': 2, 'SYM': 33}, 3, 'two accuracies'), ('32-n7v3', 'simd', {'N': 7, 'F': 137, 'V': 3, 'SYM': 3, 'SIZE': 9}, 10, 'three accuracies, state larger than the exponent'), ('32-n9v2', 'simd', {'N': 9, 'F': 529, 'V': 2, 'SYM': 3}, 4, ''), ('32-n12v4', 'simd', {'N': 12, 'F': 4179, 'V': 4, 'SYM': 32}, 9, 'four accuracies'), ('32-lsb', 'simd', {'N': 3, 'LSB': 1, 'LOW': 1, 'SYM': 7}, 2, 'from the least significant bits'), ('32-warm', 'simd', {'N': 5, 'F': 37, 'SYM': 15, 'S': 9, 'PREV': 77}, 2, 'another state and history'),
      ('64-n3', 'simd', {'N': 3, 'EL': 2, 'SYM': 31}, 20, '64-bit elements'), ('64-n5v2', 'simd', {'N': 5, 'F': 37, 'EL': 2, 'V': 2, 'SYM': 35}, 5, ''), ('64-n7v3', 'simd', {'N': 7, 'F': 131, 'EL': 2, 'V': 3, 'SYM': 5}, 9, ''), ('64-lsb', 'simd', {'N': 3, 'EL': 2, 'LSB': 1, 'LOW': 1, 'SYM': 15}, 2, 'from the least significant bits'), ('64-n10v2', 'simd', {'N': 10, 'F': 1033, 'EL': 2, 'V': 2, 'SYM': 20}, 6, ''),
      ('d-n3', 'dsimd', {'N': 3, 'SYM': 31, 'SEED': 1}, 20, 'dSFMT'), ('d-n5v2', 'dsimd', {'N': 5, 'F': 37, 'V': 2, 'SYM': 35}, 5, 'dSFMT'), ('d-n7v3', 'dsimd', {'N': 7, 'F': 131, 'V': 3, 'SYM': 5, 'SIZE': 9}, 9, 'dSFMT'), ('d-n8v3', 'dsimd', {'N': 8, 'F': 285, 'V': 3, 'SYM': 5, 'S': 77, 'PREV': 3}, 6, 'dSFMT'), ('d-n10v2', 'dsimd', {'N': 10, 'F': 1033, 'V': 2, 'SYM': 20}, 6, 'dSFMT')): P18.append(J(n, u, c, what, w=w, reach=['done'], t=120))
P18 += [J(n, u, c, what, t=600, q=300, reach=['done'], thorough_only=True) for n, u, c, what in (('32-n3-8', 'simd', {'N': 3, 'SYM': 255}, 'two columns of each element'), ('64-n3-all', 'simd', {'N': 3, 'EL': 2}, 'every output map'), ('d-n3-all', 'dsimd', {'N': 3}, 'every output map'), ('d-n4', 'dsimd', {'N': 4, 'F': 19, 'SYM': 0x7f}, ''), ('32-n4-all4', 'simd', {'N': 4, 'F': 19, 'SYM': 0xf0f0}, ''), ('32-n7v3-3', 'simd', {'N': 7, 'F': 131, 'V': 3, 'SYM': 0x111}, 'three columns'))]
prop('P18', P18, bounds='block generators of 3 to 12 state bits with an irreducible transition, 1 to 4 accuracies, 1 to 5 arbitrary output columns (others fixed per job; every output map of 3 state bits in the thorough tier), 32-bit and 64-bit elements of SFMT and 52-bit elements of dSFMT', outside='larger states; the shipped generators themselves (their start and weight modes are checked in P27)')
S = lambda n, c, what='', w=32, **k: NM(n, 'search%d' % w, c, what, **k)
P19 = [S('v2', {'CASE': 3, 'TIE': 1, 'SYM': 3}, '2 parameters, limit 2, one step', w=32), S('v3-preset', {'CASE': 3, 'TIE': 1, 'SYM': 1, 'V': 3, 'T0': -1, 'REV0': 1}, 'parameters preset, generator handed over in reversed mode'),
       NM('lsb-3-2', 'pb32_1_3_2_t', {'CASE': 3, 'TIE': 1, 'SYM': 1, 'V': 3, 'T0': -1, 'REV0': 1}, 'from the least significant bit, limit 3 in steps of 2'), NM('lsb-n3', 'pb32_1_3_2_t', {'CASE': 3, 'TIE': 1, 'SYM': 7, 'N': 3, 'F': 11}, 'every output map of 3 state bits', w=20),
       NM('msb-3-1', 'pb32_2_3_1_f', {'CASE': 3, 'TIE': 1, 'SYM': 1, 'V': 3, 'T0': -1}, '2 parameters, limit 3 in steps of 1', w=8), NM('u64-lsb', 'pb64_2_2_1_t', {'CASE': 3, 'TIE': 1, 'SYM': 1, 'REV0': 1}, '64-bit outputs, from the least significant bit'), NM('u64-msb', 'pb64_1_3_3_f', {'CASE': 3, 'TIE': 1, 'SYM': 1, 'V': 3}, '64-bit outputs'),
       NM('msb-n3', 'pb32_2_3_1_f', {'CASE': 3, 'TIE': 1, 'SYM': 7, 'N': 3, 'F': 11}, 'every output map', thorough_only=True, t=500)]
prop('P19', P19, bounds='generators of 3 or 4 state bits with 1..3 arbitrary output columns; 1 or 2 parameters, limits 2 and 3, steps 1 to 3, both directions, 32 and 64 bits', outside='larger limits and states; tempering parameters narrower than the output word')
P20 = [S('p2-n3', {'CASE': 4, 'N': 3, 'F': 11, 'SYM': 7, 'PIN': 1}, '2 parameters, limit 2, case split on the output map', w=32), S('p2-n4', {'CASE': 4, 'N': 4, 'F': 19, 'SYM': 3, 'PIN': 1}, '4 state bits'), S('p1-n3', {'CASE': 4, 'N': 3, 'F': 11, 'SYM': 7, 'PARAMS': 1, 'LIMIT': 2}, '1 parameter, limit 2, every output map', w=32),
       S('p1-n4', {'CASE': 4, 'N': 4, 'F': 19, 'SYM': 3, 'PARAMS': 1, 'LIMIT': 2}, '1 parameter'), S('p2-l1', {'CASE': 4, 'N': 3, 'F': 13, 'SYM': 7, 'LIMIT': 1}, 'limit 1, every output map'), S('p2-shifts', {'CASE': 4, 'N': 4, 'F': 19, 'SYM': 3, 'PIN': 1, 'SH0': 2, 'SH1': 1}, 'other shifts'), S('p1-l3', {'CASE': 4, 'N': 4, 'F': 25, 'SYM': 3, 'V': 3, 'PARAMS': 1, 'LIMIT': 3, 'PIN': 1}, 'limit 3'),
       S('preset', {'CASE': 4, 'N': 3, 'F': 11, 'SYM': 1, 'PIN': 1, 'T0': -1, 'REV0': 1}, 'parameters preset, reversed mode'), S('u64', {'CASE': 4, 'N': 3, 'F': 11, 'SYM': 3, 'PIN': 1}, '64-bit outputs', w=64), S('edge-15-16', {'CASE': 4, 'N': 4, 'F': 19, 'SYM': 3, 'PIN': 1, 'V': 3, 'LIVE': 0x80010001, 'SH0': 16, 'SH1': 15, 'LIMIT': 1}, 'shifts that reach the last bit of the word'), S('edge-over', {'CASE': 4, 'N': 4, 'F': 19, 'SYM': 3, 'PIN': 1, 'V': 3, 'LIVE': 3 | 1 << 17, 'SH0': 16, 'SH1': 17}, 'shifts that leave the word')]
prop('P20', P20, bounds='generators of 3 or 4 state bits with 1..3 arbitrary output columns of 2 or 3 live bits; 1 or 2 tempering parameters, limit 1..3, several shift pairs', outside='3 and more parameters, larger limits and states')
P21 = [S('n3', {'CASE': 1, 'N': 3}, 'every output map and parameter, 2 tries', reach=['found', 'not-found']), S('n4-pf', {'CASE': 1, 'N': 4, 'HOW': 1}, 'with a prime factor list', reach=['found', 'not-found']), S('n2-rounds', {'CASE': 1, 'N': 2, 'ROUNDS': 2}, 'two consecutive searches', reach=['found', 'not-found']), S('n5', {'CASE': 1, 'N': 5, 'TRIES': 1}, 'five state bits', reach=['found', 'not-found']), S('n3-t3', {'CASE': 1, 'N': 3, 'TRIES': 3}, '3 tries', reach=['found', 'not-found']), S('n3-u64', {'CASE': 1, 'N': 3}, '64-bit outputs', w=64, reach=['found', 'not-found'])]
prop('P21', P21, bounds='state sizes 2..5, 1 to 3 tries, 1 or 2 rounds, every parameter word and output map', outside='larger states; state sizes that are not a Mersenne exponent with the default primitivity test (outside its contract)')
P22 = [S('n4', {'CASE': 2}, 'every parameter and output map', reach=['found']), S('n4-t2', {'CASE': 2, 'TRIES': 2}, '2 tries', reach=['found']), S('n5-mul7', {'CASE': 2, 'N': 5, 'MUL': 7}, 'transition divisible by x^2+x+1', reach=['found']), S('n4-rounds', {'CASE': 2, 'TRIES': 1, 'ROUNDS': 2}, 'two searches', reach=['found']), S('n4-u64', {'CASE': 2}, '64-bit outputs', w=64, reach=['found'])]
prop('P22', P22, bounds='4 or 5 state bits, factor degree 3, up to 2 tries and 2 rounds, every parameter word and output map', outside='larger states')
P23 = [S('lsb-then-msb', {'CASE': 5, 'SYM': 1, 'V': 1}, 'two tempering algorithms', reach=['found'], w=32), S('no-lsb', {'CASE': 5, 'SYM': 1, 'V': 1, 'HOW': 1}, 'no_lsb', reach=['found']), S('single', {'CASE': 5, 'SYM': 1, 'V': 1, 'HOW': 2, 'VERBOSE': 1}, 'one tempering algorithm, verbose', reach=['found']), S('verbose-lsb', {'CASE': 5, 'SYM': 0, 'V': 2, 'VERBOSE': 1, 'LSB': 1, 'PINF': 1}, 'verbose', reach=['found']), S('v2', {'CASE': 5, 'SYM': 1, 'HOW': 1, 'PINF': 1}, 'two live bits', reach=['found'], w=32), S('n4-pf', {'CASE': 5, 'N': 4, 'SYM': 0, 'V': 2, 'PF': 1, 'PINF': 1, 'SECOND': 3}, 'explicit primitivity test', reach=['found']),
       S('red', {'CASE': 5, 'SYM': 1, 'V': 1, 'RED': 1, 'N': 4, 'MUL': 3, 'PINF': 1}, 'reducible', reach=['found']), S('red-no-lsb', {'CASE': 5, 'SYM': 1, 'V': 1, 'RED': 1, 'N': 4, 'MUL': 3, 'PINF': 1, 'HOW': 1, 'SEED': 4}, 'reducible, no_lsb', reach=['found']), S('red-single', {'CASE': 5, 'SYM': 0, 'V': 1, 'RED': 1, 'N': 4, 'MUL': 3, 'PINF': 1, 'HOW': 2, 'VERBOSE': 1}, 'reducible, one tempering algorithm, verbose', reach=['found']), S('red-sq', {'CASE': 5, 'SYM': 0, 'V': 2, 'RED': 1, 'N': 5, 'MUL': 5, 'PINF': 1, 'VERBOSE': 1}, 'cofactor (x+1)^2', reach=['found'], thorough_only=True, t=300)]
for r in (0, 1):
    for h in (0, 1, 2):
        for vb in (0, 1):
            for lsb in (0, 1):
                P23.append(S('mode-r%d-h%d-v%d-l%d' % (r, h, vb, lsb), dict({'CASE': 5, 'SYM': 0, 'V': 2, 'PINF': 1, 'HOW': h, 'VERBOSE': vb, 'LSB': lsb}, **({'RED': 1, 'N': 4, 'MUL': 3, 'SEED': 4} if r else {})), 'every combination of mode flags', reach=['found'], thorough_only=vb != lsb or (h == 2 and vb == 0)))
prop('P23', P23, bounds='3 to 5 state bits, one arbitrary output column, any tempering installed by the algorithms, first parameter arbitrary and second acceptable', outside='larger states; searches that never find an acceptable parameter (they do not return)')
P24 = [R('default', {'CASE': 4}, 'degree 3, cofactor x+1'), R('v3', {'CASE': 4, 'V': 3}, 'three live parity bits'), R('q7', {'CASE': 4, 'Q': 7, 'V': 2}, 'cofactor x^2+x+1'), R('p4', {'CASE': 4, 'P': 19, 'Q': 5, 'V': 2}, 'degree 4, cofactor (x+1)^2'), R('p2q3', {'CASE': 4, 'P': 7, 'Q': 11, 'V': 2}, 'degree 2, cofactor x^3+x+1', t=300), R('p5q2', {'CASE': 4, 'P': 37, 'Q': 7, 'V': 3}, 'degree 5, cofactor x^2+x+1'), R('p4q3', {'CASE': 4, 'P': 19, 'Q': 11, 'V': 2}, 'degree 4, cofactor x^3+x+1'), R('p4sq', {'CASE': 4, 'P': 19, 'Q': 5, 'V': 3}, 'degree 4, three bits'), R('p5q4', {'CASE': 4, 'P': 37, 'Q': 25, 'V': 2}, 'degree 5, cofactor of degree 4', thorough_only=True, t=300), R('u64', {'CASE': 4, 'V': 2, 'Q': 7}, '64-bit parity word', w=64), R('dense-q7', {'CASE': 4, 'DENSE': 1, 'Q': 7, 'V': 3}, 'every parity bit live, 3 of them arbitrary'), R('dense-q11', {'CASE': 4, 'DENSE': 1, 'P': 7, 'Q': 11, 'V': 3, 'SEED': 3}), R('dense-q3', {'CASE': 4, 'DENSE': 1, 'V': 3}), R('dense-q5', {'CASE': 4, 'DENSE': 1, 'P': 37, 'Q': 5, 'V': 3}), R('dense-q25', {'CASE': 4, 'DENSE': 1, 'P': 37, 'Q': 25, 'V': 1}), R('dense-u64', {'CASE': 4, 'DENSE': 1, 'Q': 7, 'V': 1}, w=64)]
prop('P24', P24, bounds='large factor of degree 2..5, cofactor of degree 1..3 (4 thorough), every map from state to a parity word of 1 to 3 arbitrary live bits (the others zero, or fixed functionals of the state) that observes the small component, every state; the SFMT and dSFMT versions: large factor of degree 2, 3, 5, cofactor of degree 1 or 2', outside='larger degrees; cofactors divisible by x; parity words that do not observe the state')
P25 = [J('any', 'red32', {'CASE': 5, 'AT': -1}, 'arbitrary disturbance of any of the four streams at any step', reach=['accepted', 'rejected']), J('any64', 'red64', {'CASE': 5, 'AT': -1}, '64-bit outputs', reach=['accepted', 'rejected']),
       J('lin-n8', 'red32', {'CASE': 6}, 'every output map of a linear generator', reach=['accepted']), J('lin-n16', 'red32', {'CASE': 6, 'N': 16, 'F': 65581, 'REV': 1}, 'reversed output', reach=['accepted']), J('lin-u64', 'red64', {'CASE': 6}, '64-bit outputs', reach=['accepted'])]
prop('P25', P25, bounds='acceptance: every state and output map of 8 and 16 state bits; rejection: any nonzero disturbance of any one of the four compared streams at any one of the 100 tested steps', outside='disturbances at several steps at once')

# the SFMT and dSFMT versions of annihilation, parity search and fixed point
unit('anni_s', 'h_anni.cpp', flags=['-I$REPO/samples/sfmtdc'], repo_src=LIB)
unit('anni_d', 'h_anni.cpp', flags=['-I$REPO/samples/dSFMTdc', '-DDSFMT'], repo_src=LIB)
def A(n, u, k, c, what='', **kw):
    sym = c.get('SYM', 1)
    return J(('sfmt-' if u == 'anni_s' else 'dsfmt-') + n, u, dict(c, CASE=k), what, reach={1: ['done'] + (['refused'] if sym & 1 else []), 2: ['done'], 3: ['fixed', 'done']}[k], t=200, q=150, **kw)
PROPS['P15']['jobs'] += [A('anni', 'anni_s', 1, {}, 'anni()'), A('anni-v2', 'anni_s', 1, {'V': 2, 'SYM': 3}, 'anni(), two columns'), A('anni-q7', 'anni_s', 1, {'Q': 7, 'V': 2}), A('anni-p5q3', 'anni_s', 1, {'P': 37, 'Q': 9, 'V': 2}, 'cofactor of degree 3', w=3), A('anni-px', 'anni_s', 1, {'P': 37, 'Q': 6, 'V': 2, 'SYM': 1, 'S': 77}, 'cofactor divisible by x'), A('anni-p5q4', 'anni_s', 1, {'P': 37, 'Q': 23, 'V': 2}, 'cofactor of degree 4', w=5, thorough_only=True),
    A('anni', 'anni_d', 1, {'SYM': 1}, 'anni()'), A('anni-c2', 'anni_d', 1, {'SYM': 2, 'L': 1}), A('anni-c3', 'anni_d', 1, {'SYM': 3, 'L': 1}), A('anni-l2', 'anni_d', 1, {'SYM': 6, 'L': 2}), A('anni-q7', 'anni_d', 1, {'SYM': 1, 'L': 2, 'Q': 7}), A('anni-p5q3', 'anni_d', 1, {'SYM': 2, 'L': 1, 'P': 37, 'Q': 9}, w=3), A('anni-p5q4', 'anni_d', 1, {'SYM': 1, 'L': 1, 'P': 37, 'Q': 23}, w=6, thorough_only=True)]
for u in ('anni_s', 'anni_d'):
    PROPS['P24']['jobs'] += [A('calc', u, 2, {'SYM': 2}, 'calc_parity.cpp'), A('calc-l2', u, 2, {'L': 2, 'SYM': 6}), A('calc-p5', u, 2, {'L': 2, 'SYM': 4, 'P': 37, 'Q': 3}), A('calc-q7', u, 2, {'L': 2, 'SYM': 4, 'Q': 7}, w=2), A('calc-l3', u, 2, {'L': 3, 'SYM': 14}, w=2), A('calc-p2', u, 2, {'L': 2, 'SYM': 4, 'P': 7, 'Q': 3}), A('calc-dense-q7', u, 2, {'L': 2, 'SYM': 6, 'Q': 7, 'DENSE': 1}), A('calc-dense-q11', u, 2, {'L': 2, 'SYM': 4, 'P': 7, 'Q': 11, 'DENSE': 1}), A('calc-dense-q5', u, 2, {'L': 2, 'SYM': 4, 'P': 11, 'Q': 5, 'DENSE': 1})]
prop('P35', [A('fix', 'anni_d', 3, {'SYM': 2}, 'calc_fixpoint'), *[A('fix-q%d' % q, 'anni_d', 3, {'SYM': 2, 'Q': q}) for q in (2, 4, 5, 6, 10)], A('fix-q14', 'anni_d', 3, {'SYM': 2, 'P': 37, 'Q': 14}), A('fix-q9', 'anni_d', 3, {'SYM': 2, 'P': 37, 'Q': 9}), A('fix-l2', 'anni_d', 3, {'SYM': 6, 'L': 2}), A('fix-l2-p5', 'anni_d', 3, {'SYM': 6, 'L': 2, 'P': 37, 'Q': 3}), A('fix-l3-p7', 'anni_d', 3, {'SYM': 14, 'L': 3, 'P': 131, 'Q': 5}), A('fix-p7q4', 'anni_d', 3, {'SYM': 6, 'L': 2, 'P': 131, 'Q': 19}), A('fix-p7q6', 'anni_d', 3, {'SYM': 2, 'P': 131, 'Q': 95}, thorough_only=True)],
     bounds='large factor of degree 3, 5 or 7, coprime cofactor of degree 1 to 4 (6 thorough), 1 to 3 accuracies with up to 3 arbitrary columns', outside='larger degrees')

# ---------------------------------------------------------------- P26-P33 the shipped sample generators
GENS = {1: 'mt1', 2: 'mt2', 3: 'mtgp', 4: 'rmt', 5: 'tinymt', 6: 'sfmt', 7: 'dsfmt', 12: 'xorshift2', 13: 'xorshift3', 14: 'xorshift4', 15: 'xorshift5'}
for g, nm in GENS.items(): unit(nm, 'h_gen.cpp', flags=['-DGEN=%d' % g, '-I$REPO/samples'], native_src=LIB)
G_ME = {'mt1': 19937}                                  # Mersenne exponent used unless said otherwise
def G(n, u, c, what='', **k):
    c = dict({'MEXP': G_ME.get(u, 521)}, **c); k.setdefault('reach', ['done']); k.setdefault('t', 150); k.setdefault('q', 150)
    return J(u + '-' + n, u, c, what, **k)
XS = ('xorshift2', 'xorshift3', 'xorshift4', 'xorshift5')
FIXT = {'Db': -1985229329, 'Dc': 305419896, 'Dd': 1985229328, 'De': -305419897}     # MTGP tables
SF = {'Db': 17, 'Dc': 0, 'Dd': 10, 'De': 0, 'Df': 3755674831, 'Dg': 0, 'Dh': 3755674831, 'Di': 0, 'Dj': 3755674831, 'Dk': 0, 'Dl': 3755674831, 'Dm': 0}
DF = {'Db': 18, 'Dc': 68724714241, 'Dd': 0, 'De': 879609302220, 'Df': 0}
P26 = []
for u in ('mt1', 'mt2', 'rmt', 'tinymt', 'sfmt', 'dsfmt', 'mtgp') + XS:
    b = {'BITS': 1} if u in ('mtgp', 'rmt') else {}
    P26.append(G('r10', u, dict(b, R1=1), 'operands one step apart', w=20 if u in ('sfmt', 'dsfmt', 'mtgp') else 5))
    if u not in ('sfmt', 'dsfmt', 'mtgp'): P26.append(G('r03', u, dict(b, R1=0, R2=3, POS=2), 'operands three steps apart'))
P26 += [G('modes', 'sfmt', dict(SF, R1=2, R2=0, START=3, WEIGHT=1, POS=1), 'start mode 3, weight mode 1', w=9), G('modes', 'dsfmt', dict(DF, R1=0, R2=2, START=1, WEIGHT=1), 'start mode 1, weight mode 1', w=9), G('k3', 'mt2', {'R1': 5, 'R2': 2, 'K': 3, 'POS': 7}, 'three steps'), G('k20', 'mt2', {'R1': 1, 'R2': 16, 'K': 20, 'MEXP': 127, 'POS': 1}, 'past the wrap-around', thorough_only=True)]
prop('P26', P26, bounds='every pair of states, every parameter and tempering word (positions fixed per job); Mersenne exponent 521 (19937 for mt1, 127 for TinyMT, 128 for xorshift); operands 1 to 3 steps apart; the sum is compared after one step with the sum of the stepped states, which carries the statement to every later output', outside='other exponents and positions')
P27 = [G('conform', 'mt1', {'CASE': 7, 'OUT': 1250}, '1250 outputs of every seed', cut=12), G('reseed', 'mt1', {'CASE': 7, 'OUT': 1000, 'RESEED': 1}, 'after another seed', cut=12)]
for ps in (0, 3, 14):
    P27.append(G('conform-p%d' % ps, 'mt2', {'CASE': 7, 'POS': ps}, 'past the ring', w=2)); P27.append(G('conform-p%d' % ps, 'rmt', {'CASE': 7, 'POS': ps % 9}, 'past the ring', w=2))
P27 += [G('conform-noid', 'mt2', {'CASE': 7, 'ID': -1, 'MEXP': 607, 'RESEED': 1}, 'no identifier', w=2), G('conform-rs', 'rmt', {'CASE': 7, 'MEXP': 1279, 'RESEED': 1, 'POS': 2}, 'reseeded', w=2), G('conform-big', 'mt2', {'CASE': 7, 'MEXP': 1279, 'POS': 20}, '1279', w=3), G('conform-big', 'rmt', {'CASE': 7, 'MEXP': 2203, 'POS': 30}, '2203', w=3),
        G('conform', 'tinymt', {'CASE': 7}, 'every seed, draw and tempering word', w=8), G('reseed', 'tinymt', {'CASE': 7, 'RESEED': 1, 'ID': 4294967295}, 'reseeded', w=8)]
for u in XS: P27 += [G('conform', u, {'CASE': 7, 'POS': 9 * 1024 + 6 * 32 + 13}, 'every seed'), G('reseed', u, {'CASE': 7, 'POS': 27113, 'RESEED': 1}, 'reseeded')]
P27 += [G('conform-%d' % k, 'xorshift4', {'CASE': 7, 'POS': k * 32768 + 13 * 1024 + 9 * 32 + 3}, 'every seed, form %d' % k) for k in range(8)]
P27 += [G('seedwords', 'mtgp', {'CASE': 11, 'MEXP': 3217}, 'every word of the seeded state'), G('reseed', 'mtgp', {'CASE': 11, 'RESEED': 1}, 'after another history'),
        G('seeded', 'mtgp', {'CASE': 7, 'OUT': 3, 'TM': 0, 'ID': 0, 'Db': 0, 'Dc': 0, 'Dd': 0, 'De': 0}, 'first outputs of every seed', cut=12, w=12), G('recur', 'mtgp', {'CASE': 10}, 'recurrence from every state', cut=12, w=6), G('recur-p4', 'mtgp', {'CASE': 10, 'R1': 4, 'POS': 4, 'OUT': 6}, 'other position', cut=12, w=3), G('recur-3217', 'mtgp', {'CASE': 10, 'R1': 2, 'POS': 33, 'OUT': 5, 'MEXP': 3217}, '3217', cut=12, w=3), G('output', 'mtgp', dict(FIXT, CASE=9, R1=1, OUT=6), 'tempering table lookups', cut=12, w=10),
        G('seeded', 'sfmt', dict(SF, CASE=7, Db=7, Dc=1, Dd=9, De=1, Df=0, Dh=0, Dj=0, Dl=0), 'outputs of every seed', cut=12), G('recur', 'sfmt', {'CASE': 10}, 'recurrence from every state, every mask', cut=12, w=9), G('recur-1279', 'sfmt', {'CASE': 10, 'MEXP': 1279, 'POS': 5, 'R1': 1, 'OUT': 3}, '1279', cut=12, w=9),
        G('seeded', 'dsfmt', dict(DF, CASE=7, Dc=0, De=0), 'outputs of every seed', cut=12), G('recur', 'dsfmt', {'CASE': 10}, 'recurrence from every state, every mask', cut=12), G('recur-1279', 'dsfmt', {'CASE': 10, 'MEXP': 1279, 'POS': 6, 'R1': 3}, '1279', cut=12)]
for st in range(4):
    for wt in (1, 2, 3, 4): P27.append(G('modes%d%d' % (st, wt), 'sfmt', dict(SF, CASE=9, START=st, WEIGHT=wt, R1=st), 'start mode %d, weight mode %d' % (st, wt), cut=12))
for st in range(2):
    for wt in (1, 2): P27.append(G('modes%d%d' % (st, wt), 'dsfmt', dict(DF, CASE=9, START=st, WEIGHT=wt, R1=st), 'start mode %d, weight mode %d' % (st, wt), cut=12))
unit('xs128', 'h_xs128.cpp', repo_src=['$REPO/samples/XORSHIFT/xorshift128.c'])
P27 += [J('xorshift128-recur', 'xs128', {'CASE': 1}, 'recurrence from every state'), J('xorshift128-seed', 'xs128', {'CASE': 2}, 'every seed')]
prop('P27', P27, bounds='every seed, drawn mask/matrix/table word and tempering word, with the drawn position fixed per job; runs past the ring wrap-around; exponents 521 to 4253; SFMT/dSFMT: every start and weight mode; MTGP, SFMT, dSFMT: the recurrence from every state, seeding word by word or with fixed tables', outside='other exponents; the seed-0 degenerate TinyMT state is compared like any other')
P28 = []
for u in ('mt1', 'mt2', 'rmt', 'tinymt', 'sfmt', 'dsfmt', 'mtgp') + XS:
    e = dict(FIXT, TM=-12345678) if u == 'mtgp' else {}
    P28.append(G('copy', u, dict(e, CASE=2, R1=1), 'copy and clone of a generator in any state', w=10 if u in ('mtgp', 'sfmt', 'dsfmt') else 4))
    if u in ('mt2', 'rmt', 'tinymt', 'mtgp', 'sfmt'): P28.append(G('copy-rev', u, dict(e, CASE=2, R1=2, REV=1), 'in reversed-output mode', w=10 if u in ('mtgp', 'sfmt', 'dsfmt') else 4))
P28 += [G('copy-modes', 'sfmt', dict(SF, CASE=2, R1=1, PRE=1, START=2, WEIGHT=3), 'start mode 2, weight mode 3', w=9), G('copy-w1', 'sfmt', dict(SF, CASE=2, R1=1, PRE=1, START=1, WEIGHT=1), 'start mode 1, weight mode 1', w=9), G('copy-w2', 'sfmt', dict(SF, CASE=2, R1=1, PRE=1, START=3, WEIGHT=2), 'start mode 3, weight mode 2', w=9), G('copy-modes', 'dsfmt', dict(DF, CASE=2, R1=1, PRE=1, START=1, WEIGHT=1), 'start mode 1, weight mode 1', w=9), G('copy-pstr', 'mt2', {'CASE': 2, 'R1': 0, 'PSTR': 1, 'Db': 2567483615, 'TM': 305419896}, 'parameter strings'), G('copy-pstr', 'tinymt', {'CASE': 2, 'PSTR': 1, 'Da': 12345, 'TM': 99}, 'parameter strings')]
prop('P28', P28, bounds='every state, tempering word and (except MTGP) drawn parameter word; a full turn of the ring afterwards, in reversed mode and several accuracies; the original is stepped, zeroed, reseeded, retuned and destroyed, then the clone', outside='longer histories')
P29 = []
for u in ('mt1', 'mt2', 'rmt', 'tinymt', 'sfmt', 'dsfmt', 'mtgp') + XS: P29.append(G('setzero', u, {'CASE': 3, 'R1': 1}, 'setZero'))
Z = lambda n, u, c, **k: G(n, u, dict(c, CASE=3, HOW=c.get('HOW', 1)), 'isZero exactly when all outputs are zero', reach=['zero', 'nonzero'], **k)
P29 += [Z('iszero', 'mt1', {'R1': 1, 'FEW': 20}, w=9), Z('iszero-622', 'mt1', {'R1': 622, 'FEW': 9}, w=9), Z('iszero-full', 'mt1', {'R1': 1}, thorough_only=True, t=600, q=500), Z('iszero', 'mt2', {'R1': 1, 'Db': 2567483615}), Z('iszero-127', 'mt2', {'R1': 3, 'POS': 1, 'Db': 2567483615, 'MEXP': 127, 'HOW': 2}), Z('iszero', 'mtgp', {'R1': 1, 'TM': 0, 'BITS': 1, 'Db': 0x89abcde0, 'Dc': 0x12345670, 'Dd': 0x76543210, 'De': 0xfedcba90}, w=20),
        Z('iszero', 'rmt', {'R1': 1, 'POS': 1, 'Db': -1234567890123, 'MEXP': 127}), Z('iszero-521', 'rmt', {'R1': 2, 'POS': 3, 'Db': -98765432123456, 'HOW': 2}, w=7), Z('iszero', 'tinymt', {'R1': 1, 'ID': 1, 'Da': 0, 'TM': 1}, w=23)]
for st, wt, hw in ((0, 4, 1), (1, 3, 2), (2, 2, 1), (3, 1, 2), (0, 1, 1)): P29.append(Z('iszero-%d%d' % (st, wt), 'sfmt', dict(SF, R1=1 + st, POS=st % 2, START=st, WEIGHT=wt, HOW=hw), w=10))
for st, wt, hw in ((0, 2, 1), (1, 1, 1), (0, 1, 2), (1, 2, 2)): P29.append(Z('iszero-%d%d' % (st, wt), 'dsfmt', dict(DF, R1=1 + st, POS=st % 2, START=st, WEIGHT=wt, HOW=hw), w=13))
for u in XS: P29.append(Z('iszero', u, {'R1': 1, 'POS': 1353}, w=5))
prop('P29', P29, bounds='every state at internal positions 0 to 4 (MT19937: states with 20 words at either end of the array and every 16th word arbitrary and the others zero, at positions 1 and 622; every state in the thorough tier); parameters fixed with an invertible transition; zero over two ring turns and two more steps stands for every future output', outside='other parameters; other exponents')
P30 = []
for u in ('mt1', 'mt2', 'rmt', 'tinymt', 'sfmt', 'dsfmt', 'mtgp') + XS:
    e = {'mt1': {'OUT': 20}, 'mtgp': dict(FIXT, TM=0, OUT=4)}.get(u, {})
    P30.append(G('seed', u, dict(e, CASE=4, R1=1), 'any memory and history against a fresh generator', w=10))
    if u in ('mt2', 'rmt', 'tinymt'): P30.append(G('seed-late', u, dict(e, CASE=4, R1=5, POS=2), 'after five steps', w=5))
P30.append(J('xorshift128-seed', 'xs128', {'CASE': 2}, 'every seed, every earlier content'))
P30 += [J('xorshift128-key%d' % k, 'xs128', {'CASE': 3, 'KLEN': k}, 'array of %d words' % k) for k in (1, 2, 3, 4, 5, 7, 8, 9)] + [J('xorshift128-key20', 'xs128', {'CASE': 3, 'KLEN': 20}, 'array of 20 words', thorough_only=True)]
P30.append(G('seed-late', 'mt1', {'CASE': 4, 'R1': 300, 'OUT': 640}, '640 outputs', thorough_only=True))
P31 = []
for u in ('mt1', 'mt2', 'rmt', 'tinymt', 'sfmt', 'dsfmt', 'mtgp') + XS:
    P31.append(G('accuracy', u, dict(FIXT if u == 'mtgp' else {}, CASE=5, R1=1), 'every accuracy', w=20 if u == 'mtgp' else 5))
P31.append(G('modes', 'sfmt', dict(SF, CASE=5, R1=2, START=1, WEIGHT=2), 'start mode 1, weight mode 2', w=5))
prop('P31', P31, bounds='every state, parameter and tempering word, every accuracy from 1 to the word size, in both output directions', outside='nothing within the sizes named (521 bits; 19937, 127, 128 for mt1, TinyMT, xorshift)')
P32 = [G('temper', u, {'CASE': 6, 'R1': 1}, 'every mask, pattern and index', w=12 if u == 'mtgp' else 4) for u in ('mt2', 'rmt', 'tinymt', 'mtgp')]
P32 += [G('params', 'mt2', {'CASE': 7, 'PCH': 16, 'OUT': 3}, 'every position draw residue', cut=12, w=2), G('params-607', 'mt2', {'CASE': 7, 'PCH': 18, 'OUT': 2, 'MEXP': 607, 'ID': 65535}, 'every position draw residue', cut=12, w=2), G('params', 'rmt', {'CASE': 7, 'PCH': 10, 'OUT': 3}, 'every position draw residue', cut=12), G('params', 'tinymt', {'CASE': 7, 'OUT': 2, 'ID': 65536}, 'every draw', w=3),
        G('params', 'mtgp', {'CASE': 10, 'PCH': 6, 'OUT': 1}, 'every position draw residue, every table draw', cut=12, w=3), G('params-3217', 'mtgp', dict(FIXT, CASE=10, PCH=35, OUT=1, MEXP=3217), 'more than 100 words', cut=12, w=4), G('ranges', 'mtgp', dict(FIXT, CASE=7, PCH=6, OUT=1, TM=0, ID=-1), 'stored parameters', cut=12, w=8),
        G('params', 'sfmt', {'CASE': 10, 'PCH': 4, 'OUT': 1}, 'every position residue, every shift and mask draw', cut=12), G('params-1279', 'sfmt', {'CASE': 10, 'PCH': 9, 'OUT': 1, 'MEXP': 1279}, '1279', cut=12), G('params', 'dsfmt', {'CASE': 10, 'PCH': 3, 'OUT': 1}, 'every position residue, every shift and mask draw', cut=12), G('params-1279', 'dsfmt', {'CASE': 10, 'PCH': 11, 'OUT': 1, 'MEXP': 1279}, '1279', cut=12)]
for u in ('xorshift3', 'xorshift4'): P32.append(G('params', u, {'CASE': 7, 'POS': -1, 'OUT': 2}, 'every draw'))
prop('P32', P32, bounds='every drawn word (the position draw: a small and a large number of every residue), every mask, pattern and table index, every state', outside='exponents other than 521, 607, 1279, 3217')
prop('P30', P30, bounds='every seed (TinyMT: every nonzero seed), every earlier memory content and state, one or five earlier steps; xorshift128: every content of arrays of 1 to 9 words (20: thorough); two ring turns of outputs (20 or 640 for mt1, 4 for MTGP, whose seeded words are compared in P27)', outside='other histories')
prop('P33', [G('units-%d' % m, u, {'CASE': 8, 'R1': r, 'MEXP': m}, 'every pair of bit indices', w=w) for u, r, m, w in (('rmt', 1, 521, 3), ('rmt', 0, 127, 1), ('rmt', 2, 1279, 4), ('sfmt', 1, 521, 3), ('sfmt', 0, 607, 3), ('dsfmt', 1, 521, 12), ('dsfmt', 0, 607, 12))], bounds='every pair of distinct bit indices of RMT (127, 521, 1279 bits), SFMT and dSFMT (521, 607 bits), from every state', outside='other exponents')

# ---------------------------------------------------------------- P34 command lines
PROGS = {'mt2': 1, 'mtgp32dc': 2, 'rmt64dc': 3, 'tinymt32dc': 4, 'sfmtdc': 5, 'sfmtdcfixed': 6, 'dsfmtdc': 7}
P34 = []
for nm, pg in PROGS.items():
    unit('opt_' + nm, 'h_opt.cpp', flags=['-DPROG=%d' % pg, '-I$REPO/samples'] + {3: ['-I$REPO/samples/RMT'], 5: ['-I$REPO/samples/sfmtdc'], 6: ['-I$REPO/samples/sfmtdc'], 7: ['-I$REPO/samples/dSFMTdc']}.get(pg, []), native_src=[] if pg in (2, 4) else LIB + {5: ['$REPO/samples/sfmtdc/Annihilate.cpp'], 6: ['$REPO/samples/sfmtdc/Annihilate.cpp'], 7: ['$REPO/samples/dSFMTdc/Annihilate.cpp', '$REPO/samples/dSFMTdc/calc_fixpoint.cpp']}.get(pg, []))
    def O(n, reach, what="", nm=nm, **c):
        return J(nm + '-' + n, 'opt_' + nm, c, what, reach=reach, t=200, q=150, thorough_only=c.pop('TH', False), w=c.get('LEN', 1))
    AR, A_, R_ = ['accepted', 'rejected'], ['accepted'], ['rejected']
    sh = pg % 8
    if pg != 4: P34 += [O('mexp5', AR, 'every exponent of five digits', FIELD=1, LEN=5), O('mexp-wrap', R_, 'beyond 2^32', FIELD=1, LEN=4, HEAD=3, SHAPE=1), O('mexp4', AR, 'every exponent of four digits', FIELD=1, LEN=4 if pg != 2 else 6, SHAPE=7, SIGN=1), O('mexp-0', AR, 'leading zeros', FIELD=1, LEN=4, HEAD=6, OPTS=0)]
    if pg == 1: P34 += [O('id', AR, 'every identifier of five digits', FIELD=2, LEN=5), O('id-wrap', R_, 'beyond 2^32', FIELD=2, LEN=4, HEAD=3, SHAPE=1)]
    if pg in (2, 4): P34 += [O('id', AR, 'around 2^32', FIELD=2, LEN=4, HEAD=3), O('id-big', R_, 'beyond 2^64', FIELD=2, LEN=3, HEAD=7), O('id-small', A_, 'every identifier of five digits', FIELD=2, LEN=5, SHAPE=3)]
    for g, sg in (('p', 0), ('m', -1)):
        P34.append(O('count-' + g, A_, 'count', FIELD=3, LEN=4, SIGN=sg, SHAPE=sh)); P34.append(O('count-long-' + g, AR if pg != 1 else R_, 'around 2^63', FIELD=3, LEN=4, HEAD=1, SIGN=sg, SHAPE=(sh + 3) % 8))
    if pg == 1: P34 += [O('count-int', AR, 'around 2^31', FIELD=3, LEN=4, HEAD=4, SIGN=-1), O('count-int-p', AR, 'around 2^31', FIELD=3, LEN=4, HEAD=4, SHAPE=4)]
    if pg in (1, 4): P34 += [O('max', A_, 'max', FIELD=5, LEN=4, SHAPE=6), O('max-int', AR, 'around 2^31', FIELD=5, LEN=4, HEAD=4, SHAPE=2), O('max-neg', AR, 'around -2^31', FIELD=5, LEN=4, HEAD=4, SIGN=-1)]
    if pg not in (2, 4): P34 += [O('seed', A_, 'decimal seed', FIELD=4, LEN=5, SHAPE=5), O('seed-hex', A_, 'hexadecimal seed', FIELD=4, LEN=8, HEX=1 + pg % 2, SHAPE=2)]
    if pg not in (1, 2, 4): P34 += [O('seed-64', AR, 'around 2^64', FIELD=4, LEN=4, HEAD=2, SHAPE=3), O('seed-hex64', A_, 'hexadecimal, 13 fixed digits', FIELD=4, LEN=3, HEAD=1, HEX=1)]
    if pg == 4: P34 += [O('start', AR, 'start of five digits, every limit', FIELD=6, LEN=4), O('start-hex', AR, '', FIELD=6, LEN=5, HEX=1, SHAPE=6), O('start-wrap', AR, 'around 2^32', FIELD=6, LEN=4, HEAD=3, SHAPE=1), O('start-wrap2', R_, 'beyond 2^32', FIELD=6, LEN=2, HEX=1, HEAD=8)]
    if pg == 7: P34 += [O('fixed', A_, 'fixed sl1', FIELD=7, LEN=3), O('fixed-long', A_, 'fixed sl1', FIELD=7, LEN=2, SHAPE=3)]
    for b, t in ((1, 'operand missing'), (2, 'unknown option'), (3, 'unknown long option'), (4, 'file that cannot be opened'), (6, 'option argument missing')):
        if b == 4 and pg == 1: continue
        P34.append(O('bad%d' % b, R_, t, FIELD=0, LEN=0, BAD=b, SHAPE=(b * 3 + pg) % 8))
    for s in range(0, 16 if pg == 7 else 8): P34.append(O('shape%d' % s, A_, 'spelling %d' % s, FIELD=0, LEN=0, SHAPE=s, TWICE=1))
    P34.append(O('defaults', A_, 'no options', FIELD=0, LEN=0, OPTS=0, TWICE=1))
prop('P34', P34, bounds='mt2, MTGP32dc, rmt64dc, tinymt32dc, sfmtdc, sfmtdcfixed, dSFMTdc: every numeral of up to 5 or 6 decimal (8 hexadecimal) digits and every numeral sharing its leading digits with 2^31, 2^32, 2^63, 2^64, with and without sign and leading zeros; options before or behind the operands, short, long, joined or separate; every earlier content of the options structure', outside='values that are not numerals (strto* semantics), file names other than one that can and one that cannot be opened, octal numerals')

# ---------------------------------------------------------------- P36 printed parameters
unit('mtgp_sha', 'h_gen.cpp', flags=['-DGEN=3', '-DUSE_SHA', '-I$REPO/samples'], native_src=LIB)
P36 = [G('printed-p%d' % ps, u, dict(e, CASE=12, R1=1, POS=ps), 'position %d' % ps, **kw) for u, pss, e, kw in (
    ('mt2', (0, 3, 14), {}, {}), ('rmt', (0, 2, 7), {}, {}), ('tinymt', (-1,), {}, {}), ('mtgp', (0, 3), {}, {}), ('mtgp_sha', (1, 4), {}, {}),
    ('sfmt', (0, 1), {'Db': 17, 'Dc': 0, 'Dd': 10, 'De': 1}, {}), ('sfmt', (2,), {'Db': 0, 'Dc': 3, 'Dd': 29, 'De': 2}, {}), ('dsfmt', (0, 1), {'Db': 18}, {}), ('dsfmt', (1,), {'MEXP': 1279, 'Db': 50}, {})) for ps in pss]
P36 += [G('printed-big', 'mt2', {'CASE': 12, 'POS': 50, 'MEXP': 2203, 'ID': 65535}), G('printed-noid', 'mt2', {'CASE': 12, 'POS': 1, 'ID': 0}), G('printed-nosha', 'mtgp_sha', {'CASE': 12, 'POS': 2, 'SHA': 0}), G('printed-id', 'tinymt', {'CASE': 12, 'ID': -1}), G('printed-id', 'mtgp', {'CASE': 12, 'ID': -1, 'MEXP': 3217, 'POS': 20})]
for pg, (nm, d, ex) in {1: ('s_equidist', 'sfmtdc', ['Annihilate.cpp']), 3: ('d_equidist', 'dSFMTdc', ['Annihilate.cpp']), 4: ('d_parity', 'dSFMTdc', ['Annihilate.cpp', 'calc_parity.cpp', 'printBinary.cpp']), 5: ('d_fixpoint', 'dSFMTdc', ['Annihilate.cpp', 'calc_fixpoint.cpp', 'printBinary.cpp']), 6: ('d_oldform', 'dSFMTdc', ['Annihilate.cpp', 'printBinary.cpp'])}.items():
    unit('read_' + nm, 'h_read.cpp', flags=['-DPROG=%d' % pg, '-I$REPO/samples', '-I$REPO/samples/' + d], native_src=LIB + ['$REPO/samples/%s/%s' % (d, x) for x in ex])
    P36 += [J('read-%s-%d%s' % (nm, m, 'f' if fl else ''), 'read_' + nm, dict({'SYM': m, 'FLAG': fl}, **({'MEXP': 1279, 'P': 7, 'S': 1, 'S2': 3, 'R': 5, 'R2': 1} if m == 12 else {})), 'printed line read back', reach=['done'], t=120, q=60) for m in ((3, 12, 48, 192) if pg == 1 else (3, 12, 48)) for fl in ((0, 1) if m == 3 and pg != 6 else (0,))]
_n = {}
for j in P36:
    k = j['name']; _n[k] = _n.get(k, 0) + 1
    if _n[k] > 1: j['name'] = k + '-%d' % _n[k]
prop('P36', P36, bounds='every drawn word, tempering word and parity word, every earlier memory content; decimal columns from fixed positions, shifts and identifiers (several per generator); MTGP with and without SHA-1; two arbitrary words at a time when a line is read back', outside='other decimal values; debug strings')

# ---------------------------------------------------------------- P37 period certification; P35 constant of the prefixed recursion
P37 = [G('certify-%d' % c.get('MEXP', 521), u, dict(c, CASE=13, POS=ps), w, reach=['done', 'certified', 'repaired']) for u, ps, c, w in (('sfmt', 1, {}, 'every state and parity vector'), ('sfmt', 0, {'MEXP': 1279}, '1279'), ('dsfmt', 1, {}, 'every state, parity vector and fixed point'))]
P37 += [G('certify-nofix', 'dsfmt', {'CASE': 13, 'POS': 0, 'NOFIX': 1}, 'without fixed point', reach=['done', 'certified', 'repaired']), G('certify-nofix-1279', 'dsfmt', {'CASE': 13, 'POS': 2, 'NOFIX': 1, 'MEXP': 1279}, '1279', reach=['done', 'certified', 'repaired'])]
prop('P37', P37, bounds='every state at the position seeding leaves, parity vector and fixed point; exponents 521 and 1279', outside='states at other positions of the ring')
PROPS['P35']['jobs'] += [G('constant-%d-%d' % (m, r), 'dsfmt', {'CASE': 14, 'MEXP': m, 'R1': r, 'POS': ps}, 'setConst, every state and parameter') for m, r, ps in ((521, 0, 0), (521, 2, 1), (1279, 1, 5))]

NOT_APPLICABLE = {'P11': 'the factor tables are constants: the claim has no inputs to quantify over, and primality of their up to 120-digit entries is a number-theoretic fact no bounded SMT query reaches'}
# ---------------------------------------------------------------- P38 search programs
P38 = []
for nm, pg in PROGS.items():
    unit('prog_' + nm, 'h_prog.cpp', flags=['-DPROG=%d' % pg, '-I$REPO/samples'] + {2: ['-I$REPO/samples/MTGPDC'], 3: ['-I$REPO/samples/RMT'], 4: ['-I$REPO/samples/TinyMTDC'], 5: ['-I$REPO/samples/sfmtdc'], 6: ['-I$REPO/samples/sfmtdc'], 7: ['-I$REPO/samples/dSFMTdc']}.get(pg, []), sym_flags=['-DNTL_MODEL_BITS=128'], native_src=LIB)
    def O(n, what='', nm=nm, **c): return J(nm + '-' + n, 'prog_' + nm, c, what, reach=['done'], t=200, q=150)
    ME = {2: 3217, 5: 607, 6: 607}.get(pg, 521)
    P38 += [O('two', 'two results', MEXP=ME, POLY=1), O('one', 'one result, another seed', COUNT=1, MEXP=ME, ID=5, SEED=99, POLY=1), O('fail', 'the second search fails', COUNT=3, FAIL=2, MEXP=ME, POLY=1)]
    if pg in (1, 4): P38 += [O('max', 'results above the bound are skipped', COUNT=2, MAXD=4, MEXP=ME, POLY=1), O('max0', 'a bound of zero', COUNT=1, MAXD=0, MEXP=ME, POLY=1)]
    if pg == 4: P38 += [O('end', 'the source is exhausted', COUNT=3, STOP=3, POLY=1), O('all', 'everything until the source is exhausted', COUNT=1, STOP=3, ALL=1, POLY=1)]
    if pg >= 5: P38 += [O('anni', 'no large component', COUNT=2, STOP=2, MEXP=ME), O('me1279', 'another exponent', COUNT=1, MEXP=1279)]
    if pg == 7: P38 += [O('fixed', 'fixed shift', COUNT=2, MEXP=ME, FIX=19)]
prop('P38', P38, bounds='mt2, MTGP32dc, rmt64dc, tinymt32dc, sfmtdc, sfmtdcfixed, dSFMTdc: 1 to 3 requested results, every tempering, parity and fixed-point word, every characteristic polynomial (tinymt32dc), every one-digit measurement; some seeds, exponents and identifiers; failing and exhausted searches', outside='verbose messages; shortfalls of two and more digits; the searches themselves (P16-P24, P35)')
# ---------------------------------------------------------------- P39 analysis programs
P39 = []
for pg, (nm, d) in {1: ('rmt-equidist', 'RMT'), 2: ('rmt-period', 'RMT'), 3: ('sfmt-equidist', 'sfmtdc'), 4: ('dsfmt-equidist', 'dSFMTdc'), 6: ('dsfmt-period', 'dSFMTdc')}.items():
    un = 'ana_' + nm.replace('-', '_'); unit(un, 'h_ana.cpp', flags=['-DPROG=%d' % pg, '-I$REPO/samples', '-I$REPO/samples/' + d], sym_flags=['-DNTL_MODEL_BITS=128'], native_src=LIB)
    def A(n, what='', nm=nm, un=un, **c): return J(nm + '-' + n, un, dict({'MEXP': 521} if nm[0] in 'rd' else {}, **c), what, reach=['done'], t=300, q=150)
    NW = 4 if pg <= 2 else 8 if pg == 3 else 6
    P39 += [A('word-%d' % i, 'one arbitrary word', SYM=1 << i) for i in range(NW)] + [dict(A('words-%d' % i, 'two arbitrary words', SYM=3 << i), thorough_only=True) for i in range(0, NW, 2)]
    if pg <= 4: P39 += [A('nofactor', 'no large component', SYM=1, FAIL=1)]
    if pg <= 4 and pg != 2: P39 += [A('other', 'another exponent', SYM=1, SEED=77, P=1, S=3, MEXP=1279)]
    if pg in (3, 4): P39 += [A('table', 'the table', SYM=1, VERBOSE=1)]
    if pg == 3: P39 += [A('reverse', 'from the lowest bit', SYM=1, REVERSE=1), A('reverse-table', 'from the lowest bit', SYM=0, REVERSE=1, VERBOSE=1)]
    if pg == 6: P39 += [A('low-%d-%d' % (st, lo), 'any output bit is the smallest', SYM=0, STAGE=st, LO=lo, HI=lo + 15, HB=hb) for st, hb in ((0, 0), (1, 51), (4, 103), (2, 64)) for lo in range(0, 128, 16)  if lo < 52 or 64 <= lo < 116] + [A('fail', 'annihilation fails', SYM=1, FAIL=3), A('high', 'the largest at the last bit', SYM=1, STAGE=2, HB=115, HI=8)]
prop('P39', P39, bounds='RMT calc_equidist and calc_period, sfmtdc calc_equidist, dSFMTdc calc_equidist and calc_period: every value of each printed word in turn (thorough: of two at a time), every one-digit shortfall, any output bit having the smallest degree; some decimal columns, exponents and seeds; missing large components', outside='other decimal columns; other profiles of k(v) and degrees; the calculations themselves (P13, P15, P17, P18, P35); the drivers test_linearity and test_period')
import os
if os.environ.get('VERIF_MODELTEST'):
    unit('fmt', 'h_fmt.cpp')
    prop('X01', [J('fmt', 'fmt', {}, 'text formatting and reading of the model against libstdc++ and glibc')], bounds='', outside='')
