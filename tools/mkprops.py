#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it after editing)."""
import json, os
I="include/MTToolBox/"
P=[]
def p(id,title,st,over,q,why,files,mech,obs=None,state=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
                        observe_at=obs or [],hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)

p("P01","Bit utilities compute their mathematical definition for every word",
  "For every input word of every supported width, counting one bits, reversing bit order, locating the least significant one bit (as a position counted from the most significant bit, -1 for zero), rounding down to a power of two, and reading or writing the bit at a position return exactly their mathematical definition; writing one bit changes no other bit.",
  ["inputs"],"all 2^16 / 2^32 / 2^64 words, all bit positions",
  "No test calls these helpers directly on more than the values the searches happen to produce; a wrong constant in one mask shows up only for some words.",
  [I+"util.hpp"],[("SWAR count_bit, reverse_bit, calc_1pos, floor2p, getBitOfPos, setBitOfPos",I+"util.hpp")],["return values"])
p("P02","Range reduction and table expansion match their definition",
  "Reducing a random word into an inclusive integer range always yields a value within the range, equal to start plus the word modulo the range size, and every value of the range is reachable. Expanding a table of basis words over GF(2) gives, at every index, exactly the exclusive-or of the basis words selected by that index's one bits (on top of what the table held), entry 0 untouched.",
  ["inputs"],"all words, all ranges with start<=end, all basis tables up to 16 entries",
  "get_range and fill_table are only used indirectly with a few ranges and tables.",
  [I+"util.hpp"],[("get_range, fill_table",I+"util.hpp")],["return values","table contents"])
p("P03","Conversions between words and GF(2) vectors are exact inverses",
  "Converting any machine word of 8, 16, 32 or 64 bits to a vector over GF(2) yields one entry per bit, most significant bit first, converting back returns the identical word, and converting a vector of 8 to 128 entries to a word of that width (including the 128-bit words of the SIMD samples) sets exactly the bits the vector names.",
  ["inputs"],"all words of 16/32/64/128 bits and all vectors of that length",
  "Only exercised inside the parity search on the states one seed produces.",
  [I+"util.hpp","samples/sfmtdc/w128.hpp","samples/dSFMTdc/w128.hpp"],[("toGF2Vec / fromGF2Vec",I+"util.hpp"),("w128 specialisations","samples/sfmtdc/w128.hpp")],["vector entries","returned word"])
p("P04","128-bit word type behaves as a 128-bit unsigned integer",
  "In both SIMD samples the 128-bit word type's shifts, and/or/xor/not, comparison, zero test, bit read/write, least-significant-one search and unit construction agree with 128-bit unsigned arithmetic for every operand and every shift amount from 0 to 127.",
  ["inputs"],"all pairs of 128-bit words, all shift counts 0..127, all bit positions",
  "The 128-bit type has no unit test of its own; only shift counts and masks occurring in one equidistribution run are reached.",
  ["samples/sfmtdc/w128.hpp","samples/dSFMTdc/w128.hpp"],[("w128_t operators","samples/sfmtdc/w128.hpp"),("w128_t operators","samples/dSFMTdc/w128.hpp")],["operator results"])
p("P05","MersenneTwister reproduces MT19937 for every 32-bit seed",
  "After construction or reseeding with any 32-bit seed, the 32-bit generator yields exactly the published MT19937 output sequence, however many outputs were drawn before the reseeding; the 64-bit seed overloads and plain generate/next calls agree with it.",
  ["inputs","histories"],"all 2^32 seeds, output runs past every internal wrap-around, reseeding after any such run",
  "test_mt compares 1000 outputs of one seed; wrap-around of the ring, reseeding in mid-stream and other seeds are never reached.",
  [I+"MersenneTwister.hpp"],[("seed, generate, 1024-word ring indexing",I+"MersenneTwister.hpp")],["generate()"])
p("P06","MersenneTwister array and string seeding reproduce init_by_array",
  "Seeding with any array of 32-bit words, or a string that encodes one, of length below, equal to or above the state size yields exactly the published MT19937 init_by_array stream, independent of the generator's earlier history.",
  ["inputs","histories"],"all key contents, key lengths 1..700, earlier history",
  "test_mt checks a single four-word key.",
  [I+"MersenneTwister.hpp"],[("seed_array, seed(string)",I+"MersenneTwister.hpp")],["generate()"])
p("P07","MersenneTwister64 reproduces MT19937-64 for every seed and key",
  "Seeded with any 64-bit value or any array of 64-bit keys, at construction or later, the 64-bit generator yields exactly the published MT19937-64 sequence.",
  ["inputs","histories"],"all 64-bit seeds, all key contents, key lengths 1..340, runs past the wrap-around",
  "No test instantiates the 64-bit generator.",
  [I+"MersenneTwister64.hpp"],[("seed, seed_array, generate",I+"MersenneTwister64.hpp")],["generate()"])
p("P08","Sequential parameter source enumerates every value once, then fails",
  "Started with a given seed and mask, the sequential parameter source yields the countdown from the seed xor-ed with the mask, so the successive values are pairwise distinct and cover everything down to zero; one request later and ever after it throws an underflow error. Reseeding restarts the countdown from the new seed.",
  ["inputs","histories"],"all seeds and masks, request sequences around exhaustion, reseeding",
  "Tests use it only as a source for searches that stop long before exhaustion.",
  [I+"Sequential.hpp"],[("status countdown, mask",I+"Sequential.hpp")],["getUint32/getUint64/next, exceptions"])
p("P09","Mersenne-exponent predicate is exact",
  "The Mersenne-exponent predicate answers true exactly for the exponents of Mersenne primes among all values up to 25964951 (the largest it lists), and above that never answers true for a value that is not the exponent of a known Mersenne prime.",
  ["inputs"],"all 2^32 degrees",
  "Tests ask it about a handful of exponents.",
  ["lib/period.cpp"],[("isMexp list","lib/period.cpp")],["return value"])
p("P10","Primitivity tests accept exactly the maximal-period polynomials",
  "Given the complete list of prime factors of 2^n-1, the primitivity test accepts a polynomial if and only if it has degree n, is irreducible, and x has multiplicative order exactly 2^n-1 modulo it; without a factor list it accepts exactly the irreducible polynomials whose degree is a Mersenne exponent. The string and big-integer factor list forms agree.",
  ["inputs"],"all GF(2) polynomials up to the bounded degree",
  "test_period checks a few polynomials; non-primitive irreducible polynomials and wrong-degree inputs are barely touched.",
  ["lib/period.cpp",I+"AlgorithmPrimitivity.hpp",I+"period.hpp"],[("isPrime overloads, isIrreducible","lib/period.cpp"),("AlgorithmPrimitivity::operator()",I+"AlgorithmPrimitivity.hpp")],["return value"])
p("P11","Shipped prime-factor tables are complete and prime",
  "Each shipped list for a supported degree n contains exactly the distinct prime factors of 2^n-1.",
  ["configurations"],"all shipped degrees",
  "The test checks divisibility only, and only for some of the degrees.",
  ["lib/AlgorithmPrimitivity.cpp"],[("prime_factors_2_*_1 tables","lib/AlgorithmPrimitivity.cpp")],["table contents"])
p("P12","Factor-of-degree test finds and keeps exactly the requested factor",
  "For a polynomial whose degree is less than twice a Mersenne exponent p, the factor-of-degree test answers true exactly when the polynomial, after removing factors of smaller degree, has an irreducible factor of degree p, and it then leaves exactly that factor in its argument.",
  ["inputs"],"all GF(2) polynomials of degree < 2p within the bounded degree, p in small Mersenne exponents",
  "Tests run it on polynomials of one or two generators.",
  ["lib/period.cpp"],[("hasFactorOfDegree","lib/period.cpp")],["return value","resulting polynomial"])
p("P13","Minimal polynomial is computed from exactly the generated bit sequence",
  "The computed minimal polynomial of a generator is the minimal polynomial of the sequence of the chosen output bit over twice the state size consecutive outputs, for every generator, initial state and bit position; the explicit state size overrides the generator's own.",
  ["inputs","configurations"],"all linear generators up to the bounded state size, all states, all bit positions",
  "Tests run it for three fixed generators from one seed.",
  [I+"period.hpp"],[("minpoly",I+"period.hpp")],["returned polynomial"])
p("P14","Characteristic polynomial and LCM annihilate every output sequence",
  "The least common multiple of two nonzero polynomials is divisible by both and divides every common multiple, and the characteristic polynomial computed for a reducible generator (started from the constant polynomial 1) annihilates the sequence of every output bit of that generator from its current state on, and no polynomial of smaller degree does.",
  ["inputs","configurations"],"all polynomial pairs of bounded degree; all small linear generators",
  "Tests look at one reducible generator.",
  [I+"util.hpp",I+"AlgorithmReducibleRecursionSearch.hpp"],[("LCM",I+"util.hpp"),("calcCharacteristicPolynomial",I+"AlgorithmReducibleRecursionSearch.hpp")],["returned polynomial"])
p("P15","Annihilation applies the polynomial to the state",
  "Annihilating a generator with a polynomial leaves it in the state given by that polynomial evaluated at the state transition and applied to the original state, so it is linear in the state, and annihilating by the characteristic polynomial gives the zero generator. The SIMD samples' own annihilation leaves a state killed by the retained irreducible factor.",
  ["inputs"],"all polynomials and states within the bounded dimension",
  "Only used inside one reducible test.",
  [I+"ReducibleGenerator.hpp","samples/sfmtdc/Annihilate.cpp","samples/dSFMTdc/Annihilate.cpp"],[("annihilate",I+"ReducibleGenerator.hpp")],["generator outputs afterwards"])
p("P16","Dimension of equidistribution equals its definition",
  "For every linear generator whose current state generates its state space, the reported dimension of equidistribution with v-bit accuracy is the largest k such that k consecutive v-bit outputs take every value over the state space; the all-v and single-v entry points agree, the reported sum is the total shortfall from the bound floor(n/v) (n the state size or the explicitly given exponent), and the generator passed in is unchanged.",
  ["inputs","configurations"],"all linear generators of the bounded state size with irreducible characteristic polynomial, all output maps, all v up to the bound",
  "test_equidist checks the tables of fixed generators; pivoting orders that other matrices cause are never seen.",
  [I+"AlgorithmEquidistribution.hpp"],[("pivoting lattice reduction: get_equidist_main, adjust, next_state",I+"AlgorithmEquidistribution.hpp")],["k(v) table and delta"])
p("P17","Reducible-generator equidistribution is that of the large component",
  "For a reducible generator and a chosen irreducible factor of the characteristic polynomial of its outputs, the reported dimensions of equidistribution are those of the subspace of states annihilated by that factor, measured against that factor's degree, and the generator passed in is unchanged.",
  ["inputs","configurations"],"all small reducible linear generators with coprime factors, all states with a nonzero component",
  "Only one reducible test generator is ever evaluated, from one seed.",
  [I+"AlgorithmReducibleEquidistribution.hpp"],[("annihilate then AlgorithmEquidistribution",I+"AlgorithmReducibleEquidistribution.hpp")],["k(v) table and delta"])
p("P18","SIMD equidistribution of 128-bit generators equals its definition",
  "For a linear generator of 128-bit blocks whose state generates its state space, the SFMT and dSFMT samples' equidistribution calculators return for each accuracy v the definition's value: the blocks are read as one sequence of elements (four of 32 bits, two of 64 bits, or two of 52 bits), and k(v) is the largest number such that k(v) consecutive elements, starting from any position within a block, jointly take every combination of v-bit values (leading bits, or trailing bits in least-significant-bit mode). The returned sum is the total shortfall from floor(exponent/v), and the generator passed in is unchanged.",
  ["inputs","configurations"],"all small block generators, all accuracies within the bound, all element sizes",
  "The sample calculators have no test at all.",
  ["samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp","samples/dSFMTdc/AlgorithmDSFMTEquidistribution.hpp"],[("calc_SIMD_equidistribution, simd_linear_generator_vector","samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp"),("calc_dSFMT_equidistribution","samples/dSFMTdc/AlgorithmDSFMTEquidistribution.hpp")],["k(v) and delta"])
p("P19","Partial-bit-pattern tempering search touches only the requested bits",
  "The partial bit pattern search changes only tempering bits inside the requested size and limit, never installs a pattern with equidistribution worse than the one it started the step from, searches every bit up to the limit, ends with a pattern whose total shortfall no other choice of the last step's bits improves (among equal ones a pattern with the most ones), and leaves the generator in normal (most significant bit first) output mode with its state unchanged.",
  ["inputs","configurations"],"all equidistribution responses of the generator to patterns, all search shapes within bounds, both output directions",
  "test_temper runs one generator with fixed arguments and prints the result.",
  [I+"AlgorithmPartialBitPattern.hpp"],[("make_temper_bit, search loop, setReverseOutput",I+"AlgorithmPartialBitPattern.hpp")],["installed tempering patterns"])
p("P20","Best-bits tempering search returns a minimal-shortfall parameter set",
  "At each stage the best-bits search keeps exactly the candidate tempering bit choices with the smallest shortfall at that accuracy, only sets the documented tempering bits (the stage's bit, and that bit moved down by the sums of the following shifts), and finally installs one of the surviving candidates, every candidate being measured with its tempering fully prepared, leaving the generator in normal output mode with its state unchanged.",
  ["inputs","configurations"],"all equidistribution responses to candidate patterns within bounded sizes",
  "test_temper runs one generator from one seed.",
  [I+"AlgorithmBestBits.hpp"],[("search, make_temper_bit, temper parameter buffer",I+"AlgorithmBestBits.hpp")],["installed patterns"])
p("P21","Recursion search returns only maximal-period generators and true counts",
  "A recursion search (over generators whose state size is a Mersenne exponent, or with a complete prime factor list) that reports success leaves the generator with parameters whose minimal polynomial has full degree and passes the primitivity test, and reports that polynomial; it tries parameters in order, stops at the first acceptable one and at most the requested number, and its counter equals the number tried.",
  ["inputs","histories"],"all sequences of candidate outcomes and all try limits within the bound",
  "test_search runs one success per seed; failure exits, limits and repeated starts are not checked.",
  [I+"AlgorithmRecursionSearch.hpp"],[("start, try limit, getCount, getMinPoly",I+"AlgorithmRecursionSearch.hpp")],["return value, count, polynomial, installed parameters"])
p("P22","Reducible recursion search reports a true large irreducible factor",
  "A reducible recursion search that reports success leaves parameters whose characteristic polynomial has an irreducible factor of the requested Mersenne-exponent degree and returns that factor and the characteristic polynomial; it never exceeds the requested number of tries and counts them correctly.",
  ["inputs","histories"],"all candidate outcomes and try limits within the bound",
  "Only the successful path of one generator is tested.",
  [I+"AlgorithmReducibleRecursionSearch.hpp"],[("start",I+"AlgorithmReducibleRecursionSearch.hpp")],["return value, count, factor"])
p("P23","Combined recursion-and-tempering search reports what it installed",
  "After a successful combined search the generator carries recursion parameters of maximal period and the tempering found by the given tempering algorithms, the reported polynomial and its weight are those of that recursion, the reported shortfall is the sum over all accuracies of the difference between the theoretical bound (from the state size, or for a reducible generator the Mersenne exponent) and the dimension of equidistribution of exactly the generator left behind; tempering algorithms run on the found recursion, least-significant-bit one first unless it is switched off, and a reducible generator is left in its large component with its parity vector installed.",
  ["inputs","histories","configurations"],"all outcomes of the recursion and tempering stages within the bound, for plain and reducible generators, with and without a low-bit tempering stage",
  "test_search_temper runs one seed and never compares the reported shortfall with an independent computation.",
  [I+"AlgorithmRecursionAndTempering.hpp",I+"AlgorithmReducibleRT.hpp"],[("search",I+"AlgorithmRecursionAndTempering.hpp"),("search",I+"AlgorithmReducibleRT.hpp")],["return value, delta, characteristic polynomial"])
p("P24","Parity vector certifies the large-period component",
  "For a generator whose parity word observes its state, the computed period-certification parity vector is nonzero, installed in the generator without disturbing its state, and orthogonal to the parity word of every state whose large-period component vanishes, so any state with odd parity has a nonzero component of the large period.",
  ["inputs","configurations"],"all small reducible linear generators, all states",
  "The parity search is never executed by the stable tests.",
  [I+"AlgorithmCalculateParity.hpp","samples/sfmtdc/calc_parity.cpp","samples/dSFMTdc/calc_parity.cpp"],[("searchParity, search_parity_check_vector",I+"AlgorithmCalculateParity.hpp")],["returned parity vector"])
p("P25","Linearity test accepts exactly the GF(2)-linear generators it samples",
  "The linearity test accepts every GF(2)-linear generator, and rejects a generator whenever, within the tested run of 100 outputs, the outputs of the sum of the two seeded states differ from the sum of their outputs or the zero state's output is not zero; the generator passed in is unchanged.",
  ["inputs","configurations"],"all states drawn, all small linear and affine generators",
  "test_linearity only shows acceptance on one good generator.",
  [I+"TestLinearity.hpp"],[("operator()",I+"TestLinearity.hpp")],["return value"])
p("P26","Every shipped generator is GF(2)-linear under addition",
  "For every shipped sample generator, adding two generators with the same parameters and then stepping gives the sum of stepping each, for every pair of states, every parameter set and any number of earlier steps of either operand.",
  ["inputs","histories","configurations"],"all states, all parameter values, rotations of the two operands' internal positions",
  "Linearity is sampled for two test generators only; operands at different internal positions are never combined.",
  ["samples/MTDC/mt1.cpp","samples/MTDC/mt2.cpp","samples/MTGPDC/MTGP32search.hpp","samples/RMT/rmt64.hpp","samples/TinyMTDC/tinymt32search.hpp","samples/sfmtdc/sfmtsearch.hpp","samples/dSFMTdc/dSFMTsearch.hpp","samples/XORSHIFT/xorshift-4.cpp"],[("add, generate","samples/*/*")],["generate() of the sum"])
p("P27","Sample generators follow their published recurrence and tempering",
  "For every parameter set, seed and step the shipped sample generators (MT, MTGP, RMT, TinyMT, SFMT, dSFMT, xorshift) produce exactly the outputs of the published recurrence, seeding and tempering of their family.",
  ["inputs","histories","configurations"],"all seeds and parameter values, runs past each ring wrap-around",
  "The samples' recurrences have no conformance test.",
  ["samples/MTDC/mt1.cpp","samples/MTDC/mt2.cpp","samples/MTGPDC/MTGP32search.hpp","samples/RMT/rmt64.hpp","samples/TinyMTDC/tinymt32search.hpp","samples/sfmtdc/sfmtsearch.hpp","samples/dSFMTdc/dSFMTsearch.hpp","samples/XORSHIFT/xorshift-4.cpp"],[("generate, next_state, temper, seed","samples/*/*")],["generate()"])
p("P28","Copies and clones behave identically and independently",
  "A copy or clone of any shipped generator continues with exactly the outputs and modes of the original, including output direction and tempering, and stepping, reseeding or retuning either one never affects the other.",
  ["inputs","histories","configurations"],"all states, parameters, modes and interleavings of a few steps on each",
  "Tests clone only inside algorithms and never compare clone with original.",
  ["samples/MTDC/mt2.cpp","samples/MTGPDC/MTGP32search.hpp","samples/RMT/rmt64.hpp","samples/TinyMTDC/tinymt32search.hpp","samples/sfmtdc/sfmtsearch.hpp","samples/dSFMTdc/dSFMTsearch.hpp"],[("copy constructor, clone","samples/*/*")],["generate() of both"])
p("P29","Zero state: setZero and isZero mean exactly the all-zero output",
  "Setting a shipped generator to zero makes every later output zero, and, for parameters whose state transition is invertible, the zero test answers true exactly when every future output of the generator is zero.",
  ["inputs","histories"],"all states at any internal position",
  "The zero test is only called at the end of the lattice reduction.",
  ["samples/MTDC/mt1.cpp","samples/MTDC/mt2.cpp","samples/MTGPDC/MTGP32search.hpp","samples/RMT/rmt64.hpp","samples/TinyMTDC/tinymt32search.hpp","samples/sfmtdc/sfmtsearch.hpp","samples/dSFMTdc/dSFMTsearch.hpp"],[("setZero, isZero","samples/*/*")],["isZero(), generate()"])
p("P30","Every seed gives a usable, history-independent state",
  "Seeding a shipped generator with any value (TinyMT, whose state words are the seed itself: any nonzero value) never yields the degenerate all-zero state, and the outputs after seeding depend only on the seed and parameters, not on what the generator did before. The xorshift128 generator's array seeding depends on the key elements: it is exactly the init_by_array scheme its source states, with the period certification applied to the result.",
  ["inputs","histories"],"all seeds, all earlier states, keys of bounded length",
  "Each test seeds once with one constant.",
  ["samples/XORSHIFT/xorshift128.c","samples/TinyMTDC/tinymt32search.hpp","samples/MTDC/mt2.cpp","samples/sfmtdc/sfmtsearch.hpp","samples/dSFMTdc/dSFMTsearch.hpp","samples/RMT/rmt64.hpp","samples/MTGPDC/MTGP32search.hpp"],[("seed, period certification","samples/*/*")],["generate() after seeding"])
p("P31","Limited-accuracy output is the leading (or reversed) bits of the full output",
  "Asking a shipped generator for v-bit output advances it exactly as a full output does and returns that output's v most significant bits with the remaining bits zero; in reversed-output mode the v bits are taken from the bit-reversed output, and leaving the mode restores the original behaviour.",
  ["inputs","configurations"],"all states and parameters, all v from 1 to the word size",
  "Never compared in any test.",
  ["samples/MTDC/mt1.cpp","samples/MTDC/mt2.cpp","samples/MTGPDC/MTGP32search.hpp","samples/RMT/rmt64.hpp","samples/TinyMTDC/tinymt32search.hpp"],[("generate(int), setReverseOutput","samples/*/*")],["generate(v)"])
p("P32","Search parameters and tempering patterns stay in their documented ranges",
  "Whatever numbers the parameter source delivers, the recursion parameters a shipped generator adopts are the documented function of those numbers and lie in the documented ranges, and installing a tempering pattern changes exactly the masked bits of the selected tempering parameter.",
  ["inputs","configurations"],"all parameter source values, all masks and patterns, all table indices",
  "Tests feed one random stream.",
  ["samples/MTDC/mt2.cpp","samples/MTGPDC/MTGP32search.hpp","samples/RMT/rmt64.hpp","samples/TinyMTDC/tinymt32search.hpp","samples/sfmtdc/sfmtsearch.hpp","samples/dSFMTdc/dSFMTsearch.hpp"],[("setUpParam, setTemperingPattern, setUpTempering","samples/*/*")],["parameters, generate()"])
p("P33","Unit-state enumeration spans the whole state space",
  "For every shipped reducible generator the unit states selectable by bit index are pairwise distinct, each has exactly one state bit set, and together they span the whole state, so the period-certification search sees every direction.",
  ["inputs","configurations"],"all bit indices below the state size",
  "setOneBit is never called by the stable tests.",
  ["samples/RMT/rmt64.hpp","samples/sfmtdc/sfmtsearch.hpp","samples/dSFMTdc/dSFMTsearch.hpp"],[("setOneBit","samples/*/*")],["state contents"])
p("P34","Command-line options are accepted exactly when valid",
  "Given option and operand values written as numbers, each parameter-search program accepts its command line exactly when the required operands are present, every option is known and has its argument, every number lies in its documented range (a supported Mersenne exponent, an identifier of 16 or 32 bits, a start not above the limit, otherwise whatever fits the field) and the output file can be opened; it then keeps every given value and the documented default of every omitted one, for every order and spelling of the options and whatever the options structure held before.",
  ["inputs"],"all numerals of bounded length, all option orders and spellings",
  "No test runs the option parsers.",
  ["samples/MTGPDC/parse_opt.cpp","samples/TinyMTDC/parse_opt.cpp","samples/MTDC/mt2.cpp","samples/RMT/rmt64dc.cpp","samples/sfmtdc/sfmtdc.cpp","samples/sfmtdc/sfmtdcfixed.cpp","samples/dSFMTdc/dSFMTdc.cpp"],[("parse_opt","samples/*/parse_opt.cpp")],["return value, options structure"])
p("P35","dSFMT fixed point solves the recursion of its constant",
  "For a dSFMT-type generator whose characteristic polynomial is an irreducible large factor times a coprime rest, the fixed-point calculation returns the parity word of the state u that the large factor annihilates and for which one linear step of u, added to u, equals the large-factor component of the constant state (so that u is fixed by the recursion with the constant); the generator passed in is unchanged. The constant state itself is what the exponent prefix contributes: stepping any prefixed state is stepping the unprefixed one and adding it.",
  ["inputs","configurations"],"all small block generators with coprime factorisation, all output maps",
  "The fixed point is computed by a program no test runs.",
  ["samples/dSFMTdc/calc_fixpoint.cpp"],[("calc_fixpoint","samples/dSFMTdc/calc_fixpoint.cpp")],["returned word"])
p("P36","Printed parameter lines identify the generator",
  "The parameter line a shipped generator prints has, in the order of its header's titles, one column per parameter holding exactly that parameter's value (exponent, identifier, positions and shifts in decimal, words in hexadecimal without loss; of RMT tempering masks at least the bits that affect outputs), whatever memory the generator was built in, and printing changes no later output. The SFMT and dSFMT programs that take such a line as operand read back the same parameters.",
  ["inputs","configurations"],"all parameter, tempering and parity words",
  "No test looks at the printed lines or feeds them back.",
  ["samples/MTDC/mt2.cpp","samples/MTGPDC/mtgp_param.h","samples/RMT/rmt64.hpp","samples/TinyMTDC/tinymt32search.hpp","samples/sfmtdc/sfmtsearch.hpp","samples/dSFMTdc/dSFMTsearch.hpp","samples/sfmtdc/calc_equidist.cpp","samples/dSFMTdc/calc_equidist.cpp","samples/dSFMTdc/calc_parity_main.cpp","samples/dSFMTdc/calc_fixpoint_main.cpp","samples/dSFMTdc/make_old_format.cpp"],[("getParamString, getHeaderString","samples/*/*"),("operand parsing","samples/sfmtdc/calc_equidist.cpp")],["printed line, parsed parameters"])
p("P37","Period certification repairs exactly what the parity vector demands",
  "For a freshly seeded SFMT or dSFMT state, whatever its content, parity vector and fixed point, period certification answers yes exactly when the inner product of the parity vector with the parity word (dSFMT: its difference from the fixed point, unless that is switched off) is odd and then changes nothing; otherwise it answers no and, unless the parity vector is zero, flips exactly the one bit the published procedure selects (SFMT and dSFMT: the lowest bit of the parity vector, dSFMT looking at the second word first), after which the check holds.",
  ["inputs","configurations"],"all states, parity vectors and fixed points",
  "No stable test calls period certification.",
  ["samples/sfmtdc/sfmtsearch.hpp","samples/dSFMTdc/dSFMTsearch.hpp"],[("periodCertification","samples/sfmtdc/sfmtsearch.hpp"),("periodCertification","samples/dSFMTdc/dSFMTsearch.hpp")],["return value, state"])
p("P38","Search programs print exactly the requested results, each one as found",
  "The seven search programs (mt2, MTGP32dc, rmt64dc, tinymt32dc, sfmtdc, sfmtdcfixed, dSFMTdc) print, for valid arguments, their header once and then exactly the requested number of lines: one per successful search whose shortfall does not exceed the given bound, in order, holding the parameters, tempering, parity and fixed-point words the search left in the generator, the characteristic polynomial where it is printed, and the weight and shortfalls measured for that very generator (sfmtdc: 32-, 64- and 128-bit measurements in that order, with matching element sizes). Parameters come from the documented source started from the given seed (MTGP32dc: restarted for each id, ids increasing by one; tinymt32dc: the integers from the given start). dSFMTdc measures the annihilated generator, with the fixed point set. When a search fails or the source ends, what was found before is printed and nothing after it.",
  ["inputs","configurations"],"all found parameters and measurements",
  "No test runs a search program or looks at what it prints.",
  ["samples/MTDC/mt2.cpp","samples/MTGPDC/MTGP32dc.cpp","samples/RMT/rmt64dc.cpp","samples/TinyMTDC/tinymt32dc.cpp","samples/sfmtdc/sfmtdc.cpp","samples/sfmtdc/sfmtdcfixed.cpp","samples/dSFMTdc/dSFMTdc.cpp"],[("main","samples/MTDC/mt2.cpp"),("indexed_search","samples/MTGPDC/MTGP32dc.cpp"),("search","samples/RMT/rmt64dc.cpp"),("search, toString","samples/TinyMTDC/tinymt32dc.cpp"),("search","samples/sfmtdc/sfmtdc.cpp"),("search","samples/sfmtdc/sfmtdcfixed.cpp"),("search","samples/dSFMTdc/dSFMTdc.cpp")],["standard output, exit status"])
p("P39","Analysis programs report on exactly the recursion they are given",
  "Given a printed parameter line, the RMT, sfmtdc and dSFMTdc calc_equidist programs and the RMT and dSFMTdc calc_period programs build the generator with exactly those parameters (and print them back), seed it deterministically (RMT: 1234; dSFMTdc calc_period: 1; the others from -s, the rest of the seed word zero), remove everything but the component of degree mexp by annihilating with characteristic polynomial / factor, and print the results measured for that generator: shortfalls in the announced order with matching element sizes (sfmtdc: 32, 64, 128 bits; with -r all from the lowest bit), the k(v) and d(v) = floor(mexp/v) - k(v) tables, or the smallest and largest degree over all output bits of both elements before and after annihilation in every start and weight mode, in order. Without a component of that degree they print no measurement and exit nonzero.",
  ["inputs","configurations"],"all parameters and measurements",
  "No test runs an analysis program or looks at what it prints.",
  ["samples/RMT/calc_equidist.cpp","samples/RMT/calc_period.cpp","samples/sfmtdc/calc_equidist.cpp","samples/dSFMTdc/calc_equidist.cpp","samples/dSFMTdc/calc_period.cpp"],[("main","samples/RMT/calc_equidist.cpp"),("main","samples/RMT/calc_period.cpp"),("main","samples/sfmtdc/calc_equidist.cpp"),("main","samples/dSFMTdc/calc_equidist.cpp"),("main, min_max_poly","samples/dSFMTdc/calc_period.cpp")],["standard output, exit status"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
