#!/usr/bin/env python3
"""writes /verif/properties.jsonl (the statements live here so they stay reviewable)"""
import json, os
A = 'include/AesiMultiprecision/Aeu.h'; S = 'include/AesiMultiprecision/Aesi.h'
P = []
def p(id, title, st, over, q, why, files, mech, obs):
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=q), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=obs, hook_needed=None)))
RND = 'The suite compares a few hundred random (mostly full-width) operands per width with GMP; it cannot reach every carry chain, boundary operand, operand type or aliasing pattern.'
p('C01', 'Unsigned addition, subtraction, negation and stepping are exact modulo 2^N',
  'For every N-bit unsigned number and every right operand (another number, the number itself, or any built-in unsigned value), +, +=, -, -=, unary minus, ++ and -- produce exactly the integer result reduced modulo 2^N. Compound forms return their left operand, prefix forms return the new value, postfix forms return the old value.',
  ['inputs'], 'all operand values, all built-in unsigned operand types, operand aliasing', RND, [A],
  [('addLine / makeComplement', A + ':addLine'), ('operator+=(Unsigned)', A), ('operator++/--', A)], ['blocks of the result read with getBlock'])
p('C02', 'Unsigned multiplication is exact modulo 2^N',
  'For every pair of N-bit unsigned numbers (including x *= x), and for every number and built-in unsigned factor of any width, * and *= produce exactly the integer product reduced modulo 2^N. The result does not depend on how many leading blocks of either operand are zero, nor on which operand is longer.',
  ['inputs'], 'all operand values and significant-length combinations, all built-in factor types', RND, [A],
  [('schoolbook block multiplication with carry', A + ':operator*='), ('length-ordered operand choice', A)], ['blocks of the result'])
p('C03', 'Unsigned division yields the Euclidean quotient and remainder',
  'For every dividend n and every non-zero divisor d, the quotient q and remainder r returned by /, %, /=, %= and both divide forms satisfy n = q*d + r with 0 <= r < d, and all forms agree.',
  ['inputs'], 'all dividends and non-zero divisors of the tested precisions, including equal, smaller and power-of-two divisors', RND, [A],
  [('shift-subtract long division', A + ':divide'), ('ratio shortcut for less/equal', A + ':divide')], ['quotient and remainder'])
p('C04', 'Bitwise operators act on every bit independently',
  'For all N-bit unsigned numbers a and b, ~a, a&b, a|b and a^b (and their assignment and built-in-operand forms) equal the bitwise operation applied to each of the N bits, with no effect between bit positions and built-in operands zero-extended.',
  ['inputs'], 'all operand values, each bit position', RND, [A], [('operator~ ^ & |', A)], ['blocks of the result'])
p('C05', 'Shifts equal multiplication or floor division by a power of two',
  'For every number x and every shift amount 0 <= s < N of any built-in unsigned type, x << s equals x*2^s modulo 2^N and x >> s equals floor(x / 2^s). A shift amount of N or more leaves the number unchanged, as documented.',
  ['inputs'], 'all numbers, every shift amount below N and all amounts at or beyond N', 'Tests pick random numbers and random shifts; block-aligned, one-off-aligned and extreme amounts for every value are not covered.', [A],
  [('block/bit split of the shift with masks', A + ':operator<<=, operator>>=')], ['blocks of the result'])
p('C06', 'Unsigned comparison is the numeric order',
  'For unsigned numbers of the same or of different precision, and for built-in unsigned operands, ==, !=, <, <=, >, >=, <=> and compareTo report exactly the numeric relation of the two values. They are therefore mutually consistent, antisymmetric and transitive.',
  ['inputs'], 'all pairs of values, mixed precisions, built-in operand types', RND, [A], [('compareTo overloads', A), ('operator<=> / operator==', A)], ['boolean / ordering results'])
p('C07', 'Bit, byte and block accessors read and write exactly one position',
  'After setting bit, byte or block i of a number, reading position i returns the value set and every other position is unchanged. An index at or beyond the end reads as zero and writing there changes nothing, for every index value.',
  ['inputs'], 'all numbers, all indices of size_t including far out of range, all values', 'Tests check in-range random positions; the first index past the end and huge indices are never tried with every accessor.', [A, S],
  [('setBit/getBit, setByte/getByte, setBlock/getBlock', A), ('forwarding accessors', S)], ['accessor results'])
p('C08', 'Size and parity queries describe the value exactly',
  'bitCount, byteCount and filledBlocksNumber equal the number of bits, bytes and 32-bit blocks needed for the value (0 for zero); isOdd, isEven and isZero report parity and zeroness; getBitness and totalBlocksNumber report the declared precision.',
  ['inputs'], 'all values, every position of the most significant bit', RND, [A, S], [('count loops', A + ':byteCount, bitCount, filledBlocksNumber')], ['query results'])
p('C09', 'Unsigned construction, casts, copy and swap preserve the value',
  'Constructing from any built-in unsigned value gives that value; integralCast gives the value modulo 2^w of the target type; precisionCast zero-extends or truncates modulo 2^M; copying preserves and swap exchanges the two values, also with itself.',
  ['inputs'], 'all values, all built-in integral types, widening and narrowing precisions', RND, [A], [('integral constructor', A), ('integralCast / precisionCast', A), ('swap', A)], ['value after conversion'])
p('C10', 'Signed addition, subtraction, negation and stepping are exact',
  'For all signed numbers whose exact result has magnitude below 2^N, +, +=, -, -=, unary minus, inverse, ++ and -- give exactly the integer result with the right sign, for any combination of signs, magnitudes, zero, and aliased operands. When the magnitude overflows it is reduced modulo 2^N.',
  ['inputs'], 'all magnitudes and sign combinations, aliased operands', RND, [S], [('sign case analysis over magnitude comparison', S + ':operator+=, operator-=')], ['sign queries and blocks'])
p('C11', 'Signed multiplication is exact with the product sign rule',
  'For all signed numbers and built-in integral factors (every value of every type, including the most negative), * and *= give the exact product when its magnitude is below 2^N, with sign the product of the signs; overflowing magnitudes are reduced modulo 2^N.',
  ['inputs'], 'all magnitudes, sign combinations, all built-in integral factor types and values', RND, [S], [('operator*= sign handling', S)], ['sign queries and blocks'])
p('C12', 'Signed division truncates toward zero and the remainder follows the dividend',
  'For every signed n and non-zero signed or built-in integral d, /, %, /=, %= and divide agree on the quotient truncated toward zero and on r = n - q*d, with |r| < |d| and r zero or of the same sign as n.',
  ['inputs'], 'all dividends, all non-zero divisors of either sign, all built-in integral divisor types and values', 'Sign combinations are sampled with object operands only; negative moduli and built-in divisors at the type limits are not compared with an oracle.', [S],
  [('operator/=, operator%=, divide', S)], ['quotient, remainder'])
p('C13', 'Signed comparison is the numeric order',
  'For signed numbers of the same or different precision and for every value of every built-in integral type, all comparison operators, <=> and compareTo report exactly the numeric relation of the two values.',
  ['inputs'], 'all pairs, all signs, mixed precisions both ways, all built-in values', RND, [S], [('compareTo overloads', S)], ['ordering results'])
p('C14', 'Zero has a single representation in signed numbers',
  'After any sequence of public operations other than the raw setBit, setByte and setBlock (documented not to affect the sign), a signed number is zero in value exactly when isZero() is true, exactly one of isZero/isPositive/isNegative holds, and every other query (parity, counts, bits, unsigned cast, printing, comparison) then sees magnitude zero.',
  ['inputs', 'histories'], 'all operations that can produce a zero magnitude, all operand values leading there', 'Tests look at the sign or at the printed value after cancellation but never at the remaining magnitude, and never continue computing from it.', [S],
  [('sign member kept in step with the magnitude', S)], ['isZero/isPositive/isNegative against magnitude queries'])
p('C15', 'Signed construction and casts preserve the value',
  'Constructing or assigning from any built-in integral value, including the most negative of each type, or from an unsigned number gives that value; integralCast to a signed target returns the value modulo 2^w, and to an unsigned target that of the magnitude; precisionCast keeps sign and value when they fit; unsignedCast returns the magnitude; swap exchanges values.',
  ['inputs'], 'all built-in values, all magnitudes and signs, widening and narrowing', RND, [S], [('integral constructor', S), ('integralCast / precisionCast / unsignedCast', S)], ['value after conversion'])
p('C16', 'Parsing a numeral yields its value',
  'Constructing from decimal text, or 0b/0o/0x-prefixed binary, octal or hexadecimal text of either letter case, of char or wchar_t, given as literal, string, view or pointer with size, yields the denoted integer modulo 2^N; for signed numbers a leading minus negates. The constructor reads no character outside the given range.',
  ['inputs'], 'all digit strings of every length, all prefixes and both character types', 'Tests feed GMP-printed random numerals of a few lengths.', [A, S], [('digit-accumulating constructor', A), ('traverseDashes', S)], ['value of the constructed number'])
p('C17', 'getString writes the canonical numeral',
  'For every value and base 2, 8, 10 or 16 and a sufficiently large buffer, getString writes the numeral without leading zeros, most significant digit first, in the requested letter case, with the base prefix exactly when requested and a minus exactly for negative numbers, and the numeral parses back to the same value.',
  ['inputs'], 'all values, bases, cases, both character types', RND, [A, S], [('digit extraction loops', A + ':getString'), ('sign prefix', S + ':getString')], ['characters written'])
p('C18', 'getString never touches memory outside the given buffer',
  'For every value, base and every buffer size including 0 and sizes too small for the numeral, getString writes only within the first bufferSize characters of the buffer and returns a count not exceeding bufferSize.',
  ['inputs'], 'all values, bases and buffer sizes', 'Tests always pass buffers that are large enough.', [A, S], [('position < bufferSize guards', A + ':getString'), ('bufferSize adjustment for the sign', S)], ['bytes written, return value'])
p('C19', 'Stream insertion prints the numeral selected by the stream flags',
  'For every value, operator<< prints exactly the hexadecimal, octal or decimal numeral selected by the stream basefield, letter case by uppercase, prefixed 0x or 0o exactly when showbase is set and the base is not ten (a signed zero prints as a plain 0), with a leading minus exactly for negative numbers.',
  ['inputs'], 'all values, all base/case/showbase flag combinations, char and wchar_t streams', RND, [A, S], [('operator<<', A), ('operator<<', S)], ['characters inserted'])
p('C20', 'Stream insertion leaves the caller\'s stream formatting unchanged',
  'After inserting a number, the stream\'s format flags and fill character are what they were before, so inserting one number never changes how a following value is printed.',
  ['inputs', 'histories'], 'all values and all prior stream states', 'Tests use a fresh stream per number and look only at the text.', [A, S], [('os.flags / fill / right handling', A + ':operator<<')], ['stream flags and fill after insertion'])
p('C21', 'Binary write followed by binary read restores the number',
  'writeBinary emits exactly N/8 bytes, most significant block first in big-endian mode and last otherwise, and readBinary in the same mode restores the number; on a short stream the missing blocks read as zero.',
  ['inputs', 'fault_sequences'], 'all values, both orders, every number of blocks available before the stream fails', 'Round trips are sampled; truncated streams are not.', [A], [('readBinary / writeBinary block loops', A)], ['bytes written, value read'])
p('C22', 'gcd and lcm return the greatest common divisor and least common multiple',
  'For all numbers not both zero, gcd returns the greatest integer dividing both (and gcd(x,0) = x), in either argument order and in both overloads; for non-zero arguments lcm equals first*second/gcd modulo 2^N.',
  ['inputs'], 'all argument pairs', RND, [A], [('Euclid loops', A + ':gcd'), ('lcm', A)], ['returned value'])
p('C23', 'The extended gcd returns Bezout coefficients',
  'For all non-zero numbers a and b the coefficients x, y returned by the extended gcd satisfy a*x + b*y = gcd(a,b) modulo 2^N.',
  ['inputs'], 'all non-zero argument pairs', RND, [A], [('coefficient updates in the Euclid loop', A + ':gcd')], ['coefficients'])
p('C24', 'Modular exponentiation returns base^power mod modulo',
  'For every base, power (of the same or different precision) and non-zero modulo m with (m-1)^2 < 2^N, powm returns base^power mod m, including zero and one bases, zero power and modulo one, and the overloads agree.',
  ['inputs'], 'all bases, powers and admissible moduli', RND, [A], [('square-and-multiply', A + ':powm')], ['returned value'])
p('C25', 'squareRoot is the floor square root and power2 the exact power',
  'For every number n, squareRoot returns the largest r with r*r <= n; power2(k) returns 2^k for k < N and zero otherwise. The signed forms agree on positive numbers and return zero for zero and negative numbers.',
  ['inputs'], 'all numbers, all exponents', RND, [A, S], [('Newton iteration from a power of two not below the root', A + ':squareRoot'), ('power2', A)], ['returned value'])
p('C26', 'Public operations have no undefined behaviour on valid input',
  'No public operation on initialised numbers reads or writes outside its operands, overflows a signed built-in, shifts by the width or more, divides a built-in by zero, uses an uninitialised value, fails an internal assertion or falls off its end, whatever the operand values.',
  ['inputs'], 'all operand values of all public operations (documented division by zero excepted)', 'The sanitizer job runs the same sampled inputs as the tests.', [A, S], [('index and shift arithmetic', A), ('negation of built-ins', S)], ['every memory access, shift, signed operation and assertion'])
p('C27', 'Operations modify only the objects they are meant to modify',
  'Binary operators, queries, comparisons, conversions and number-theory functions leave every const operand bit-for-bit unchanged and write only to their result, their left operand in assignment forms, or their documented output arguments, including when operands alias.',
  ['inputs'], 'all operand values and aliasing patterns of every public operation', 'Tests inspect the result, not the operands.', [A, S], [('const references and local copies', A)], ['operand blocks after the call'])
p('C28', 'Arithmetic is reentrant: no hidden state, allocation or exceptions',
  'Numeric operations depend only on their arguments and write no global, static or thread-local state, allocate no memory and throw nothing, so concurrent operations on distinct objects never interfere.',
  ['schedules', 'programs'], 'all call graphs reachable from the public numeric API', 'No test runs operations concurrently.', [A, S], [('header-only pure functions on value arrays', A)], ['global effects, callees'])
p('C29', 'Value-type and interface contracts hold at compile time',
  'Numbers are trivially copyable and destructible standard-layout values of exactly N/8 bytes (plus one sign for signed), usable in constant expressions, and the operand combinations the declared operators offer compile while unsafe ones (precision not a multiple of 32, signed value into unsigned, implicit unsigned-to-signed) are rejected.',
  ['programs', 'configurations'], 'all user programs combining the public types', 'Tests only contain programs that compile and never ask for constant evaluation of most operations.', [A, S], [('requires clauses, constexpr, defaulted copies', A)], ['compilation result'])
p('C30', 'Unsafe mode changes nothing for valid arguments',
  'With AESI_UNSAFE defined, every operation called with in-range arguments gives the same result and has no undefined behaviour, exactly as in the default build.',
  ['configurations', 'inputs'], 'both configurations, all in-range arguments', 'The suite is built in the default mode only.', [A], [('#ifndef AESI_UNSAFE guards', A)], ['results under both configurations'])
p('C31', 'Device and pre-C++20 configurations compute the same results as the host build',
  'With the CUDA or pre-C++20 configuration selected, the interface compiles and comparison operators and arithmetic return the same results as the default configuration.',
  ['configurations', 'inputs'], 'the three comparison configurations, all operand values', 'CUDA sources are not built here and PRE_CPP_20 is never defined by the suite.', [A, S], [('old-style comparison operators', A), ('cuda::std aliases', A)], ['comparison results per configuration'])
p('C32', 'Every operation terminates within a bound set by the precision',
  'Every public operation terminates for all operand values; loops in arithmetic, shifts, comparison, division, conversion and printing run at most a number of iterations determined by the precision or the text length, and the iterative number-theory functions strictly decrease a non-negative quantity.',
  ['inputs'], 'all operand values', 'A hang on an unsampled operand would not be seen.', [A, S], [('counted loops', A), ('decreasing remainder in Euclid and Newton loops', A)], ['loop iteration bounds'])
p('C33', 'GMP values convert and compare exactly',
  'With GMP integration enabled, constructing from an mpz value gives its value (magnitude modulo 2^N, sign kept for signed numbers) and equality with a GMP expression holds exactly when the values are equal.',
  ['inputs', 'configurations'], 'all mpz values of any size', 'Tests convert random values of the matching size only.', [A, S], [('mpz_export based constructor', A), ('mpz constructor', S)], ['value after construction'])
p('C34', 'Compute time grows with precision no faster than documented',
  'Hexadecimal output and small-factor multiplication stay linear and the other operations at most quadratic in the number of blocks, within the constant factors shown in the benchmark plots.',
  ['inputs'], 'all operand values and precisions', 'Benchmarks sample time on one machine.', [A, S], [('hexadecimal fast path', A + ':getString'), ('linear small-factor path', A)], ['wall time'])
p('C35', 'CUDA atomic-like set and exchange transfer every block under concurrency',
  'When many device threads call tryAtomicSet or tryAtomicExchange on one shared number, each with an argument of its own, no block value is lost or invented: every call publishes each block of its argument in the matching block of the shared number by exactly one atomic exchange and makes no other write to it, and tryAtomicExchange leaves in its argument exactly the values it took out. For a single thread, set copies and exchange swaps the two numbers, signs included.',
  ['schedules'], 'all device thread interleavings', 'No device code runs in the suite.', [A, S], [('atomicExch per block', A + ':tryAtomicSet')], ['device memory'])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + '\n')
for x in P:
    assert len(x['title']) <= 80, x['id']
    assert x['statement'].count('. ') <= 2, x['id']
print(len(P))
