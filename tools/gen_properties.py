#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as a script so that the statements stay in one readable place)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],
        observe_at=list(observe),hook_needed=None)))

p("C01","Parsing a valid numeric literal yields exactly the number written",
 "Every literal made of an optional sign, digits with at most one decimal point, and an optional exponent between -30 and 65, whose positional digits number at most 65, is accepted, and the resulting decimal equals the number written, with as many fractional digits as the literal has after the exponent is applied. This holds however the literal is spelled (leading zeros, leading or trailing point, plus sign, e or E, zero-padded exponent), through every parsing entry point, and whatever value the destination held before when a reset is requested.",
 ["inputs"],"all literals of the accepted grammar with up to 65 digits, in all spellings, parsed through FromStr, from_ascii_str and from_bytes_str (reset on any previous value, or no reset on a fresh zero)",
 "The tests parse about sixty hand-picked literals and mostly check only is_ok; digit counts at each 9-digit group boundary, every exponent/point position and reuse of a dirty destination are a product space they sample at a handful of points.",
 ["src/serde.rs"],[("single pass scan, exponent folding, digit packing into 9-digit units","src/serde.rs from_bytes_str")],
 [("lsu","least-significant-first base-1e9 units","src/decimal.rs")],["to_string(-1)","frac()","comparison with other constructions"])

p("C02","Parsing is total: anything that is not a valid literal is rejected",
 "For every byte string, parsing terminates without panicking; it fails with the conversion-syntax error for everything outside the literal grammar, for exponents outside -30..65 and for numbers that need more than 65 digits (integral digits without leading zeros plus fractional digits), and never yields a value for such input. After a failed parse the destination is zero if a reset was requested and otherwise holds exactly what it held before.",
 ["inputs"],"all byte strings, including non-UTF-8, arbitrarily long digit or exponent runs and single-edit mutations of valid literals",
 "The tests try 18 malformed strings; the input space is all byte strings, and long digit runs, overflowing exponents and near-valid strings are not represented.",
 ["src/serde.rs","src/error.rs"],[("syntax scan and limit checks","src/serde.rs from_bytes_str")],[],["Result of from_bytes_str/from_ascii_str/FromStr","destination after Err"])

p("C03","The default text form is the exact canonical decimal numeral",
 "Formatting a decimal with all its fractional digits gives the exact value: a minus sign only for negative values, the integral part without superfluous leading zeros (a single 0 if it is zero), and, if the scale is positive, a point followed by exactly scale-many digits. Appending the same text to a buffer appends precisely those ASCII bytes and leaves the earlier contents untouched.",
 ["inputs","histories"],"every decimal value however it was produced (parsed in any spelling, converted from an integer, or computed), every 3-digit group in every position",
 "The tests print about thirty values; the renderer is table driven (1000 entries, three positions per 9-digit unit, leading-zero elimination state), which only systematic enumeration and generation exercise.",
 ["src/serde.rs","src/utils.rs"],[("3-digit table rendering","src/utils.rs d3_to_str, BIN2CHAR"),("fraction rendering","src/serde.rs append_frac")],[],["to_string(-1)","append_str_buf"])

p("C04","Formatting to a requested number of fractional digits truncates or pads",
 "Formatting with a non-negative number of fractional digits k gives the canonical integral part followed, when k > 0, by a point and exactly k digits, namely the first k fractional digits of the value with zeros supplied beyond its scale. The sign of a negative value is kept, no rounding takes place, nothing outside those digits changes, and the decimal itself is not modified.",
 ["inputs"],"every decimal value and every requested digit count k from 0 to well past its own scale and capacity",
 "The tests fix 18 (value, k) pairs; correctness depends on k relative to the 3-digit group, the 9-digit unit, the scale and the unit-rounded scale, and on which units are zero.",
 ["src/serde.rs","src/utils.rs"],[("truncating/padding fraction writer","src/serde.rs append_str_buf, append_frac")],[],["to_string(k)","append_str_buf(buf,k)"])

p("C05","Text round trip preserves value and scale",
 "Formatting any decimal of at most 65 digits with all its fractional digits and parsing the text back gives a decimal that compares equal, has the same scale and sign, and formats to the same text. This holds for parsed values, converted integers and results of arithmetic and rounding alike.",
 ["inputs","histories"],"all decimals reachable through parsing, integer conversion, arithmetic and rounding whose text has at most 65 digits",
 "No existing test parses what it printed from a computed value; the property relates two independent code paths over all reachable internal layouts.",
 ["src/serde.rs"],[("parser","src/serde.rs from_bytes_str"),("renderer","src/serde.rs append_str_buf")],[],["parse(to_string(-1))"])

p("C06","Addition and subtraction are exact",
 "The sum and the difference of two decimals equal the mathematically exact result, with the larger of the two scales (when one operand is zero the result takes the other operand's scale). The only alternative outcome is the overflow error, allowed only when operands or result, aligned at that scale, need more than nine groups of nine digits, and mandatory when the result itself does.",
 ["inputs","histories"],"all pairs of decimals, of any sign, size, scale and origin, including carry and borrow chains through every group and full-capacity operands",
 "The tests add and subtract 27 and 29 short pairs; no operand uses more than three of the nine groups, so carry chains, alignment extremes and capacity limits are never reached.",
 ["src/arith.rs"],[("three-segment addition with carry","src/arith.rs add_abs"),("subtraction with borrow and complement","src/arith.rs sub_abs"),("sign dispatch","src/arith.rs add_to, sub_to")],[],["add_to","sub_to","+","-"])

p("C07","Multiplication is exact up to documented truncation of the fraction",
 "The product of two decimals is the exact product, at the sum of both scales, whenever that scale fits in 36 fractional digits and in the 9-digit groups, out of nine, that remain after those needed for the operands' integral digits together; otherwise it is the exact product truncated toward zero at the largest whole-group scale that fits. The overflow error is returned only when the operands' integral digits together exceed 81, and always when the product's integral part does; multiplying by zero gives zero.",
 ["inputs","histories"],"all pairs of decimals of any sign, size, scale and origin, including products of products and operands at full capacity",
 "The tests multiply 25 short pairs, all without truncation or overflow; partial products across all groups, truncation and capacity limits are untested.",
 ["src/arith.rs"],[("schoolbook multiplication with unit shift","src/arith.rs mul_abs")],[],["mul_to","*"])

p("C08","Division yields the quotient truncated at the guaranteed scale",
 "For a non-zero divisor the quotient is the exact quotient truncated toward zero at the scale that covers both operands' fractions (each rounded up to whole 9-digit groups) or the sum of their scales plus the requested extra digits, whichever is more, rounded up to whole groups and limited to 36 digits and to the capacity left by the integral part. A zero divisor always gives the division-by-zero error, a zero dividend gives zero, and the overflow error occurs only when the quotient's integral part has more than 81 digits.",
 ["inputs","histories"],"all pairs of decimals, all extra-precision arguments, with single- and multi-group divisors and dividends placed at, just below and just above multiples of the divisor",
 "Long division errs only for rare operand patterns (trial-digit correction and add-back, probability around 1e-9 for random operands) and at unit alignments the ~100 sampled pairs do not contain.",
 ["src/arith.rs","src/utils.rs"],[("short division and Knuth algorithm D","src/arith.rs div_abs"),("leading digit and unit comparison helpers","src/utils.rs unit_leading_zeroes, units_greater_equal")],[],["div_to","/"])

p("C09","Remainder is exact, smaller than the divisor, with the dividend's sign",
 "For a non-zero divisor the remainder equals the dividend minus the divisor times the quotient truncated to an integer, exactly; it is smaller in magnitude than the divisor, is zero or has the dividend's sign, does not depend on the divisor's sign, and has the larger of the two scales unless it is zero. A zero divisor always gives the division-by-zero error and no other failure is possible.",
 ["inputs","histories"],"all pairs of decimals, with single- and multi-group divisors, mixed scales and dividends at, just below and just above multiples of the divisor",
 "As for division: trial-digit correction, add-back and unit alignment depend on rare operand patterns that the ~90 sampled pairs do not contain.",
 ["src/arith.rs"],[("short division and Knuth algorithm D with denormalisation","src/arith.rs rem_abs")],[],["rem_to","%"])

p("C10","Arithmetic never crashes and fails only for the stated reasons",
 "Every addition, subtraction, multiplication, division and remainder of any two decimals, of whatever size and origin, terminates without panicking and reports failure only as division-by-zero (exactly for a zero divisor) or overflow (only when the operands or the result exceed the nine-group capacity). The operator forms panic exactly when the corresponding fallible form reports an error, and a failed operation leaves both operands usable and unchanged.",
 ["inputs","histories"],"all operand pairs reachable through the API, biased to extreme sizes (65-digit literals, 81-digit products, 65-digit fractions) and all extra-precision arguments",
 "Every existing arithmetic test expects success on small operands; neither an overflow nor a division by zero nor a full-width operand is ever tried.",
 ["src/arith.rs","src/error.rs"],[("error returns","src/arith.rs"),("operator wrappers","src/arith.rs impl Add/Sub/Mul/Div/Rem")],[],["Result of *_to","panic of operators"])

p("C11","Rounding is half away from zero at any position",
 "Rounding to k fractional digits (k may be negative, meaning tens, hundreds, ...) gives the multiple of 10^-k nearest to the value, ties going away from zero, and depends only on the value. The result has scale k (0 for negative k); asking for more digits than the value has leaves the value unchanged and only extends the scale. The scale is limited by the nine 9-digit groups, and results of more than 81 integral digits are excluded.",
 ["inputs","histories"],"every decimal value and every rounding position from far left of its first digit to far right of its last, including ties, near-ties and carry propagation through all groups",
 "The tests round about 110 short values; rounding at 9-digit boundaries left of the point, digits left of the leading digit, scale extension across groups of non-zero values and computed operands are not among them.",
 ["src/round.rs"],[("unit drop plus in-unit half-up with carry","src/round.rs round, round_to, round_half_up")],[],["round","round_to"])

p("C12","Equivalent call forms agree and destinations do not matter",
 "In-place and out-of-place rounding agree; the operators agree with the corresponding functions that write to a destination; the three parsing entry points agree; and formatting to a string agrees with appending to a buffer. Whatever a destination held before, the outcome is the same, and the operands are left unchanged.",
 ["inputs","histories"],"all operands, operations and previous destination contents (including full-width values and leftovers of failed operations)",
 "The tests always reuse short-lived destinations holding small values and never compare the forms on wide values, so a stale group or sign left in a reused destination would not show.",
 ["src/arith.rs","src/round.rs","src/serde.rs"],[("clearing of the destination","src/arith.rs, src/round.rs set_zero at entry"),("wrappers","src/arith.rs operators, src/serde.rs FromStr")],[],["add_to vs +","round vs round_to","from_* entry points","dirty destination"])

p("C13","Comparison is the numeric order, whatever the representation",
 "Equality and ordering of decimals agree with the numeric order of their values: a total order, independent of scale, trailing or leading zeros and of how each value was produced. All comparison operators, sorting, min and max are consistent with it.",
 ["inputs","histories"],"all pairs and triples of decimals in all representations, including equal values with different numbers of integral and fractional groups",
 "The test compares 31 pairs, all parsed from canonical literals; equal values with different numbers of groups, computed operands and differences in a single low group are unsampled.",
 ["src/cmp.rs"],[("unit-wise comparison from the top","src/cmp.rs cmp_abs_lsu"),("sign handling","src/cmp.rs Ord::cmp")],[],["cmp","partial_cmp","==","<","sort"])

p("C14","Hashing agrees with equality within one representation",
 "Two decimals that compare equal and occupy the same number of integral and of fractional 9-digit groups feed identical data to a hasher, however they were produced and whatever storage they were written into. Decimals with different values never feed identical data.",
 ["inputs","histories"],"all pairs of decimals reachable by any construction path, equal or different in any single digit or sign",
 "The test hashes two pairs of one-group literals; leftovers beyond the occupied groups, sign of zero and computed operands are not tried.",
 ["src/decimal.rs"],[("hash of sign, group counts and groups","src/decimal.rs impl Hash")],[],["Hash::hash with a recording hasher","HashMap lookup"])

p("C15","Conversion from 64-bit integers is exact",
 "Every signed or unsigned 64-bit integer converts to the decimal of exactly that value with scale 0, which prints as the integer prints, compares like the integer, equals the decimal parsed from its text, and converts back to the same integer.",
 ["inputs"],"all i64 and u64 values, biased to powers of 2, powers of 10 and group boundaries; ordering checked on pairs",
 "The tests convert 9 signed and 5 unsigned values.",
 ["src/decimal.rs"],[("base-1e9 splitting","src/decimal.rs From<u64>, From<i64>")],[],["From<i64>","From<u64>","as_i64","as_u64"])

p("C16","Conversion to 64-bit integers is range checked and rounds half away",
 "Converting to a signed or unsigned 64-bit integer succeeds exactly when the decimal's value lies between the smallest and largest value of the target type, and then yields the nearest integer with ties away from zero. Otherwise it fails with the exceeds-target-range error, and never wraps, panics or modifies the decimal.",
 ["inputs","histories"],"all decimals in all representations, concentrated around 0, the type limits, 9-digit group boundaries and rounding ties",
 "The tests convert ten in-range and three out-of-range literals per type; fractional values around the limits and computed or zero-padded representations are missing.",
 ["src/decimal.rs","src/round.rs","src/cmp.rs"],[("range comparison then rounding then recombination","src/decimal.rs as_i64, as_u64")],[],["as_i64","as_u64"])

p("C17","Zero has no sign and sign operations are exact",
 "No sequence of public operations produces a negative zero: whenever a value is zero it reports zero, is not negative, equals zero and prints without a minus sign. Setting the sign of a non-zero decimal changes only the sign, negating twice restores it, and resetting to zero or one gives exactly 0 or 1 from any previous state.",
 ["inputs","histories"],"all construction paths that can reach zero (literals such as -0.00, cancellation, underflowing products and quotients, rounding small negatives, sign setters) and all sign operations on all values",
 "No test forms a negative operand that becomes zero through parsing or rounding, and the sign setters have no test.",
 ["src/decimal.rs","src/serde.rs","src/round.rs","src/arith.rs"],[("sign bit in the integral digit count","src/decimal.rs set_neg, set_neg_and_check_zero, set_pos"),("zero test","src/decimal.rs is_zero")],[],["is_neg","is_zero","to_string","cmp"])

p("C18","Reported precision matches the value and stays within capacity",
 "The reported number of fractional digits of any decimal equals the number of fractional digits it prints; the reported number of integral digits is at least the number of significant integral digits of its value and never negative; the reported group counts are these digit counts divided by nine, rounded up; and together they never exceed nine groups. A freshly parsed literal reports exactly the digits written (after applying its exponent).",
 ["inputs","histories"],"every decimal reachable through parsing, integer conversion, arithmetic and rounding",
 "The tests print the reported precision but never assert it.",
 ["src/decimal.rs","src/arith.rs","src/round.rs","src/serde.rs"],[("intg/frac bookkeeping at the end of every operation","src/arith.rs, src/round.rs, src/serde.rs"),("div9 table","src/utils.rs")],[],["intg","frac","intg_units","frac_units"])

p("C19","Long computations agree with exact decimal arithmetic step by step",
 "Over any sequence of parses, conversions, arithmetic operations, roundings, sign changes and resets on a set of decimals, every intermediate value, scale, comparison, conversion and error equals what the exact rules give from the values and scales alone. No operation's outcome depends on how its operands were produced, and results of one operation are always valid operands for the next.",
 ["histories","programs"],"all finite operation sequences over a few registers with reused destinations",
 "Every existing test performs a single operation on freshly parsed operands; internal layouts left by one operation are never fed to the next.",
 ["src/arith.rs","src/round.rs","src/decimal.rs","src/serde.rs","src/cmp.rs"],[("normalisation at the end of each operation","src/arith.rs add_abs/sub_abs/mul_abs/div_abs/rem_abs, src/round.rs round_half_up")],[],["stateful model comparison after every step"])

p("C20","Arithmetic obeys the algebraic laws of exact decimals",
 "Addition and multiplication are commutative, a+b-b gives back a, a-b is the negation of b-a, the sign of a-b is the order of a and b, order is preserved by adding and reversed by negation, multiplication distributes over addition and is associative when nothing is truncated, and a equals b times the integral part of a/b plus a%b. Rounding is idempotent, monotone, symmetric in sign and moves a value by at most half a unit of the chosen position.",
 ["inputs","histories"],"all tuples of decimals for which the operations involved do not overflow or truncate",
 "Laws relate several operations over all operands; tests only compare single results with literals.",
 ["src/arith.rs","src/cmp.rs","src/round.rs"],[("all arithmetic kernels","src/arith.rs"),("comparison","src/cmp.rs")],[],["relations among public operations, no reference model"])

p("C21","Results do not depend on the build profile",
 "Every public operation gives the same outcome (value, scale, text, error or success) in builds with and without overflow checks and debug assertions. In particular no debug assertion or arithmetic check inside the library can fail on any input, and no optimised build silently wraps where a checked build would stop.",
 ["configurations","inputs"],"all operations on all inputs, in the debug-assertion and in the optimised configuration",
 "The tests run in one profile only and on inputs far from any internal limit.",
 ["src/arith.rs","src/serde.rs","src/round.rs","src/utils.rs"],[("internal debug assertions and i8/i32/i64 arithmetic","src/arith.rs mul_abs, div_abs, rem_abs; src/serde.rs from_bytes_str; src/utils.rs div9/mod9")],[],["transcript comparison between two builds"])

p("C22","Looking at or rounding a decimal never fails and never changes it",
 "Formatting with any number of digits, rounding at any position, comparing, hashing, cloning, converting to integers and asking for digit counts terminate without panicking for every decimal, and give the same answer each time they are asked. Observing a decimal (and rounding it into another one) leaves it exactly as it was, and a rounded result is itself an ordinary decimal that can be printed, compared and computed with. Only rounding results of more than 81 integral digits are excluded.",
 ["inputs","histories"],"every decimal of every origin; digit counts from the most negative to several thousand, rounding positions over the whole isize range",
 "The tests format and round short values at small digit counts; positions and counts at the limits of the narrow integer types used internally (i8 digit counts, isize positions) and full-width computed values are never tried.",
 ["src/serde.rs","src/round.rs","src/cmp.rs","src/decimal.rs","src/utils.rs"],[("digit count arithmetic in i8/isize and table look-ups","src/serde.rs append_str_buf, src/round.rs round/round_to, src/utils.rs div9/mod9")],[],["to_string","append_str_buf","round","round_to","cmp","hash","as_i64","as_u64","clone"])

p("C23","A failed operation leaves everything usable",
 "When an arithmetic operation or a parse fails, the error is reported through the result, the operands keep their values, and the destination holds a valid decimal: zero, or exactly what it held before. Everything done with that destination afterwards (printing, comparing, computing, rounding, converting, parsing into it, using it as destination again) behaves exactly as with a freshly made decimal of the same value.",
 ["histories","inputs"],"all failing operations (division by zero, overflow by size or alignment, rejected text with or without reset), destinations of any previous content, any operation afterwards, several failures in a row",
 "The tests never look at a destination after an error, and no arithmetic test produces an error at all.",
 ["src/arith.rs","src/serde.rs"],[("clearing of the destination before an error return","src/arith.rs add_abs, sub_abs, mul_abs, div_abs, rem_abs"),("no write before the syntax is accepted","src/serde.rs from_bytes_str")],[],["destination after Err, and later operations on it"])

p("C24","Sums and collections of decimals behave as for numbers",
 "The sum of any list of decimals is the exact sum, in whatever order and grouping it is added up, as long as no partial sum overflows, and subtracting all elements again gives zero. Sorting, deduplicating, minimum and maximum, ordered maps and sets and binary search over decimals work by numeric value whatever the representation of the keys, and hash maps and sets find every key through any equal decimal with the same group counts and never through a different value.",
 ["inputs","histories"],"all lists of decimals, all orders and groupings of summation, all keys and look-up values in all representations",
 "The tests never add more than two decimals and never put a decimal in a collection; transitivity of order and consistency of equality and hash matter only over three or more related values.",
 ["src/arith.rs","src/cmp.rs","src/decimal.rs"],[("addition kernels","src/arith.rs add_abs, sub_abs"),("ordering","src/cmp.rs Ord::cmp"),("hashing","src/decimal.rs impl Hash")],[],["running totals","sort","BTreeMap","BTreeSet","HashMap","HashSet","binary_search"])

p("C25","Asking for more digits only adds digits",
 "Formatting with more fractional digits, rounding to more digits than a decimal has, and dividing with a larger extra-precision argument never change a digit already given: the longer answer starts with the shorter one. The extra digits of a formatted or extended decimal continue its own digits and then zeros, a quotient has at least as many fractional digits as both scales and the extra digits together ask for (within 36 digits and the capacity left), and success or failure does not depend on the number of digits asked for.",
 ["inputs"],"all decimals and operand pairs, all pairs of digit counts and extra-precision arguments",
 "A relation between two calls with different arguments; the tests never vary the argument on one operand and use only the default extra precision.",
 ["src/serde.rs","src/round.rs","src/arith.rs"],[("truncating/padding fraction writer","src/serde.rs append_frac"),("scale extension","src/round.rs round, round_to"),("quotient scale","src/arith.rs div_abs")],[],["to_string(k) against to_string(k+j)","round beyond the scale","div_to with two extra-precision arguments"])

p("C26","Results do not depend on where digits fall in the internal groups",
 "Moving the decimal point of the operands moves the decimal point of the result and changes nothing else: order, sign, sum, difference and remainder of two decimals moved together, product and quotient of decimals moved separately (on the digits both results have), and rounding at the same digit. This holds for any distance, whether or not it is a multiple of the internal group size, wherever nothing overflows or is truncated.",
 ["inputs"],"all operand pairs, all exact moves of the decimal point by -36 to 36 places, by exponent or by multiplication",
 "The tests fix the position of the point; all group alignments of the same digits are never compared with each other.",
 ["src/arith.rs","src/cmp.rs","src/round.rs","src/serde.rs"],[("alignment by 9-digit groups","src/arith.rs add_abs, sub_abs, mul_abs, div_abs, rem_abs; src/cmp.rs cmp_abs_lsu; src/round.rs round_half_up")],[],["relations between results on shifted operands, no arithmetic model"])

p("C27","Small decimals behave like machine integers scaled by a power of ten",
 "For decimals of at most 18 digits, every operation agrees with 128-bit machine integer arithmetic on the scaled values: text, comparison, sum, difference, product, remainder, the integral part and leading fractional digits of the quotient, rounding at any digit, truncating output and integer conversion. None of these operations overflows or fails on such operands, except division and remainder by zero.",
 ["inputs"],"all pairs of decimals with at most 18 significant digits and scale 0 to 18, and rounding positions -20 to 19",
 "The tests compare about a hundred pairs per operation with hand-computed results; this relates every pair in the everyday range to an independent machine implementation.",
 ["src/arith.rs","src/cmp.rs","src/round.rs","src/serde.rs","src/decimal.rs"],[("all kernels on operands of one to four groups","src/arith.rs, src/round.rs, src/cmp.rs")],[],["all public operations against i128"])

p("C28","Operations depend on nothing but their operands",
 "Every operation is a function of its operands (and the destination where one is documented to matter): repeating it gives the same outcome, and interleaving it with any other operations on other decimals, in any order, or running it beside another thread, changes nothing. Decimals share no state: a clone is independent of its original, and nothing remembered from an earlier call influences a later one.",
 ["histories","schedules"],"all pairs of operation sequences, all interleavings at operation granularity, and two sequences on two threads",
 "Every existing test runs one sequence once on one thread; hidden state would show only in particular histories.",
 ["src/arith.rs","src/round.rs","src/serde.rs","src/decimal.rs","src/cmp.rs"],[("absence of static or thread-local state; full initialisation of destinations","all modules")],[],["transcripts of the same sequence alone, repeated, interleaved and concurrent"])

here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
