#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line). Edit here, then run."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

SF = "src/string_functions.rs"
EX = "src/extra_functions.rs"
DN = "src/date_time_numeric_functions.rs"
DX = "src/date_time_extra_functions.rs"
NOTRUN = "The integration tests that exercise this area need the rusty compiler and inkwell and do not run here; no running unit test touches it."

p("C01", "LEFT, RIGHT and MID return exactly the requested characters",
  "For every STRING (UTF-8) and WSTRING (UTF-16) s of n characters, LEFT(s,l), RIGHT(s,l) and MID(s,l,p) yield exactly the first l, the last l, and the l characters starting at 1-based position p, counted in characters (Unicode code points), never in bytes or code units. "
  "A negative length, a length reaching past the end, or a MID position outside 1..n is rejected (panic); every other request, including length 0, succeeds.",
  ["inputs"], "all valid UTF-8/UTF-16 strings, all 32-bit lengths and positions, both encodings",
  "84 unit tests sample a few fixed strings and arguments; they cannot cover mixes of 1- to 4-byte characters and surrogate pairs with every boundary of length and position.",
  [SF, "iec61131-st/string_functions.st"],
  [("LEFT_EXT__*/RIGHT_EXT__*/MID_EXT__*", SF), ("EncodedCharsIter decode/encode", SF)],
  ["return status and destination buffer of LEFT_EXT/RIGHT_EXT/MID_EXT for STRING and WSTRING"])

p("C02", "INSERT, DELETE and REPLACE edit exactly the addressed characters",
  "For every STRING/WSTRING s of n characters: INSERT(s,t,p) for 0<=p<=n is the first p characters of s, then t, then the rest; DELETE(s,l,p) and REPLACE(s,t,l,p) for 1<=p<=n, l>=0, p-1+l<=n drop, respectively replace by t, exactly the l characters starting at 1-based position p. "
  "Any other position or length, including every negative length, is rejected (panic) instead of producing a wrong string.",
  ["inputs"], "all valid strings, insertion/replacement texts, 32-bit positions and lengths, both encodings",
  "The unit tests use a handful of literal strings; negative lengths, boundary sums and multi-unit characters at the cut points are not quantified over.",
  [SF, "iec61131-st/string_functions.st"],
  [("INSERT_EXT__*/DELETE_EXT__*/REPLACE_EXT__*", SF)],
  ["return status and destination buffer of INSERT_EXT/DELETE_EXT/REPLACE_EXT for STRING and WSTRING"])

p("C03", "CONCAT joins all its arguments in order",
  "For any number (including zero) of valid STRING or WSTRING arguments of any length, CONCAT writes exactly the characters of all arguments in argument order followed by one terminator, through both of its entry points. "
  "No argument is skipped, repeated, reordered or modified, empty arguments contribute nothing, and the same string may be passed several times.",
  ["inputs"], "all argument counts and all argument strings, both encodings",
  "Tests use two to four fixed strings; argument count, empty arguments, repeated pointers and stale destinations are unbounded dimensions.",
  [SF, "iec61131-st/string_functions.st"],
  [("CONCAT__*, CONCAT_EXT__*", SF)],
  ["destination buffer of CONCAT__/CONCAT_EXT__ STRING and WSTRING"])

p("C04", "LEN counts characters and FIND locates the first occurrence",
  "LEN of any valid STRING/WSTRING is its number of characters (a multi-byte character or surrogate pair counts once). "
  "FIND(s,t) is the 1-based character position of the leftmost occurrence of t in s, and 0 exactly when t does not occur in s or either string is empty.",
  ["inputs"], "all pairs of valid strings in both encodings, with self-overlapping needles and needles sharing prefixes with the text",
  "Unit tests have a few literal haystacks; overlapping prefixes, matches after multi-unit characters and needles at the very end need generated pairs.",
  [SF], [("LEN__*, FIND__*", SF), ("get_null_terminated_len / ptr_to_slice", SF)],
  ["return value of LEN__/FIND__ STRING and WSTRING"])

p("C05", "String comparisons are the chained lexicographic order",
  "GT, GE, EQ, LE and LT over any list of two or more strings are TRUE exactly when every adjacent pair satisfies the relation under lexicographic comparison of code units (UTF-8 bytes / 16-bit units, a proper prefix being smaller), and NE is the negation of EQ on two strings. "
  "Fewer than two arguments are rejected (panic); the arguments are never modified.",
  ["inputs"], "all argument counts >= 0 and all strings, both encodings",
  "Unit tests compare a few fixed triples; a wrong pair late in a long chain, prefix ties and ordering above 0x7F/0xD800 need generated chains.",
  [SF], [("compare(), GT__ .. NE__", SF)],
  ["return value of GT/GE/EQ/LE/LT/NE for STRING and WSTRING"])

p("C06", "String results are terminated, confined, and never mix with stale data",
  "Every native function that produces a STRING or WSTRING writes, whatever the destination held before, exactly its result followed by one terminator starting at the destination address, writes nothing before it or after that terminator, never modifies its sources, reads no memory beyond the terminator of a source, and reports 0. "
  "(A conversion whose native destination type is a fixed 81-byte array may use all of that array.) A STRING source that is not valid UTF-8 is rejected (panic) by every function that has to decode it; in a WSTRING an unpaired surrogate counts as one character, and an editing function whose result would contain one is rejected.",
  ["inputs", "histories"], "all string-producing native functions, all inputs, all prior destination contents (also results of earlier calls reused as destination)",
  "Unit tests hand in fresh zeroed buffers, so a missing terminator, an overrun past it or an over-read of the source is invisible to them.",
  [SF, EX, "src/string_conversion.rs"],
  [("CharsEncoder::encode", SF), ("*_TO_STRING_EXT", EX), ("STRING_TO_WSTRING_EXT/WSTRING_TO_STRING_EXT", "src/string_conversion.rs")],
  ["destination, guard memory around it and source buffers of each call"])

p("C07", "STRING/WSTRING and CHAR/WCHAR conversions preserve the text",
  "Converting any valid STRING to WSTRING, or any valid WSTRING to STRING, yields the same sequence of Unicode characters, so converting there and back is the identity; an unpaired surrogate in a WSTRING becomes U+FFFD. "
  "CHAR_TO_WCHAR maps every byte to the code point of the same number, WCHAR_TO_CHAR maps every ASCII character to itself, and the two are inverse on ASCII.",
  ["inputs"], "all valid STRING and WSTRING values including characters outside the BMP; all 256 CHAR values",
  NOTRUN, ["src/string_conversion.rs", "iec61131-st/string_conversion.st"],
  [("WSTRING_TO_STRING_EXT, STRING_TO_WSTRING_EXT, WCHAR_TO_CHAR, CHAR_TO_WCHAR", "src/string_conversion.rs")],
  ["destination buffers and return values of the four native conversions"])

p("C08", "Integer text conversion is exact in both directions",
  "BYTE, LWORD and LINT values convert to their canonical decimal text, and STRING_TO_LINT/STRING_TO_DINT return the exact value of every decimal text, and of every 16#/0x/0X, 8#, 2#/0b/0B prefixed text, that lies in the target range (so text to integer inverts integer to text). "
  "Text that is not such a number, or whose value is outside the target range, is rejected (panic) rather than truncated, wrapped or partially parsed.",
  ["inputs"], "all 8-/64-bit values; all strings",
  "13 unit tests convert a few constants; range limits, prefixes with signs, case and malformed text form an unbounded input space.",
  [EX, "iec61131-st/extra_functions.st"],
  [("BYTE/LWORD/LINT_TO_STRING_EXT", EX), ("string_to_int", EX)],
  ["destination buffers; return values of STRING_TO_LINT/STRING_TO_DINT"])

p("C09", "REAL/LREAL text conversion is correctly rounded and always fits",
  "LREAL_TO_STRING and REAL_TO_STRING render every value, of either sign, with exactly 6 decimals of correct rounding: in positional notation when its magnitude is below 1e14 (LREAL) or 1e6 (REAL) and in scientific notation otherwise, so the text always fits a default 80-character STRING. "
  "STRING_TO_LREAL/STRING_TO_REAL return the nearest representable value of every decimal or scientific number text and reject (panic) text that is not a number.",
  ["inputs"], "all finite, infinite and NaN floating point values; all strings",
  "Unit tests format six constants around the threshold and parse three texts; large negative values, rounding ties and denormals are not reached.",
  [EX, "iec61131-st/extra_functions.st"],
  [("LREAL_TO_STRING_EXT, REAL_TO_STRING_EXT", EX), ("string_to_float", EX)],
  ["destination buffers; return values of STRING_TO_LREAL/STRING_TO_REAL"])

p("C10", "TIME, DATE, DT and TOD text is exact",
  "DATE_TO_STRING, DT_TO_STRING and TOD_TO_STRING render every 64-bit timestamp as its proleptic Gregorian UTC calendar date (YYYY-MM-DD), date and time joined by '-', and time of day (HH:MM:SS with a fraction of 0, 3, 6 or 9 digits, the fewest that lose nothing), also before 1970. "
  "TIME_TO_STRING renders a duration as its non-zero day/h/m/s/ms/us/ns components in descending order, preceded by '-' if negative, whose sum is exactly the duration.",
  ["inputs"], "all 64-bit nanosecond values for each of the four conversions",
  "Unit tests render one positive constant per conversion; negative values, leap years, zero components and sub-millisecond fractions are unbounded.",
  [EX, "iec61131-st/extra_functions.st"],
  [("TIME_TO_STRING_EXT/parse_timestamp, DT_TO_STRING_EXT, DATE_TO_STRING_EXT, TOD_TO_STRING_EXT", EX)],
  ["destination buffers of the four native conversions"])

p("C11", "Date/time addition and subtraction are exact or rejected",
  "ADD_TIME, ADD_TOD_TIME, ADD_DT_TIME, SUB_TIME, SUB_DATE_DATE, SUB_TOD_TIME, SUB_TOD_TOD, SUB_DT_TIME and SUB_DT_DT return the exact signed nanosecond sum or difference of their operands whenever it is representable in 64 bits. "
  "When it is not, the call is rejected (panic); no result is ever wrapped, saturated or rounded.",
  ["inputs"], "all pairs of 64-bit operands for all nine operations",
  NOTRUN, [DN, "iec61131-st/date_time_numeric_functions.st"],
  [("ADD_*/SUB_* over checked chrono arithmetic", DN)], ["return value or panic of each function"])

p("C12", "TIME multiplication and division by integers are exact or rejected",
  "MUL__TIME, MUL_TIME and MUL_LTIME with any SINT..LINT, USINT..ULINT factor return the exact product, and DIV__TIME, DIV_TIME and DIV_LTIME return the quotient truncated toward zero, whenever the mathematical result is representable in 64 bits. "
  "Otherwise, and for division by zero, the call is rejected (panic); all name variants and operand widths agree.",
  ["inputs"], "all 64-bit durations and all factors/divisors of the eight integer types, 48 entry points",
  NOTRUN, [DN, "iec61131-st/date_time_numeric_functions.st"],
  [("checked_mul_time_with_*_int, checked_div_time_by_*_int", DN)], ["return value or panic of each function"])

p("C13", "TIME multiplication and division by REAL/LREAL are accurate or rejected",
  "MUL*/DIV* of a duration by a REAL or LREAL return a duration that equals the mathematical product or quotient up to the rounding of the floating point operand type and of one nanosecond, with the sign given by both operands. "
  "A result outside the 64-bit range, a NaN operand, an infinite factor or a zero divisor is rejected (panic), never turned into a wrong duration.",
  ["inputs"], "all 64-bit durations and all REAL/LREAL values, 12 entry points",
  NOTRUN, [DN], [("checked_mul_time_with_f32/f64, checked_div_time_by_f32/f64", DN)], ["return value or panic of each function"])

p("C14", "CONCAT_DATE, CONCAT_TOD and CONCAT_DATE_TOD build the exact timestamp or reject",
  "CONCAT_DATE of every valid Gregorian year/month/day, CONCAT_TOD of every valid hour/minute/second/millisecond and CONCAT_DATE_TOD of a date and a time of day return the exact nanosecond timestamp, for every integer operand type and identically across types; of operands that are more than a midnight or less than 24 hours, CONCAT_DATE_TOD takes the calendar day of the one and the time of day of the other (floored, also before 1970). "
  "Every combination that is not a valid date (or is outside the representable range) or time of day (hour>23, minute>59, second>59, millisecond>999, anything negative) is rejected (panic), also when an operand exceeds 32 bits.",
  ["inputs"], "all operand values of the 6 and 8 integer types, all 64-bit date/time-of-day pairs",
  NOTRUN, [DX, "iec61131-st/date_time_extra_functions.st"],
  [("concat_date, concat_tod, CONCAT_DATE_TOD", DX)], ["return value or panic of each function"])

p("C15", "SPLIT_DATE, SPLIT_TOD, SPLIT_DT and DAY_OF_WEEK are exact",
  "For every 64-bit timestamp, SPLIT_DATE, SPLIT_TOD and SPLIT_DT store exactly the proleptic Gregorian year, month, day and the hour, minute, second, millisecond (floored, also before 1970) in their outputs, each in its own output and nothing else, and DAY_OF_WEEK returns 0 for Sunday to 6 for Saturday. "
  "Splitting inverts CONCAT_DATE/CONCAT_TOD, and all integer output types agree.",
  ["inputs"], "all 64-bit timestamps, 18 split entry points plus DAY_OF_WEEK",
  NOTRUN, [DX, "iec61131-st/date_time_extra_functions.st"],
  [("SPLIT_DATE__*, SPLIT_TOD__*, SPLIT_DT__*, DAY_OF_WEEK", DX)], ["out parameters, memory around them, return value"])

p("C16", "DT decomposes exactly into DATE and TOD",
  "For every 64-bit DT t, DT_TO_DATE(t) is the latest midnight not after t whenever that midnight is representable, DT_TO_TOD(t) is the non-negative time since that midnight (below 24h), and their sum is t. "
  "Recombining the two with CONCAT_DATE_TOD yields t again, for dates before and after 1970.",
  ["inputs"], "all 64-bit timestamps", NOTRUN,
  ["src/date_time_conversion.rs", DX, "iec61131-st/date_time_conversion.st"],
  [("DATE_AND_TIME_TO_DATE, DATE_AND_TIME_TO_TIME_OF_DAY", "src/date_time_conversion.rs")], ["return values"])

p("C17", "Counters count each rising edge exactly once and saturate",
  "Over every call history, CTU/CTD/CTUD of every integer type change CV by exactly one per rising edge of CU/CD seen while neither reset nor load is active, leave CV unchanged when both CTUD inputs rise together, set CV to 0 on R and to PV on LD (R winning), and never step past the limits of the type. "
  "(The count inputs are not sampled while a reset or load is active, so an input that rose meanwhile and is still TRUE afterwards counts once at the first call after it.) After every call Q/QU is TRUE exactly when CV>=PV and Q/QD of the down counters exactly when CV<=0; inputs and other outputs are left alone.",
  ["histories"], "all sequences of calls with arbitrary CU/CD/R/LD/PV per call, 18 block types, CV started anywhere",
  NOTRUN, ["src/counters.rs", "iec61131-st/counters.st"],
  [("ctu/ctd/ctud, Signal::rising_edge", "src/counters.rs, src/utils.rs")], ["CV, Q, QU, QD after each call"],
  [("internal / internal_up / internal_down", "edge memory of the count inputs", "src/counters.rs")])

TM = [("start time", "when the running pulse/delay began; all-zero memory means not started", "src/timers.rs"), ("input_edge", "previous IN", "src/timers.rs")]
p("C18", "TP emits one full, non-retriggerable pulse per rising edge",
  "Over every history of calls and clock advances starting from a zero-initialised instance, a rising edge of IN while no pulse is in progress starts a pulse with ET=0; while the time since then is at most PT the output Q is TRUE whatever IN does, and Q is FALSE at every other call. "
  "ET is min(PT, elapsed time) during a pulse, stays PT after it while IN stays TRUE, and is 0 once the pulse is over and IN has been seen FALSE; no call is ever rejected. Q and ET after one call belong to one and the same instant, even when time passes during the call.",
  ["histories", "schedules"], "all sequences of (advance clock, call with IN, time passing between the call's readings of the clock), all PT>=0 (changed only while no time is running), the aliases TP_TIME and TP_LTIME",
  NOTRUN + " Even those integration tests follow only three fixed call sequences.", ["src/timers.rs", "iec61131-st/timers.st"],
  [("TP, TimerParams", "src/timers.rs")], ["Q and ET after each call"], TM, "existing mock_time feature (project's own), no hook needed")
p("C19", "TON turns on only after IN has been TRUE for longer than PT",
  "Over every history of calls and clock advances starting from a zero-initialised instance, TON sets Q exactly when IN is TRUE and more than PT has elapsed since the call that saw its latest rising edge. "
  "ET is min(PT, elapsed time since that edge) while IN is TRUE and 0 while IN is FALSE. Q and ET after one call belong to one and the same instant, even when time passes during the call.",
  ["histories", "schedules"], "all sequences of (advance clock, call with IN, time passing between the call's readings of the clock), all PT>=0 (changed only while no time is running), the aliases TON_TIME and TON_LTIME",
  NOTRUN + " Even those integration tests follow only three fixed call sequences.", ["src/timers.rs", "iec61131-st/timers.st"],
  [("TON, TimerParams", "src/timers.rs")], ["Q and ET after each call"], TM, "existing mock_time feature (project's own), no hook needed")
p("C20", "TOF keeps the output on for PT after IN falls",
  "Over every history of calls and clock advances starting from a zero-initialised instance, TOF sets Q exactly when IN is TRUE or at most PT has elapsed since the call that saw the latest falling edge of IN. "
  "ET is 0 before the first falling edge and while IN is TRUE, and min(PT, elapsed time since the latest falling edge) otherwise. Q and ET after one call belong to one and the same instant, even when time passes during the call.",
  ["histories", "schedules"], "all sequences of (advance clock, call with IN, time passing between the call's readings of the clock), all PT>=0 (changed only while no time is running), the aliases TOF_TIME and TOF_LTIME",
  NOTRUN + " Even those integration tests follow only three fixed call sequences.", ["src/timers.rs", "iec61131-st/timers.st"],
  [("TOF, TimerParams", "src/timers.rs")], ["Q and ET after each call"], TM, "existing mock_time feature (project's own), no hook needed")

p("C21", "R_TRIG and F_TRIG fire exactly on edges",
  "Over every call history from a zero-initialised instance, R_TRIG sets Q exactly when CLK is TRUE and was FALSE at the previous call, and F_TRIG exactly when CLK is FALSE and was TRUE at the previous call (before the first call CLK counts as FALSE). "
  "Q is therefore TRUE for exactly one call per edge and CLK is never modified.",
  ["histories"], "all sequences of CLK values", NOTRUN + " The helper's unit tests check four fixed sequences.",
  ["src/flanks.rs", "src/utils.rs", "iec61131-st/flanks.st"], [("Signal::rising_edge/falling_edge", "src/utils.rs"), ("R_TRIG, F_TRIG", "src/flanks.rs")],
  ["Q after each call"], [("internal", "previous CLK", "src/flanks.rs")])
p("C22", "SR and RS latches hold, set and reset with the right dominance",
  "Over every call history, SR sets Q1 when S1 is TRUE (even if R is TRUE too), clears it when only R is TRUE, and otherwise holds it; RS clears Q1 when R1 is TRUE (even if S is TRUE too), sets it when only S is TRUE, and otherwise holds it. "
  "Inputs are never modified.",
  ["histories"], "all sequences of set/reset values and starting outputs", NOTRUN,
  ["src/bistable_functionblocks.rs", "iec61131-st/bistable_functionblocks.st"], [("SR, RS", "src/bistable_functionblocks.rs")], ["output after each call"])
p("C23", "Function block instances are independent, self-contained memory",
  "A call of any function block reads and writes only the memory of its own instance as declared in the ST library (inputs, outputs and internal state at the declared offsets and within the declared size), starts correctly from all-zero memory, and leaves its inputs unchanged. "
  "Interleaving calls of any number of instances of any block types, in any order, gives each instance exactly the outputs it would have produced alone, including after its memory was copied to another place.",
  ["histories", "programs"], "all interleavings of calls over arrays of adjacent instances of all 31 block types",
  "No test has two instances of a block or looks at memory around an instance; " + NOTRUN,
  ["src/counters.rs", "src/timers.rs", "src/flanks.rs", "src/bistable_functionblocks.rs", "iec61131-st/counters.st", "iec61131-st/timers.st", "iec61131-st/flanks.st", "iec61131-st/bistable_functionblocks.st"],
  [("repr(C) parameter structs mirroring the ST declarations", "src/counters.rs, src/timers.rs, src/flanks.rs, src/bistable_functionblocks.rs")], ["instance memory and guard memory around it after each call"])

p("C24", "MIN, MAX and LIMIT select the right operand",
  "MAX/MIN over any non-empty list of operands of any elementary type return the greatest/least operand in the order of that type (signed, unsigned, bit string, character, date/time, floating point), with the list of any length and order and with the list left unmodified. "
  "LIMIT(mn,in,mx) with mn<=mx returns in if it lies in [mn,mx], otherwise the violated bound; an empty list is rejected (panic).",
  ["inputs"], "all operand lists for the 21 elementary types; all (mn,in,mx) with mn<=mx",
  NOTRUN, ["src/types.rs", "iec61131-st/selectors.st"], [("define_int_type!/define_float_type!/define_order_type!, limit", "src/types.rs")], ["return values"])
p("C25", "Shifts and rotates follow bit-string semantics for every count",
  "For BYTE, WORD, DWORD and LWORD and every 32-bit count n, SHL and SHR move the bits by n positions filling with zeros (so the result is 0 once n reaches the width), and ROL and ROR rotate by n modulo the width. "
  "No count is rejected, ROL and ROR by the same count are inverse, and results do not depend on the build profile.",
  ["inputs", "configurations"], "all values, all 32-bit counts, four widths, debug and release builds",
  NOTRUN, ["src/bit_shift_functions.rs", "iec61131-st/bit_shift_functions.st"], [("SHL__*, SHR__*, ROL__*, ROR__*", "src/bit_shift_functions.rs")], ["return values"])
p("C26", "Endianness conversions reverse or keep exactly the bytes of the value",
  "On a little-endian host, TO_BIG_ENDIAN and FROM_LITTLE_ENDIAN of every integer, bit-string, WCHAR, DATE, TOD and DT value reverse its bytes (so TO_BIG_ENDIAN twice is the identity), while TO_LITTLE_ENDIAN and FROM_BIG_ENDIAN keep the value. "
  "All four keep every bit of a REAL or LREAL value (only a signalling NaN may turn quiet).",
  ["inputs"], "all values of the 13 integer-like types, all REAL/LREAL values, four operations",
  NOTRUN, ["src/endianness_conversion_functions.rs", "iec61131-st/endianness_conversion_functions.st"], [("define_endianness_for_int_types!", "src/endianness_conversion_functions.rs")], ["return values"])
p("C27", "Bit reinterpretation between DWORD/LWORD and REAL/LREAL is lossless",
  "DWORD_TO_REAL and LWORD_TO_LREAL return the IEEE-754 value with exactly the given bit pattern, REAL_TO_DWORD and LREAL_TO_LWORD return exactly the bit pattern of the value. "
  "Hence converting there and back is the identity on every bit pattern, including infinities, NaNs, denormals and negative zero.",
  ["inputs"], "all 2^32 / 2^64 bit patterns", NOTRUN, ["src/bit_num_conversion.rs", "iec61131-st/bit_num_conversion.st"],
  [("from_bits/to_bits", "src/bit_num_conversion.rs")], ["return values"])
p("C28", "IS_VALID and IS_VALID_BCD classify every value correctly",
  "IS_VALID of a REAL/LREAL is TRUE exactly for finite values (not for NaN of any payload or sign, nor either infinity). "
  "IS_VALID_BCD of a BYTE/WORD/DWORD/LWORD is TRUE exactly when every one of its 2/4/8/16 decimal nibbles is at most 9.",
  ["inputs"], "all bit patterns of REAL, LREAL, BYTE, WORD, DWORD, LWORD", NOTRUN,
  ["src/validation_functions.rs", "iec61131-st/validation_functions.st"], [("is_valid_bcd, IS_VALID__*", "src/validation_functions.rs")], ["return values"])
p("C29", "Arithmetic functions compute the mathematical function they name",
  "SQRT, LN, LOG, EXP, SIN, COS, TAN, ASIN, ACOS, ATAN, ATAN2 and EXPT return, for every REAL and LREAL argument, the mathematical value to within 4 units in the last place of the type, with the IEEE results for infinities, NaN and arguments outside the domain; SQRT is correctly rounded. "
  "ROUND returns the nearest integer with halves away from zero for every value, EXPT accepts DINT, REAL and LREAL exponents, and the exported constants equal pi, pi/2, pi/4 and e rounded to their type.",
  ["inputs"], "all REAL/LREAL arguments and all exponents of the six native EXPT variants",
  NOTRUN, ["src/arithmetic_functions.rs", "src/numerical_functions.rs", "iec61131-st/arithmetic_functions.st", "iec61131-st/numerical_functions.st"],
  [("f32/f64 intrinsics per function", "src/arithmetic_functions.rs"), ("ROUND__*", "src/numerical_functions.rs")], ["return values, exported constants"])
p("C30", "TIME() is the local time of day in nanoseconds",
  "At any instant and in any time zone, TIME() returns the number of nanoseconds since local midnight: a value in [0, 24h) that agrees with the system clock converted to the configured local time. "
  "With a controlled clock it equals seconds-since-midnight times 1e9 plus the sub-second nanoseconds, for every second of the day and across midnight.",
  ["inputs", "configurations"], "all clock values (mock clock) and a set of time zones with the real clock",
  "One unit test reads a fixed mock time.", [EX, "iec61131-st/extra_functions.st"], [("TIME", EX)], ["return value"])
p("C31", "Every external ST declaration is implemented natively with the same signature",
  "Every function and function block declared {external} in the ST library has an exported native symbol of the resolved name (for every concrete type a generic declaration offers natively) whose parameters and result agree in number, order, width and signedness with the declaration. "
  "Calling it through the declared signature with arbitrary values therefore passes every argument intact and yields a value of the declared type.",
  ["programs", "inputs"], "all external declarations in iec61131-st, with generated argument values of the declared types",
  "Nothing here compiles the ST library or links it to the native one; a renamed symbol or a swapped parameter passes every running test.",
  ["iec61131-st", "src"], [("#[no_mangle] extern functions paired by name with {external} declarations", "src/*.rs, iec61131-st/*.st")], ["exported symbols; calls through the declared signature"])
ST = "iec61131-st"
NOST = "The ST library needs the rusty compiler, which does not exist here; no running test executes a line of it."
p("C32", "Integer, bit-string, BOOL and CHAR conversions keep the value or its low bits",
  "For every value, each of the ST conversion functions X_TO_Y between the integer types, the bit-string types, BOOL and CHAR/WCHAR to bit strings returns the value unchanged if Y can hold it, otherwise its low bits (two's complement, sign- or zero-extended from the source type when Y is wider). "
  "X_TO_BOOL of a bit string is its lowest bit, LINT_TO_BOOL and DINT_TO_BOOL are TRUE for every non-zero value, and BOOL_TO_X is 0 or 1.",
  ["inputs", "programs"], "all values of all source types, all the conversion functions among 13 types",
  NOST, [f"{ST}/num_conversion.st", f"{ST}/bit_conversion.st", f"{ST}/bit_num_conversion.st", f"{ST}/extra_functions.st"],
  [("X_TO_Y functions (implicit conversion by assignment, or by way of a third type)", f"{ST}/*_conversion.st")], ["result of the ST function"])
p("C33", "Conversions between REAL/LREAL and integers round correctly",
  "REAL_TO_x and LREAL_TO_x return the nearest integer with halves away from zero, and TRUNC drops the fraction, for every argument whose result fits the target type; integers convert to the nearest REAL or LREAL (ties to even); LREAL_TO_REAL rounds once and REAL_TO_LREAL is exact. "
  "ABS returns the magnitude in the same type for every integer, REAL and LREAL argument whose magnitude is representable.",
  ["inputs"], "all REAL/LREAL values with a representable result, all integers of the eight types",
  NOST, [f"{ST}/num_conversion.st", f"{ST}/extra_functions.st", f"{ST}/numerical_functions.st", "src/numerical_functions.rs"],
  [("REAL_TO_*/LREAL_TO_* through ROUND", f"{ST}/num_conversion.st"), ("TRUNC, ABS", f"{ST}/numerical_functions.st")], ["result of the ST function"])
p("C34", "Conversions of dates and times keep the instant",
  "Conversions between the L and the plain forms of TIME, DATE, TOD and DT, and from or to LWORD, LINT and ULINT, keep the nanosecond count unchanged; DT_TO_DATE is midnight of the same day and DT_TO_TOD the time since that midnight for every instant, also before 1970. "
  "TIME_TO_LREAL is the nearest LREAL of the nanosecond count, LREAL_TO_TIME rounds to the nearest nanosecond, halves away from zero.",
  ["inputs"], "all 64-bit instants and durations, 62 conversion functions",
  NOST, [f"{ST}/date_time_conversion.st", f"{ST}/extra_functions.st", "src/date_time_conversion.rs"],
  [("X_TO_Y by assignment or native call", f"{ST}/date_time_conversion.st, {ST}/extra_functions.st"), ("DATE_AND_TIME_TO_DATE/TIME_OF_DAY", "src/date_time_conversion.rs")], ["result of the ST function"])
p("C35", "ST date and time functions compute what their native counterpart does",
  "Every ST function over dates and times that is defined by another one (ADD, SUB, MUL and DIV through their generic names, ADD_*/SUB_* of the L types, MUL_LTIME/DIV_LTIME, CONCAT_LTOD, CONCAT_DT, CONCAT_LDT, CONCAT_DATE_LTOD, SPLIT_LTOD, SPLIT_LDT) passes all its arguments in order and returns, writes to every output and rejects exactly what the native function of that operation does. "
  "CONCAT_DT and CONCAT_LDT combine the date and the time of day of all seven fields.",
  ["inputs", "programs"], "all argument values of all integer and REAL types offered",
  NOST, [f"{ST}/date_time_numeric_functions.st", f"{ST}/date_time_extra_functions.st"],
  [("wrappers named OP__T1__T2 and OP_L*", f"{ST}/date_time_numeric_functions.st, {ST}/date_time_extra_functions.st")], ["result and output variables of the ST function; rejection"])
p("C36", "ST string functions compute what their native counterpart does",
  "LEFT, RIGHT, MID, INSERT, DELETE, REPLACE and CONCAT called in ST, by generic or by typed name, for STRING and WSTRING, return the string the native function produces for the same arguments in the same order and reject what it rejects. "
  "STRING_GREATER, STRING_EQUAL, STRING_LESS and their WSTRING versions order their two arguments by characters (bytes, or UTF-16 units).",
  ["inputs"], "all strings whose result fits the declared length, all lengths and positions, any number of CONCAT arguments",
  NOST, [f"{ST}/string_functions.st"],
  [("FUNCTION LEFT__STRING ... CONCAT__WSTRING", f"{ST}/string_functions.st")], ["result of the ST function; rejection"])
p("C37", "ST text conversions yield the complete text of the value",
  "Each X_TO_STRING/X_TO_WSTRING function returns exactly the text its native function renders for the value (as UTF-16 for WSTRING); WSTRING_TO_LINT, _DINT, _REAL and _LREAL accept, convert and reject exactly what the STRING versions do, for texts of any length that fits a WSTRING. "
  "STRING_TO_WSTRING and WSTRING_TO_STRING convert every character; STRING_TO_CHAR and WSTRING_TO_WCHAR give the first one (0 if empty), CHAR_TO_STRING and WCHAR_TO_WSTRING a string of exactly that one character, without reading beyond their argument.",
  ["inputs"], "all values of the source types, all valid strings",
  NOST, [f"{ST}/extra_functions.st", f"{ST}/string_conversion.st", "src/extra_functions.rs", "src/string_conversion.rs"],
  [("X_TO_STRING through X_TO_STRING_EXT", f"{ST}/extra_functions.st"), ("WSTRING_TO_x through a temporary STRING", f"{ST}/extra_functions.st, {ST}/string_conversion.st")], ["result of the ST function; rejection; memory around it"])
p("C38", "EXPT raises to integer exponents of every type",
  "For REAL and LREAL bases and an exponent of any of the eight integer types, with every exponent value up to 2^53 in magnitude, EXPT, by generic or typed name, returns base to that power within 4 units in the last place, with no exponent truncated to a narrower type and negative exponents giving the reciprocal power.",
  ["inputs"], "all REAL/LREAL bases, all exponents of SINT..LINT and USINT..ULINT up to 2^53",
  NOST, [f"{ST}/arithmetic_functions.st", "src/arithmetic_functions.rs"],
  [("EXPT__REAL__*/EXPT__LREAL__*", f"{ST}/arithmetic_functions.st, src/arithmetic_functions.rs")], ["result of the ST function"])

p("C39", "No outcome depends on earlier calls or on other tasks",
  "The result, the outputs and the acceptance or rejection of every exported function depend on its arguments alone (TIME also on the clock), and those of every function block call on its own instance, its inputs and the time alone: not on which calls were made before in the process, how many, or whether they were rejected, and not on what other threads call at the same moment.",
  ["inputs", "histories", "schedules"], "all call sequences over all functions and function blocks (each block instance used by one thread at a time), all interleavings of the calls of several threads",
  "The unit tests look at single calls and hold no assertion about two calls of a function that follow each other in a process or run at once.",
  ["src/lib.rs", "src/string_functions.rs", "src/extra_functions.rs", "src/timers.rs", "src/counters.rs", "src/date_time_extra_functions.rs"],
  [("no module keeps state of its own: all state is in the instances passed in", "src/*.rs")], ["result, outputs and rejection of the same call after different histories and beside other threads"])

p("C40", "A call leaves nothing behind in the process",
  "However often any exported function or function block is called, with arguments it accepts or rejects, the process stays as it was: the memory held on behalf of the library does not grow with the number of calls, no file descriptor, thread or buffer stays open, nothing is written to standard output or error by an accepted call, and floating point control, signal mask and handlers, environment, locale, resource limits, working directory and file creation mask keep their values. A cyclic program can therefore call the library without end.",
  ["inputs", "histories"], "all arguments of all functions and function blocks, any number of repetitions with the same or with ever new arguments",
  "Unit tests call a function a few times and assert on its result; they do not observe the process, and growth shows only over many calls.",
  ["src/lib.rs", "src/string_functions.rs", "src/extra_functions.rs", "src/utils.rs", "src/timers.rs"],
  [("functions work on borrowed slices and iterators and free what they allocate, also when they unwind", "src/*.rs")], ["live heap, open descriptors, threads, output and process attributes before and after the calls"])

p("C41", "The cost of a call is bounded by the length of its texts and lists",
  "Every call of an exported function returns, after a time and with an amount of stack and temporary memory that do not depend on the values of its numeric arguments and grow at most in proportion to the total length of its texts and argument lists (the time of FIND: to the product of both lengths). No count, length, position, exponent, duration or date makes a call loop as often, recurse as deep, or reserve as much memory as its value says, so a cyclic program keeps its cycle time.",
  ["inputs"], "all argument values of all functions, texts of hundreds of kilobytes, lists of tens of thousands of operands",
  "Unit tests use short texts and small numbers, and assert on results, not on what a call costs.",
  ["src/string_functions.rs", "src/types.rs", "src/bit_shift_functions.rs", "src/extra_functions.rs", "src/arithmetic_functions.rs", "src/lib.rs"],
  [("single passes over slices and character iterators; closed formulas for numbers", "src/*.rs")], ["processor time, stack use and peak heap of a call"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
