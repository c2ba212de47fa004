"""What is executed for each property, per tier."""

RULES = {}


def native(ms, n=4):
    return [{"kind": "checked", "n": n, "ms": ms}, {"kind": "release", "n": n, "ms": ms}]


def miri(n, ms, flags="", mode="tiny"):
    return [{"kind": "miri", "n": n, "ms": ms, "mode": mode, "flags": "-Zmiri-seed=%SEED% " + flags}]


CONC = "-Zmiri-preemption-rate=0.05 -Zmiri-address-reuse-cross-thread-rate=0.5"


def san(kind, n, ms):
    return [{"kind": kind, "n": n, "ms": ms}]


def foreign(n, ms, kinds=("miri32", "miribe")):
    """The same monitor on a 32-bit and on a big-endian platform"""
    return [{"kind": k, "n": n, "ms": ms, "mode": "tiny", "flags": "-Zmiri-seed=%SEED%"} for k in kinds]


def PLAN(prop, tier):
    plan = HOST(prop, tier)
    if tier != "quick":
        return plan + foreign(2, 90000)
    # Where the width of a word or the order of bytes matters most
    return plan + {"C06": foreign(1, 15000, ["miri32"]), "C13": foreign(1, 15000)}.get(prop, [])


def HOST(prop, tier):
    quick = tier == "quick"
    ms = 16000 if quick else 120000
    if prop in ("C08", "C10"):
        return (
            miri(4 if quick else 8, 15000 if quick else 150000, CONC)
            + san("tsan", 2 if quick else 4, 15000 if quick else 100000)
            + native(15000 if quick else 100000, 1 if quick else 4)
        )
    if prop == "C07":
        return (native(ms, 3) + miri(2 if quick else 4, 15000 if quick else 100000)
                + [{"kind": "release", "n": 1, "ms": 24000 if quick else ms * 3, "mode": "deep"}])
    if prop == "C09":
        return (native(ms // 2, 3) + miri(2 if quick else 4, 12000 if quick else 100000)
                + [{"kind": "release", "n": 1, "ms": 24000 if quick else ms * 3, "mode": "deep"}])
    if prop == "C27":
        return miri(3 if quick else 8, 15000 if quick else 120000) + san("asan", 3, ms) + native(ms // 2, 1 if quick else 4)
    if prop == "C28":
        return (miri(3 if quick else 8, 18000 if quick else 150000) + san("asan", 3, ms) + native(ms, 1 if quick else 4)
                + ([] if quick else san("msan", 4, ms)))
    if prop == "C29":
        return (miri(4 if quick else 8, 20000 if quick else 200000) + san("asan", 2, ms) + san("msan", 2, ms)
                + native(ms // 2, 2))
    return native(ms)


RULES.update({
    "C01": "operand pairs from boundary values (all pairs around the inline, word and two-word limits) and from biased random multi-word values with related second operands; distinct by (operation, both values, call form)",
    "C02": "dividend and divisor pairs: boundary grid, multiples of the divisor plus and minus one, shifted and truncated copies, random lengths; distinct by (both values, call form)",
    "C03": "pairs of equal and nearly equal values built in different ways, against each other and against every primitive type, and sorted batches; distinct by (values, comparison partner)",
    "C04": "values times shift amounts (every amount over several words for chosen patterns, random beyond), pairs for the bitwise operators, bases and exponents for powers; distinct by (operation, arguments)",
    "C05": "values printed in every format and parsed back in every radix, and strings made of digits, foreign characters, signs and leading zeros; distinct by (value or string, radix)",
    "C06": "values around the limits of all twelve primitive types and random multi-word ones, converted in every direction; distinct by (value, target type)",
    "C07": "random histories of create, clone, compute, assign, swap, panic and drop over a pool of variables with a model of their values, floods of live values, and crowds of references to one value; distinct by (history seed, step)",
    "C08": "rounds of threads creating, sending, cloning, computing with and dropping equal and different values from a start barrier; distinct by (round, order in which the threads got through)",
    "C09": "random call histories on interners of several capacities with a model of ids and counts, conversions that panic injected, tens of thousands of values alive at once; distinct by (history seed, step)",
    "C10": "rounds of threads adding, reading, incrementing and releasing from a common set of values, with delays injected into comparison and conversion; distinct by (round, recorded order of events)",
    "C11": "all pairs for one byte; boundary and related pairs for fifteen widths from 1 to 33 bytes and twenty rarer ones to 257; distinct by (width, operation, operands)",
    "C12": "all pairs for one byte; patterns times every shift amount, and random pairs, for fifteen widths and twenty rarer ones to 257 bytes; distinct by (width, operation, operands)",
    "C13": "limits of every primitive type and random values for fifteen widths and twenty rarer ones to 257 bytes, converted, printed, and laid out as bytes; distinct by (width, value)",
    "C14": "all pairs for one byte; boundary and related signed pairs for fifteen widths and twenty rarer ones to 257 bytes; distinct by (width, operation, operands)",
    "C15": "digit slices of six digit types, lengths 1 to 24, rarely to 300 and in between to 2600, second operands related to the first (complements, carries, products at the limit, other lengths); distinct by (digit type, both slices)",
    "C16": "digit slices with dividends near multiples of the divisor (some of hundreds of digits), leading zero digits, zero divisors; distinct by (digit type, both slices)",
    "C17": "every shift amount over slices of up to four digits of six types, random slices and amounts beyond, pairs for the bitwise operators and comparison; distinct by (digit type, arguments)",
    "C18": "slices read, iterated and written through random histories with a model of their bits, integers repacked between all width combinations; distinct by (digit type, slice or history)",
    "C19": "all argument pairs of 8-bit types, boundary and random pairs of the others, through every trait implementation; distinct by (type, operation, arguments)",
    "C20": "all values of 8- and 16-bit types, limits and random values of the others, for every implemented pair; distinct by (source type, target type, value)",
    "C21": "raw values (all of i8, boundary and random for wider types) for several numbers of places, in pairs; distinct by (type, places, operands)",
    "C22": "fractions (all pairs of 8-bit parts, random with common factors for wider types) in pairs; distinct by (type, operands)",
    "C23": "complex pairs over exact rationals, integers and floats; distinct by (component type, operands)",
    "C24": "vectors of lengths 0 to 17 and rarely to 512 over integers, floats and exact rationals, every operator form; distinct by (type, length, components)",
    "C25": "matrices of 42 shapes over integers and exact rationals; distinct by (shape, entries)",
    "C26": "all 3x3 matrices with entries -1, 0, 1; random matrices of chosen rank and shape; distinct by (shape, entries)",
    "C27": "shapes times index pairs inside, on the border, just and far outside, and products that wrap around, through every access path and six entry types; distinct by (entry type, shape, case)",
    "C28": "every iterator operation, for lengths 0 to 8 with a stop, failure or panic at every position, longer lengths sampled, to 1024 for plain numbers; distinct by (operation, length, kind and position of the fault)",
    "C29": "random short sequences of safe calls in seven families, half of them with hostile arguments or injected panics; distinct by (family, hostile or not, sequence seed)",
    "C30": "all byte patterns of F<1> and F<2>, chosen and random patterns of fifteen widths and twenty rarer ones; samples drawn from constant and seeded generators; distinct by (width, pattern or generator)",
})
