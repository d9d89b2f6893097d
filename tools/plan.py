"""What is run for every property."""

# The configurations of the crate: limb width and overflow checks.
OFF = {"CARGO_PROFILE_DEV_OVERFLOW_CHECKS": "false", "CARGO_PROFILE_DEV_DEBUG_ASSERTIONS": "false"}
CONFIGS = {
    "l64": {"features": []},
    "l32": {"features": ["limb32"]},
    "l64off": {"features": [], "env": OFF},
    "l32off": {"features": ["limb32"], "env": OFF},
}

ALL = ("w384", "w512", "w1024")


def kani(cfg, *widths, unwind=34, only=None, timeout=400, name=None):
    return {"cfg": cfg, "widths": widths, "unwind": unwind, "only": only, "timeout": timeout, "name": name or cfg}


def tiers(quick, thorough):
    return {"quick": quick, "thorough": thorough}


VERUS = [
    "Verus 0.2026.09.13 with Z3, and the specifications of the standard library that come with it",
    "the extraction of the kernels from the macro-expanded source (extract/, tools/weave.py); what it changes is listed in extraction_changes",
    "termination of the one-level recursion of math::div::cmp (it swaps its arguments once)",
    "the contracts of the kernels as restated for the callers in harness/src/callee.rs follow from those proved with Verus",
]

LOOPS = [
    "the contracts of the methods called by the loops as assumed in proofs/bigfns.rs and proofs/bigops.rs are those proved by the "
    "contracts c_* of the same check with Kani (the two statements correspond by inspection)",
]

PARSE = [
    "from_str of u64, i64, u128 and i128 in the standard library as documented (assumed in proofs/parse.ann)",
    "str::as_bytes and the byte view of strings as specified by vstd; strings are taken as sequences of bytes",
]

NOHEX = ["display", "debug", "binary", "octal"]

FORMAT = [
    "core::str::from_utf8 accepts bytes below 128 and returns them (contract of the standard library)",
    "the text written by to_str_radix ends at the end of the buffer and consists of digits, as proved with Verus",
]

LIGHT = ["identities", "bytes", "::bits", "signs", "from_primitive", "to_primitive", "powers", "parse", "shifts"]

SHIFTS = ["w384::" + x for x in ("k::", "ks::unsigned", "ks::signed", "ks::operators", "ks::strict", "ks::by_big", "ks::by_i32", "ks::by_usize")]
SHIFTS_OFF = [x.replace("w384", "w256") for x in SHIFTS]

NARROW = ["::u_", "zero", "overflow", "c_words", "limb", "wide", "128"]

PLAN = {
    "C01": {"kani": tiers([kani("l64", "w384", "w512"), kani("l32")],
                          [kani("l64", *ALL), kani("l32", *ALL)])},
    "C02": {"verus": ["mul"],
            "kani": tiers([kani("l64", unwind=12), kani("l32", unwind=12, only=["ks::unsigned", "ks::signed", "ks::widening"])],
                          [kani("l64", *ALL, unwind=20), kani("l32", "w384", unwind=20), kani("l64off", unwind=12)]),
            "trusted": VERUS},
    "C03": {"verus": ["div"],
            "kani": tiers([kani("l64", unwind=12), kani("l32", unwind=12)],
                          [kani("l64", *ALL, unwind=20), kani("l32", "w384", unwind=20), kani("l64off", unwind=12)]),
            "trusted": VERUS},
    "C04": {"verus": ["div"],
            "kani": tiers([kani("l64", unwind=12), kani("l32", unwind=12)],
                          [kani("l64", *ALL, unwind=20), kani("l32", "w384", unwind=20), kani("l64off", unwind=12)]),
            "trusted": VERUS},
    "C05": {"kani": tiers([kani("l64", "w384", unwind=10, only=["c05::w256"] + SHIFTS), kani("l32", unwind=10), kani("l64off", unwind=10, only=SHIFTS_OFF)],
                          [kani("l64", *ALL, unwind=20), kani("l32", "w384", unwind=20), kani("l64off", *ALL, unwind=20)])},
    "C06": {"kani": tiers([kani("l64", "w384", unwind=20), kani("l32", unwind=20)],
                          [kani("l64", *ALL, unwind=20), kani("l32", "w384", "w512", unwind=34)])},
    "C07": {"kani": tiers([kani("l64", *ALL, unwind=140), kani("l32", "w384", unwind=70)],
                          [kani("l64", *ALL, unwind=140), kani("l32", *ALL, unwind=140)])},
    "C08": {"kani": tiers([kani("l64", "w384", "w512"), kani("l32", "w384")],
                          [kani("l64", *ALL), kani("l32", *ALL)])},
    "C09": {"kani": tiers([kani("l64", *ALL, unwind=140), kani("l32", "w384", unwind=140)],
                          [kani("l64", *ALL, unwind=140), kani("l32", *ALL, unwind=140)])},
    "C10": {"verus": ["mul"],
            "kani": tiers([kani("l64", unwind=12), kani("l32", unwind=12), kani("l64off", unwind=12, only=["plain"])],
                          [kani("l64", "w384", "w512", unwind=20), kani("l32", unwind=12), kani("l64off", unwind=12)]),
            "trusted": VERUS},
    "C11": {"verus": ["div"],
            "kani": tiers([kani("l64", unwind=12), kani("l32", unwind=12, only=NARROW), kani("l64off", unwind=12, only=["plain"])],
                          [kani("l64", "w384", "w512", unwind=20), kani("l32", unwind=12), kani("l64off", unwind=12)]),
            "trusted": VERUS},
    "C12": {"verus": ["mul", "div"],
            "kani": tiers([kani("l64", unwind=12), kani("l64off", unwind=12)],
                          [kani("l64", "w384", "w512", unwind=20), kani("l64off", "w384", unwind=20), kani("l32", unwind=12), kani("l32off", unwind=12)]),
            "trusted": VERUS + ["the contracts of overflowing_pow and wrapping_pow, which are proved with Verus by the check of C15"]},
    "C13": {"verus": ["mul", "uparse", "iparse"], "native": 8,
            "kani": tiers([kani("l64", "w384", unwind=20), kani("l32", unwind=20)],
                          [kani("l64", *ALL, unwind=34), kani("l32", *ALL, unwind=34), kani("l64off", unwind=20)]),
            "trusted": VERUS + LOOPS + PARSE},
    "C14": {"verus": ["div", "uwrite", "iwrite"],
            "kani": tiers([kani("l64", unwind=260), kani("l32", unwind=34, only=NOHEX + ["c_"]), kani("l64", "w384", unwind=50, only=["w384::k::", "w384::ks::c_", "w384::ks::display", "w384::ks::octal"], name="l64w")],
                          [kani("l64", "w384", unwind=390), kani("l32", unwind=260),
                           kani("l64", *ALL, unwind=132, only=NOHEX + ["c_"], name="l64w")]),
            "trusted": VERUS + LOOPS + FORMAT},
    "C15": {"verus": ["mul", "div", "upow", "ipow", "ilog"],
            "kani": tiers([kani("l64", "w384", unwind=50), kani("l32", unwind=34), kani("l64off", unwind=34, only=["pow_", "power"])],
                          [kani("l64", *ALL, unwind=130), kani("l32", *ALL, unwind=130), kani("l64off", *ALL, unwind=130)]),
            "trusted": VERUS + LOOPS},
    "C16": {"kani": tiers([kani("l64", "w384", "w512"), kani("l32")],
                          [kani("l64", *ALL), kani("l32", *ALL), kani("l64off")])},
    "C17": {"kani": tiers([kani("l64", unwind=34), kani("l32", unwind=34, only=LIGHT)],
                          [kani("l64", "w384", unwind=50), kani("l64", *ALL, unwind=132, only=LIGHT, name="l64w"),
                           kani("l32", unwind=34), kani("l64off", unwind=34)]),
            "trusted": ["the contracts of the multiplication and division kernels, of overflowing_pow and of from_str_radix, "
                        "which are proved with Verus by the checks of C02, C03, C15 and C13"]},
}

TRUSTED = [
    "rustc front end and MIR as compiled by Kani 0.68 (nightly), CBMC 6.11 with CaDiCaL",
    "the word arithmetic of harness/src/spec.rs as the meaning of the mathematical operations",
    "from_ne_limbs and to_ne_limbs to move values in and out of the types (themselves specified by C09)",
]

ASSUMPTIONS = [
    "little-endian 64-bit host; big-endian code paths are not compiled",
    "no inline assembly: Kani builds use the feature noasm; the assembly division is only run (bounded)",
]
