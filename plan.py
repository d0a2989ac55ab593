"""Which build configurations decide which property."""

DEFAULT = {"name": "default"}
GENERIC = {"name": "generic", "tags": "forcegeneric"}
I386 = {"name": "386", "env": {"GOARCH": "386", "CGO_ENABLED": "0"}}
I386G = {"name": "386generic", "tags": "forcegeneric", "env": {"GOARCH": "386", "CGO_ENABLED": "0"}}

BOTH = [DEFAULT, GENERIC]
PLAN = {p: {"configs": BOTH} for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C11", "C12", "C18", "C19")}
PLAN.update({p: {"configs": [DEFAULT, I386]} for p in ("C08", "C09")})
PLAN["C10"] = {"configs": [DEFAULT, GENERIC, I386]}
CREF = {"name": "cref", "cmd": "crunner"}
_ASAN = {"flags": ["-asan"], "optional": True, "run_env": {"ASAN_OPTIONS": "detect_leaks=0:exitcode=66:symbolize=0"}}
PLAN["C17"] = {"configs": [CREF, dict(_ASAN, name="cref-asan", cmd="crunner")]}
# the functions of the C library that the binding does not expose; a library without one of them is not wrong
CLIB = {"name": "clib", "cmd": "clrunner", "overlay": "clib", "optional": True}
PLAN["C20"] = {"configs": [CLIB, dict(_ASAN, name="clib-asan", cmd="clrunner", overlay="clib")]}
# with go1.24 and later crypto/rand.Read ends the process on failure; before, the error reaches the caller
GO123 = {"name": "go1.23", "go": "go1.23", "optional": True}
PLAN["C16"] = {"configs": [DEFAULT, GENERIC, GO123]}
PLAN["C15"] = {"configs": [{"name": "trace", "overlay": "trace"},
                           {"name": "trace-generic", "overlay": "trace", "tags": "forcegeneric"}]}
_RACE = {"race": True, "overlay": "globals", "run_env": {"GORACE": "halt_on_error=1 exitcode=66"}}
PLAN["C13"] = {"configs": [dict(_RACE, name="race"), dict(_RACE, name="race-generic", tags="forcegeneric"),
                           {"name": "sched", "overlay": "sched", "optional": True},
                           {"name": "sched-generic", "overlay": "sched", "tags": "forcegeneric", "optional": True,
                            "thorough_only": True}]}
ASM = {"name": "asm", "overlay": "asm", "optional": True}
_ALL, _SAME = ("operations", "histories"), ("operations", "histories", "verdict")
PLAN["C14"] = {"configs": [DEFAULT, GENERIC, I386, I386G, ASM],
               "compare": [("default", "generic", _ALL), ("default", "386", _SAME), ("generic", "386generic", _SAME),
                           ("default", "asm", _SAME)]}
# the quick command of these affords the bounds of "thorough"; their thorough command runs "deep"
FULL = ("C03", "C04", "C05", "C07", "C09", "C11", "C15", "C16")
LEVEL = {p: "model_checking" for p in PLAN}
LEVEL["C16"] = "fault_enumeration"

_COMMON = [
    "Values outside the stated finite alphabets are not executed; each space lists its alphabet and bound.",
    "The oracle is an independent reference implementation (schoolbook arithmetic mod 2^255-19 and affine/projective "
    "Edwards formulas, RFC 9496 encode/decode/map) that is self-tested against published vectors on every run.",
    "The Go compiler, runtime and standard library are trusted.",
]
ASSUMPTIONS = {p: list(_COMMON) for p in PLAN}
