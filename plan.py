"""What each check runs: configurations, threads, amount of work."""

ASSUMPTIONS = [
    "the harness's schoolbook reference integers (cross-checked against Python integers) are right",
    "values are made with from_le_bytes and observed with to_le_bytes",
    "builds have overflow checks and debug assertions on, optimized, except in the release configurations and in 'guided', which have neither",
]

# Relative cost per case in each configuration is similar; three configurations cover 64-bit and 32-bit
# intrinsics and the generic code (which all forced word sizes share).
# The guided configurations search from what reached new code (guided.rs).
QUICK = {"native": 2, "i686": 2, "bits16": 2, "guided": 1, "guided-bits16": 1}
THOROUGH = {"native": 1, "i686": 1, "bits64": 1, "bits32": 1, "bits16": 1, "native-release": 1, "i686-release": 1, "bits16-release": 1, "guided": 1, "guided-bits16": 1}
# Guided cases are slower and one thread runs them.
GUIDED = 0.12

# property: multiple of the module's own number of cases in the quick tier
SCALE = {"C01": 7.3, "C02": 13.2, "C03": 5.4, "C04": 16.1, "C05": 11.0, "C06": 19.6, "C07": 13.6, "C08": 3.3, "C09": 15.8, "C10": 11.0, "C11": 4.0, "C12": 1.2, "C13": 7.3, "C14": 1.9, "C15": 9.4, "C16": 6.0, "C17": 10.8, "C18": 2.7, "C19": 2.9, "C20": 1.0, "C21": 1.3, "C22": 2.8, "C24": 4.2, "C26": 8.5, "C25": 8.0, "C28": 15.0, "C29": 1.3, "C31": 2.5}
SECS = {"quick": 25, "thorough": 600}
THOROUGH_FACTOR = 200

SPECIAL = {"C24": "c24", "C27": "c27"}

# Word sizes are the subject here: all five, and one without debug checks.
C24_QUICK = {"native": 1, "i686": 2, "bits64": 1, "bits32": 2, "bits16": 2, "native-release": 1}
C24_THOROUGH = {"native": 1, "i686": 1, "bits64": 1, "bits32": 1, "bits16": 1, "native-release": 1, "i686-release": 1, "bits16-release": 1}
# The 16-bit build alone can reach its limit.
C23_QUICK = {"native": 1, "i686": 1, "bits16": 4, "bits16-release": 1, "guided-bits16": 1}
C23_THOROUGH = {"native": 1, "i686": 1, "bits16": 4, "bits16-release": 2, "guided-bits16": 1}
# AddressSanitizer sees what canaries and poison do not: reads outside a block, use after release at once.
C25_QUICK = {"native": 2, "i686": 2, "bits16": 1, "asan": 2, "guided": 1}
C25_THOROUGH = {"native": 1, "i686": 1, "bits16": 1, "bits32": 1, "native-release": 1, "bits16-release": 1, "asan": 2, "asan-bits16": 2, "guided": 1, "guided-bits16": 1}
# What is measured there is the work of the 64-bit and the 32-bit implementation.
C29_QUICK = {"counted": 4, "counted-i686": 4}
# The guided search is sequential by nature.
C30_QUICK = {"native": 2, "i686": 1, "bits16": 1, "native-release": 1}
C30_THOROUGH = {c: n for c, n in THOROUGH.items() if not c.startswith("guided")}
# The outcome is seen from outside the process.
C31_QUICK = {"native": 2, "i686": 2, "bits16": 2, "native-release": 2}
C31_THOROUGH = C30_THOROUGH
# Lengths here are beyond what 16-bit words allow.
C32_QUICK = {"native": 2, "i686": 2, "bits32": 2, "native-release": 2}
C32_THOROUGH = {"native": 2, "i686": 1, "bits32": 1, "bits64": 1, "native-release": 2, "i686-release": 1}
TABLES = {"C32": (C32_QUICK, C32_THOROUGH), "C31": (C31_QUICK, C31_THOROUGH), "C30": (C30_QUICK, C30_THOROUGH), "C29": (C29_QUICK, C29_QUICK), "C25": (C25_QUICK, C25_THOROUGH), "C24": (C24_QUICK, C24_THOROUGH), "C23": (C23_QUICK, C23_THOROUGH)}


def get(prop, tier):
    table = TABLES.get(prop, (QUICK, THOROUGH))[tier == "thorough"]
    scale = SCALE.get(prop, 1.0) * (THOROUGH_FACTOR if tier == "thorough" else 1)
    # Miri: (seconds, cases, seconds per case) per configuration.
    miri = {}
    if prop in ("C25", "C30"):
        miri = {"miri": ["miri", "miri-bits16"], "miri_limits": (400, 10 ** 6, 60)} if tier == "thorough" else {"miri": ["miri"], "miri_limits": (60, 40, 20)}
    return {**miri, "configs": {c: {"threads": n, "scale": scale * (GUIDED if c.startswith("guided") else 1), "secs": SECS["thorough" if tier == "thorough" else "quick"]}
                        for c, n in table.items()}}
