"""The registered checks: what each links and how it is described."""
MPC = ["core", "mpcutil", "mpcbase"]
HLO = MPC + ["ref2k", "semi2k", "aby3", "hal", "hlo"]
O0 = {r"aby3/boolean": "-O0"}
AS = "-O1 -fsanitize=address -fno-sanitize-address-use-after-scope"
ASAN = {"opt": AS, "hopt": AS, "env_opt": AS, "ld": "-fsanitize=address"}
CHECKS = {
    "C01": {"groups": ["core"], "harness": ["c01.cc"], **ASAN},
    "C02": {"groups": ["core"], "harness": ["c02.cc"], **ASAN},
    "C03": {"groups": MPC + ["types"], "harness": ["c03.cc"],
            "level": "fault_enumeration", **ASAN},
    "C04": {"groups": MPC + ["factory", "ref2k", "semi2k", "aby3", "spdz2k", "securenn", "swift",
                             "cheetahio", "hal", "device"], "harness": ["c04.cc"]},
    "C05": {"groups": MPC + ["semi2k"], "harness": ["c05.cc"]},
    "C06": {"groups": MPC + ["aby3"], "harness": ["c06.cc"]},
    "C07": {"groups": MPC + ["securenn"], "harness": ["c07.cc"]},
    "C08": {"groups": MPC + ["spdz2k"], "harness": ["c08.cc"]},
    "C09": {"groups": MPC + ["swift"], "harness": ["c09.cc"]},
    "C10": {"groups": MPC + ["ref2k"], "harness": ["c10.cc"]},
    "C11": {"groups": MPC + ["semi2k", "aby3", "securenn", "swift", "spdz2k"], "harness": ["c11.cc"]},
    "C12": {"groups": MPC + ["cheetah"], "harness": ["c12.cc", "c12s.cc"], "env": ["cheetah_ideal.cc"],
            "opt_for": {r"ot/yacl/ferret": "-O1 -maes -mssse3"}},
    "C13": {"groups": MPC + ["ref2k", "semi2k", "aby3", "securenn", "spdz2k", "swift"],
            "harness": ["c13.cc"]},
    "C14": {"groups": MPC + ["semi2k", "aby3", "securenn", "spdz2k", "swift"],
            "harness": ["c14.cc"]},
    "C15": {"groups": HLO + ["executor"], "harness": ["c15.cc"]},
    "C16": {"groups": MPC + ["ref2k", "semi2k", "aby3", "securenn", "swift", "hal"],
            "harness": ["c16.cc"]},
    "C17": {"groups": MPC + ["spdz2k", "swift"], "harness": ["c17.cc"],
            "level": "fault_enumeration"},
    "C18": {"groups": MPC + ["semi2k"], "harness": ["c18.cc"]},
    "C19": {"groups": HLO, "harness": ["c19.cc"]},
    "C20": {"groups": HLO, "harness": ["c20.cc"]},
    "C21": {"groups": HLO, "harness": ["c21.cc"]},
    "C22": {"groups": HLO, "harness": ["c22.cc"]},
    "C23": {"groups": HLO, "harness": ["c23.cc"]},
    "C25": {"groups": MPC, "harness": ["c25.cc"]},
    "C26": {"groups": MPC + ["ref2k", "semi2k", "aby3", "cheetah"], "harness": ["c26.cc"], "env": ["cheetah_ideal.cc"],
            "opt_for": {r"ot/yacl/ferret": "-O1 -maes -mssse3"}},
    "C27": {"groups": MPC + ["ref2k", "semi2k", "aby3", "swift", "hal"], "harness": ["c27.cc"]},
    "C31": {"groups": HLO + ["executor"], "harness": ["c31.cc"]},
    "C24": {"groups": HLO, "harness": ["c24.cc"]},
}
RULE = ("One evaluation is one closed execution of the real code (one input alphabet, layout, "
        "share form, randomness choice, schedule or operation sequence, as named in the unit) "
        "whose result was compared with the reference; executions are told apart by a hash of "
        "the configuration, the operation, the inputs and the choices made.")
ASSUME = ["the third party libraries are represented by the stand-ins in env/",
          "random bytes come from an ideal PRG whose outputs the check controls",
          "channels deliver every message once, in order per sender and receiver"]
for _c in CHECKS.values():
    _c.setdefault("opt_for", O0)
    _c.setdefault("rule", RULE)
    _c.setdefault("assume", ASSUME)
