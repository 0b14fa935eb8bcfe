"""Which of /repo's sources every check links, by group.

A group is a list of globs below /repo/src; files added to the tree later are
picked up.  Files that need libraries that are not installed are excluded.
"""
import glob, os

SRC = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src")

EXCLUDE = (
    "libspu/core/logging.cc",            # brpc logging sink
    "libspu/mpc/spdz2k/beaver/beaver_tinyot.cc",  # OT extension library
    "libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/beaver_server_main.cc",
    "libspu/mpc/aby3/arithmetic_gpu_ext.cc",      # CUDA
)

GROUPS = {
    "core": ["libspu/core/*.cc", "libspu/spu.cc"],
    "mpcutil": ["libspu/mpc/utils/*.cc"],
    "mpcbase": ["libspu/mpc/a*.cc", "libspu/mpc/kernel.cc", "libspu/mpc/common/*.cc",
                "libspu/mpc/standard_shape/*.cc"],
    "factory": ["libspu/mpc/factory.cc"],
    "ref2k": ["libspu/mpc/ref2k/*.cc"],
    "semi2k": ["libspu/mpc/semi2k/**/*.cc"],
    "aby3": ["libspu/mpc/aby3/*.cc"],
    "spdz2k": ["libspu/mpc/spdz2k/*.cc", "libspu/mpc/spdz2k/beaver/*.cc"],
    "securenn": ["libspu/mpc/securenn/*.cc"],
    "swift": ["libspu/mpc/experimental/swift/*.cc"],
    "types": ["libspu/mpc/*/type.cc", "libspu/mpc/experimental/*/type.cc"],
    "cheetahio": ["libspu/mpc/cheetah/io.cc", "libspu/mpc/cheetah/type.cc"],
    "cheetah": ["libspu/mpc/cheetah/*.cc", "libspu/mpc/cheetah/nonlinear/*.cc",
                "libspu/mpc/cheetah/ot/*.cc", "libspu/mpc/cheetah/ot/yacl/*.cc"],
    "hal": ["libspu/kernel/hal/*.cc"],
    "hlo": ["libspu/kernel/hlo/*.cc"],
    "executor": ["libspu/device/executor.cc", "libspu/device/api.cc", "libspu/device/symbol_table.cc",
                 "libspu/device/utils/debug_dump_constant.cc",
                 "libspu/device/pphlo/pphlo_executor.cc",
                 "libspu/device/pphlo/pphlo_intrinsic_executor.cc",
                 "libspu/dialect/pphlo/IR/types.cc", "libspu/dialect/utils/utils.cc"],
    "device": ["libspu/device/io.cc", "libspu/device/symbol_table.cc"],
}


def sources(groups):
    out = []
    for g in groups:
        for pat in GROUPS[g]:
            for f in sorted(glob.glob(os.path.join(SRC, pat), recursive=True)):
                rel = os.path.relpath(f, SRC)
                base = os.path.basename(rel)
                if rel in EXCLUDE or base.endswith(("_test.cc", "_bench.cc")):
                    continue
                if base in ("test_util.cc",) or rel in out:
                    continue
                out.append(rel)
    return out
