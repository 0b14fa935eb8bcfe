// Parts of the tree that need libraries that are not installed (SEAL, emp,
// yacl's OT extension).  Reaching one of these is an error of the harness.
#include "libspu/core/context.h"
#include "libspu/core/prelude.h"
#include "libspu/mpc/spdz2k/beaver/beaver_tinyot.h"

namespace spu::mpc {
__attribute__((weak)) void regCheetahProtocol(
    SPUContext*, const std::shared_ptr<yacl::link::Context>&) {
  SPU_THROW("cheetah is not part of the verification build");
}
}  // namespace spu::mpc

namespace spu::mpc::spdz2k {
#define STUB SPU_THROW("tiny OT is not part of the verification build")
BeaverTinyOt::BeaverTinyOt(std::shared_ptr<yacl::link::Context>) { STUB; }
uint128_t BeaverTinyOt::InitSpdzKey(FieldType, size_t) { STUB; }
NdArrayRef BeaverTinyOt::AuthArrayRef(const NdArrayRef&, FieldType, size_t,
                                      size_t) {
  STUB;
}
BeaverTinyOt::Pair BeaverTinyOt::AuthCoinTossing(FieldType, const Shape&,
                                                 size_t, size_t) {
  STUB;
}
BeaverTinyOt::Triple_Pair BeaverTinyOt::AuthMul(FieldType, const Shape&, size_t,
                                                size_t) {
  STUB;
}
BeaverTinyOt::Triple_Pair BeaverTinyOt::AuthDot(FieldType, int64_t, int64_t,
                                                int64_t, size_t, size_t) {
  STUB;
}
BeaverTinyOt::Triple_Pair BeaverTinyOt::AuthAnd(FieldType, const Shape&,
                                                size_t) {
  STUB;
}
BeaverTinyOt::Pair_Pair BeaverTinyOt::AuthTrunc(FieldType, const Shape&, size_t,
                                                size_t, size_t) {
  STUB;
}
BeaverTinyOt::Pair BeaverTinyOt::AuthRandBit(FieldType, const Shape&, size_t,
                                             size_t) {
  STUB;
}
bool BeaverTinyOt::BatchMacCheck(const NdArrayRef&, const NdArrayRef&, size_t,
                                 size_t) {
  STUB;
}
std::pair<NdArrayRef, NdArrayRef> BeaverTinyOt::BatchOpen(const NdArrayRef&,
                                                          const NdArrayRef&,
                                                          size_t, size_t) {
  STUB;
}
NdArrayRef BeaverTinyOt::genPublCoin(FieldType, int64_t) { STUB; }
}  // namespace spu::mpc::spdz2k
