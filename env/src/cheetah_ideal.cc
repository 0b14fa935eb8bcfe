// Ideal two party multiplication in place of the homomorphic one: the
// evaluator learns a random share, the other party what is missing.
#include "libspu/mpc/cheetah/arith/cheetah_dot.h"
#include "libspu/mpc/cheetah/arith/cheetah_mul.h"
#include "libspu/mpc/utils/ring_ops.h"
#include "venv/cheetah.h"
#include "venv/ot.h"
namespace venv {
FerretSize g_ferret_pre{2048, 64}, g_ferret_main{8192, 128};
std::function<void(absl::Span<const uint128_t>, absl::Span<const uint128_t>)> g_ferret;
size_t g_ole_batch = 8;
}  // namespace venv
namespace spu::mpc::cheetah {
namespace {
using Link = yacl::link::Context;
void put(Link* l, const NdArrayRef& x, const char* tag) {
  auto c = x.clone();
  l->SendAsync(l->NextRank(), yacl::ByteContainerView(c.data(), c.numel() * c.elsize()), tag);
}
NdArrayRef get(Link* l, FieldType f, const Shape& s, const char* tag) {
  auto b = l->Recv(l->NextRank(), tag);
  NdArrayRef r(makeType<RingTy>(f), s);
  SPU_ENFORCE(b.size() == static_cast<int64_t>(r.numel() * r.elsize()), "the parties disagree on the size");
  std::memcpy(r.data(), b.data(), b.size());
  return r;
}
// one product, `fn(mine, other's)` is evaluated by the evaluator
NdArrayRef ole(Link* l, const NdArrayRef& mine, const Shape& other, const Shape& out, bool evaluator,
               const std::function<NdArrayRef(const NdArrayRef&, const NdArrayRef&)>& fn) {
  const auto f = mine.eltype().as<Ring2k>()->field();
  if (!evaluator) {
    put(l, mine, "ideal-ole:in");
    return get(l, f, out, "ideal-ole:out");
  }
  auto o = get(l, f, other, "ideal-ole:in");
  auto r = ring_rand(f, out);
  put(l, ring_sub(fn(mine.as(makeType<RingTy>(f)), o), r), "ideal-ole:out");
  return r;
}
}  // namespace

struct CheetahMul::Impl {
  std::shared_ptr<Link> l;
  NdArrayRef mul(const NdArrayRef& x, Link* c, bool ev, uint32_t hint) {
    const auto f = x.eltype().as<Ring2k>()->field();
    SPU_ENFORCE(x.numel() > 0 && hint <= SizeOf(f) * 8);
    return ole(c ? c : l.get(), x, x.shape(), x.shape(), ev,
               [](const NdArrayRef& a, const NdArrayRef& b) { return ring_mul(a, b); });
  }
};
CheetahMul::CheetahMul(std::shared_ptr<Link> lctx, bool) : impl_(std::make_unique<Impl>()) {
  impl_->l = lctx->Spawn();
}
CheetahMul::~CheetahMul() = default;
void CheetahMul::LazyInitKeys(FieldType field, uint32_t) {}
NdArrayRef CheetahMul::MulOLE(const NdArrayRef& inp, Link* conn, bool ev, uint32_t hint) {
  return impl_->mul(inp, conn, ev, hint);
}
NdArrayRef CheetahMul::MulOLE(const NdArrayRef& inp, bool ev, uint32_t hint) {
  return impl_->mul(inp, nullptr, ev, hint);
}
NdArrayRef CheetahMul::MulShare(const NdArrayRef& x, const NdArrayRef& y, Link* conn, bool ev, uint32_t hint) {
  SPU_ENFORCE_EQ(x.shape(), y.shape());
  const auto f = x.eltype().as<Ring2k>()->field();
  SPU_ENFORCE(x.numel() > 0);
  auto* c = conn ? conn : impl_->l.get();
  if (!ev) {
    put(c, x, "ideal-mul:x");
    put(c, y, "ideal-mul:y");
    return get(c, f, x.shape(), "ideal-mul:out");
  }
  auto a = get(c, f, x.shape(), "ideal-mul:x"), b = get(c, f, x.shape(), "ideal-mul:y");
  auto r = ring_rand(f, x.shape());
  auto rt = makeType<RingTy>(f);
  put(c, ring_sub(ring_mul(ring_add(x.as(rt), a), ring_add(y.as(rt), b)), r), "ideal-mul:out");
  return r;
}
NdArrayRef CheetahMul::MulShare(const NdArrayRef& x, const NdArrayRef& y, bool ev, uint32_t hint) {
  return MulShare(x, y, nullptr, ev, hint);
}
int CheetahMul::Rank() const { return static_cast<int>(impl_->l->Rank()); }
size_t CheetahMul::OLEBatchSize() const { return venv::g_ole_batch; }

struct CheetahDot::Impl {
  std::shared_ptr<Link> l;
};
CheetahDot::CheetahDot(const std::shared_ptr<Link>& lctx, bool) : impl_(std::make_unique<Impl>()) {
  impl_->l = lctx->Spawn();
}
CheetahDot::~CheetahDot() = default;
void CheetahDot::LazyInitKeys(FieldType) {}
NdArrayRef CheetahDot::DotOLE(const NdArrayRef& inp, const Shape3D& d, bool lhs) {
  return DotOLE(inp, nullptr, d, lhs);
}
NdArrayRef CheetahDot::DotOLE(const NdArrayRef& inp, Link* conn, const Shape3D& d, bool lhs) {
  const int64_t n = d[0] * d[1], m = d[1] * d[2];
  SPU_ENFORCE(d[0] > 0 && d[1] > 0 && d[2] > 0 && inp.ndim() == 2);
  SPU_ENFORCE(inp.numel() == (lhs ? n : m), "operand of {} elements", inp.numel());
  const Shape ls{d[0], d[1]}, rs{d[1], d[2]};
  return ole(conn ? conn : impl_->l.get(), inp.reshape(lhs ? ls : rs), lhs ? rs : ls, {d[0], d[2]}, lhs,
             [&](const NdArrayRef& a, const NdArrayRef& b) { return lhs ? ring_mmul(a, b) : ring_mmul(b, a); });
}
NdArrayRef CheetahDot::BatchDotOLE(const NdArrayRef&, Link*, const Shape4D&, bool) {
  SPU_THROW("not used");
}
}  // namespace spu::mpc::cheetah
