// C08: ring operations of the spdz2k protocol.
#define USE_SPDZ2K
#include "protoops.h"
#include "protos.h"
#include "libspu/mpc/spdz2k/type.h"
#include "libspu/mpc/spdz2k/value.h"
using namespace vn;
// As the outside world brings them in: shares without a mac.
static Value imported(const Value& v) {
  if (!v.storage_type().isa<spu::mpc::spdz2k::AShrTy>()) return v;
  const auto f = v.storage_type().as<spu::Ring2k>()->field();
  auto val = spu::mpc::spdz2k::getValueShare(v.data());
  auto zero = mkArr(spu::makeType<spu::RingTy>(f), v.shape(), std::vector<U>(v.numel(), 0));
  return Value(spu::mpc::spdz2k::makeAShare(val, zero, f, false), v.dtype());
}
// Not offered: equality, and shifts of secrets by a different amount per element.
static std::set<std::string> off = {"equal_ss", "equal_sp"};
void vh_units() {
  for (auto nm : {"lshift_s", "rshift_s", "arshift_s"})
    for (auto post : {"", ";and", ";add"})
      for (auto v : {"(vec0)", "(vec1)", "(vec2)"})
        for (auto k : {"[a]", "[b]"}) {
          if (nm == std::string("lshift_s") && k == std::string("[a]")) continue;
          off.insert(std::string(nm) + post + v + k);
        }
  for (auto f : {FM32, FM64})
    for (size_t n : {2, 3}) {
      auto c = spdz2k(n, f);
      c.draw_profiles = vh::thorough() ? 5 : 2;
      protoUnits(c, true, true, off, 16,
                 vh::thorough() || (n == 2 && f == FM32) ? 1 : 0);
    }
  for (auto f : {FM32, FM64}) {
    seqUnits(spdz2k(2, f), vh::thorough() && f == FM32 ? 3 : 2, {"bitrev"});
    mmulUnits(spdz2k(2, f), true, true, /*empty_b*/ false);
    randUnits(spdz2k(2, f), true, false);
  }
  for (auto f : {FM32, FM64})
    for (size_t n : {2, 3}) {
      std::set<std::string> seen;
      for (auto& o : ringOps(bitsOf(f), true, true)) {
        if (o.kinds.find('a') == std::string::npos || o.name.find("equal") == 0 || o.name.find("vec") != std::string::npos ||
            off.count(o.name) || off.count(o.name + "[" + o.kinds + "]"))
          continue;
        if (!vh::thorough() && !seen.insert(o.name.substr(0, o.name.find('(')) + o.kinds + o.dom).second) continue;
        vh::unit(fmt::format("imported-{}pc-{}/{}-{}-{}", n, fname(f), o.name, o.kinds, o.dom), [=] {
          Op op = o;
          op.fn = [=](SPUContext* c, const std::vector<Value>& v) {
            std::vector<Value> w;
            for (auto& x : v) w.push_back(imported(x));
            return o.fn(c, w);
          };
          Net net(spdz2k(n, f));
          checkOp(net, op, crossArgs(op, bitsOf(f), false, std::vector<int>(op.kinds.size(), 0)), "imported");
        });
      }
    }
  // Tensors of rank 0.
  vh::unit("scalar/arithmetic", [] {
    auto c = spdz2k(2, FM64);
    for (auto& op : ringOps(64, true, true)) {
      if (op.kinds.find_first_not_of("a") != std::string::npos ||
          op.name.find(';') != std::string::npos)
        continue;
      auto base = op.name.substr(0, op.name.find_first_of("_("));
      if (base != "add" && base != "mul" && base != "negate" && base != "square" &&
          base != "s2p" && base != "lshift")
        continue;
      Net net(c);
      checkOp(net, op, crossScalar(op, 64), "scalar");
    }
  });
  vh::unit("scalar/boolean", [] {
    auto c = spdz2k(2, FM64);
    for (auto& op : ringOps(64, true, true))
      if (op.name == "xor_ss" && op.kinds == "bb") {
        Net net(c);
        checkOp(net, op, crossScalar(op, 64), "scalar");
      }
  });
  // Tensors without elements.
  vh::unit("empty/boolean", [] {
    auto c = spdz2k(2, FM64);
    for (auto& op : ringOps(64, true, true))
      if (op.name == "xor_ss" && op.kinds == "bb") {
        Net net(c);
        Arg a;
        a.kind = 'b';
        a.shape = {0};
        checkOp(net, op, {a, a}, "empty");
      }
  });
  vh::unit("empty/arithmetic", [] {
    auto c = spdz2k(2, FM64);
    for (auto& op : ringOps(64, true, true)) {
      if (op.kinds.find_first_not_of("a") != std::string::npos ||
          op.name.find(';') != std::string::npos)
        continue;
      auto base = op.name.substr(0, op.name.find_first_of("_("));
      if (base != "add" && base != "mul" && base != "negate" && base != "square" &&
          base != "s2p")
        continue;
      Net net(c);
      std::vector<Arg> a(op.kinds.size());
      for (auto& x : a) x.kind = 'a', x.shape = {2, 0};
      checkOp(net, op, a, "empty");
    }
  });
}
