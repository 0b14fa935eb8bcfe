// Configurations of every protocol.
#pragma once
#include "net.h"
#ifdef USE_SEMI2K_TTP
#define USE_SEMI2K
#include "libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/beaver_server.h"
#endif
#ifdef USE_SEMI2K
#include "libspu/mpc/semi2k/io.h"
#include "libspu/mpc/semi2k/protocol.h"
#endif
#ifdef USE_ABY3
#include "libspu/mpc/aby3/io.h"
#include "libspu/mpc/aby3/protocol.h"
#endif
#ifdef USE_SECURENN
#include "libspu/mpc/securenn/io.h"
#include "libspu/mpc/securenn/protocol.h"
#endif
#ifdef USE_SPDZ2K
#include "libspu/mpc/spdz2k/io.h"
#include "libspu/mpc/spdz2k/protocol.h"
#endif
#ifdef USE_SWIFT
#include "libspu/mpc/experimental/swift/io.h"
#include "libspu/mpc/experimental/swift/protocol.h"
#endif
#ifdef USE_CHEETAH
#include "libspu/mpc/cheetah/io.h"
#include "libspu/mpc/cheetah/protocol.h"
#include "venv/cheetah.h"
#include "venv/ot.h"
#endif
#ifdef USE_REF2K
#include "libspu/mpc/ref2k/ref2k.h"
#endif
namespace vn {
inline Conf baseConf(const char* name, size_t npc, FieldType f,
                     spu::ProtocolKind k) {
  Conf c;
  c.name = name;
  c.npc = npc;
  c.pub = f;
  c.rc.protocol = k;
  c.rc.field = f;
  return c;
}
#ifdef USE_SEMI2K
inline Conf semi2k(size_t npc, FieldType f) {
  auto c = baseConf("semi2k", npc, f, spu::ProtocolKind::SEMI2K);
  c.make = [](auto& rc, auto& l) { return spu::mpc::makeSemi2kProtocol(rc, l); };
  c.io = [](FieldType ff, size_t n) { return spu::mpc::semi2k::makeSemi2kIo(ff, n); };
  return c;
}
#endif
#ifdef USE_SEMI2K_TTP
// Beaver triples from a server; the party of rank adjust asks it for corrections.
inline Conf semi2kTtp(size_t npc, FieldType f, size_t adjust) {
  auto c = semi2k(npc, f);
  c.name += fmt::format("-ttp{}", adjust);
  c.rc.beaver_type = spu::RuntimeConfig::TrustedThirdParty;
  c.rc.ttp_beaver_config = std::make_shared<spu::TTPBeaverConfig>("8000", adjust, "sm2", "pk", "", nullptr);
  c.service = []() -> std::shared_ptr<void> {
    return spu::mpc::semi2k::beaver::ttp_server::RunServer({8000, "sm2", yacl::Buffer(std::string("sk")), {}});
  };
  return c;
}
#endif
#ifdef USE_ABY3
inline Conf aby3(FieldType f) {
  auto c = baseConf("aby3", 3, f, spu::ProtocolKind::ABY3);
  c.make = [](auto& rc, auto& l) { return spu::mpc::makeAby3Protocol(rc, l); };
  c.io = [](FieldType ff, size_t n) { return spu::mpc::aby3::makeAby3Io(ff, n); };
  // replicated sharing: party i's second component is party i+1's first
  c.consistent = [](const std::vector<NdArrayRef>& s) -> std::string {
    for (size_t i = 0; i < 3; ++i) {
      const auto &a = s[i], &b = s[(i + 1) % 3];
      if (a.eltype() != b.eltype() || a.shape() != b.shape())
        return fmt::format("share types differ: {} {} / {} {}", a.eltype(), a.shape(),
                           b.eltype(), b.shape());
      const size_t es = a.elsize() / 2;
      auto split = [es](const NdArrayRef& t) {
        std::vector<std::pair<U, U>> r;
        auto n = t.clone();
        for (int64_t j = 0; j < n.numel(); ++j) {
          U f = 0, g = 0;
          std::memcpy(&f, n.data<uint8_t>() + j * 2 * es, es);
          std::memcpy(&g, n.data<uint8_t>() + j * 2 * es + es, es);
          r.emplace_back(f, g);
        }
        return r;
      };
      auto x = split(a), y = split(b);
      for (size_t j = 0; j < x.size(); ++j)
        if (x[j].second != y[j].first)
          return fmt::format("replicated shares of parties {} and {} differ in "
                             "element {}", i, (i + 1) % 3, j);
    }
    return "";
  };
  return c;
}
#endif
#ifdef USE_SECURENN
inline Conf securenn(FieldType f) {
  auto c = baseConf("securenn", 3, f, spu::ProtocolKind::SECURENN);
  c.make = [](auto& rc, auto& l) { return spu::mpc::makeSecurennProtocol(rc, l); };
  c.io = [](FieldType ff, size_t n) { return spu::mpc::securenn::makeSecurennIo(ff, n); };
  return c;
}
#endif
#ifdef USE_SPDZ2K
inline Conf spdz2k(size_t npc, FieldType f) {
  auto c = baseConf("spdz2k", npc, f, spu::ProtocolKind::SEMI2K);
  c.rc.beaver_type = spu::RuntimeConfig::TrustedFirstParty;
  c.no_scalars = true;
  c.make = [](auto& rc, auto& l) { return spu::mpc::makeSpdz2kProtocol(rc, l); };
  return c;
}
#endif
#ifdef USE_SWIFT
inline Conf swift(FieldType f) {
  auto c = baseConf("swift", 3, f, spu::ProtocolKind::SWIFT);
  c.make = [](auto& rc, auto& l) { return spu::mpc::makeSwiftProtocol(rc, l); };
  c.io = [](FieldType ff, size_t n) { return spu::mpc::swift::makeSwiftIo(ff, n); };
  // party 0: alpha1, alpha2, beta+gamma; 1: alpha1, beta, gamma; 2: alpha2, beta, gamma
  c.consistent = [f](const std::vector<NdArrayRef>& s) -> std::string {
    const bool boolean = s[0].eltype().isa<spu::BShare>();
    std::vector<std::vector<std::array<U, 3>>> v(3);
    for (size_t i = 0; i < 3; ++i) {
      if (s[i].eltype() != s[0].eltype() || s[i].shape() != s[0].shape())
        return fmt::format("share types differ: {} {} / {} {}", s[0].eltype(), s[0].shape(), s[i].eltype(), s[i].shape());
      auto n = s[i].clone();
      const size_t es = n.elsize() / 3;
      for (int64_t j = 0; j < n.numel(); ++j) {
        std::array<U, 3> a{};
        for (int t = 0; t < 3; ++t) std::memcpy(&a[t], n.data<uint8_t>() + (j * 3 + t) * es, es);
        v[i].push_back(a);
      }
    }
    for (size_t j = 0; j < v[0].size(); ++j) {
      const auto &a = v[0][j], &b = v[1][j], &c2 = v[2][j];
      const U sum = boolean ? b[1] ^ b[2] : (b[1] + b[2]);
      if (a[0] != b[0] || a[1] != c2[0] || b[1] != c2[1] || b[2] != c2[2] || ((a[2] ^ sum) & maskOf(bitsOf(f))) != 0)
        return fmt::format("the parties' shares of element {} do not belong to one number", j);
    }
    return "";
  };
  return c;
}
#endif
#ifdef USE_CHEETAH
inline Conf cheetah(FieldType f, spu::CheetahOtKind ot = spu::CheetahOtKind::YACL_Ferret) {
  auto c = baseConf("cheetah", 2, f, spu::ProtocolKind::CHEETAH);
  c.rc.cheetah_2pc_config.ot_kind = ot;
  if (ot == spu::CheetahOtKind::YACL_Softspoken) c.name += "-ss";
  c.make = [](auto& rc, auto& l) { return spu::mpc::makeCheetahProtocol(rc, l); };
  c.io = [](FieldType ff, size_t n) { return spu::mpc::cheetah::makeCheetahIo(ff, n); };
  return c;
}
#endif
#ifdef USE_REF2K
inline Conf ref2k(size_t npc, FieldType f) {
  auto c = baseConf("ref2k", npc, f, spu::ProtocolKind::REF2K);
  c.make = [](auto& rc, auto& l) { return spu::mpc::makeRef2kProtocol(rc, l); };
  c.io = [](FieldType ff, size_t n) { return spu::mpc::makeRef2kIo(ff, n); };
  return c;
}
#endif
}  // namespace vn
