// C12: the supply of correlated transfers.
#include "net.h"
#include "venv/ot.h"

#include "libspu/mpc/cheetah/ot/yacl/yacl_ote_adapter.h"
using namespace vn;
namespace ch = spu::mpc::cheetah;

static U prf(U a, U b = 0) { return venv::prf(900, a, b, 0); }

// ---- the supply of transfers -----------------------------------------------------
// Every history of requests: the correlation always holds, no transfer is given
// out twice, and none that started an extension is given out.
void supply(bool chosen_first, int depth) {
  venv::g_ferret_pre = {12, 3};
  venv::g_ferret_main = {16, 4};
  const std::vector<size_t> sizes = {1, 3, 4, 7, 8, 9, 12, 13, 15, 16, 17, 28, 29, 45};
  vmc::Explorer ex;
  ex.explore([&] {
    venv::resetRandom(0);
    auto links = venv::makeWorld(2);
    std::set<U> out, used;
    std::string what = "requests";
    std::string bad;
    venv::g_ferret = [&](absl::Span<const uint128_t> u, absl::Span<const uint128_t>) {
      for (auto v : u)
        if (!used.insert(v).second) bad = "an extension starts from a transfer used before";
    };
    std::shared_ptr<ch::YaclFerretOTeAdapter> a[2];
    auto both = [&](const std::function<void(int)>& fn) {
      vh::where(what);
      auto r = vmc::run({[&] { fn(0); }, [&] { fn(1); }});
      if (!r.ok()) vh::fail(what + ": " + r.str());
      auto u = venv::undelivered(links[0]);
      if (!u.empty()) vh::fail(what + ": messages are never received");
    };
    both([&](int i) {
      a[i] = std::make_shared<ch::YaclFerretOTeAdapter>(links[i], i == 0);
      a[i]->OneTimeSetup();
    });
    for (int s = 0; s < depth; ++s) {
      const size_t n = sizes[vmc::choose(sizes.size(), "size")];
      const bool chosen = s == 0 ? chosen_first : vmc::choose(2, "kind");
      what += fmt::format(" {}{}", chosen ? "chosen:" : "random:", n);
      std::vector<uint128_t> d[2];
      std::vector<uint8_t> c(n);
      for (size_t i = 0; i < n; ++i) c[i] = prf(i, s) & 1;
      auto cc = c;
      both([&](int i) {
        d[i].assign(n, 0);
        if (chosen) {
          if (i == 0) a[i]->send_cot(absl::MakeSpan(d[i]));
          else a[i]->recv_cot(absl::MakeSpan(d[i]), absl::MakeConstSpan(c));
        } else {
          if (i == 0) a[i]->send_rcot(absl::MakeSpan(d[i]));
          else a[i]->recv_rcot(absl::MakeSpan(d[i]), absl::MakeSpan(c));
        }
      });
      const U delta = a[0]->GetDelta();
      VH_CHECK(!chosen || c == cc, "{}: choices were modified", what);
      for (size_t i = 0; i < n; ++i) {
        VH_CHECK(d[1][i] == (d[0][i] ^ (c[i] ? delta : 0)), "{}: transfer {} is not correlated", what, i);
        const U base = d[0][i] & ~U(1);
        VH_CHECK(out.insert(std::min(base, base ^ (delta & ~U(1)))).second, "{}: transfer {} was given out before", what, i);
      }
      VH_CHECK(bad.empty(), "{}: {}", what, bad);
      for (auto v : used) {
        const U base = v & ~U(1);
        VH_CHECK(!out.count(std::min(base, base ^ (delta & ~U(1)))), "{}: a transfer that starts an extension is given out", what);
      }
    }
    venv::g_ferret = nullptr;
    vh::eval(vh::hash(what));
    return true;
  });
  vh::add("histories", ex.execs);
}

