// C05: ring operations of the semi2k protocol.
#define USE_SEMI2K_TTP
#include "protoops.h"
#include "protos.h"
using namespace vn;
void vh_units() {
  for (auto f : {FM32, FM64, FM128})
    for (size_t n : {2, 3, 5})
      protoUnits(semi2k(n, f), true, true, {"equal_ss[bb]", "equal_sp[bp]"}, 4,
                 n == 5 ? 0 : 1);
  for (auto f : {FM32, FM64, FM128})
    for (size_t n : {2, 3}) {
      seqUnits(semi2k(n, f), vh::thorough() ? 3 : 2, {});
      mmulUnits(semi2k(n, f), true, true);
      randUnits(semi2k(n, f), true, true);
    }
  // triples from a server
  for (auto f : {FM32, FM64, FM128})
    for (auto [n, adjust] : {std::pair{2, 0}, {2, 1}, {3, 1}}) {
      auto c = semi2kTtp(n, f, adjust);
      if ((n == 3) != (f == FM64) && !vh::thorough() && adjust == 1) continue;
      protoUnits(c, true, true, {"equal_ss[bb]", "equal_sp[bp]"}, 4, vh::thorough() && n == 2 ? 1 : 0);
      mmulUnits(c, true, true);
      randUnits(c, true, true);
    }
}
