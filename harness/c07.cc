// C07: ring operations of the securenn protocol.
#define USE_SECURENN
#include "protoops.h"
#include "protos.h"
using namespace vn;
void vh_units() {
  for (auto f : {FM32, FM64, FM128})
    protoUnits(securenn(f), true, true, {"equal_ss", "equal_sp"}, 8, 1, {},
               [](Op& o) {
                 // the most significant bit protocol is specified for
                 // -2^(k-2) <= x < 2^(k-2)
                 if (o.name == "msb_s" && o.kinds == "a") o.dom = "n";
               });
  for (auto f : {FM32, FM64, FM128}) {
    seqUnits(securenn(f), vh::thorough() ? 3 : 2, {"msb_s"});
    mmulUnits(securenn(f), true, true);
    randUnits(securenn(f), true, false);
  }
}
