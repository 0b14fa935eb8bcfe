// C06: ring operations of the aby3 protocol.
#define USE_ABY3
#include "protoops.h"
#include "protos.h"
using namespace vn;
void vh_units() {
  for (auto f : {FM32, FM64, FM128})
    protoUnits(aby3(f), true, true, {"equal_ss[bb]", "equal_sp[bp]"}, 8, 1, {},
               [](Op& o) {
                 // needs shares as wide as the ring
                 if (o.name.rfind("arshift_s", 0) == 0 && o.kinds == "b") o.dom = "F";
               });
  for (auto f : {FM32, FM64, FM128}) {
    seqUnits(aby3(f), vh::thorough() ? 3 : 2, {});
    mmulUnits(aby3(f), true, true);
    randUnits(aby3(f), true, true);
  }
}
