// C10: ring operations of the reference protocol, and of public and private
// values in it.
#define USE_REF2K
#include "protoops.h"
#include "protos.h"
using namespace vn;
void vh_units() {
  for (auto f : {FM32, FM64, FM128})
    for (size_t n : {2, 3}) {
      protoUnits(ref2k(n, f), false, true, {"equal_ss", "equal_sp"}, 2, n == 2 ? 1 : 0);
    }
  for (auto f : {FM32, FM64, FM128}) {
    seqUnits(ref2k(2, f), vh::thorough() ? 4 : 3, {}, "s");
    mmulUnits(ref2k(2, f), false, true);
    randUnits(ref2k(2, f), false, false);
  }
}
