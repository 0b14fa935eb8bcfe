// C09: ring operations of the swift protocol.
#define USE_SWIFT
#include "protoops.h"
#include "protos.h"
using namespace vn;
void vh_units() {
  for (auto f : {FM32, FM64})
    protoUnits(swift(f), true, true, {"equal_ss", "equal_sp"}, 16,
               f == FM32 || vh::thorough() ? 1 : 0);
  for (auto f : {FM32, FM64}) {
    seqUnits(swift(f), vh::thorough() ? 3 : 2, {});
    mmulUnits(swift(f), true, true);
    randUnits(swift(f), true, false);
  }
}
