// emp-ot is not installed: its back end is represented by the other one.
#pragma once
#include "libspu/mpc/cheetah/ot/yacl/ferret.h"
namespace spu::mpc::cheetah {
class EmpFerretOt : public YaclFerretOt {
 public:
  EmpFerretOt(std::shared_ptr<Communicator> conn, bool is_sender, bool malicious = false)
      : YaclFerretOt(std::move(conn), is_sender, false) {}
};
}  // namespace spu::mpc::cheetah
