#include "mod.h"
namespace vv {
const std::map<std::string, void (*)(Ctx&)>& modules() {
  static const std::map<std::string, void (*)(Ctx&)> m = {
      {"quorum", mod_quorum}, {"change", mod_change}, {"restore", mod_restore}, {"encoding", mod_encoding}, {"storage", mod_storage}, {"log", mod_log},
      {"inflights", mod_inflights}, {"probe", mod_probe}, {"bootstrap", mod_bootstrap}, {"timeouts", mod_timeouts}, {"settings", mod_settings}, {"roles", mod_roles}, {"peer", mod_peer}};
  return m;
}
}  // namespace vv
