#include "props.hpp"
namespace sim {
void add_mex(std::vector<Property> &v) __attribute__((weak)); // only where the gateways are linked in
std::vector<Property> const &properties() {
  static std::vector<Property> v;
  if (v.empty()) { add_drive(v);
    add_files(v); add_shell(v);
#ifndef PART
    add_misc(v); add_parts(v); add_print(v); add_ent(v);
    if (add_mex) add_mex(v);
#endif
  }
  return v;
}
}
