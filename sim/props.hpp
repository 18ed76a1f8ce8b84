#ifndef SIM_PROPS_HPP
#define SIM_PROPS_HPP
#include "world.hpp"
namespace sim {
void add_drive(std::vector<Property> &v);
void add_files(std::vector<Property> &v);
void add_shell(std::vector<Property> &v);
void add_misc(std::vector<Property> &v);
void add_parts(std::vector<Property> &v);
void add_print(std::vector<Property> &v);
void add_ent(std::vector<Property> &v);
}
#endif
