// Instantiations of operations that hold external resources and that the other drivers do not use (see checks/resources.py).
#include "common.hpp"
#include <vif/utility/string.hpp>
#include <vif/io/filesystem.hpp>
using namespace vif;
void drive_res(std::string st, vec1s s, vec2s s2) {
    (void)regex_match(st, s); (void)regex_match(st, s2); (void)regex_match(s2, st);
    file::explorer e(st, st); e.close();
}
