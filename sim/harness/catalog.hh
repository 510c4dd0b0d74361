#pragma once
#include <string>
#include <unordered_map>
#include <vector>

#include "../ops/cat.hh"
namespace cat {
std::vector<Op>& ops();
const std::unordered_map<std::string, int>& op_index();
void load_catalog();
}
