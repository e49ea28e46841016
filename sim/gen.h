#pragma once
#include "core.h"
Plan generate(const std::string& prop, u64 seed, u64 idx);
u64 run_seed(const std::string& prop, u64 seed, u64 idx);
