#pragma once
#include <yugawara/aggregate/declaration.h>
namespace yugawara::aggregate { struct configurable_provider { std::vector<declaration> list; void add(declaration d) { list.push_back(std::move(d)); } }; }
