#pragma once
#include <yugawara/function/declaration.h>
namespace yugawara::function { struct configurable_provider { std::vector<declaration> list; void add(declaration d) { list.push_back(std::move(d)); } }; }
