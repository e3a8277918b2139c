#pragma once
#include <shared_mutex>
#include <yugawara/function/declaration.h>
namespace yugawara::function { template <class M> struct basic_configurable_provider { std::vector<declaration> list; void add(declaration d) { list.push_back(std::move(d)); } }; using configurable_provider = basic_configurable_provider<std::shared_mutex>; }
