#pragma once
#include <memory>
#include <shared_mutex>
#include <vector>
#include <yugawara/function/declaration.h>
namespace yugawara::function { template <class M> struct basic_configurable_provider { std::vector<std::shared_ptr<declaration const>> l; template <class F> void each(F&& f) const { for (auto& x : l) f(x); } }; using configurable_provider = basic_configurable_provider<std::shared_mutex>; }
