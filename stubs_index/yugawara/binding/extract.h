#pragma once
#include <memory>
namespace yugawara::binding { template <class T, class D> T const& extract(std::shared_ptr<D> const& p) { return *p; } }
