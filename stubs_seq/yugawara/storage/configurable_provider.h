#pragma once
#include <functional>
#include <memory>
#include <vector>
#include <yugawara/storage/sequence.h>
namespace yugawara::storage { class configurable_provider { public: std::vector<std::shared_ptr<sequence const>> v; void each_sequence(std::function<void(std::string_view, std::shared_ptr<sequence const> const&)> const& f) const { for (auto& e : v) f(e->simple_name(), e); } }; }
