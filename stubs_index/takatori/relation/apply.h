#pragma once
#include <cstddef>
#include <takatori/descriptor/variable.h>
namespace takatori::relation { enum class apply_kind { cross, outer }; namespace details { struct apply_column { std::size_t p; descriptor::variable v; std::size_t position() const { return p; } descriptor::variable const& variable() const { return v; } }; } struct apply {}; }
