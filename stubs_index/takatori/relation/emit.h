#pragma once
#include <optional>
#include <string>
#include <takatori/descriptor/variable.h>
namespace takatori::relation { struct emit { struct column { descriptor::variable s; std::optional<std::string> n; descriptor::variable const& source() const { return s; } std::optional<std::string> const& name() const { return n; } }; }; }
