#pragma once
#include <cstddef>
#include <cstdint>
namespace sharksfin { using SequenceId = std::size_t; using SequenceValue = std::int64_t; using SequenceVersion = std::size_t; }
