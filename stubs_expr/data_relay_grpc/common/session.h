// stand-in of the BLOB relay session: tags are computed by the harness
#pragma once
#include <cstdint>
#include <filesystem>
#include <optional>
#include <vector>
namespace data_relay_grpc::common { struct blob_session { virtual ~blob_session() = default; virtual std::uint64_t compute_tag(std::uint64_t id) = 0; virtual bool has(std::uint64_t id) = 0; struct path { std::string s; std::string string() const { return s; } }; std::optional<path> find(std::uint64_t id) { if (!has(id)) return {}; return path{"p"}; } }; }
