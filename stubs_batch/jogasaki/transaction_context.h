#pragma once
#include <jogasaki/status.h>
namespace jogasaki { class transaction_context { public: std::size_t id{}, statements{}, commits{}; status commit(); }; enum class transaction_type_kind { occ }; namespace api { struct transaction_option { explicit transaction_option(transaction_type_kind) {} }; } }
