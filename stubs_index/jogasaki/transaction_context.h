#pragma once
#include <memory>
#include <jogasaki/kvs/transaction.h>
#include <jogasaki/kvs/database.h>
namespace jogasaki { struct transaction_context { std::shared_ptr<kvs::transaction> tx = std::make_shared<kvs::transaction>(); int aborted = 0; std::shared_ptr<kvs::database> db = std::make_shared<kvs::database>(); kvs::database* database() const { return db.get(); } std::shared_ptr<kvs::transaction> const& object() const { return tx; } status abort_transaction() { ++aborted; return status::ok; } std::uint64_t surrogate_id() const { return 1; } explicit operator bool() const { return true; } }; }
