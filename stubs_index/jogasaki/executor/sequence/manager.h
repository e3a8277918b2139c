#pragma once
#include <map>
#include <jogasaki/executor/sequence/sequence.h>
#include <jogasaki/executor/sequence/exception.h>
namespace jogasaki::executor::sequence { struct manager { std::map<sequence_definition_id, sequence> m; bool notify_fails = false; int notified = 0; sequence* find_sequence(sequence_definition_id d) { auto it = m.find(d); return it == m.end() ? nullptr : &it->second; } bool notify_updates(kvs::transaction&) { ++notified; if (notify_fails) throw exception(status::err_io_error); return true; } }; }
