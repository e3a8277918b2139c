#pragma once
namespace sharksfin { class TransactionState { public: enum class StateKind { UNKNOWN, WAITING_START, STARTED, WAITING_CC_COMMIT, ABORTED, WAITING_DURABLE, DURABLE }; StateKind k{}; StateKind state_kind() const { return k; } }; }
