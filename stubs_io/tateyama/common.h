#pragma once
#define trace_scope_name(name)
