#pragma once
#include <unordered_set>
#include <vector>
#include <takatori/relation/graph.h>
#include <takatori/relation/expression.h>
#include <takatori/descriptor/variable.h>
#include <yugawara/compiled_info.h>
namespace yugawara::analyzer { struct block { std::vector<block> down; std::vector<takatori::relation::expression> x; std::unordered_set<takatori::descriptor::variable> d, k; std::vector<block> const& downstreams() const { return down; } auto begin() const { return x.begin(); } auto end() const { return x.end(); } };
struct liveness { std::unordered_set<takatori::descriptor::variable> const* d; std::unordered_set<takatori::descriptor::variable> const* k; auto const& define() const { return *d; } auto const& kill() const { return *k; } };
struct block_builder { static block build(takatori::relation::graph_type&) { return {}; } }; struct variable_liveness_analyzer { block const& b; liveness inspect(block const& x) { return {&x.d, &x.k}; } }; inline block const* find_unique_head(block const& b) { return &b; } }
