#pragma once
#include <memory>
#include <jogasaki/api/parameter_set.h>
#include <jogasaki/plan/parameter_set.h>
namespace jogasaki::api::impl { class parameter_set : public api::parameter_set { public: std::shared_ptr<plan::parameter_set> b = std::make_shared<plan::parameter_set>(); std::shared_ptr<plan::parameter_set> const& body() const { return b; } api::parameter_set* clone() const override { auto* r = new parameter_set; *r->b = *b; return r; } }; }
