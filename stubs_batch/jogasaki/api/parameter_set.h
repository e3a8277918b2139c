#pragma once
namespace jogasaki::api { class parameter_set { public: virtual ~parameter_set() = default; virtual parameter_set* clone() const = 0; }; }
