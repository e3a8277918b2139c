#pragma once
#include <takatori/util/optional_ptr.h>
#include <yugawara/function/declaration.h>
namespace yugawara::binding { template <class T> takatori::util::optional_ptr<T const> extract_if(T const* p) { return p ? takatori::util::optional_ptr<T const>(*p) : takatori::util::optional_ptr<T const>(); } }
