#pragma once
#include "basic_buffer_view.h"
namespace takatori::util { using buffer_view = basic_buffer_view<char>; using const_buffer_view = basic_buffer_view<char const>; }
