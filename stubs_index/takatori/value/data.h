#pragma once
#include <jogasaki/data/any.h>
namespace takatori::value { struct data { jogasaki::data::any a; }; }
