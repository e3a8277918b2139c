#pragma once
#include "assign_lob_id.h"
