#pragma once
#define cache_align
