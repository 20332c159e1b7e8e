#pragma once
#include <cstddef>
#include <cstdint>
using std::nullptr_t;
#define VP_OFF(name, type, member) extern "C" const size_t vp_off_##name = __builtin_offsetof(type, member);
#define VP_SIZE(name, type) extern "C" const size_t vp_size_##name = sizeof(type);
