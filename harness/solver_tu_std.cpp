#include "solver_tu.hpp"
namespace sv { using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using u64 = size_t; using i16 = int16_t; using i8 = int8_t;
VARIANT(u8,   u32,    u32, u32, 2, false, false, true,  false, pools)
VARIANT(bool, float,  u32, u32, 2, false, false, false, false, pools)
VARIANT(i16,  u32,    u64, u64, 3, false, false, true,  false, small_pools)
VARIANT(bool, u32,    u32, u32, 3, false, false, false, false, pools)
VARIANT(u8,   u32,    u32, u32, 1, false, false, true,  false, pools)
VARIANT(bool, double, u32, u16, 4, false, false, true,  false, pools)
VARIANT(u8,   u32,    u64, u32, 5, false, false, false, false, small_pools)
VARIANT(u8,   u32,    u32, u32, 2, false, false, true,  true,  small_pools)
VARIANT(bool, float,  u32, u32, 2, false, false, false, true,  pools)
VARIANT(u32,  u32,    u32, u64, 3, false, false, true,  true,  pools)
VARIANT(u8,   u32,    u32, u32, 2, true,  false, true,  false, pools)
}
