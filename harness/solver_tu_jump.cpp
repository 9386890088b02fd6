// Jump-point solvers: -DSOLVER=jps or gjps, with -DJUMP.
#include "solver_tu.hpp"
namespace sv { using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using u64 = size_t; using i16 = int16_t; using i32 = int32_t;
VARIANT(u8,   float,  u32, u32, 2, false, false, true,  true,  pools)
VARIANT(bool, double, u32, u32, 2, false, false, false, true,  pools)
VARIANT(u8,   double, u64, u64, 2, false, false, true,  true,  small_pools)
VARIANT(bool, float,  u32, u16, 2, false, false, false, true,  small_pools)
VARIANT(i16,  double, u32, u16, 2, false, true,  true,  true,  pools)
VARIANT(u8,   u32,    u32, u32, 2, false, false, true,  true,  pools)
VARIANT(bool, i32,    u32, u32, 2, false, false, false, true,  pools)
VARIANT(bool, double, u32, u32, 2, true,  false, true,  true,  pools)
}
