// Instantiates one solver (-DSOLVER=name) in many option combinations, for histories and faults.
#include "solver_tu.hpp"
namespace sv { using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using u64 = size_t;
//             weight scalar  coord index rank lazy  noclean reverse octile mem
#ifdef JUMP
VARIANT(u8,   double, u32, u32, 2, false, false, true,  true, pools)
VARIANT(bool, u32,    u32, u32, 2, true,  false, false, true, pools)
VARIANT(u8,   double, u32, u32, 2, false, true,  false, true, pools)
VARIANT(u8,   double, u32, u32, 2, false, false, true,  true, small_pools)
VARIANT(bool, float,  u64, u64, 2, true,  true,  true,  true, small_pools)
VARIANT(u8,   double, u32, u32, 2, false, false, false, true, audit)
VARIANT(bool, u32,    u32, u16, 2, true,  true,  true,  true, audit)
#else
VARIANT(u8,   u32,    u32, u32, 2, false, false, true,  false, pools)
VARIANT(bool, u32,    u32, u32, 2, true,  false, false, false, pools)
VARIANT(u8,   double, u64, u64, 3, false, true,  true,  false, pools)
VARIANT(u8,   u32,    u32, u32, 2, false, false, true,  true,  pools)
VARIANT(u8,   u32,    u32, u32, 2, false, false, true,  false, small_pools)
VARIANT(bool, float,  u64, u64, 3, true,  true,  false, false, small_pools)
VARIANT(u8,   u32,    u32, u32, 2, false, false, false, false, audit)
VARIANT(bool, float,  u32, u16, 2, true,  true,  true,  true,  audit)
#endif
}
