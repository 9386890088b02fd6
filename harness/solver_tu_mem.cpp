// Instantiates one solver (-DSOLVER=name) over grids with auditing memory resources (and some pools).
#include "solver_tu.hpp"
namespace sv { using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using u64 = size_t;
VARIANT(u8,   u32,    u32, u32, 2, false, false, true,  false, audit)
VARIANT(bool, float,  u32, u32, 2, false, false, false, false, audit)
VARIANT(u8,   u32,    u64, u64, 3, false, false, true,  false, audit)
VARIANT(bool, double, u32, u16, 1, false, false, false, false, audit)
VARIANT(u8,   u32,    u32, u32, 2, true,  false, false, true,  audit)
VARIANT(bool, u32,    u32, u32, 2, false, false, true,  true,  small_pools)
VARIANT(u8,   u32,    u32, u32, 2, false, false, false, false, pools)
}
