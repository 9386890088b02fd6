// Instantiates one solver (-DSOLVER=name) over auditing memory resources.
#include "solver_tu.hpp"
namespace sv { using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using u64 = size_t;
//             weight scalar  coord index rank lazy  noclean reverse octile mem
#ifdef JUMP
VARIANT(u8,   double, u32, u32, 2, false, false, true,  true, audit)
VARIANT(bool, float,  u32, u16, 2, false, false, false, true, audit)
VARIANT(u8,   u32,    u64, u64, 2, true,  true,  true,  true, audit)
#else
VARIANT(u8,   u32,    u32, u32, 2, false, false, true,  false, audit)
VARIANT(bool, double, u32, u16, 3, false, false, false, false, audit)
VARIANT(u8,   float,  u64, u64, 2, true,  true,  true,  true,  audit)
VARIANT(u8,   u32,    u32, u32, 1, true,  false, false, false, audit)
VARIANT(bool, u32,    u32, u32, 4, false, true,  true,  false, audit)
#endif
}
