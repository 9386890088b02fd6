E(u8, u32, 1, 8) E(bool, u64, 1, 8) E(u8, u32, 2, 12) E(bool, u32, 2, 12) E(i16, u64, 2, 8) E(bool, u64, 2, 8) E(u32, u32, 3, 8) E(bool, u64, 3, 8) E(i8, u64, 3, 8) E(bool, u32, 3, 8)
E(u8, u32, 4, 4) E(bool, u64, 4, 4) E(i64, u32, 5, 2) E(bool, u32, 5, 2) E(u64, u64, 5, 1) E(char, u32, 2, 4) E(u16, u32, 2, 4)
