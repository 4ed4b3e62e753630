//! Small helpers shared by the checks.
pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }

/// Independent bitwise CRC-32 (reflected 0xEDB88320, init all ones, no final inversion as tag files store it).
pub fn crc32_raw(init: u32, data: &[u8]) -> u32 {
    let mut c = init;
    for &b in data {
        c ^= b as u32;
        for _ in 0..8 { c = if c & 1 != 0 { (c >> 1) ^ 0xEDB8_8320 } else { c >> 1 }; }
    }
    c
}
