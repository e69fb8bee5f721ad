// SHA3-256 as FIPS 202 defines it, for oracles
#pragma once
#include <cstdint>
#include <cstring>
#include <vector>
namespace ref {
inline void keccakf(uint64_t* a) {
    uint64_t lfsr = 1; auto rol = [](uint64_t v, unsigned n) { return n ? (v << n) | (v >> (64 - n)) : v; };
    for (int round = 0; round < 24; round++) {
        uint64_t c[5], d; for (int x = 0; x < 5; x++) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20]; for (int x = 0; x < 5; x++) { d = c[(x + 4) % 5] ^ rol(c[(x + 1) % 5], 1); for (int y = 0; y < 5; y++) a[x + 5 * y] ^= d; }
        int x = 1, y = 0; uint64_t cur = a[1]; for (int t = 0; t < 24; t++) { int X = y, Y = (2 * x + 3 * y) % 5; x = X; y = Y; uint64_t nx = a[x + 5 * y]; a[x + 5 * y] = rol(cur, (unsigned)((t + 1) * (t + 2) / 2) % 64); cur = nx; }
        for (int yy = 0; yy < 5; yy++) { uint64_t r[5]; for (int i = 0; i < 5; i++) r[i] = a[i + 5 * yy]; for (int i = 0; i < 5; i++) a[i + 5 * yy] = r[i] ^ (~r[(i + 1) % 5] & r[(i + 2) % 5]); }
        for (int j = 0; j < 7; j++) { bool bit = lfsr & 1; lfsr = (lfsr << 1) ^ ((lfsr >> 7) * 0x171); if (bit) a[0] ^= 1ULL << ((1 << j) - 1); }
    }
}
inline std::vector<uint8_t> sha3_256(const std::vector<uint8_t>& m) {
    const size_t rate = 136; uint64_t a[25] = { 0 }; std::vector<uint8_t> p = m; p.push_back(6); while (p.size() % rate) p.push_back(0); p.back() |= 0x80;
    for (size_t o = 0; o < p.size(); o += rate) { for (size_t i = 0; i < rate / 8; i++) { uint64_t w = 0; for (int b = 7; b >= 0; b--) w = (w << 8) | p[o + 8 * i + (size_t)b]; a[i] ^= w; } keccakf(a); }
    std::vector<uint8_t> r; for (int i = 0; i < 4; i++) for (int b = 0; b < 8; b++) r.push_back((uint8_t)(a[i] >> (8 * b))); return r;
}
}
