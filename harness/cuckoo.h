// Independent definition of the five Cuckoo-cycle graphs, a proof checker and a small-graph solver.
#pragma once
#include "enc.h"
#include <unordered_map>
#include <set>
namespace cuckoo {
typedef uint64_t u64; typedef std::vector<u64> Nonces;
enum Variant { TOO, ROO, ROOD, ROOM, ROOZ };
static const char* NAME[] = { "cuckatoo", "cuckaroo", "cuckarood", "cuckaroom", "cuckarooz" };
struct Keys { u64 k[4]; };
inline Keys keysOf(const BlockHeader& h) { gen::Enc e; enc::encHeader(e, h, false); auto d = enc::b2b(e.b); Keys r; for (int i = 0; i < 4; i++) { r.k[i] = 0; for (int j = 7; j >= 0; j--) r.k[i] = r.k[i] << 8 | d[i * 8 + j]; } return r; }
inline u64 rot(u64 x, int b) { return x << b | x >> (64 - b); }
struct Sip { u64 a, b, c, d; int e; void round() { a += b; c += d; b = rot(b, 13); d = rot(d, 16); b ^= a; d ^= c; a = rot(a, 32); c += b; a += d; b = rot(b, 17); d = rot(d, e); b ^= c; d ^= a; c = rot(c, 32); }
    u64 hash(u64 n) { d ^= n; round(); round(); a ^= n; c ^= 0xff; for (int i = 0; i < 4; i++) round(); return a ^ b ^ c ^ d; } };
struct Graph {
    Variant v; int bits; Keys k; std::unordered_map<u64, std::array<u64, 64>> blocks; bool undirected = false;   // undirected: ROOD without the direction rule, TOO with the plain matching rule (used to build near misses)
    u64 mask() const { return (1ULL << (v == ROOD ? bits - 1 : v == ROOZ ? bits + 1 : bits)) - 1; }
    u64 block(u64 n) { u64 b = n >> 6; auto it = blocks.find(b); if (it == blocks.end()) { if (blocks.size() > 4096) blocks.clear(); auto& o = blocks[b]; Sip s{ k.k[0], k.k[1], k.k[2], k.k[3], v == ROOD ? 25 : 21 }; for (int i = 0; i < 64; i++) o[i] = s.hash(b * 64 + i); if (v == ROO || v == ROOD) { for (int i = 0; i < 63; i++) o[i] ^= o[63]; } else for (int i = 62; i >= 0; i--) o[i] ^= o[i + 1]; return o[n & 63]; } return it->second[n & 63]; }
    u64 end(u64 n, int side) { if (v == TOO) { Sip s{ k.k[0], k.k[1], k.k[2], k.k[3], 21 }; return s.hash(2 * n + side) & mask(); } u64 x = block(n); return (side ? x >> 32 : x) & mask(); }
    // an end of an edge meets the ends whose key equals its partner key
    u64 key(u64 n, int s, u64 x) const { switch (v) { case TOO: return undirected ? (x >> 1) * 2 + s : x * 2 + s; case ROO: return x * 2 + s; case ROOD: return undirected ? x * 2 + s : (x * 2 + s) * 2 + (n & 1); case ROOM: return x * 2 + s; default: return x; } }
    u64 partner(u64 n, int s, u64 x) const { switch (v) { case TOO: return undirected ? key(n, s, x) : (x ^ 1) * 2 + s; case ROOD: return undirected ? key(n, s, x) : (x * 2 + s) * 2 + (1 - (n & 1)); case ROOM: return x * 2 + (1 - s); default: return key(n, s, x); } }
    u64 node(int s, u64 x) const { switch (v) { case TOO: return (x >> 1) * 2 + s; case ROO: case ROOD: return x * 2 + s; default: return x; } }
};
// the definition: strictly ascending, in range, one cycle through all 42 edges
inline bool isProof(Graph& g, const Nonces& p) {
    if (p.size() != 42) return false; for (size_t i = 0; i < 42; i++) { if (p[i] >> g.bits) return false; if (i && p[i] <= p[i - 1]) return false; }
    std::map<u64, std::vector<std::pair<int, int>>> at; std::vector<std::array<u64, 2>> x(42); for (int i = 0; i < 42; i++) for (int s = 0; s < 2; s++) { x[i][s] = g.end(p[i], s); at[g.node(s, x[i][s])].push_back({ i, s }); }
    for (auto& [n, v] : at) { if (v.size() != 2) return false; auto [a, s] = v[0]; auto [b, t] = v[1]; if (g.partner(p[a], s, x[a][s]) != g.key(p[b], t, x[b][t])) return false; }
    std::set<int> seen; int i = 0, s = 0; do { seen.insert(i); s ^= 1; auto& v = at[g.node(s, x[i][s])]; auto o = v[0] == std::make_pair(i, s) ? v[1] : v[0]; i = o.first; s = o.second; } while (!(i == 0 && s == 0) && seen.size() <= 42 && !(i == 0)); return seen.size() == 42 && i == 0;
}
// all simple cycles of at most maxLen edges found from each start edge, up to a limit of steps
inline std::vector<Nonces> cycles(Graph& g, u64 range, size_t maxLen = 42, size_t budget = 400000) {
    std::vector<std::array<u64, 2>> x(range); std::vector<char> live(range, 1); for (u64 n = 0; n < range; n++) for (int s = 0; s < 2; s++) x[n][s] = g.end(n, s);
    std::unordered_map<u64, int> cnt; for (bool ch = true; ch;) { ch = false; cnt.clear(); for (u64 n = 0; n < range; n++) if (live[n]) for (int s = 0; s < 2; s++) cnt[g.key(n, s, x[n][s])]++; for (u64 n = 0; n < range; n++) if (live[n]) for (int s = 0; s < 2; s++) { u64 q = g.partner(n, s, x[n][s]); auto it = cnt.find(q); int c = it == cnt.end() ? 0 : it->second; if (q == g.key(n, s, x[n][s])) c--; if (c < 1) { live[n] = 0; ch = true; break; } } }
    std::unordered_map<u64, std::vector<std::pair<u64, int>>> at; for (u64 n = 0; n < range; n++) if (live[n]) for (int s = 0; s < 2; s++) at[g.key(n, s, x[n][s])].push_back({ n, s });
    std::vector<Nonces> out; std::vector<u64> path; std::set<u64> used, nodes;
    std::function<void(u64, int, u64)> go = [&](u64 n, int entry, u64 start) {   // entered edge n through end `entry`
        if (budget == 0) return; budget--; int s = 1 - entry; u64 nd = g.node(s, x[n][s]); path.push_back(n);
        if (!nodes.count(nd)) { used.insert(n); nodes.insert(nd); auto it = at.find(g.partner(n, s, x[n][s])); if (it != at.end()) for (auto& [m, t] : it->second) { if (m == n) continue; if (g.v == ROOM && t != 0) continue; if (m == start && t == 0) { if (path.size() >= 2) out.push_back(path); } else if (m > start && !used.count(m) && path.size() < maxLen) go(m, t, start); } nodes.erase(nd); used.erase(n); }
        path.pop_back(); };
    for (u64 n = 0; n < range; n++) if (live[n]) go(n, 0, n);
    for (auto& c : out) std::sort(c.begin(), c.end()); return out;
}
}
