// Headers that break exactly one rule.
#pragma once
#include "chainbase.h"
#include <chrono>
namespace badh {
enum Kind { HEIGHT, VERSION, TIME_EQUAL, TIME_BACK, FUTURE, PREV_ROOT, PREV_ROOT_OLD, KINDS, PREV_HASH };
inline const char* name(int k) { static const char* n[] = { "height", "version", "time of the parent", "time before the parent", "too far in the future", "previous root", "root of an older header set", "", "previous hash" }; return n[k]; }
inline int64_t nowSec() { return std::chrono::duration_cast<std::chrono::seconds>(std::chrono::system_clock::now().time_since_epoch()).count(); }
inline void apply(Src& s, int kind, gen::HeaderFields& f, Blk* p) {
    switch (kind) {
    case HEIGHT: { int64_t d = s.pick<int64_t>({ -1, 1, -2, 2, 1000, (int64_t)1 << 40 }); f.height += d; break; }
    case VERSION: f.version = s.pick<uint16_t>({ 0, 2, 3, 5, 257, 65535 }); break;
    case TIME_EQUAL: f.timestamp = p->hdr->GetTimestamp(); break; case TIME_BACK: f.timestamp = p->hdr->GetTimestamp() - 1 - (int64_t)s.below(100000); break;
    case FUTURE: f.timestamp = nowSec() + 330 + (int64_t)s.pick<uint64_t>({ 0, 60, 3600, 1ULL << 32, 1ULL << 40 }); break;
    case PREV_ROOT: { auto v = f.prevRoot.GetData(); v[s.below(32)] ^= (uint8_t)(1 << s.below(8)); f.prevRoot = Hash(v); break; }
    case PREV_ROOT_OLD: f.prevRoot = H(p->parent->st->headers.root()); break;
    case PREV_HASH: { auto v = f.prev.GetData(); v[s.below(32)] ^= (uint8_t)(1 << s.below(8)); f.prev = Hash(v); break; } }
}
}
