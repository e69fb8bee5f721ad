// C08: difficulty adjustment and consensus schedule
#include "gen.h"
#include "env.h"
#include "mockdb.h"
#include "PoW/DifficultyCalculator.h"
#include <Consensus.h>
using namespace pbt; typedef uint64_t u64; typedef __int128 i128;
// ---- reference (published rules)
struct Info { i128 ts, diff, scale; bool sec; };
static const u64 WEEK = 10080, YEAR = 524160;
static i128 damp(i128 a, i128 g, i128 f) { return (a + (f - 1) * g) / f; }
static i128 clampTo(i128 a, i128 g, i128 f) { i128 lo = g / f, hi = g * f; return a > hi ? hi : a < lo ? lo : a; }
static u64 ratio(u64 h) { u64 step = 2 * YEAR / 90, n = h / step; return n >= 90 ? 0 : 90 - n; }
static int version(Environment e, u64 h) { std::vector<u64> f = e == Environment::FLOONET ? std::vector<u64>{ 185040, 298080, 552960, 642240 } : std::vector<u64>{ YEAR / 2, YEAR, 3 * YEAR / 2, 2 * YEAR }; int v = 1; for (u64 x : f) if (h >= x) v++; return v; }
static i128 weightOf(u64 h, int eb) { i128 x = eb; if (eb == 31 && h >= YEAR) { i128 cut = 1 + (i128)((h - YEAR) / WEEK); x = x > cut ? x - cut : 0; } return ((i128)2 << (eb - 24)) * x; }
struct Next { i128 diff, scale; };
static Next nextDma(u64 height, std::vector<Info> newestFirst) {
    auto& d = newestFirst; i128 delta = d.size() > 1 ? d[0].ts - d[1].ts : 60, diff = d[0].diff, ts = d.back().ts; while (d.size() < 61) { ts = ts > delta ? ts - delta : 0; d.push_back({ ts, diff, (2 << 5) * 29, true }); }
    i128 sum = 0, sc = 0, cnt = 0; for (int i = 0; i < 60; i++) { sum += d[i].diff; sc += d[i].scale; cnt += d[i].sec; }
    i128 adj = clampTo(damp(d[0].ts - d[60].ts, 3600, 3), 3600, 2), nd = sum * 60 / adj; if (nd < 3) nd = 3;
    i128 pct = (i128)ratio(height), goal = 60 * pct, ac = clampTo(damp(cnt * 100, goal, 13), goal, 2), s = sc * pct / (ac < 1 ? 1 : ac); if (s < 13) s = 13; return { nd, (i128)(uint32_t)s };
}
static Next nextWtema(Environment e, const Info& last, const Info& prev) { i128 nd = last.diff * 14400 / (14400 - 60 + last.ts - prev.ts), mn = e == Environment::MAINNET ? 16384 : 64 * 29; return { nd < mn ? mn : nd, 0 }; }

static Environment netOf(Src& s) { return s.pick<Environment>({ Environment::MAINNET, Environment::FLOONET, Environment::AUTOMATED_TESTING }); }
static ProofOfWork proofNo(int eb, size_t i) { std::vector<uint8_t> h(32, 0xA5); h[0] = (uint8_t)i; h[1] = (uint8_t)(i >> 8); return ProofOfWork((uint8_t)eb, std::vector<uint64_t>(42), Hash(h)); }   // the hash of a header is that of its proof
static void window(Ctx& c) {
    auto& s = c.src; Environment e = netOf(s); env::use(e); size_t n = s.chance(1, 3) ? s.pick<size_t>({ 1, 2, 59, 60, 61, 62, 63 }) : 1 + s.below(70); bool wtema = s.chance(1, 3); if (wtema && n < 2) n = 2;
    u64 base = s.chance(1, 2) ? s.below(3 * YEAR) : s.flip() ? s.pick<u64>({ 0, YEAR, 2 * YEAR - 70, 2 * YEAR, 11647 * 45 }) : (2 * YEAR / 90) * (s.flip() ? 86 + s.below(5) : s.below(91)) + s.below(72); if (base >= 72 && s.flip()) base -= n;   // the share of secondary blocks changes there
    auto db = std::make_shared<HeaderDB>(); std::vector<Info> infos; BlockHeaderPtr prev; i128 td = 0; int64_t ts = s.chance(1, 6) ? (int64_t)s.below(5000) : 1546600000 + (int64_t)s.below(100000000); int tmode = (int)s.below(5), dmode = (int)s.below(5), smode = (int)s.below(4);
    u64 d0 = 1 + s.below(s.flip() ? 1ULL << 45 : 100000);
    for (size_t i = 0; i < n; i++) {
        u64 dt = tmode == 0 ? 60 : tmode == 1 ? 1 + s.below(120) : tmode == 2 ? 1 : tmode == 3 ? 200 + s.below(100000) : (s.chance(1, 8) ? s.below(1 << 20) + 1 : 60); u64 d = dmode == 0 ? d0 : dmode == 1 ? 1 + s.below(2 * d0) : dmode == 2 ? 1 : dmode == 3 ? d0 + s.below(1000) : (s.flip() ? 1 : d0);
        if (i) ts += (int64_t)dt; td += (i128)d; uint32_t sc = smode == 0 ? 1856 : smode == 1 ? 13 : smode == 2 ? (uint32_t)s.below(1 << 20) : 1 + (uint32_t)s.below(4000); int eb = (int)(smode == 1 ? 29 : smode == 3 && d0 % 4 == 0 ? 31 : s.chance(1, 2) ? 29 : s.pick<u64>({ 31, 32, 29, 63 }));
        if (wtema) sc = 0;
        gen::HeaderFields f{ (uint16_t)(wtema ? 5 : 1 + s.below(4)), base + i, ts, prev ? prev->GetHash() : gen::uniq<32>(s), Hash(), Hash(), Hash(), Hash(), BlindingFactor(CBigInteger<32>()), 0, 0, (u64)td, sc, i, proofNo(eb, i) };
        prev = std::make_shared<BlockHeader>(f.make()); db->add(prev); infos.insert(infos.begin(), { ts, (i128)d, sc, eb == 29 });
    }
    std::vector<Info> win(infos.begin(), infos.begin() + std::min<size_t>(61, n));   // the oldest of a short history keeps its own total as difficulty, which is the same
    u64 height = base + n; gen::HeaderFields f = gen::headerFields(s); f.height = height; f.version = (uint16_t)(wtema ? 5 : 1 + s.below(4)); f.prev = prev->GetHash(); auto h = f.make();
    Next want = wtema ? nextWtema(e, infos[0], infos[1]) : nextDma(height, win); auto got = DifficultyCalculator(db).CalculateNextDifficulty(h);
    c.nontrivial(n > 1); c.label(wtema ? "wtema" : n < 61 ? "padded window" : "full window"); c.log << Env::ToString(e) << (wtema ? " wtema" : " dma") << " history of " << n << " headers, height " << height << ", time mode " << tmode << ", difficulty mode " << dmode << " around " << d0 << ", scaling mode " << smode;
    REQUIRE_MSG((i128)got.GetDifficulty() == want.diff, "next difficulty " << got.GetDifficulty() << ", published rule gives " << (u64)want.diff); REQUIRE_MSG((i128)got.GetSecondaryScaling() == want.scale, "next secondary scaling " << got.GetSecondaryScaling() << ", published rule gives " << (u64)want.scale);
    if (!wtema) { i128 sum = 0; std::vector<Info> w = win; while (w.size() < 61) w.push_back({ 0, infos[0].diff, 0, true }); for (int i = 0; i < 60; i++) sum += w[i].diff; REQUIRE_MSG((i128)got.GetDifficulty() <= std::max<i128>(3, sum / 30) && (i128)got.GetDifficulty() >= sum / 120, "next difficulty leaves the clamp bounds"); }
}
static u64 heightOf(Src& s) { static const std::vector<u64> edges{ 0, 25, 1440, WEEK, 185040, YEAR / 2, 298080, YEAR, 552960, 642240, 3 * YEAR / 2, 2 * YEAR, YEAR + 29 * WEEK, YEAR + 30 * WEEK, YEAR + 31 * WEEK }; switch (s.below(4)) { case 0: { u64 b = s.pick(edges), k = s.below(7); return b + k >= 3 ? b + k - 3 : 0; } case 1: return s.below(3 * YEAR); case 2: return (2 * YEAR / 90) * s.below(95) + s.below(3); default: return s.below(1ULL << 40); } }
static void schedule(Ctx& c) {
    auto& s = c.src; u64 h = heightOf(s); Environment e = netOf(s); env::use(e); c.log << Env::ToString(e) << " height " << h; c.nontrivial(h > 0); c.label(Env::ToString(e));
    REQUIRE_EQ((int)Consensus::GetHeaderVersion(e, h), version(e, h)); REQUIRE_EQ((int)Consensus::GetHeaderVersion(h), version(e, h)); REQUIRE_EQ(Consensus::SecondaryPOWRatio(h), ratio(h));
    int eb = 24 + (int)s.below(24); if (s.flip()) eb = (int)s.pick<u64>({ 29, 31, 32 }); c.log << " edge bits " << eb; REQUIRE_EQ(Consensus::GraphWeight(h, (uint8_t)eb), (u64)weightOf(h, eb));
    u64 mat = e == Environment::AUTOMATED_TESTING ? 25 : 1440; REQUIRE_EQ(Consensus::GetMaxCoinbaseHeight(h), h > mat ? h - mat : 0); REQUIRE_EQ(Consensus::GetMaxCoinbaseHeight(e, h), h > mat ? h - mat : 0); REQUIRE_EQ(Consensus::GetHorizonHeight(h), h > WEEK ? h - WEEK : 0);
    REQUIRE_EQ(Consensus::REWARD, 60000000000LL); REQUIRE_EQ((u64)Consensus::MAX_BLOCK_WEIGHT, 40000u); REQUIRE_EQ((u64)Consensus::STATE_SYNC_THRESHOLD, 2880u); REQUIRE_EQ((u64)Consensus::WEEK_HEIGHT, WEEK); REQUIRE_EQ((u64)Consensus::CUT_THROUGH_HORIZON, WEEK); REQUIRE_EQ((int)Consensus::PROOFSIZE, 42);
    // weight of bodies
    auto n = [&] { return s.chance(1, 8) ? s.below(1ULL << 20) : s.below(60); }; i128 i = (i128)n(), o = (i128)n(), k = (i128)n(); i128 w4 = 4 * o + k - i; if (w4 < 1) w4 = 1; REQUIRE_EQ(Consensus::CalculateWeightV4((int64_t)i, (int64_t)o, (int64_t)k), (u64)w4); REQUIRE_EQ(Consensus::CalculateWeightV5((u64)i, (u64)o, (u64)k), (u64)(i + 21 * o + 3 * k));
    auto b = gen::body(s, 5); i = b.GetInputs().size(); o = b.GetOutputs().size(); k = b.GetKernels().size(); w4 = 4 * o + k - i; if (w4 < 1) w4 = 1; c.log << " body " << (int)i << "/" << (int)o << "/" << (int)k; REQUIRE_EQ(b.CalcWeight(h), version(e, h) < 5 ? (u64)w4 : (u64)(i + 21 * o + 3 * k));
    // primary and secondary proofs
    ProofOfWork p((uint8_t)s.below(64), std::vector<uint64_t>(42), Hash()); REQUIRE_EQ(p.IsSecondary(), p.GetEdgeBits() == 29); REQUIRE_EQ(p.IsPrimary(), p.GetEdgeBits() >= 31);
    // future time limit: five minutes, in ticks of the system clock
    auto tp = std::chrono::system_clock::time_point(std::chrono::seconds(s.below(4000000000ULL)) + std::chrono::milliseconds(s.below(1000))); REQUIRE_EQ(Consensus::GetMaxBlockTime(tp), (int64_t)(tp + std::chrono::seconds(300)).time_since_epoch().count());
}
void pbt::setup(Check& c) {
    c.id = "C08"; c.rule = "Header histories of 1 to 70 headers with regular, bursty, stalled and extreme times, difficulties and scalings on all networks against an exact-integer reference of the published adjustment; heights biased to every schedule boundary against an independent table. Non-trivial: a history of more than one header, or a height above zero.";
    c.quickCases = 20000; c.thoroughCases = 2000000; c.quickCap = 25; c.quickMin = 6; c.workerInit = [] { env::use(Environment::AUTOMATED_TESTING); };
    c.parts = { { "window", 3, window }, { "schedule", 2, schedule } };
    c.assumptions = { "Difficulties of single blocks stay below 2^46 and timestamps increase, as header validation guarantees." };
}
