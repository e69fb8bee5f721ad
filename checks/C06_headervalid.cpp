// C06: a header is accepted exactly when it is a valid successor of a known header
#include "badheader.h"
#include "mockdb.h"
#include "BlockChain/Validators/BlockHeaderValidator.h"
static int batch(Node& n, const std::vector<BlockHeaderPtr>& v) { try { return (int)n.bc->AddBlockHeaders(v); } catch (std::exception&) { return -1; } }
static bool okStatus(int r) { return r == (int)EBlockChainStatus::SUCCESS || r == (int)EBlockChainStatus::ALREADY_EXISTS; }
// the header chain of the node is exactly the model's, and what it is asked for on it
static void chainIs(Node& n, Blk* tip) { REQUIRE_MSG(n.tip(EChainType::CANDIDATE) == tip->hdr->GetHash(), "header chain tip is " << show(n.tip(EChainType::CANDIDATE)) << " at height " << n.bc->GetHeight(EChainType::CANDIDATE) << ", not the heaviest valid header of height " << tip->height); REQUIRE_EQ(n.bc->GetHeight(EChainType::CANDIDATE), tip->height); REQUIRE_MSG(n.hmmr->Read()->Root(tip->height) == H(tip->st->headers.root()), "header set root differs from that of the header chain"); for (Blk* b = tip; b && b->height + 12 > tip->height; b = b->parent) { auto h = n.bc->GetBlockHeaderByHeight(b->height, EChainType::CANDIDATE); REQUIRE(h && h->GetHash() == b->hdr->GetHash()); } REQUIRE(n.bc->GetBlockHeaderByHeight(tip->height + 1, EChainType::CANDIDATE) == nullptr); REQUIRE(n.tip() == g->spine.back()->hdr->GetHash()); }
// header-only blocks: the state is that of the parent, nothing but the header set grows
static Blk* grow(Tree& t, Blk* p, u64 work, int64_t dt, const std::function<void(gen::HeaderFields&)>& mut, std::vector<std::unique_ptr<Blk>>* bad) {
    auto b = std::make_unique<Blk>(); b->parent = p; b->height = p->height + 1; gen::HeaderFields f{ 1, p->height + 1, p->hdr->GetTimestamp() + dt, p->hdr->GetHash(), H(p->st->headers.root()), p->hdr->GetOutputRoot(), p->hdr->GetRangeProofRoot(), p->hdr->GetKernelRoot(), p->hdr->GetTotalKernelOffset(), p->hdr->GetOutputMMRSize(), p->hdr->GetKernelMMRSize(), p->work + work, 1, t.serial, t.proof() };
    if (mut) mut(f); b->hdr = std::make_shared<const BlockHeader>(f.make()); b->work = f.td; b->st = std::make_shared<State>(); b->st->headers = p->st->headers; applyHeader(*b->st, *b->hdr); Blk* r = b.get(); if (bad) bad->push_back(std::move(b)); else t.add(std::move(b)); return r;
}
// forks of headers, some with one invalid header, handed over one by one or in batches
static void headers(Ctx& c) {
    auto& s = c.src; CaseTree ct; Tree& t = g->tree; NodeOn d(c); Node& n = d.n; Blk* tip = g->spine.back(); std::vector<Blk*> tips{ tip }; std::vector<std::unique_ptr<Blk>> bad; size_t rounds = 1 + s.size(4); bool any = false;
    for (size_t q = 0; q < rounds; q++) {
        Blk* p = s.chance(1, 3) ? g->spine[LEN - s.size(8)] : tips[s.below(tips.size())]; size_t len = 1 + s.size(5); int64_t at = s.chance(1, 2) ? -1 : (int64_t)s.below(len); bool asBatch = s.flip(); int kind = at < 0 ? -1 : (int)s.below(badh::KINDS); if (at > 0 && asBatch && s.chance(1, 4)) kind = badh::PREV_HASH;
        u64 lead = tip->work > p->work ? tip->work - p->work : 0; std::vector<Blk*> v; Blk* x = p; for (size_t i = 0; i < len; i++) { bool b = (int64_t)i == at, over = i + 1 == len && s.flip(); u64 w = over ? lead + 1 + s.below(3) : 1 + s.below(3); int64_t dt = s.chance(1, 3) ? 1 : 1 + s.below(100); x = grow(t, x, w, dt, b ? [&](gen::HeaderFields& f) { badh::apply(s, kind, f, x); } : std::function<void(gen::HeaderFields&)>(), at >= 0 && (int64_t)i >= at ? &bad : nullptr); v.push_back(x); }
        c.log << (q ? "; " : "") << len << " headers on height " << p->height << (at < 0 ? "" : std::string(", number ") + std::to_string(at) + " wrong in its " + badh::name(kind)) << ", work " << v.back()->work << " against " << tip->work << (asBatch ? ", as a batch" : ", one by one");
        if (at >= 0) { any = true; c.label(std::string("wrong ") + badh::name(kind)); }
        if (asBatch) { bool onChain = true; for (Blk* z = tip; ; z = z->parent) { if (!z) { onChain = false; break; } if (z == p) break; } std::vector<BlockHeaderPtr> hs; size_t back = s.size(3); Blk* z = p; std::vector<BlockHeaderPtr> pre; if (onChain) for (size_t i = 0; i < back && z->parent; i++) { pre.push_back(z->hdr); z = z->parent; } hs.assign(pre.rbegin(), pre.rend()); for (auto b : v) hs.push_back(b->hdr);
            int r = batch(n, hs); if (!onChain) { REQUIRE_MSG(r == -1 || !okStatus(r), "a batch that does not connect to the header chain was taken"); c.log << " (not connected)"; chainIs(n, tip); for (auto b : v) if (n.bc->GetBlockHeaderByHash(b->hdr->GetHash())) { REQUIRE_MSG(false, "a header of a refused batch is stored"); } continue; }
            if (at < 0) { REQUIRE_MSG(okStatus(r), "a batch of valid headers is refused"); tips.push_back(v.back()); if (v.back()->work > tip->work) tip = v.back(); } else { REQUIRE_MSG(!okStatus(r), "a batch with an invalid header is accepted"); for (size_t i = (size_t)at; i < len; i++) REQUIRE_MSG(!n.bc->GetBlockHeaderByHash(v[i]->hdr->GetHash()), "an invalid header is stored"); } }
        else for (size_t i = 0; i < len; i++) { Blk* b = v[i]; bool good = at < 0 || (int64_t)i < at; int r = n.addHeader(b->hdr); if (good) { REQUIRE_MSG(okStatus(r), "valid header refused, status " << r); tips.push_back(b); if (b->work > tip->work) tip = b; } else { REQUIRE_MSG(!okStatus(r), "invalid header (or one after it) accepted, status " << r); REQUIRE_MSG(!n.bc->GetBlockHeaderByHash(b->hdr->GetHash()), "an invalid header is stored"); } chainIs(n, tip); }
        chainIs(n, tip); if (s.chance(1, 8)) { c.log << "; restart"; n.close(); n.open(); chainIs(n, tip); }
    }
    if (any) c.nontrivial();
}
// limits of the header rules, asked of the validator itself
struct MmrStub : IHeaderMMR { Hash root; u64 asked = ~0ull; void Commit() override {} void Rollback() noexcept override {} void AddHeader(const BlockHeader&) override {} void Rewind(const uint64_t) override {} Hash Root(const uint64_t h) const override { const_cast<MmrStub*>(this)->asked = h; return root; } };
static uint16_t versionAt(u64 h) { return (uint16_t)(1 + std::min<u64>(4, h / 262080)); }
static void limits(Ctx& c) {
    auto& s = c.src; env::use(Environment::AUTOMATED_TESTING); auto mmr = std::make_shared<MmrStub>(); auto db = std::make_shared<HeaderDB>(); auto f = gen::headerFields(s); auto pf = gen::headerFields(s); u64 h = s.chance(1, 4) ? s.edgy64() : s.flip() ? s.below(200) : 262080 * s.below(6) + s.below(3) - 2; if (h == ~0ull) h = 5; pf.height = h; f.height = h + 1; pf.timestamp = 1500000000 + (int64_t)s.below(100000000); f.timestamp = pf.timestamp + 1 + (int64_t)s.below(3600); f.version = versionAt(h + 1); mmr->root = f.prevRoot; bool want = true; int m = (int)s.below(7); const char* what = "valid";
    if (m == 1) { int64_t d = s.irange(-3, 3); f.timestamp = pf.timestamp + d; want = d > 0; what = "time relative to the parent"; } else if (m == 2) { int64_t now = badh::nowSec(), d = s.pick<int64_t>({ -3600, -60, 0, 60, 200, 280, 295, 306, 320, 600, 780, 900, 3600, 86400 * 365, (int64_t)1 << 35 }); f.timestamp = now + d; want = d <= 300; what = "time relative to now"; if (s.chance(1, 3)) { pf.timestamp = f.timestamp - 1; } }
    else if (m == 3) { f.version = (uint16_t)s.pick<u64>({ 0, 1, 2, 3, 4, 5, 6, 257, 258, 261, 65535 }); want = f.version == versionAt(h + 1); what = "version"; } else if (m == 4) { f.height = s.pick<u64>({ h, h + 1, h + 2, h - 1, 0, ~0ull }); want = f.height == h + 1; f.version = versionAt(f.height); what = "height"; } else if (m == 5) { auto v = mmr->root.GetData(); v[s.below(32)] ^= (uint8_t)(1 << s.below(8)); mmr->root = Hash(v); want = false; what = "header set root"; } else if (m == 6) { f.timestamp = (int64_t)s.edgy64(); want = f.timestamp > pf.timestamp && f.timestamp <= badh::nowSec() + 290; if (f.timestamp > badh::nowSec() + 290 && f.timestamp < badh::nowSec() + 310) return; what = "any time"; }
    c.log << what << ", height " << h << ", time " << f.timestamp - pf.timestamp << " after the parent"; c.label(what); bool got = true; try { BlockHeaderValidator(db, mmr).Validate(f.make(), pf.make()); } catch (std::exception&) { got = false; } REQUIRE_MSG(got == want, (want ? "valid header refused" : "invalid header accepted")); if (got) REQUIRE_MSG(mmr->asked == h, "compared with the root of the header set at height " << mmr->asked << ", not of the parent"); c.nontrivial();
}
// the genesis headers of the public networks carry real proofs of work: on top of made-up ancestors that give them the right difficulty they are valid, otherwise not
void pbt::setup(Check& c) {
    c.id = "C06"; c.rule = "non-trivial: a sequence with an invalid header in it, or a single header at a stated limit"; c.workerInit = init; c.quickCases = 6000; c.thoroughCases = 200000; c.quickCap = 20; c.quickMin = 200;
    c.parts = { { "headers", 1, headers }, { "limits", 6, limits } };
    c.assumptions = { "network AUTOMATED_TESTING, where proof of work is not checked (C07 and C08 decide proofs and difficulty)" };
}
