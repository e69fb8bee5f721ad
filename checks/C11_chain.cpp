// C11: the node's chain state is that of the most-work chain of valid blocks it was given, whatever the order of delivery
#include "chainbase.h"
using namespace pbt; using namespace chain;
static std::vector<Blk*> pathTo(Blk* b) { std::vector<Blk*> v; for (; b; b = b->parent) v.push_back(b); std::reverse(v.begin(), v.end()); return v; }
// random forks on the base; every block valid
static std::vector<Blk*> grow(Ctx& c, size_t maxNew, size_t maxTx) {
    auto& s = c.src; std::vector<Blk*> v; size_t n = 2 + s.size(maxNew - 2); for (size_t i = 0; i < n; i++) { Blk* p; size_t m = s.below(8); if (v.empty() || m == 0) p = g->spine[LEN - s.size(7)]; else if (m < 3) p = v[s.below(v.size())]; else p = v.back(); uint64_t w = s.chance(1, 3) ? 1 : 1 + s.below(12); v.push_back(g->tree.randomBlock(s, p, w, maxTx)); c.log << (i ? ", " : "") << "b" << i << "(h" << v.back()->height << "<-" << (p->height <= LEN && std::find(v.begin(), v.end(), p) == v.end() ? "base" + std::to_string(p->height) : "b" + std::to_string(std::find(v.begin(), v.end(), p) - v.begin())) << " w" << v.back()->work << " tx" << v.back()->block.GetKernels().size() << ")"; } return v;
}
struct Delivery {
    Ctx& c; Node n; std::set<Blk*> have, known, floating;   // known: header linked to genesis; floating: header held without its ancestors
    uint64_t best; Blk* tip; bool reorg = false, orphan = false; size_t events = 0;
    Delivery(Ctx& cc) : c(cc) { copyTree(g->dir, c.scratch() + "/node"); env::init(c.scratch() + "/node"); n.open(); for (auto b : g->spine) { have.insert(b); known.insert(b); } tip = g->spine.back(); best = tip->work; }
    bool connected(Blk* b) { for (; b; b = b->parent) if (!have.count(b)) return false; return true; }
    void check(bool deep) { auto it = g->tree.byHash.find(n.tip()); REQUIRE_MSG(it != g->tree.byHash.end(), "unknown tip"); Blk* t = it->second; REQUIRE_MSG(connected(t), "the tip has an ancestor that was never delivered"); REQUIRE_MSG(t->work >= tip->work, "total work of the confirmed chain went from " << tip->work << " down to " << t->work); if (t->work == tip->work) REQUIRE_MSG(t == tip, "tip changed without more work"); if (t != tip && t->parent != tip) reorg = true; tip = t; compare(n, g->tree, t, deep); }
    void learn(Blk* b) { if (known.count(b)) return; std::vector<Blk*> path; Blk* x = b; for (; !known.count(x); x = x->parent) { if (x != b && !floating.count(x)) { floating.insert(b); return; } path.push_back(x); } for (auto y : path) { known.insert(y); floating.erase(y); } }
    uint64_t heaviest() { uint64_t w = 0; for (auto b : have) if (connected(b)) w = std::max(w, b->work); return w; }
    void block(Blk* b, bool settle, bool verify = true) { bool par = connected(b->parent), dup = have.count(b) > 0; int r = n.add(b->block); have.insert(b); learn(b); events++; REQUIRE_MSG(r != -1 && r != (int)EBlockChainStatus::INVALID, "valid block of height " << b->height << " refused");
        if (!par) { orphan = true; REQUIRE_MSG(r != (int)EBlockChainStatus::SUCCESS, "block with unknown ancestors accepted"); } if (dup) REQUIRE_MSG(r != (int)EBlockChainStatus::SUCCESS || par, "duplicate accepted");
        if (settle) { n.settle(); } if (verify) { check(false); if (par) REQUIRE_MSG(tip->work >= b->work, "a block whose ancestors are all known, of work " << b->work << ", left the tip at work " << tip->work); if (settle) { uint64_t w = heaviest(); REQUIRE_MSG(tip->work == w, "every block of a chain of work " << w << " is there, the tip is at work " << tip->work); } } }
    void header(Blk* b) { int r = n.addHeader(b->hdr); REQUIRE_MSG(r != -1 && r != (int)EBlockChainStatus::INVALID, "valid header refused"); learn(b); events++; }
    void sync(Blk* target) { std::vector<BlockHeaderPtr> h; for (auto b : pathTo(target)) if (b->height > 20) h.push_back(b->hdr); int r; try { r = (int)n.bc->AddBlockHeaders(h); } catch (std::exception& e) { r = -1; } REQUIRE_MSG(r != -1 && r != (int)EBlockChainStatus::INVALID, "headers of a valid chain refused"); for (auto b : pathTo(target)) known.insert(b);
        for (int round = 0; round < 20; round++) { n.settle(); auto need = n.bc->GetBlocksNeeded(3); if (need.empty()) break; for (auto& x : need) { auto it = g->tree.byHash.find(x.second); REQUIRE_MSG(it != g->tree.byHash.end() && it->second->height == x.first, "unknown block wanted"); block(it->second, false, false); } } n.settle(); check(false); }
};
// arbitrary delivery of blocks and headers; then ordinary sync
static void delivery(Ctx& c) {
    auto& s = c.src; CaseTree ct; c.log << "blocks: "; auto v = grow(c, 10, 2); Delivery d(c); std::vector<int> ev; for (size_t i = 0; i < v.size(); i++) { ev.push_back((int)i); if (s.chance(1, 3)) ev.push_back(-1 - (int)i); if (s.chance(1, 8)) ev.push_back((int)i); if (s.chance(1, 6)) ev.pop_back(); }
    size_t shuffle = s.below(4); for (size_t i = 0; i < ev.size() && shuffle; i++) { size_t j = shuffle == 1 ? std::min(ev.size() - 1, i + s.below(2)) : i + s.below(ev.size() - i); std::swap(ev[i], ev[j]); }
    c.log << "; deliver:"; bool restart = s.chance(1, 5); size_t at = restart ? s.below(ev.size() + 1) : 99; bool settleAll = s.chance(1, 3);
    for (size_t i = 0; i < ev.size(); i++) { if (i == at) { c.log << " restart"; d.floating.clear(); d.n.close(); d.n.open(); std::set<Blk*> keep; d.check(false); }
        int e = ev[i]; if (e < 0) { c.log << " header b" << -1 - e; d.header(v[-1 - e]); d.check(false); } else { bool st = !restart && (settleAll || s.flip()); c.log << " b" << e << (st ? "+" : ""); d.block(v[e], st, !restart || st); if (restart) d.check(false); } }
    uint64_t w = 0; Blk* target = nullptr; for (auto b : v) if (b->work > w) { w = b->work; target = b; } for (auto b : v) d.have.insert(b);
    if (target->work > d.tip->work) { c.log << "; sync to work " << w; d.sync(target); REQUIRE_MSG(d.tip->work == w, "after syncing, the tip is at work " << d.tip->work << ", not " << w); }
    d.check(true); if (d.reorg) c.label("reorg"); if (d.orphan) c.label("orphans"); if (restart) c.label("restart"); if (d.reorg || d.orphan) c.nontrivial();
}
void pbt::setup(Check& c) {
    c.id = "C11"; c.rule = "non-trivial: the delivery caused a reorganisation of the confirmed chain or had a block arriving before an ancestor";
    c.workerInit = init; c.quickCases = 400; c.thoroughCases = 20000; c.quickCap = 25; c.quickMin = 60;
    c.parts = { { "delivery", 1, delivery } };
    c.assumptions = { "network AUTOMATED_TESTING: proof of work is not checked and every block states its own difficulty, so fork weights are chosen freely" };
}
