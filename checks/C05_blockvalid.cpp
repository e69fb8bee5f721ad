// C05: a block is accepted exactly when it is valid on top of its parent's state
#include "badblock.h"
#include <BlockChain/Validators/BlockValidator.h>
static void deliver(Ctx& c, Node& n, Blk* b, bool valid, Blk* tipBefore, bool direct) {
    int r = n.add(b->block); bool ok = r == (int)EBlockChainStatus::SUCCESS; if (direct) REQUIRE_MSG(ok == valid, (valid ? "valid block refused, status " : "invalid block accepted, status ") << r);
    if (!direct) { REQUIRE_MSG(!ok, "block without its parent accepted"); }
}
// one block, valid or breaking one rule, as next block, on a heavier fork, or waiting for its parent
static void blockCase(Ctx& c) {
    auto& s = c.src; CaseTree ct; Tree& t = g->tree; int kind = s.chance(1, 3) ? (int)s.below(bad::FREE_TX + 1) : bad::FREE_TX + 1 + (int)s.below(bad::KINDS - bad::FREE_TX - 1);
    NodeOn d(c); Node& n = d.n; Blk* tip = g->spine.back(); int mode = (int)s.below(4); size_t depth = mode == 0 ? 0 : s.size(6); Blk* p = g->spine[LEN - depth]; size_t between = mode == 0 ? 0 : s.size(3); std::vector<Blk*> pre; u64 w = depth ? tip->work - p->work : 0;
    for (size_t i = 0; i < between; i++) { p = t.randomBlock(s, p, 1, 1); pre.push_back(p); }
    bool heavy = mode != 3; u64 work = heavy ? (tip->work >= p->work ? tip->work - p->work : 0) + 1 + s.below(3) : 1; if (!heavy && p->work + work > tip->work) heavy = true;
    auto b = bad::build(s, t, p, kind, work, 2); if (!b) { c.label("kind not possible here"); return; } bool valid = bad::isValid(kind);
    Blk* x; std::unique_ptr<Blk> hold; if (valid) x = t.addValid(std::move(b)); else { hold = std::move(b); x = hold.get(); }
    bool waiting = !pre.empty() && s.chance(1, 3); c.log << bad::name(kind) << ", parent " << depth << " below the tip plus " << between << " blocks, " << (heavy ? "heavier" : "lighter") << " than the tip" << (waiting ? ", before its parent" : "") << "; " << x->block.GetInputs().size() << "/" << x->block.GetOutputs().size() << "/" << x->block.GetKernels().size(); c.label(bad::name(kind)); c.nontrivial();
    if (waiting) { for (auto q : pre) n.addHeader(q->hdr); deliver(c, n, x, valid, tip, false); Blk* best = tip; for (auto q : pre) { int r = n.add(q->block); REQUIRE_MSG(r == (int)EBlockChainStatus::SUCCESS, "valid block refused: " << r); n.settle(); if (q->work > best->work) best = q; } if (valid && x->work > best->work) best = x; REQUIRE_MSG(valid || n.tip() != x->hdr->GetHash(), "an invalid block that waited for its parent became the tip"); if (valid) n.add(x->block); compare(n, t, best, false); tip = best; }
    else { for (auto q : pre) { REQUIRE_MSG(n.add(q->block) == (int)EBlockChainStatus::SUCCESS, "valid block refused"); if (q->work > tip->work) tip = q; } deliver(c, n, x, valid, tip, true); if (valid && x->work > tip->work) tip = x; compare(n, t, tip, false); }
    // later: the block again, and a valid block on the tip
    if (s.flip()) { int r = n.add(x->block); n.settle(); REQUIRE_MSG(valid || r != (int)EBlockChainStatus::SUCCESS, "invalid block accepted the second time"); compare(n, t, tip, false); }
    Blk* y = t.randomBlock(s, tip, x->work + 1 > tip->work ? x->work + 1 - tip->work : 1, 1); REQUIRE_MSG(n.add(y->block) == (int)EBlockChainStatus::SUCCESS, "a valid block on the tip is refused afterwards"); compare(n, t, y, false);
}
// a chain with an invalid block inside, delivered in any order: everything below it is adopted when heaviest, nothing above
static void forkCase(Ctx& c) {
    auto& s = c.src; CaseTree ct; Tree& t = g->tree; Blk* tip = g->spine.back(); size_t depth = 1 + s.size(5), len = 1 + s.size(4), at = s.below(len); Blk* p = g->spine[LEN - depth]; std::vector<std::unique_ptr<Blk>> hold; std::vector<Blk*> v; u64 gap = tip->work - p->work; int kind = -1;
    for (size_t i = 0; i < len; i++) { u64 w = i + 1 == len && s.chance(3, 4) ? gap + 1 : 1 + s.below(4); std::unique_ptr<Blk> b; if (i == at) for (int k = 0; k < 20 && !b; k++) { kind = bad::FREE_TX + 1 + (int)s.below(bad::KINDS - bad::FREE_TX - 1); b = bad::build(s, t, p, kind, w, 1); } else b = bad::build(s, t, p, bad::PLAIN, w, 1); if (!b) { c.label("no such fork"); return; } if (i < at) { p = t.addValid(std::move(b)); } else { p = b.get(); hold.push_back(std::move(b)); } v.push_back(p); }
    c.log << "fork from " << depth << " below the tip, " << len << " blocks, number " << at << " bad: " << bad::name(kind) << ", work " << p->work << " against " << tip->work << "; order:"; c.label(bad::name(kind)); c.nontrivial();
    NodeOn d(c); Node& n = d.n; for (auto b : v) if (s.flip()) n.addHeader(b->hdr); std::vector<size_t> o; for (size_t i = 0; i < len; i++) o.push_back(i); if (s.flip()) for (size_t i = 0; i < len; i++) std::swap(o[i], o[i + s.below(len - i)]); Blk* best = tip; for (auto b : v) if (t.byHash.count(b->hdr->GetHash()) && b->work > best->work) best = b;
    auto chk = [&](bool end) { n.settle(); auto it = t.byHash.find(n.tip()); REQUIRE_MSG(it != t.byHash.end(), "a chain with an invalid block was adopted"); REQUIRE(it->second->work >= tip->work); tip = it->second; compare(n, t, tip, false); };
    for (auto i : o) { c.log << " " << i; n.add(v[i]->block); chk(false); } for (auto b : v) { n.add(b->block); n.settle(); } chk(true); REQUIRE_MSG(tip == best, "tip at work " << tip->work << ", the valid part of the fork has " << best->work);
}
// a block that is valid in itself but for its weight, which is at most, at, or above the limit: one reward and as many inputs as needed (what they spend is not looked at here)
static void weightCase(Ctx& c) {
    auto& s = c.src; Blk* b = g->spine[1 + s.below(LEN)]; for (size_t i = LEN; b->block.GetKernels().size() > 1 && i; i--) b = g->spine[i]; if (b->block.GetKernels().size() > 1) return; TransactionOutput out = b->block.GetOutputs()[0]; TransactionKernel ker = b->block.GetKernels()[0]; for (auto& o : b->block.GetOutputs()) if (o.IsCoinbase()) out = o; for (auto& k : b->block.GetKernels()) if (k.IsCoinbase()) ker = k;
    u64 want = 40000 - 2 + s.below(5), n = want - 21 - 3; std::vector<TransactionInput> in; in.reserve(n); u64 salt = s.u64(); for (u64 i = 0; i < n; i++) { Bytes x(33, 0); x[0] = 8 + (i & 1); for (int k = 0; k < 8; k++) { x[1 + k] = (uint8_t)(salt >> 8 * k); x[9 + k] = (uint8_t)(i >> 8 * k); } in.emplace_back((EOutputFeatures)(i % 7 == 0), Commitment(CBigInteger<33>(x))); }
    auto f = gen::headerFields(s); f.version = 5; f.height = 2000000 + s.below(1 << 30); FullBlock block(std::make_shared<BlockHeader>(f.make()), TransactionBody(std::move(in), { out }, { ker }));
    c.log << n << " inputs, one reward: weight " << want; c.nontrivial(); c.label(want > 40000 ? "too heavy" : want == 40000 ? "just within" : "within"); bool ok = true; try { BlockValidator().VerifySelfConsistent(block); } catch (std::exception& e) { ok = false; c.log << "; " << e.what(); } REQUIRE_MSG(ok == (want <= 40000), "a block of weight " << want << (ok ? " accepted" : " refused"));
}
void pbt::setup(Check& c) {
    c.id = "C05"; c.rule = "non-trivial: a block (or a fork with a block) of a stated kind was built and handed to the node"; c.workerInit = init; c.quickCases = 1500; c.thoroughCases = 60000; c.quickCap = 25; c.quickMin = 150;
    c.parts = { { "block", 60, blockCase }, { "fork", 20, forkCase }, { "weight", 1, weightCase } };
    c.assumptions = { "network AUTOMATED_TESTING: proof of work is not checked; coinbase maturity is 25 blocks there" };
}
