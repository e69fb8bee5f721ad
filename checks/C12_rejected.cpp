// C12: what is refused leaves no trace
#include "badblock.h"
#include "badheader.h"
// everything that can be asked of the node about the confirmed chain, the pool and known blocks
static std::string digest(Node& n, Tree& t, const std::vector<TransactionPtr>& txs, const std::vector<Blk*>& extra, bool headers) {
    std::ostringstream o; auto& bc = *n.bc; o << "tip " << show(n.tip()) << " h" << bc.GetHeight(EChainType::CONFIRMED) << " w" << bc.GetTotalDifficulty(EChainType::CONFIRMED); if (headers) { o << " headers " << show(n.tip(EChainType::CANDIDATE)) << " " << bc.GetHeight(EChainType::CANDIDATE) << " root " << show(n.hmmr->Read()->Root(bc.GetHeight(EChainType::CANDIDATE))); }
    o << "\nblocks "; std::vector<Blk*> all; for (auto& b : t.all) if (b->height > 20) all.push_back(b.get()); for (auto b : all) { auto h = b->hdr->GetHash(); o << (bc.GetBlockByHash(h) ? 'B' : '.') << (n.db->GetBlockDB()->Read()->GetBlockSums(h) ? 'S' : '.'); } for (auto b : extra) o << (bc.GetBlockByHash(b->hdr->GetHash()) ? 'X' : '.') << (n.db->GetBlockDB()->Read()->GetBlockSums(b->hdr->GetHash()) ? 'Y' : '.');
    o << "\nchain "; for (u64 h = 20; h < 60; h++) { auto x = bc.GetBlockHeaderByHeight(h, EChainType::CONFIRMED); if (x) o << show(x->GetHash()).substr(0, 3); }
    o << "\nouts "; { auto r = n.db->GetBlockDB()->Read(); auto ths = n.txhs->Read()->GetTxHashSet(); std::set<Commitment> seen; std::vector<Blk*> both = all; both.insert(both.end(), extra.begin(), extra.end()); for (auto b : both) for (auto& x : b->block.GetOutputs()) { auto& c = x.GetCommitment(); if (!seen.insert(c).second) continue; auto l = r->GetOutputPosition(c); if (l) o << l->GetLeafIndex().Get() << "@" << l->GetBlockHeight() << " "; else o << "- "; } auto k = ths->GetLastKernelHashes(3), q = ths->GetLastOutputHashes(3), p = ths->GetLastRangeProofHashes(3); for (auto& x : k) o << show(x); for (auto& x : q) o << show(x); for (auto& x : p) o << show(x); }
    o << "\npool "; for (auto& x : txs) { for (auto& k : x->GetKernels()) { o << (n.pool->FindTransactionByKernelHash(k.GetHash()) ? '1' : '0'); std::set<TransactionKernel> ks{ k }; o << n.pool->FindTransactionsByKernel(ks).size(); } } return o.str();
}
static void same(const std::string& a, const std::string& b, const char* what) { if (a == b) return; std::istringstream x(a), y(b); std::string l, m; while (std::getline(x, l) && std::getline(y, m)) if (l != m) REQUIRE_MSG(false, what << " changed the node: before " << l.substr(0, 300) << " | after " << m.substr(0, 300)); REQUIRE_MSG(false, what << " changed the node"); }
static void history(Ctx& c) {
    auto& s = c.src; CaseTree ct; Tree& t = g->tree; NodeOn d(c); Node& n = d.n; Blk* tip = g->spine.back(); std::vector<TransactionPtr> pool; std::vector<Blk*> extra; std::vector<std::unique_ptr<Blk>> hold; size_t rounds = 3 + s.size(6); bool any = false;
    { auto av = t.spendable(tip); std::vector<fab::Coin> made; for (int i = 0; i < 3 && !av.empty(); i++) { auto x = t.randomTx(s, tip, av, made, 20000000); if (n.bc->AddTransaction(x, EPoolType::MEMPOOL) == EBlockChainStatus::SUCCESS) pool.push_back(x); } }
    for (size_t q = 0; q < rounds; q++) {
        int what = (int)s.weighted({ 5, 3, 2, 2, 2, 1 }); c.log << (q ? "; " : ""); std::string before;
        if (what == 0) {   // invalid block: next, or on a fork (heavier or not)
            size_t depth = s.chance(1, 2) ? 0 : 1 + s.size(4); Blk* p = tip; while (depth-- && p->parent && p->height > 25) p = p->parent; int kind = bad::FREE_TX + 1 + (int)s.below(bad::KINDS - bad::FREE_TX - 1); u64 lead = tip->work > p->work ? tip->work - p->work : 0; std::unique_ptr<Blk> b = bad::build(s, t, p, kind, s.chance(3, 4) ? lead + 1 : 1, 2); if (!b) { c.log << "-"; continue; } Blk* x = b.get(); hold.push_back(std::move(b)); extra.push_back(x); c.log << "bad block (" << bad::name(kind) << ") on height " << p->height; c.label(bad::name(kind));
            before = digest(n, t, pool, extra, false); int r = n.add(x->block); REQUIRE_MSG(r != (int)EBlockChainStatus::SUCCESS, "invalid block accepted"); any = true; n.settle(); REQUIRE_MSG(!n.bc->HasOrphan(x->hdr->GetHash()), "a refused block is kept as an orphan"); same(before, digest(n, t, pool, extra, false), "a refused block");
        } else if (what == 1) {   // a fork that turns out invalid at its last block, handed over child first
            if (tip->height < 28) continue; Blk* p = tip; size_t depth = 1 + s.size(3); while (depth--) p = p->parent; size_t len = 1 + s.size(2); std::vector<Blk*> v; Blk* x = p; for (size_t i = 0; i < len; i++) { x = t.randomBlock(s, x, 1, 1); v.push_back(x); } if (x->work >= tip->work) { c.log << "-"; continue; } int kind = bad::FREE_TX + 1 + (int)s.below(bad::KINDS - bad::FREE_TX - 1); auto b = bad::build(s, t, x, kind, tip->work - x->work + 1, 1); if (!b) { c.log << "-"; continue; } Blk* y = b.get(); hold.push_back(std::move(b)); extra.push_back(y);
            c.log << "fork of " << len << " blocks on height " << p->height << " and a bad one (" << bad::name(kind) << ")"; c.label(std::string("fork: ") + bad::name(kind)); auto poolLine = [&]() { auto x = digest(n, t, pool, extra, false); return x.substr(x.find("\npool ")); }; std::string pb = poolLine(); for (auto z : v) n.addHeader(z->hdr); bool first = s.flip(); if (first) n.add(y->block); for (auto z : v) REQUIRE_MSG(n.add(z->block) == (int)EBlockChainStatus::SUCCESS, "valid block refused"); n.settle(); compare(n, t, tip, false); before = digest(n, t, pool, extra, false); int r = n.add(y->block); any = true; REQUIRE_MSG(r != (int)EBlockChainStatus::SUCCESS, "invalid block accepted"); n.settle(); same(before, digest(n, t, pool, extra, false), "a refused reorganisation"); same(pb, poolLine(), "a fork that never became the chain");
        } else if (what == 2) {   // invalid header alone or at the end of a batch
            Blk* p = tip; gen::HeaderFields f{ 1, p->height + 1, p->hdr->GetTimestamp() + 60, p->hdr->GetHash(), H(p->st->headers.root()), p->hdr->GetOutputRoot(), p->hdr->GetRangeProofRoot(), p->hdr->GetKernelRoot(), p->hdr->GetTotalKernelOffset(), p->hdr->GetOutputMMRSize(), p->hdr->GetKernelMMRSize(), p->work + 1 + s.below(1000), 1, t.serial, t.proof() }; int kind = (int)s.below(badh::KINDS); badh::apply(s, kind, f, p); auto h = std::make_shared<const BlockHeader>(f.make()); c.log << "bad header (" << badh::name(kind) << ")"; before = digest(n, t, pool, extra, true); bool refused; if (s.flip()) { int r = n.addHeader(h); refused = r != (int)EBlockChainStatus::SUCCESS; } else { try { auto r = n.bc->AddBlockHeaders({ p->hdr, h }); refused = r != EBlockChainStatus::SUCCESS; } catch (std::exception&) { refused = true; } } REQUIRE_MSG(refused || n.tip(EChainType::CANDIDATE) != h->GetHash(), "invalid header accepted"); if (!refused) { c.log << " (not next)"; continue; } any = true; same(before, digest(n, t, pool, extra, true), "a refused header"); REQUIRE(!n.bc->GetBlockHeaderByHash(h->GetHash()));
        } else if (what == 3) {   // refused transaction
            auto av = t.spendable(tip); if (av.empty()) continue; size_t j = s.below(av.size()); auto c0 = av[j]; auto f = tip->st->utxo.at(c0.commit).f; int k = (int)s.below(4); TransactionPtr x; if (k == 0) x = bad::simpleTx(t, { c0 }, { f }, { fab::coin(c0.amount - 20000000 + 1 + s.below(9), 800000 + t.serial++) }, 20000000); else if (k == 1) { auto u = fab::coin(77777777 + s.below(99), 800000 + t.serial++); x = bad::simpleTx(t, { u }, {}, { fab::coin(u.amount - 20000000, 800000 + t.serial++) }, 20000000); } else if (k == 2) x = bad::simpleTx(t, { c0 }, { f }, { fab::coin(c0.amount - 3, 800000 + t.serial++) }, 3); else x = bad::simpleTx(t, { c0 }, { f }, { fab::coin(c0.amount - 20000000, 800000 + t.serial++) }, 20000000, EKernelFeatures::HEIGHT_LOCKED, tip->height + 2 + s.below(5));
            static const char* nm[] = { "creates value", "unknown input", "low fee", "locked" }; c.log << "bad transaction (" << nm[k] << ")"; auto withX = pool; withX.push_back(x); before = digest(n, t, withX, extra, true); EBlockChainStatus r; try { r = n.bc->AddTransaction(x, s.flip() ? EPoolType::MEMPOOL : EPoolType::STEMPOOL); } catch (std::exception&) { r = EBlockChainStatus::INVALID; } REQUIRE_MSG(r != EBlockChainStatus::SUCCESS, "invalid transaction accepted: " << nm[k]); any = true; same(before, digest(n, t, withX, extra, true), "a refused transaction");
        } else if (what == 4) {   // valid progress
            Blk* y = t.randomBlock(s, tip, 1 + s.below(3), 1); c.log << "block"; REQUIRE_MSG(n.add(y->block) == (int)EBlockChainStatus::SUCCESS, "valid block refused after " << q << " steps"); n.settle(); auto it = t.byHash.find(n.tip()); REQUIRE(it != t.byHash.end()); tip = it->second; compare(n, t, tip, false); { std::vector<TransactionPtr> keep; for (auto& x : pool) { bool all = true; for (auto& k : x->GetKernels()) all &= n.pool->FindTransactionByKernelHash(k.GetHash()) != nullptr; if (all) keep.push_back(x); } pool = keep; }
        } else { c.log << "restart"; before = digest(n, t, {}, extra, true); n.close(); n.open(); pool.clear(); same(before, digest(n, t, {}, extra, true), "restarting after refusals"); compare(n, t, tip, true); }
    }
    Blk* y = t.randomBlock(s, tip, 50, 2); REQUIRE_MSG(n.add(y->block) == (int)EBlockChainStatus::SUCCESS, "a valid block is refused after the refusals"); compare(n, t, y, true); if (any) c.nontrivial();
}
void pbt::setup(Check& c) {
    c.id = "C12"; c.rule = "non-trivial: at least one invalid block, header, batch or transaction was handed over and refused"; c.workerInit = init; c.quickCases = 1500; c.thoroughCases = 40000; c.quickCap = 25; c.quickMin = 100;
    c.parts = { { "history", 1, history } };
    c.assumptions = { "network AUTOMATED_TESTING", "a refused block whose header is valid by itself may leave that header in the header chain" };
}
