// C20: stem transactions are relayed or fluffed, never lost or leaked early
#include <sstream>
#include <chrono>
#include <thread>
#include <atomic>
#include <functional>
#include <iomanip>
#include <P2P/Peer.h>
#include <BlockChain/BlockChain.h>
#include <TxPool/TransactionPool.h>
#define private public
#include <P2P/Dandelion.h>
#undef private
#include <P2P/ConnectionManager.h>
#define private public
#include <P2P/Messages/StemTransactionMessage.h>
#include <P2P/Messages/TransactionMessage.h>
#undef private
#include "chainbase.h"
#include "badblock.h"
#include <dlfcn.h>
#include <time.h>
// ---- the wall clock, moved forward by the check
static volatile long ahead = 0;
extern "C" int clock_gettime(clockid_t id, struct timespec* t) { static auto real = (int (*)(clockid_t, struct timespec*))dlsym(RTLD_NEXT, "clock_gettime"); int r = real(id, t); if (id == CLOCK_REALTIME) t->tv_sec += ahead; return r; }
extern "C" time_t time(time_t* p) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (p) *p = t.tv_sec; return t.tv_sec; }
// ---- the network, recorded
struct Sent { int kind; Bytes tx; PeerConstPtr peer; };   // 1 stem, 2 broadcast
static std::vector<Sent> sent; static std::vector<PeerPtr> peers; static bool sendFails = false;
static Bytes txOf(const IMessage& m) { if (auto a = dynamic_cast<const StemTransactionMessage*>(&m)) return gen::ser(*a->m_pTransaction, EProtocolVersion::V2); if (auto a = dynamic_cast<const TransactionMessage*>(&m)) return gen::ser(*a->m_pTransaction, EProtocolVersion::V2); return {}; }
std::vector<PeerPtr> ConnectionManager::GetMostWorkPeers() const { return peers; }
bool ConnectionManager::SendMessageToPeer(const IMessage& m, PeerConstPtr p) { REQUIRE_MSG(m.GetMessageType() == MessageTypes::StemTransaction, "not a stem message"); if (sendFails) return false; sent.push_back({ 1, txOf(m), p }); return true; }
void ConnectionManager::BroadcastMessage(const IMessage& m, const uint64_t) { REQUIRE_MSG(m.GetMessageType() == MessageTypes::TransactionMsg, "not a transaction message"); sent.push_back({ 2, txOf(m), nullptr }); }
struct Entry { TransactionPtr x; long t; bool handed = false, open = false, gone = false, stem = true; };   // gone: neither in the stem pool nor public
struct Unit { TransactionPtr x; std::set<size_t> ids; };   // what entered the public pool: a transaction, or several joined into one
static bool minable(Blk* tip, const Transaction& x) { const State& s = *tip->st; u64 h = tip->height + 1, m = h > 25 ? h - 25 : 0; for (auto& i : x.GetInputs()) { auto it = s.utxo.find(i.GetCommitment()); if (it == s.utxo.end() || (it->second.f == EOutputFeatures::COINBASE_OUTPUT && it->second.height > m)) return false; } for (auto& o : x.GetOutputs()) if (s.utxo.count(o.GetCommitment())) return false; return true; }
static bool clash(const Transaction& a, const Transaction& b) { for (auto& x : a.GetInputs()) for (auto& y : b.GetInputs()) if (x.GetCommitment() == y.GetCommitment()) return true; for (auto& x : a.GetOutputs()) for (auto& y : b.GetOutputs()) if (x.GetCommitment() == y.GetCommitment()) return true; return false; }
static void history(Ctx& c) {
    auto& s = c.src; CaseTree ct; Tree& t = g->tree; ahead = 0; sendFails = false; sent.clear(); peers.clear();
    unsigned embargo = s.chance(1, 8) ? 65500 + (unsigned)s.below(36) : s.chance(1, 3) ? (unsigned)s.below(20) : (unsigned)s.below(400), prob = (unsigned)s.pick({ 0, 50, 90, 100 }), relay = (unsigned)s.pick({ 5, 60, 600 }); Json::Value j(Json::objectValue); j["DANDELION"]["EMBARGO_SECS"] = embargo; j["DANDELION"]["STEM_PROBABILITY"] = prob; j["DANDELION"]["RELAY_SECS"] = relay;
    std::string D = c.scratch() + "/node"; copyTree(g->dir, D); env::init(D, Environment::AUTOMATED_TESTING, j); Node n; n.open(); c.log << "embargo " << embargo << " stem " << prob << "%:"; REQUIRE_EQ(Global::GetConfig().GetEmbargoSeconds(), embargo);
    alignas(16) static char cmMem[8192]; ConnectionManager& cm = *reinterpret_cast<ConnectionManager*>(cmMem); Dandelion dd(Global::GetConfig(), cm, n.bc, n.txhs, n.pool, n.db->GetBlockDB());
    Blk* tip = g->spine.back(); std::vector<Entry> es; std::map<Hash, size_t> byKernel; std::vector<Unit> M; size_t steps = 5 + s.size(20); PeerConstPtr relayPeer; std::vector<PeerPtr> relaySet; long relayUntil = 0; bool any = false;
    auto clashM = [&](const Transaction& x) { for (auto& y : M) if (clash(*y.x, x)) return true; return false; };
    auto publish = [&](TransactionPtr x, std::set<size_t> ids, bool leave) { for (auto i : ids) { es[i].open = true; if (leave) es[i].stem = false; } M.push_back({ x, ids }); };
    auto look = [&](const char* when) { for (auto& e : es) for (auto& k : e.x->GetKernels()) { bool vis = n.bc->GetTransactionByKernelHash(k.GetHash()) != nullptr, vis2 = !n.pool->FindTransactionsByKernel({ k }).empty(); Hash bh = tip->hdr->GetHash(); bool vis3 = !n.pool->GetTransactionsByShortId(bh, 5, { ShortId::Create(k.GetHash(), bh, 5) }).empty(); bool want = e.open; REQUIRE_MSG(vis == want && vis2 == want && vis3 == want, when << ": a transaction " << (want ? "that was made public is not" : "that was not made public is") << " visible in the public pool"); } };
    TransactionPtr sentTx; auto entriesOf = [&](const Sent& x) { ByteBuffer b(Bytes(x.tx), EProtocolVersion::V2); Transaction tx = Transaction::Deserialize(b); sentTx = std::make_shared<Transaction>(tx); std::set<size_t> r; for (auto& k : tx.GetKernels()) { auto it = byKernel.find(k.GetHash()); REQUIRE_MSG(it != byKernel.end(), "an unknown kernel was sent"); r.insert(it->second); } size_t nk = 0; for (auto i : r) nk += es[i].x->GetKernels().size(); REQUIRE_MSG(nk == tx.GetKernels().size(), "kernels of a transaction were left out"); return r; };
    for (size_t q = 0; q < steps + 1; q++) {
        bool last = q == steps; int what = last ? 5 : (int)s.weighted({ 6, 3, 3, 5, 2, 0, 1 }); c.log << (q ? "; " : " ");
        if (what == 0) {
            auto av = t.spendable(tip); std::set<Commitment> used; for (auto& e : es) if (!e.gone) for (auto& i : e.x->GetInputs()) used.insert(i.GetCommitment()); std::vector<fab::Coin> a2, made; for (auto& x : av) if (!used.count(x.commit) && x.amount > 90000000) a2.push_back(x); if (a2.empty()) { c.log << "-"; continue; }
            TransactionPtr x; if (!es.empty() && s.chance(1, 8)) x = es[s.below(es.size())].x; else { fab::Coin k = a2[s.below(a2.size())]; size_t no = 1 + s.below(2); std::vector<fab::Coin> o; u64 left = k.amount - 60000000; if (no == 2) { o.push_back(fab::coin(left / 3, 800000 + t.serial++)); left -= left / 3; } o.push_back(fab::coin(left, 800000 + t.serial++)); x = bad::simpleTx(t, { k }, { tip->st->utxo.at(k.commit).f }, o, 60000000); }
            bool again = byKernel.count(x->GetKernels()[0].GetHash()) > 0; bool stem = again ? s.flip() : s.chance(5, 6); auto r = n.bc->AddTransaction(x, stem ? EPoolType::STEMPOOL : EPoolType::MEMPOOL); bool ok = r == EBlockChainStatus::SUCCESS; c.log << (again ? "again" : "new") << (stem ? " stem" : " public") << (ok ? "+" : "-"); if (!again) REQUIRE_MSG(ok, "valid transaction refused"); if (!ok) { look("after a refused addition"); continue; }
            if (again) { Entry& e = es[byKernel[x->GetKernels()[0].GetHash()]]; if (stem) { REQUIRE_MSG(e.gone, "accepted twice"); e = Entry{ x, (long)time(nullptr) }; } else { REQUIRE_MSG(!e.open, "accepted twice by the public pool"); size_t i = byKernel[x->GetKernels()[0].GetHash()]; e.handed = true; e.gone = false; publish(x, { i }, true); } } else { Entry e{ x, (long)time(nullptr) }; e.handed = !stem; for (auto& k : x->GetKernels()) byKernel[k.GetHash()] = es.size(); es.push_back(e); if (!stem) publish(x, { es.size() - 1 }, true); } look("after an addition");
        } else if (what == 1) { peers.clear(); size_t np = s.below(3); for (size_t i = 0; i < np; i++) peers.push_back(std::make_shared<Peer>(IPAddress(asio::ip::make_address("10.0.0." + std::to_string(1 + i))))); sendFails = s.chance(1, 4); c.log << np << " peers" << (sendFails ? ", sending fails" : "");
        } else if (what == 2) { long d = s.chance(1, 4) ? (long)s.below(embargo + 60) : s.chance(1, 3) ? (long)embargo + (long)s.below(3) - 1 : (long)s.below(12); if (d < 0) d = 0; ahead += d; c.log << "+" << d << "s";
        } else if (what == 3 || what == 5) {
            if (what == 5) { c.log << "end"; }
            bool hadStem = false; for (int phase = 0; phase < (what == 5 ? 2 : 3); phase++) {   // as the monitor does, possibly stopping after any phase
                sent.clear(); bool haveRelay = false; if (phase == 0) { if (labs((long)time(nullptr) - relayUntil) <= 2) ahead += 5; if (time(nullptr) <= relayUntil) haveRelay = true; else if (!peers.empty()) { haveRelay = true; relaySet = peers; relayPeer = nullptr; relayUntil = (long)time(nullptr) + relay; } }
                long before = (long)time(nullptr);
                if (phase == 0) dd.ProcessStemPhase(); else if (phase == 1) dd.ProcessFluffPhase(); else dd.ProcessExpiredEntries(); long after = (long)time(nullptr); std::set<size_t> seen; if (phase == 0) hadStem = haveRelay;
                for (auto& x : sent) { auto ids = entriesOf(x); for (auto i : ids) { Entry& e = es[i]; REQUIRE_MSG(seen.insert(i).second, "sent twice in one go"); REQUIRE_MSG(!e.gone, "a mined or dropped transaction was sent"); REQUIRE_MSG(!e.open, "a transaction that is public already was sent again"); any = true;
                    if (phase < 2) { REQUIRE_MSG(!e.handed, "handed out a second time in the " << (phase ? "fluff" : "stem") << " phase"); e.handed = true; if (phase == 0 && !sendFails) REQUIRE_MSG(x.kind == 1, "broadcast in the stem phase"); if (phase == 0 && x.kind == 2) REQUIRE(sendFails); if (phase == 1) REQUIRE_MSG(x.kind == 2, "stem message in the fluff phase"); if (prob == 100 && phase == 1) REQUIRE_MSG(false, "fluffed although everything is to be stemmed"); }
                    else { REQUIRE_MSG(x.kind == 2, "an expired transaction was not broadcast"); REQUIRE_MSG(after - e.t >= (long)embargo, "embargo of " << embargo << " s expired after " << after - e.t << " s"); e.handed = true; }
                    if (x.kind == 1) { REQUIRE_MSG(haveRelay, "stemmed without a relay"); REQUIRE_MSG(std::find(relaySet.begin(), relaySet.end(), x.peer) != relaySet.end(), "the relay is not one of the most-work peers"); if (relayPeer) REQUIRE_MSG(x.peer == relayPeer, "the relay changed within its time"); relayPeer = x.peer; } } if (x.kind == 2) publish(sentTx, ids, phase == 1 || ids.size() == 1); }
                for (size_t i = 0; i < es.size(); i++) { Entry& e = es[i]; if (e.gone || e.open || !minable(tip, *e.x) || clashM(*e.x)) continue;
                    if (phase == 0 && prob == 100 && haveRelay) REQUIRE_MSG(e.handed, "not handed out for stemming"); if (phase == 1 && hadStem) REQUIRE_MSG(e.handed, "neither stemmed nor fluffed");
                    if (phase == 2) REQUIRE_MSG(before - e.t <= (long)embargo + 32, "still not public " << before - e.t << " s after it was added; the embargo is " << embargo << " s"); }
                c.log << (phase == 0 ? "stem" : phase == 1 ? " fluff" : " expire") << sent.size(); look("after a tick"); if (what == 3 && s.chance(1, 6)) break; }
            if (what == 5) { ahead += (long)embargo + 40; sent.clear(); dd.ProcessExpiredEntries(); for (auto& x : sent) { auto ids = entriesOf(x); for (auto i : ids) REQUIRE_MSG(!es[i].open && !es[i].gone, "sent although public or mined"); publish(sentTx, ids, true); } for (auto& e : es) if (!e.gone && !e.open && minable(tip, *e.x) && !clashM(*e.x)) REQUIRE_MSG(false, "a stem transaction was lost: never made public"); look("at the end"); for (auto& x : n.pool->GetExpiredTransactions()) for (auto& k : x->GetKernels()) { auto it = byKernel.find(k.GetHash()); REQUIRE_MSG(it != byKernel.end() && !es[it->second].gone, "a transaction that was mined or ruled out is still waiting in the stem pool"); } }
        } else if (what == 4) {
            std::vector<TransactionPtr> txs; std::vector<size_t> mined; for (size_t i = 0; i < es.size(); i++) if (!es[i].gone && s.chance(1, 3) && minable(tip, *es[i].x)) { bool ok = true; for (auto& y : txs) ok &= !clash(*y, *es[i].x); if (ok) { txs.push_back(es[i].x); mined.push_back(i); } } c.log << "block with " << mined.size();
            std::vector<fab::Coin> made; for (auto& x : txs) for (auto& o : x->GetOutputs()) { auto f = bad::known().find(o.GetCommitment()); if (f != bad::known().end()) made.push_back(f->second); } Blk* b = t.make(tip, txs, 1, made); REQUIRE_MSG(n.add(b->block) == (int)EBlockChainStatus::SUCCESS, "valid block refused"); tip = b; auto gone = [&](const Transaction& x) { if (!minable(tip, x)) return true; for (auto& kk : x.GetKernels()) for (auto& bk : b->block.GetKernels()) if (kk.GetHash() == bk.GetHash()) return true; for (auto& i : x.GetInputs()) for (auto& bi : b->block.GetInputs()) if (i.GetCommitment() == bi.GetCommitment()) return true; return false; };
            std::vector<Unit> m2; for (auto& u : M) if (!gone(*u.x)) m2.push_back(u); M = m2; for (auto& e : es) e.open = false; for (auto& u : M) for (auto i : u.ids) es[i].open = true; for (auto& e : es) { if (e.stem && (gone(*e.x) || clashM(*e.x))) e.stem = false; e.gone = !e.stem && !e.open; } for (auto i : mined) REQUIRE(es[i].gone); look("after a block");
        } else if (what == 6) {   // somebody else spends the coin of a stem transaction in public
            for (auto& e : es) if (!e.gone && !e.open && minable(tip, *e.x) && !clashM(*e.x)) { auto cm = e.x->GetInputs()[0].GetCommitment(); for (auto& k : t.spendable(tip)) if (k.commit == cm) { auto x = bad::simpleTx(t, { k }, { tip->st->utxo.at(k.commit).f }, { fab::coin(k.amount - 60000000, 800000 + t.serial++) }, 60000000); REQUIRE_MSG(n.bc->AddTransaction(x, EPoolType::MEMPOOL) == EBlockChainStatus::SUCCESS, "refused"); Entry ne{ x, (long)time(nullptr) }; ne.handed = true; for (auto& kk : x->GetKernels()) byKernel[kk.GetHash()] = es.size(); es.push_back(ne); publish(x, { es.size() - 1 }, true); c.log << "double spend in public"; break; } break; } look("after a double spend");
        }
    }
    ahead = 0; c.nontrivial(any); c.label(embargo > 1000 ? "long embargo" : "embargo"); for (auto& e : es) c.label(e.gone ? "mined or dropped" : e.open ? "public" : "conflicting");
}
void pbt::setup(Check& c) {
    c.id = "C20"; c.rule = "non-trivial: at least one transaction was handed to a relay or broadcast by a Dandelion phase"; c.workerInit = init; c.quickCases = 2000; c.thoroughCases = 60000; c.quickCap = 25; c.quickMin = 100;
    c.parts = { { "history", 1, history } };
    c.assumptions = { "network AUTOMATED_TESTING", "the phases of the monitor thread are called in its order; the wall clock is moved by the check; messages to peers are recorded instead of sent" };
}
