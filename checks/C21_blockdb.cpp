// C21: the block database is an exact transactional map
#include "chain.h"
#include <BlockChain/Chain.h>
#include <Database/Database.h>
#include <fstream>
using namespace pbt; using namespace chain;
typedef std::pair<u64, u64> Loc;
struct Model { std::map<Hash, Bytes> headers; std::map<Hash, std::pair<u64, Bytes>> blocks; std::map<Hash, std::pair<Bytes, Bytes>> sums; std::map<Commitment, Loc> pos; std::map<Hash, std::map<Commitment, Loc>> spent; int version = 0; };
static std::map<u64, std::shared_ptr<Chain>> chains;   // stand-ins for the confirmed chain, by height
static std::shared_ptr<Chain> chainOf(u64 height) { auto& c = chains[height]; if (!c) { char b[4096]; if (!getcwd(b, sizeof b)) abort(); std::string p = std::string(b) + "/chain" + std::to_string(height); { std::ofstream f(p, std::ios::binary); for (u64 i = 0; i <= height; i++) { Bytes v = enc::b2b({ (uint8_t)i, (uint8_t)(i >> 8), 9 }); f.write((const char*)v.data(), 32); } } auto gen = std::make_shared<BlockIndex>(Global::GetGenesisHash(), 0); c = Chain::Load(std::make_shared<BlockIndexAllocator>(), EChainType::CONFIRMED, fs::path(p), gen); } return c; }
static void init() { env::workerDefault(); }
static void history(Ctx& c) {
    auto& s = c.src; std::string D = c.scratch() + "/db"; env::init(D); mkdir(D.c_str(), 0755); FileUtil::CreateDirectories(Global::GetConfig().GetDatabasePath()); auto db = DatabaseAPI::OpenDatabase(Global::GetConfig()); env::MapCoinView view; Global::SetCoinView(nullptr); Model com, work; bool undone = false, batchRead = false; u64 nOps = 0;
    std::vector<Hash> hk; std::vector<Commitment> ck; std::vector<BlockHeaderPtr> hp; std::vector<std::shared_ptr<FullBlock>> bp; std::set<Hash> seen; size_t nk = 2 + s.size(20);   // equal hashes mean equal cycles, which two headers cannot share
     for (size_t i = 0; i < nk; i++) { hk.push_back(gen::hash(s)); Bytes b = enc::b2b(s.bytes(8)); b.insert(b.begin(), (uint8_t)(8 + s.below(2))); ck.push_back(Commitment(CBigInteger<33>(b.data()))); if (i < 8) { auto f = gen::headerFields(s); if (s.flip()) f.height = s.chance(1, 2) ? s.below(60) : 10080 + s.below(40); auto h = std::make_shared<const BlockHeader>(f.make()); if (!seen.insert(h->GetHash()).second) continue; hp.push_back(h); bp.push_back(std::make_shared<FullBlock>(h, gen::body(s, 3))); if (s.chance(1, 3)) bp.push_back(std::make_shared<FullBlock>(h, gen::body(s, 3))); } }
    auto K = [&] { return hk[s.below(hk.size())]; }; auto C = [&] { return ck[s.below(ck.size())]; };
    auto loc = [&] { u64 l = s.chance(1, 3) ? s.edgy64() >> 4 : s.below(100000); return OutputLocation(LeafIndex::At(l), s.edgy64()); }; auto L = [](const OutputLocation& o) { return Loc(o.GetLeafIndex().Get(), o.GetBlockHeight()); };
    auto hb = [](const BlockHeader& h) { return gen::ser(h, EProtocolVersion::V2); };
    auto check = [&](const IBlockDB& d, const Model& m, const char* when, bool all) {
        auto one = [&](int what) { switch (what) {
            case 0: for (auto& h : hp) { auto g = d.GetBlockHeader(h->GetHash()); auto it = m.headers.find(h->GetHash()); REQUIRE_MSG((bool)g == (it != m.headers.end()), when << ": header " << show(h->GetHash()) << (g ? " is there though it was not stored" : " is missing")); if (g) REQUIRE_MSG(hb(*g) == it->second && g->GetHash() == h->GetHash(), when << ": another header is returned"); } break;
            case 1: for (auto& b : bp) { auto g = d.GetBlock(b->GetHash()); auto it = m.blocks.find(b->GetHash()); REQUIRE_MSG((bool)g == (it != m.blocks.end()), when << ": block " << show(b->GetHash()) << (g ? " is there though it was not stored or was removed" : " is missing")); if (g) REQUIRE_MSG(bodyBytes(*g) == it->second.second && g->GetHash() == b->GetHash(), when << ": another block is returned"); } break;
            case 2: for (auto& k : hk) { auto g = d.GetBlockSums(k); auto it = m.sums.find(k); REQUIRE_MSG((bool)g == (it != m.sums.end()), when << ": block sums " << (g ? "are there though not stored" : "are missing")); if (g) REQUIRE_MSG(g->GetOutputSum().GetVec() == it->second.first && g->GetKernelSum().GetVec() == it->second.second, when << ": other block sums are returned"); } break;
            case 3: for (auto& k : ck) { auto g = d.GetOutputPosition(k); auto it = m.pos.find(k); REQUIRE_MSG((bool)g == (it != m.pos.end()), when << ": output position " << (g ? "is there though not stored or removed" : "is missing")); if (g) REQUIRE_MSG(L(*g) == it->second, when << ": another output position is returned"); } break;
            case 4: for (auto& k : hk) { auto it = m.spent.find(k); bool t = false; std::unordered_map<Commitment, OutputLocation> g; try { g = d.GetSpentPositions(k); } catch (std::exception&) { t = true; } REQUIRE_MSG(t == (it == m.spent.end()), when << ": spent outputs " << (t ? "are missing" : "are there though not stored")); if (!t) { std::map<Commitment, Loc> x; for (auto& y : g) x[y.first] = L(y.second); REQUIRE_MSG(x == it->second, when << ": other spent outputs are returned"); } } break;
            default: REQUIRE_EQ((int)d.GetVersion(), m.version); } };
        if (all) for (int i = 0; i < 6; i++) one(i); else one((int)s.below(6)); };
    auto op = [&](IBlockDB& d, Model& m, bool batch, bool& touched) { nOps++; switch (s.weighted({ 5, 2, 5, 4, 5, 2, 3, 1, 1, 1, 1, 1, 1 })) {
        case 0: { auto h = hp[s.below(hp.size())]; d.AddBlockHeader(h); m.headers[h->GetHash()] = hb(*h); c.log << "header "; break; }
        case 1: { std::vector<BlockHeaderPtr> v; size_t n = 1 + s.below(4); if (s.chance(1, 6)) n = 130; for (size_t i = 0; i < n; i++) { BlockHeaderPtr h; if (n < 100) h = hp[s.below(hp.size())]; else { auto f = gen::headerFields(s); h = std::make_shared<const BlockHeader>(f.make()); if (!seen.insert(h->GetHash()).second) continue; } v.push_back(h); m.headers[h->GetHash()] = hb(*h); } if (n > 100) for (auto& h : v) d.AddBlockHeader(h); else d.AddBlockHeaders(v); c.log << n << " headers "; break; }
        case 2: { auto b = bp[s.below(bp.size())]; d.AddBlock(*b); m.blocks[b->GetHash()] = { b->GetHeight(), bodyBytes(*b) }; touched = true; c.log << "block "; break; }
        case 3: { auto k = K(); auto a = gen::commit(s), b = gen::commit(s); d.AddBlockSums(k, BlockSums(a, b)); m.sums[k] = { a.GetVec(), b.GetVec() }; c.log << "sums "; break; }
        case 4: { auto k = C(); auto l = loc(); d.AddOutputPosition(k, l); m.pos[k] = L(l); c.log << "position "; break; }
        case 5: { std::vector<Commitment> v; size_t n = s.below(4); for (size_t i = 0; i < n; i++) v.push_back(C()); d.RemoveOutputPositions(v); for (auto& k : v) m.pos.erase(k); c.log << "-" << n << " positions "; break; }
        case 6: { auto k = K(); std::vector<SpentOutput> v; std::map<Commitment, Loc> x; size_t n = s.size(s.chance(1, 20) ? 600 : 6); for (size_t i = 0; i < n; i++) { auto cm = i < ck.size() ? ck[i] : gen::commit(s); if (x.count(cm)) continue; auto l = loc(); v.push_back(SpentOutput(cm, l)); x[cm] = L(l); } d.AddSpentPositions(k, v); m.spent[k] = x; c.log << v.size() << " spent "; break; }
        case 7: d.ClearBlocks(); m.blocks.clear(); touched = true; c.log << "clear blocks "; break;
        case 8: d.ClearBlockSums(); m.sums.clear(); c.log << "clear sums "; break;
        case 9: d.ClearOutputPositions(); m.pos.clear(); c.log << "clear positions "; break;
        case 10: d.ClearSpentPositions(); m.spent.clear(); c.log << "clear spent "; break;
        case 11: { int v = (int)s.below(256); d.SetVersion((uint8_t)v); m.version = v; c.log << "version "; break; }
        case 12: { if (batch && touched) break; u64 h = s.pick<u64>({ 5, 10080, 10100, 10140 }); d.Compact(chainOf(h)); touched = true; u64 horizon = h > 10080 ? h - 10080 : 0; for (auto it = m.blocks.begin(); it != m.blocks.end();) it = it->second.first < horizon ? m.blocks.erase(it) : std::next(it); c.log << "compact " << h << " "; break; } } };
    size_t sessions = 2 + s.size(10); for (size_t q = 0; q < sessions; q++) {
        size_t n = s.size(14); if (s.chance(2, 3)) { bool commit = s.chance(2, 3), roll = !commit && s.flip(); work = com; bool touched = false; c.log << "batch: "; { auto w = db->GetBlockDB()->BatchWrite(); for (size_t i = 0; i < n; i++) { op(*w, work, true, touched); check(*w, work, "inside the batch", s.chance(1, 6)); batchRead = true; } if (commit) { w->Commit(); com = work; } else { if (roll) { w->Rollback(); check(*w, com, "after a rollback", true); } undone |= n > 0; } } c.log << (commit ? "commit; " : roll ? "rollback; " : "drop; "); }
        else { c.log << "direct: "; auto w = db->GetBlockDB()->Write(); bool t = false; for (size_t i = 0; i < n; i++) op(*w, com, false, t); c.log << "; "; }
        if (s.chance(1, 4)) { db.reset(); db = DatabaseAPI::OpenDatabase(Global::GetConfig()); c.log << "reopen; "; } { auto r = db->GetBlockDB()->Read(); check(*r, com, "after a session", s.chance(1, 2)); } }
    { auto r = db->GetBlockDB()->Read(); check(*r, com, "at the end", true); } c.nontrivial(undone && batchRead && nOps > 5);
}
void pbt::setup(Check& c) {
    c.id = "C21"; c.rule = "non-trivial: more than five writes, with a batch that was dropped or rolled back"; c.workerInit = init; c.quickCases = 3000; c.thoroughCases = 60000; c.quickCap = 20; c.quickMin = 0;
    c.parts = { { "history", 1, history } };
    c.assumptions = { "blocks are not compacted in a batch that also added or cleared blocks (the code never does)", "one writer at a time, as the lock around the database enforces" };
}
