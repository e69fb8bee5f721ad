// C43: a chain-state snapshot restores the exact state or is refused
#include "badblock.h"
#include <P2P/SyncStatus.h>
#include <Roaring.h>
#include "PMMR/Common/PruneList.h"
#include <minizip/zip.h>
#include <minizip/unzip.h>
#include <ftw.h>
typedef std::map<std::string, Bytes> Zip;
// the stand-in for bulletproofs does not know the genuine proof of the genesis output
extern "C" void secp_shim_accept(const unsigned char* c33, const unsigned char* proof);
static void initProof() { init(); auto& o = Global::GetGenesisBlock().GetOutputs().front(); auto p = o.GetRangeProof().GetProofBytes(); secp_shim_accept(o.GetCommitment().data(), p.data()); }
static Bytes slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); return Bytes((std::istreambuf_iterator<char>(f)), {}); }
static void put(const std::string& p, const Bytes& b) { std::ofstream f(p, std::ios::binary | std::ios::trunc); f.write((const char*)b.data(), (std::streamsize)b.size()); }
static bool exists(const std::string& p) { struct stat st; return stat(p.c_str(), &st) == 0; }
static Zip readZip(const std::string& p) { Zip z; unzFile f = unzOpen(p.c_str()); REQUIRE_MSG(f, "no snapshot was written"); for (int r = unzGoToFirstFile(f); r == UNZ_OK; r = unzGoToNextFile(f)) { unz_file_info i; char name[512]; unzGetCurrentFileInfo(f, &i, name, sizeof name, 0, 0, 0, 0); REQUIRE(unzOpenCurrentFile(f) == UNZ_OK); Bytes b(i.uncompressed_size); size_t got = 0; int k; while (got < b.size() && (k = unzReadCurrentFile(f, b.data() + got, (unsigned)(b.size() - got))) > 0) got += k; REQUIRE_EQ(got, b.size()); REQUIRE_MSG(unzCloseCurrentFile(f) == UNZ_OK, "the snapshot's archive is corrupt"); z[name] = b; } unzClose(f); return z; }
static void writeZip(const std::string& p, const Zip& z, bool deflate) { zipFile f = zipOpen(p.c_str(), APPEND_STATUS_CREATE); for (auto& e : z) { zip_fileinfo i{}; zipOpenNewFileInZip(f, e.first.c_str(), &i, 0, 0, 0, 0, 0, deflate ? Z_DEFLATED : 0, deflate ? 6 : 0); zipWriteInFileInZip(f, e.second.data(), (unsigned)e.second.size()); zipCloseFileInZip(f); } zipClose(f, 0); }
static u64 leafPos(u64 i) { return 2 * i - (u64)__builtin_popcountll(i); }
static Bytes bitmap(const std::set<u64>& leaves) { Roaring bm; for (u64 i : leaves) bm.add((uint32_t)leafPos(i) + 1); Bytes b(bm.getSizeInBytes()); bm.write((char*)b.data()); return b; }
// ---- the snapshot of a block as another node may have written it: with some or all of the spent leaves pruned
struct Shape { std::vector<u64> parent, height, leaf; std::vector<std::pair<u64, u64>> kids; };
static Shape shape(u64 leaves) { Shape f; std::vector<std::pair<u64, u64>> pk; for (u64 n = 0; n < leaves; n++) { u64 p = f.height.size(); f.parent.push_back(~0ull); f.height.push_back(0); f.leaf.push_back(n); f.kids.push_back({ 0, 0 }); pk.push_back({ p, 0 }); while (pk.size() > 1 && pk[pk.size() - 2].second == pk.back().second) { auto r = pk.back(); pk.pop_back(); auto l = pk.back(); pk.pop_back(); u64 q = f.height.size(); f.parent[l.first] = f.parent[r.first] = q; f.parent.push_back(~0ull); f.height.push_back(l.second + 1); f.leaf.push_back(~0ull); f.kids.push_back({ l.first, r.first }); pk.push_back({ q, l.second + 1 }); } } return f; }
static void prunedSet(Ctx& c, Zip& z, const std::string& dir, const std::string& shortHash, const Naive& n, const std::vector<Bytes>& leaves, const std::set<u64>& unspent, const std::set<u64>& gone) {
    Shape f = shape(leaves.size()); std::vector<char> p(f.height.size()); for (size_t i = 0; i < p.size(); i++) p[i] = f.height[i] == 0 ? gone.count(f.leaf[i]) > 0 : p[f.kids[i].first] && p[f.kids[i].second]; auto root = [&](u64 i) { return p[i] && (f.parent[i] == ~0ull || !p[f.parent[i]]); };
    Bytes h, d; for (u64 i = 0; i < p.size(); i++) if (!p[i] || root(i)) { h.insert(h.end(), n.nodes[i].begin(), n.nodes[i].end()); if (f.height[i] == 0) d.insert(d.end(), leaves[f.leaf[i]].begin(), leaves[f.leaf[i]].end()); }
    std::string tmp = c.scratch() + "/prun"; unlink(tmp.c_str()); { auto l = PruneList::Load(fs::path(tmp)); for (u64 i : gone) l->Add(LeafIndex::At(i).GetIndex()); l->Flush(); } z[dir + "/pmmr_hash.bin"] = h; z[dir + "/pmmr_data.bin"] = d; z[dir + "/pmmr_prun.bin"] = slurp(tmp); z[dir + "/pmmr_leaf.bin." + shortHash] = bitmap(unspent); }
static Zip model(Ctx& c, Blk* b, bool prune) {
    const State& st = *b->st; Zip z; Bytes h, d; for (auto& x : st.kernels.nodes) h.insert(h.end(), x.begin(), x.end()); for (auto& k : st.allKernels) { Bytes e = leafKernel(k); d.insert(d.end(), e.begin(), e.end()); } z["kernel/pmmr_hash.bin"] = h; z["kernel/pmmr_data.bin"] = d;
    std::set<u64> unspent, gone; for (auto& u : st.utxo) unspent.insert(u.second.leaf); int some = prune ? 1 + (int)c.src.below(3) : 0; for (u64 i = 0; i < st.outputs.leaves; i++) if (!unspent.count(i) && some && (some < 3 || c.src.flip())) gone.insert(i);
    std::vector<Bytes> o, r; for (auto& x : st.allOut) { o.push_back(leafOut(x)); r.push_back(leafProof(x.GetRangeProof())); } std::string sh = b->hdr->ShortHash(); prunedSet(c, z, "output", sh, st.outputs, o, unspent, gone); prunedSet(c, z, "rangeproof", sh, st.proofs, r, unspent, gone); return z; }
// ---- the node that restores
static std::set<std::string> listed; static int note(const char* p, const struct stat*, int, struct FTW*) { listed.insert(p); return 0; }
static std::set<std::string> filesIn(const std::string& d, const std::string& except) { listed.clear(); nftw(d.c_str(), note, 30, FTW_PHYS); std::set<std::string> r; for (auto& x : listed) if (x.compare(0, except.size(), except)) r.insert(x); return r; }
struct Restorer {
    Ctx& c; Node n; std::string dir;
    Restorer(Ctx& cc, Blk* target, Blk* at) : c(cc), dir(cc.scratch() + "/b") { env::init(dir); n.open(); std::vector<BlockHeaderPtr> h; for (Blk* b = target; b->height; b = b->parent) h.push_back(b->hdr); std::reverse(h.begin(), h.end()); int r = -1; try { r = (int)n.bc->AddBlockHeaders(h); } catch (std::exception&) {} REQUIRE_MSG(r == (int)EBlockChainStatus::SUCCESS, "headers of a valid chain refused"); }
    bool process(Blk* b, const Bytes& archive) { std::string p = c.scratch() + "/in.zip"; put(p, archive); SyncStatus st; auto before = filesIn(c.scratch(), dir); before.erase(p); auto r = n.bc->ProcessTransactionHashSet(b->hdr->GetHash(), fs::path(p), st); auto after = filesIn(c.scratch(), dir); after.erase(p); REQUIRE_MSG(before == after, "unpacking left files outside the node's directory"); return r == EBlockChainStatus::SUCCESS; }
    // goes on with full blocks up to target
    void follow(Blk* from, Blk* target) { std::vector<Blk*> v; for (Blk* b = target; b != from; b = b->parent) v.push_back(b); std::reverse(v.begin(), v.end()); for (auto b : v) { int r = n.add(b->block); REQUIRE_MSG(r == (int)EBlockChainStatus::SUCCESS, "valid block of height " << b->height << " refused after restoring (" << r << ")"); } compare(n, g->tree, target, true, from->height); } };
static std::string tmpFor(Ctx& c) { static std::string t; t = c.scratch() + "/tmp"; mkdir(t.c_str(), 0755); setenv("TMPDIR", t.c_str(), 1); return t; }
static void sameFiles(const Zip& z, Blk* b, Ctx& c) { Zip m = model(c, b, false); std::string sh = b->hdr->ShortHash(); for (auto& e : m) { if (e.first.find("prun") != std::string::npos) continue; auto i = z.find(e.first); REQUIRE_MSG(i != z.end(), "the snapshot lacks " << e.first); if (e.first.find("leaf.bin") != std::string::npos) { auto bm = [](const Bytes& x) { Roaring r = Roaring::readSafe((const char*)x.data(), x.size()); std::set<u64> s; for (uint32_t v : r) s.insert(v); return s; }; REQUIRE_MSG(bm(i->second) == bm(e.second), "unspent set of the snapshot differs: " << e.first); } else REQUIRE_MSG(i->second == e.second, e.first << " of the snapshot differs from the state of the block"); } }
// what the restored node passes on is what it was given
static void passedOn(Restorer& r, Blk* at, const Zip& good) { Zip z; { fs::path p = r.n.bc->SnapshotTxHashSet(at->hdr); z = readZip(p.u8string()); unlink(p.u8string().c_str()); } auto get = [](const Zip& x, const std::string& n) { auto i = x.find(n); return i == x.end() ? Bytes{} : i->second; }; auto kernels = [](const Bytes& b) { Bytes r; for (size_t i = 0; i + 114 <= b.size(); i += 114) { ByteBuffer x(Bytes(b.begin() + (long)i, b.begin() + (long)i + 114), EProtocolVersion::V1); Bytes k = leafKernel(TransactionKernel::Deserialize(x)); r.insert(r.end(), k.begin(), k.end()); } return r; };   /* a coinbase kernel has no fee: those bytes of its record say nothing */ REQUIRE_MSG(kernels(get(z, "kernel/pmmr_data.bin")) == kernels(get(good, "kernel/pmmr_data.bin")), "the kernels the restored node passes on are not those of the chain"); for (auto n : { "kernel/pmmr_hash.bin" }) REQUIRE_MSG(get(z, n) == get(good, n), "the restored node's " << n << " is not that of the block's state"); for (std::string d : { "output", "rangeproof" }) if (get(z, d + "/pmmr_prun.bin") == get(good, d + "/pmmr_prun.bin")) REQUIRE_MSG(get(z, d + "/pmmr_hash.bin") == get(good, d + "/pmmr_hash.bin"), "the restored node's " << d << "/pmmr_hash.bin is not that of the block's state"); }
static void restore(Ctx& c) {
    auto& s = c.src; CaseTree ct; std::string t = tmpFor(c); Zip z; Blk* at; Blk* target; bool own = s.flip(); std::vector<Blk*> v; { size_t k = s.size(4); for (size_t i = 0; i < k; i++) { Blk* p = v.empty() || s.chance(1, 4) ? g->spine[LEN - s.size(3)] : v.back(); v.push_back(g->tree.randomBlock(s, p, 1 + s.below(8), 2)); } }
    target = g->spine.back(); for (auto b : v) if (b->work > target->work) target = b; std::vector<Blk*> path; for (Blk* b = target; b; b = b->parent) path.push_back(b); at = path[std::min<size_t>(path.size() - 1, s.flip() ? s.below(4) : s.below(path.size() - 1))]; if (at->height == 0) at = g->spine[1]; Bytes archive; c.log << "snapshot at " << at->height << " of " << target->height;
    if (own) { NodeOn a(c); for (auto b : v) a.n.add(b->block); REQUIRE(a.n.tip() == target->hdr->GetHash()); if (s.chance(1, 3)) { // the state of the source is left as it is
            a.n.bc->SnapshotTxHashSet(path[s.below(std::min<size_t>(path.size(), 10))]->hdr); compare(a.n, g->tree, target, false); }
        fs::path p = a.n.bc->SnapshotTxHashSet(at->hdr); archive = slurp(p.u8string()); z = readZip(p.u8string()); compare(a.n, g->tree, target, false); sameFiles(z, at, c); if (target->height < 60) { Blk* nb = g->tree.randomBlock(s, target, 1, 1); REQUIRE_MSG(a.n.add(nb->block) == (int)EBlockChainStatus::SUCCESS, "the source refuses the next block after a snapshot"); } unlink(p.u8string().c_str()); c.label("written by a node"); }
    else { bool prune = s.chance(3, 4); z = model(c, at, prune); std::string p = c.scratch() + "/m.zip"; writeZip(p, z, s.flip()); archive = slurp(p); unlink(p.c_str()); c.log << (prune ? ", pruned" : ""); c.label(prune ? "pruned" : "unpruned"); }
    Restorer r(c, target, at); REQUIRE_MSG(r.process(at, archive), "a valid snapshot is refused"); if (s.chance(1, 3)) passedOn(r, at, z); compare(r.n, g->tree, at, true, at->height); if (s.chance(1, 3)) { r.n.close(); r.n.open(); compare(r.n, g->tree, at, true, at->height); c.label("restart after restoring"); }
    r.follow(at, target); for (auto b : v) { r.n.add(b->block); } compare(r.n, g->tree, target, true, at->height); c.nontrivial(at->height > 26);
}
// ---- alterations
static void altered(Ctx& c) {
    auto& s = c.src; CaseTree ct; tmpFor(c); Blk* target = g->spine.back(); Blk* at = g->spine[LEN - s.below(8)]; const State& st = *at->st; Zip good = model(c, at, s.chance(1, 2)), z = good; std::string sh = at->hdr->ShortHash(); std::vector<std::string> names; for (auto& e : z) names.push_back(e.first); Bytes archive; std::string tmp = c.scratch() + "/m.zip"; bool raw = false; std::string what;
    auto pick = [&] { return names[s.below(names.size())]; }; auto data = [&](const char* n) -> Bytes& { return z[std::string(n) + "/pmmr_data.bin"]; };
    switch (s.weighted({ 8, 3, 3, 3, 2, 4, 5, 5, 4, 2, 3, 4 })) {
    case 0: { std::string n = pick(); Bytes& b = z[n]; if (b.empty()) b.push_back((uint8_t)s.below(256)); else { size_t i = s.below(b.size()); b[i] ^= (uint8_t)(1 << s.below(8)); what = "bit of byte " + std::to_string(i) + " of " + std::to_string(b.size()) + " flipped"; } what += " in " + n; break; }
    case 1: { std::string n = pick(); Bytes& b = z[n]; size_t k = b.empty() ? 0 : s.below(b.size()); if (n.find("hash") != std::string::npos && s.flip()) k = k / 32 * 32; b.resize(k); what = "cut to " + std::to_string(k) + " bytes: " + n; break; }
    case 2: { std::string n = pick(); z.erase(n); what = "missing " + n; break; }
    case 3: { std::string a = pick(), b = pick(); std::swap(z[a], z[b]); what = "swapped " + a + " and " + b; break; }
    case 4: { std::string n = pick(); Bytes x = s.bytes(1 + s.size(800)); z[n].insert(z[n].end(), x.begin(), x.end()); what = "appended to " + n; break; }
    case 5: { Blk* o = g->spine[s.flip() ? s.below(LEN) + 1 : std::min<u64>(LEN, at->height + 1 + s.below(2))]; Zip y = model(c, o, s.flip()); std::string os = o->hdr->ShortHash(); z.clear(); for (auto& e : y) { std::string n = e.first; size_t p = n.find(os); if (p != std::string::npos) n.replace(p, os.size(), sh); z[n] = e.second; } int keep = (int)s.below(3); if (keep == 1) { std::string n = pick(); if (good.count(n)) z[n] = good[n]; } else if (keep == 2) { size_t one = s.below(3); bool inv = s.flip(); const char* dirs[] = { "output/", "rangeproof/", "kernel/" }; for (auto& e : good) if ((e.first.compare(0, strlen(dirs[one]), dirs[one]) == 0) != inv) z[e.first] = e.second; } what = "state of height " + std::to_string(o->height); break; }
    case 6: { const char* dirs[] = { "output", "rangeproof", "kernel" }; size_t w = s.below(3); Bytes& b = data(dirs[w]); size_t rec = w == 0 ? 34 : w == 1 ? 683 : 114; size_t n = b.size() / rec; if (!n) return; size_t i = s.below(n); if (w == 0 && s.flip()) { b[i * rec] ^= 1; what = "features of an output"; } else if (s.flip() && n > 1) { size_t j = s.below(n); std::swap_ranges(b.begin() + i * rec, b.begin() + (i + 1) * rec, b.begin() + j * rec); what = std::string("two records swapped in ") + dirs[w]; } else { b[i * rec + s.below(rec)] ^= (uint8_t)(1 + s.below(255)); what = std::string("a record of ") + dirs[w]; } break; }
    case 7: { bool rp = s.flip(); std::set<u64> u; for (auto& x : st.utxo) u.insert(x.second.leaf); size_t k = 1 + s.below(3); for (size_t q = 0; q < k; q++) { u64 i = s.below(st.outputs.leaves + 3); if (u.count(i)) u.erase(i); else u.insert(i); } z[std::string(rp ? "rangeproof" : "output") + "/pmmr_leaf.bin." + sh] = bitmap(u); if (s.chance(1, 4)) z[std::string(rp ? "output" : "rangeproof") + "/pmmr_leaf.bin." + sh] = bitmap(u); what = std::string("unspent set of ") + (rp ? "rangeproof" : "output"); break; }
    case 8: { Zip y = model(c, at, true); std::string n = pick(); z[n] = y[n]; what = "file of another pruning: " + n; break; }
    case 9: { size_t k = 1 + s.below(3); for (size_t i = 0; i < k; i++) z[s.pick<std::string>({ "../evil", "../../evil", "/" + c.scratch() + "/evil", "kernel/../../evil", "output/../../../evil", "kernel/evil", "kernel/pmmr_data.bin/evil", "..\\evil" })] = s.bytes(20); what = "foreign entries"; break; }
    case 10: { writeZip(tmp, z, s.flip()); archive = slurp(tmp); size_t k = 1 + s.below(4); for (size_t i = 0; i < k; i++) { size_t p = s.flip() ? archive.size() - 1 - s.below(std::min<size_t>(archive.size(), 700)) : s.below(archive.size()); archive[p] ^= (uint8_t)(1 << s.below(8)); } raw = true; what = "archive bits flipped"; break; }
    case 11: { writeZip(tmp, z, s.flip()); archive = slurp(tmp); if (s.chance(1, 4)) { archive = s.bytes(s.size(400)); what = "not an archive"; } else { archive.resize(s.below(archive.size())); what = "archive cut"; } raw = true; break; } }
    if (!raw) { writeZip(tmp, z, s.flip()); archive = slurp(tmp); } unlink(tmp.c_str()); c.log << "at " << at->height << ": " << what;
    Restorer r(c, target, at); bool ok = r.process(at, archive); if (ok) { c.label("accepted, state exact"); passedOn(r, at, good); compare(r.n, g->tree, at, true, at->height); r.follow(at, target); return; }
    c.label("refused"); REQUIRE_EQ(r.n.bc->GetHeight(EChainType::CONFIRMED), 0u); if (s.chance(1, 4)) { r.n.close(); r.n.open(); REQUIRE_EQ(r.n.bc->GetHeight(EChainType::CONFIRMED), 0u); c.label("restart after a refused one"); }
    writeZip(tmp, good, false); archive = slurp(tmp); unlink(tmp.c_str()); REQUIRE_MSG(r.process(at, archive), "a valid snapshot is refused after an altered one"); compare(r.n, g->tree, at, true, at->height); r.follow(at, target); c.nontrivial();
}
// ---- a snapshot that fits its headers, of a chain with an invalid block in it
static void badChain(Ctx& c) {
    using namespace bad; auto& s = c.src; CaseTree ct; tmpFor(c); Tree& t = g->tree; static const int atOnly[] = { ROOT_OUT, ROOT_PROOF, ROOTS_MIXED, SIZE_OUT, PARENT_OUT, PARENT_KERNEL }, lasting[] = { KERNEL_SIG, RANGE_PROOF, OFFSET, ROOT_KERNEL, SIZE_KERNEL, INFLATE, REWARD_OFF, NO_REWARD_OUT, NO_REWARD_KERNEL, DROPPED_KERNEL, DROPPED_OUTPUT, UNKNOWN_INPUT, SPENT_INPUT, FAKE_COINBASE_KERNEL };
    bool only = s.chance(1, 4); int kind = only ? atOnly[s.below(6)] : lasting[s.below(14)]; Blk* p = g->spine[s.chance(1, 3) ? s.below(12) : LEN - s.below(6)]; std::vector<std::unique_ptr<Blk>> hold; auto b = bad::build(s, t, p, kind, 2, 2); if (!b) { c.label("kind not possible here"); return; } Blk* x = b.get(); hold.push_back(std::move(b)); size_t after = only ? 0 : s.size(4); Blk* at = x; for (size_t i = 0; i < after; i++) { auto q = bad::build(s, t, at, bad::PLAIN, 1 + s.below(3), 2); if (!q) return; at = q.get(); hold.push_back(std::move(q)); }
    if (kind == RANGE_PROOF) for (auto& o : x->block.GetOutputs()) if (!at->st->utxo.count(o.GetCommitment())) { c.label("range proof of a spent output"); return; }
    c.log << bad::name(kind) << ", snapshot " << after << " blocks later"; c.label(bad::name(kind)); Zip z = model(c, at, s.flip()); std::string tmp = c.scratch() + "/m.zip"; writeZip(tmp, z, s.flip()); Bytes archive = slurp(tmp); unlink(tmp.c_str()); c.nontrivial();
    std::unique_ptr<Restorer> r; try { r = std::make_unique<Restorer>(c, at, at); } catch (Failure&) { c.label("header refused"); return; }
    REQUIRE_MSG(!r->process(at, archive), "the snapshot of a chain with an invalid block is accepted: " << bad::name(kind)); REQUIRE_EQ(r->n.bc->GetHeight(EChainType::CONFIRMED), 0u);
}
void pbt::setup(Check& c) {
    c.id = "C43"; c.rule = "non-trivial: a snapshot above the first spends (restore), an altered snapshot that was refused (altered), a snapshot of a chain with an invalid block (bad chain)"; c.workerInit = initProof; c.quickCases = 500; c.thoroughCases = 20000; c.quickCap = 25; c.quickMin = 30; c.parts = { { "restore", 1, restore }, { "altered", 2, altered }, { "bad chain", 1, badChain } };
    c.assumptions = { "the contents of leaves that are spent already count for nothing, so an alteration of those may be accepted", "network AUTOMATED_TESTING: proof of work is not checked" };
}
