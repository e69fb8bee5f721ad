// C42: every answer of the node's REST and JSON-RPC API, and of the clients of it, agrees with the model of the chain
#include "chainbase.h"
#include "badblock.h"
#include "mgstub.h"
#include <Server/Node/NodeContext.h>
#include <Server/Node/NodeRestServer.h>
#include <Server/Node/NodeClients/DefaultNodeClient.h>
#include <Server/Node/NodeClients/RPCNodeClient.h>
#include <Common/GrinStr.h>
#include <atomic>
#include <thread>
#include <netinet/in.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <time.h>
typedef std::string Str; typedef Json::Value J;
// the client pauses a second before each connection
extern "C" int nanosleep(const struct timespec* t, struct timespec* r) { if (t->tv_sec == 1 && t->tv_nsec == 0) return 0; return (int)syscall(SYS_nanosleep, t, r); }
extern "C" int clock_nanosleep(clockid_t k, int f, const struct timespec* t, struct timespec* r) { if (t->tv_sec == 1 && t->tv_nsec == 0 && f == 0) return 0; return syscall(SYS_clock_nanosleep, k, f, t, r) ? errno : 0; }
static Str txt(const J& j) { Json::StreamWriterBuilder b; b["indentation"] = ""; return Json::writeString(b, j); }
static Str shown(const Str& s) { Str o; char t[8]; for (unsigned char ch : s.substr(0, 400)) if (ch < 32 || ch > 126) { snprintf(t, 8, "\\x%02x", ch); o += t; } else o += ch; if (s.size() > 400) o += "...(" + std::to_string(s.size()) + ")"; return o; }
static std::optional<J> parseText(const Str& t) { J v; Json::CharReaderBuilder b; std::unique_ptr<Json::CharReader> r(b.newCharReader()); Str e; try { if (!r->parse(t.data(), t.data() + t.size(), &v, &e)) return std::nullopt; } catch (...) { return std::nullopt; } return v; }
// local times depend on the machine; a list without entries may be null
static J norm(const J& j) { if (j.isArray()) { if (j.empty()) return J(); J o(Json::arrayValue); for (auto& x : j) o.append(norm(x)); return o; } if (j.isObject()) { J o(Json::objectValue); for (auto& k : j.getMemberNames()) if (k != "timestamp_local") o[k] = norm(j[k]); return o; } return j; }
static Str flat(const J& j) { Str t = txt(norm(j)); auto p = parseText(t); return p ? txt(*p) : t; }
static Str hx(const Bytes& b) { static const char* d = "0123456789abcdef"; Str o; for (uint8_t x : b) { o += d[x >> 4]; o += d[x & 15]; } return o; }
static Str hx(const Hash& h) { return hx(h.GetData()); }
static J U(u64 v) { return J(Json::UInt64(v)); }
static const char* featName(EOutputFeatures f) { return f == EOutputFeatures::COINBASE_OUTPUT ? "Coinbase" : "Plain"; }
static J headerJ(const BlockHeader& h) {
    J j; j["height"] = U(h.GetHeight()); j["hash"] = hx(h.GetHash()); j["version"] = U(h.GetVersion()); j["timestamp_raw"] = Json::Int64(h.GetTimestamp()); time_t t = h.GetTimestamp(); tm m; gmtime_r(&t, &m); char b[64]; strftime(b, 64, "%Y-%m-%d %H:%M:%S UTC", &m); j["timestamp"] = b;
    j["previous"] = hx(h.GetPreviousHash()); j["prev_root"] = hx(h.GetPreviousRoot()); j["kernel_root"] = hx(h.GetKernelRoot()); j["output_root"] = hx(h.GetOutputRoot()); j["range_proof_root"] = hx(h.GetRangeProofRoot()); j["output_mmr_size"] = U(h.GetOutputMMRSize()); j["kernel_mmr_size"] = U(h.GetKernelMMRSize());
    j["total_kernel_offset"] = hx(h.GetTotalKernelOffset().GetBytes().GetData()); j["secondary_scaling"] = U(h.GetScalingDifficulty()); j["total_difficulty"] = U(h.GetTotalDifficulty()); j["nonce"] = U(h.GetNonce()); j["edge_bits"] = U(h.GetProofOfWork().GetEdgeBits()); for (u64 n : h.GetProofOfWork().GetProofNonces()) j["cuckoo_solution"].append(U(n)); return j;
}
static J outputJ(const TransactionOutput& o, u64 height) { J j; j["features"] = featName(o.GetFeatures()); j["commit"] = hx(o.GetCommitment().GetVec()); j["proof"] = hx(o.GetRangeProof().GetProofBytes()); j["block_height"] = U(height); return j; }
static J kernelJ(const TransactionKernel& k) { J a, j; if (k.GetFeatures() != EKernelFeatures::COINBASE_KERNEL) a["fee"] = U(k.GetFee()); Str n = k.GetFeatures() == EKernelFeatures::COINBASE_KERNEL ? "Coinbase" : k.GetFeatures() == EKernelFeatures::HEIGHT_LOCKED ? "HeightLocked" : k.GetFeatures() == EKernelFeatures::NO_RECENT_DUPLICATE ? "NoRecentDuplicate" : "Plain"; if (n == "HeightLocked" || n == "NoRecentDuplicate") a["lock_height"] = U(k.GetLockHeight()); j["features"][n] = a; j["excess"] = hx(k.GetExcessCommitment().GetVec()); j["excess_sig"] = hx(Crypto::ToCompact(k.GetExcessSignature()).GetSignatureBytes().GetData()); return j; }
static J blockJ(const Blk* b, bool compact) {
    J j; j["header"] = headerJ(*b->hdr); J in, out, ker; for (auto& i : b->block.GetInputs()) { J x; x["features"] = featName(i.GetFeatures()); x["commit"] = hx(i.GetCommitment().GetVec()); if (!compact) in.append(x); } for (auto& o : b->block.GetOutputs()) if (!compact || o.IsCoinbase()) out.append(outputJ(o, b->height)); for (auto& k : b->block.GetKernels()) if (!compact || k.IsCoinbase()) ker.append(kernelJ(k)); j["inputs"] = in; j["outputs"] = out; j["kernels"] = ker; return j;
}
static u64 posOf(u64 leaf) { return mmrSize(leaf); }
static J dtoJ(const State& s, const Commitment& c) { auto& u = s.utxo.at(c); auto& p = s.allOut[u.leaf].GetRangeProof(); J j; j["output_type"] = featName(u.f); j["commit"] = hx(c.GetVec()); j["spent"] = false; j["proof"] = hx(p.GetProofBytes()); j["proof_hash"] = hx(enc::b2b(leafProof(p))); j["block_height"] = U(u.height); j["merkle_proof"] = J(); j["mmr_index"] = U(posOf(u.leaf) + 1); return j; }
// ---- the peers as the node sees them
struct Rec { PeerPtr p; bool connected; EDirection dir; u64 td, height; };
struct FakeP2P : IP2PServer {
    std::vector<Rec> v; SyncStatusPtr sync = std::make_shared<SyncStatus>(); std::pair<size_t, size_t> num; std::vector<Str> calls; std::vector<Hash> sent;
    SyncStatusConstPtr GetSyncStatus() const override { return sync; }
    std::pair<size_t, size_t> GetNumberOfConnectedPeers() const override { return num; }
    std::vector<PeerConstPtr> GetAllPeers() const override { std::vector<PeerConstPtr> r; for (auto& x : v) r.push_back(x.p); return r; }
    std::vector<ConnectedPeer> GetConnectedPeers() const override { std::vector<ConnectedPeer> r; for (auto& x : v) if (x.connected) { ConnectedPeer q(x.p, x.dir, 3414); q.UpdateTotals(x.td, x.height); r.push_back(q); } return r; }
    std::optional<PeerConstPtr> GetPeer(const IPAddress& a) const override { for (auto& x : v) if (x.p->GetIPAddress() == a) return x.p; return std::nullopt; }
    void BanPeer(const IPAddress& a, const EBanReason r) override { calls.push_back("ban " + a.Format() + " " + std::to_string((int)r)); for (auto& x : v) if (x.p->GetIPAddress() == a) x.p->Ban(r); }
    void UnbanPeer(const IPAddress& a) override { calls.push_back("unban " + a.Format()); for (auto& x : v) if (x.p->GetIPAddress() == a) x.p->Unban(); }
    bool UnbanAllPeers() override { calls.push_back("unban all"); for (auto& x : v) x.p->Unban(); return true; }
    void BroadcastTransaction(const TransactionPtr& t) override { sent.push_back(t->GetHash()); }
};
static J peerJ(const Peer& p) { static const char* why[] = { "None", "BadBlock", "BadCompactBlock", "BadBlockHeader", "BadTxHashSet", "ManualBan", "FraudHeight", "BadHandshake", "Abusive", "BadTransaction" }; J j; j["addr"] = p.GetIPAddress().Format(); j["capabilities"]["bits"] = U((u64)p.GetCapabilities().GetCapability()); j["user_agent"] = p.GetUserAgent(); j["flags"] = p.GetLastBanTime() > time(nullptr) - 10800 ? "Banned" : "Healthy"; j["last_banned"] = U((u64)p.GetLastBanTime()); j["ban_reason"] = why[(int)p.GetBanReason()]; j["last_connected"] = U((u64)p.GetLastContactTime()); j["protocol_version"] = U(p.GetVersion()); return j; }
// ---- a node with its API
struct World {
    Ctx& c; Src& s; CaseTree ct; Tree& t; NodeOn d; Node& n; std::shared_ptr<FakeP2P> p2p = std::make_shared<FakeP2P>(); std::shared_ptr<NodeContext> nc; NodeRestServer::UPtr server; mg_context* ctx; std::set<const Blk*> headers, blocks; std::vector<TransactionPtr> ever; std::set<TransactionKernel> kernels; size_t refused = 0, found = 0, missing = 0;
    World(Ctx& c) : c(c), s(c.src), t(g->tree), d(c), n(d.n) {
        for (size_t i = 0; i < g->n; i++) { headers.insert(t.all[i].get()); blocks.insert(t.all[i].get()); }
        for (size_t k = s.below(5), i = 0; i < k; i++) { IPAddress a = s.chance(1, 5) ? IPAddress::CreateV6({ 0x20, 1, 0xd, 0xb8, (uint8_t)i, 0, 0, 0, 0, 0, 0, 0, 0, 0, (uint8_t)s.below(256), 7 }) : IPAddress::CreateV4({ (uint8_t)(1 + s.below(220)), (uint8_t)i, (uint8_t)s.below(256), (uint8_t)s.below(256) }); time_t now = time(nullptr); auto p = std::make_shared<Peer>(a, s.pick<uint32_t>({ 0, 1, 2, 3, 1000, UINT32_MAX }), Capabilities((uint32_t)s.below(16)), s.text("ab/ 1.\"\\", 12), (time_t)s.below(2000000000), s.flip() ? 0 : now - (time_t)s.pick<int>({ 5, 10000, 11500, 1000000 }), (EBanReason)s.below(10)); p2p->v.push_back({ p, s.flip(), s.flip() ? EDirection::INBOUND : EDirection::OUTBOUND, s.edgy64(), s.edgy64() }); }
        p2p->num = { s.below(5), s.below(500) }; nc = std::make_shared<NodeContext>(NodeContext{ n.db, n.bc, p2p, n.txhs->Write().GetShared(), n.pool }); server = NodeRestServer::Create(Global::GetConfig(), nc); ctx = mg::started().back();
    }
    ~World() { server.reset(); nc.reset(); }
    Blk* tip() { auto it = t.byHash.find(n.tip()); REQUIRE_MSG(it != t.byHash.end(), "the tip is not a block of the tree"); return it->second; }
    Blk* cand() { auto it = t.byHash.find(n.tip(EChainType::CANDIDATE)); REQUIRE_MSG(it != t.byHash.end(), "the candidate tip is not a header of the tree"); return it->second; }
    static Blk* at(Blk* b, u64 h) { if (h > b->height) return nullptr; while (b->height > h) b = b->parent; return b; }
    static bool on(Blk* b, const Blk* x) { return at(b, x->height) == x; }
    // ---- requests
    mg::Reply ask(const Str& uri, const Str& query = "", const Str& method = "GET", const Str& body = "", bool q0 = false) {
        mg_connection k; k.method = method; k.uri = uri; k.hasQuery = q0 || !query.empty(); k.query = query; k.body = body; Str what = method + " " + shown(uri) + (query.empty() ? "" : "?" + shown(query)) + (body.empty() ? "" : " with " + shown(body)); c.log << "; " << what; mg::Reply r;
        try { r = mg::ask(ctx, k); } catch (const std::exception& e) { REQUIRE_MSG(false, what << ": an exception escapes the request handler, which ends the node: " << e.what()); }
        REQUIRE_MSG(!r.handled || (r.wrong.empty() && r.code >= 200 && r.code < 600), what << ": not answered by one HTTP response: " << r.wrong << " " << shown(k.out)); return r;
    }
    // answered with this value, or (nothing) reported as missing
    void want(const mg::Reply& r, const Str& what, const std::optional<J>& j, bool may = false) {
        REQUIRE_MSG(r.handled, what << ": nobody answers"); if (!j) { missing++; REQUIRE_MSG(r.code >= 400 && r.code < 500, what << ": there is no such thing, but the answer is " << r.code << " " << shown(r.body)); return; }
        if (may && r.code >= 400) return; found++; REQUIRE_MSG(r.code == 200, what << ": exists, but the answer is " << r.code << " " << shown(r.body)); auto got = parseText(r.body); REQUIRE_MSG(got, what << ": the answer is not JSON: " << shown(r.body)); Str a = flat(*j), b = flat(*got); size_t k = 0; while (k < a.size() && k < b.size() && a[k] == b[k]) k++; REQUIRE_MSG(a == b, what << ": from byte " << k << " on the answer has " << shown(b.substr(k > 40 ? k - 40 : 0)) << " instead of " << shown(a.substr(k > 40 ? k - 40 : 0)));
    }
    std::optional<J> rpc(const Str& method, const J& params, bool hasParams = true) {
        J q; q["jsonrpc"] = "2.0"; int id = (int)s.below(100000); q["id"] = id; q["method"] = method; if (hasParams) q["params"] = params; auto r = ask("/v2/foreign", "", "POST", txt(q)); REQUIRE_MSG(r.handled && r.code == 200, "status " << r.code); auto a = parseText(r.body); REQUIRE_MSG(a && a->isObject() && (*a)["jsonrpc"] == "2.0" && (*a)["id"] == id && a->isMember("result") != a->isMember("error"), method << ": no JSON-RPC answer: " << shown(r.body));
        if (a->isMember("error")) { REQUIRE((*a)["error"].isObject() && (*a)["error"]["message"].isString()); return std::nullopt; } REQUIRE_MSG((*a)["result"].isObject() && (*a)["result"].isMember("Ok"), method << ": neither an error nor Ok: " << shown(r.body)); return (*a)["result"]["Ok"];
    }
    void wantRpc(const std::optional<J>& r, const Str& what, const std::optional<J>& j, bool may = false) { if (!j) { missing++; REQUIRE_MSG(!r, what << ": there is no such thing, but the answer is " << shown(txt(*r))); return; } if (may && !r) return; found++; REQUIRE_MSG(r, what << ": exists, but the answer is an error"); REQUIRE_MSG(flat(*r) == flat(*j), what << ": the answer is " << shown(flat(*r)) << " instead of " << shown(flat(*j))); }
    // ---- what to ask for
    u64 height() { switch (s.below(8)) { case 0: return tip()->height; case 1: return tip()->height + 1; case 2: return cand()->height; case 3: return 0; case 4: return s.edgy64(); case 5: return 1; default: return s.below(tip()->height + 4); } }
    Blk* anyBlk() { return s.chance(1, 2) ? t.all[s.below(t.all.size())].get() : s.flip() ? tip() : at(tip(), s.below(tip()->height + 1)); }
    Commitment anyCommit() { if (s.chance(1, 8)) return gen::commit(s); auto b = anyBlk(); auto& o = b->block.GetOutputs(); if (!b->block.GetInputs().empty() && s.chance(1, 3)) return b->block.GetInputs()[s.below(b->block.GetInputs().size())].GetCommitment(); return o[s.below(o.size())].GetCommitment(); }
    Blk* byCommit(const Commitment& k) { Blk* b = tip(); auto u = b->st->utxo.find(k); return u == b->st->utxo.end() ? nullptr : at(b, u->second.height); }
    Str up(Str x) { if (s.chance(1, 6)) for (auto& ch : x) ch = (char)toupper(ch); return x; }
    void header() {
        Blk* w = nullptr; Str id; int k = (int)s.below(3); Blk* cb = nullptr; u64 h = 0; Commitment cm(CBigInteger<33>{}); Hash ha; if (k == 0) { h = height(); id = std::to_string(h); w = at(cand(), h); cb = at(tip(), h); } else if (k == 1) { Blk* b = anyBlk(); ha = s.chance(1, 8) ? Hash(uniq(s)) : b->hdr->GetHash(); id = up(hx(ha)); if (ha == b->hdr->GetHash() && headers.count(b)) w = b; cb = w; } else { cm = anyCommit(); id = up(hx(cm.GetVec())); w = cb = byCommit(cm); }
        if (s.flip()) want(ask("/v1/headers/" + id, s.chance(1, 8) ? "x=1" : ""), "header " + id, w ? std::optional<J>(headerJ(*w->hdr)) : std::nullopt);
        else { J p(Json::arrayValue); p.append(k == 0 ? s.flip() ? U(h) : J(id) : J()); p.append(k == 1 ? J(id) : J()); p.append(k == 2 ? J(id) : J()); wantRpc(rpc("get_header", p), "get_header " + txt(p), cb ? std::optional<J>(headerJ(*cb->hdr)) : std::nullopt); }
    }
    Bytes uniq(Src& s) { static u64 k; Bytes b = s.bytes(32); k++; for (int i = 0; i < 8; i++) b[i] = (uint8_t)(k >> (8 * i)); return b; }
    void block() {
        Blk* w = nullptr; Str id; int k = (int)s.below(3); u64 h = 0; if (k == 0) { h = height(); id = std::to_string(h); w = at(tip(), h); } else if (k == 1) { Blk* b = anyBlk(); Hash ha = s.chance(1, 8) ? Hash(uniq(s)) : b->hdr->GetHash(); id = up(hx(ha)); if (ha == b->hdr->GetHash() && blocks.count(b)) w = b; } else { Commitment cm = anyCommit(); id = up(hx(cm.GetVec())); w = byCommit(cm); }
        bool may = w && (w->height == 0 || !on(tip(), w)); int how = (int)s.below(3);
        if (how == 0) want(ask("/v1/blocks/" + id), "block " + id, w ? std::optional<J>(blockJ(w, false)) : std::nullopt, may);
        else if (how == 1) { J p(Json::arrayValue); p.append(k == 0 ? s.flip() ? U(h) : J(id) : J()); p.append(k == 1 ? J(id) : J()); p.append(k == 2 ? J(id) : J()); wantRpc(rpc("get_block", p), "get_block " + txt(p), w ? std::optional<J>(blockJ(w, false)) : std::nullopt, may); }
        else { auto r = ask("/v1/blocks/" + id, "compact"); if (!w || (may && r.code >= 400)) { want(r, "compact block " + id, std::nullopt); return; } auto got = parseText(r.body); REQUIRE_MSG(r.code == 200 && got && got->isObject(), "compact block " << id << ": exists, but the answer is " << r.code << " " << shown(r.body)); size_t ids = 0; for (auto& x : w->block.GetKernels()) ids += !x.IsCoinbase(); J in = (*got)["inputs"]; std::set<Str> seen; if (in.isArray()) for (auto& x : in) { REQUIRE_MSG(x.isString() && x.asString().size() == 12 && x.asString().find_first_not_of("0123456789abcdef") == Str::npos, "compact block: a short id is " << txt(x)); seen.insert(x.asString()); } REQUIRE_MSG(seen.size() == ids, "compact block " << id << ": " << seen.size() << " short ids for " << ids << " kernels: " << shown(r.body)); (*got)["inputs"] = J(); mg::Reply r2 = r; r2.body = txt(*got); want(r2, "compact block " + id, blockJ(w, true)); }
    }
    void state() {
        Blk* b = tip(); auto tipJ = [&] { J j; j["height"] = U(b->height); j["last_block_pushed"] = hx(b->hdr->GetHash()); j["prev_block_to_last"] = hx(b->hdr->GetPreviousHash()); j["total_difficulty"] = U(b->work); return j; };
        switch (s.below(5)) {
        case 0: want(ask("/v1/chain"), "tip", tipJ()); break; case 1: wantRpc(rpc("get_tip", J(Json::arrayValue), s.flip()), "get_tip", tipJ()); break;
        case 2: { J j; j["output_root_hash"] = hx(b->hdr->GetOutputRoot()); j["range_proof_root_hash"] = hx(b->hdr->GetRangeProofRoot()); j["kernel_root_hash"] = hx(b->hdr->GetKernelRoot()); want(ask("/v1/txhashset/roots"), "roots", j); break; }
        case 3: { auto r = rpc("get_version", J(), false); REQUIRE_MSG(r && (*r)["node_version"].isString() && (*r)["node_version"].asString().compare(0, 6, "Grin++") == 0 && (*r)["block_header_version"] == U(cand()->hdr->GetVersion()).asInt(), "get_version"); break; }
        default: { static const std::pair<ESyncStatus, const char*> st[] = { { ESyncStatus::SYNCING_HEADERS, "SYNCING_HEADERS" }, { ESyncStatus::SYNCING_TXHASHSET, "DOWNLOADING_TXHASHSET" }, { ESyncStatus::PROCESSING_TXHASHSET, "PROCESSING_TXHASHSET" }, { ESyncStatus::TXHASHSET_SYNC_FAILED, "DOWNLOADING_TXHASHSET" }, { ESyncStatus::SYNCING_BLOCKS, "SYNCING_BLOCKS" }, { ESyncStatus::WAITING_FOR_PEERS, "NOT_CONNECTED" }, { ESyncStatus::NOT_SYNCING, "FULLY_SYNCED" } }; auto& x = st[s.below(7)]; auto& y = *p2p->sync; y.UpdateStatus(x.first); u64 nh = 1 + s.edgy64() / 2, nd = 1 + s.edgy64() / 2, dl = s.edgy64(), ds = s.edgy64(); uint8_t ps = (uint8_t)s.below(101); y.UpdateNetworkStatus(3, nh, nd); y.UpdateDownloaded(dl); y.UpdateDownloadSize(ds); y.UpdateProcessingStatus(ps);
            J j; j["protocol_version"] = U(P2P::PROTOCOL_VERSION); j["user_agent"] = P2P::USER_AGENT; j["sync_status"] = x.second; j["state"]["downloaded"] = U(dl); j["state"]["download_size"] = U(ds); j["state"]["processing_status"] = U(ps); j["network"]["height"] = U(nh); j["network"]["total_difficulty"] = U(nd); j["network"]["num_inbound"] = U(p2p->num.first); j["network"]["num_outbound"] = U(p2p->num.second); j["chain"]["height"] = U(b->height); j["chain"]["hash"] = hx(b->hdr->GetHash()); j["chain"]["previous_hash"] = hx(b->hdr->GetPreviousHash()); j["chain"]["total_difficulty"] = U(b->work); j["header_height"] = U(cand()->height); want(ask("/v1/status"), "status", j); } }
    }
    std::vector<Commitment> unspentAt(Blk* b) { std::vector<Commitment> v; auto& u = tip()->st->utxo; for (auto& o : b->block.GetOutputs()) { auto it = u.find(o.GetCommitment()); if (it != u.end() && it->second.height == b->height) v.push_back(o.GetCommitment()); } return v; }
    void outputs() {
        Blk* b = tip(); const State& st = *b->st; switch (s.below(4)) {
        case 0: { Str q; J j; std::vector<Commitment> v; size_t k = s.below(6); for (size_t i = 0; i < k; i++) v.push_back(i && s.chance(1, 8) ? v[0] : anyCommit()); if (s.chance(1, 8)) q = "x=" + std::to_string(s.below(9)); bool open = false; for (auto& x : v) { bool join = open && s.flip(); q += join ? "," : q.empty() ? "id=" : "&id="; q += up(hx(x.GetVec())); open = true; auto u = st.utxo.find(x); if (u != st.utxo.end()) { J o; o["commit"] = hx(x.GetVec()); o["height"] = U(u->second.height); o["mmr_index"] = U(posOf(u->second.leaf) + 1); j.append(o); } } want(ask("/v1/chain/outputs/byids", q), "outputs by ids", j); break; }
        case 1: { u64 lo = s.chance(1, 6) ? s.edgy64() : s.below(b->height + 3), hi = s.chance(1, 6) ? std::max(lo, s.edgy64()) : lo > UINT64_MAX - 9 ? lo : lo + s.below(9); J j; for (u64 h = lo; h <= hi && h <= b->height; h++) { Blk* x = at(b, h); if (!h) continue; J e; e["header"]["hash"] = hx(x->hdr->GetHash()); e["header"]["height"] = U(h); e["header"]["previous"] = hx(x->hdr->GetPreviousHash()); e["outputs"] = J(); for (auto& cm : unspentAt(x)) e["outputs"].append(dtoJ(st, cm)); j.append(e); }
            Str a = "start_height=" + std::to_string(lo), z = "end_height=" + std::to_string(hi); Str q = lo == hi && hi && s.flip() ? a : s.flip() ? a + "&" + z : z + "&" + a; if (!hi) q = s.flip() ? "" : a; want(dropGenesis(ask("/v1/chain/outputs/byheight", q)), "outputs by height", j); break; }
        case 2: { u64 from = s.chance(1, 5) ? s.edgy64() : s.below(st.outputs.leaves + 3), max = s.chance(1, 5) ? s.edgy64() : s.below(40); std::map<u64, Commitment> m; for (auto& u : st.utxo) if (u.second.leaf >= from) m.insert({ u.second.leaf, u.first }); J j, o; j["highest_index"] = U(st.outputs.leaves - 1); u64 last = 0, k = 0; for (auto& x : m) { if (k++ >= max) break; last = x.first; o.append(dtoJ(st, x.second)); } j["last_retrieved_index"] = U(last); j["outputs"] = o; Str a = "start_index=" + std::to_string(from), z = "max=" + std::to_string(max); want(ask("/v1/txhashset/outputs", s.flip() ? a + "&" + z : z + "&" + a), "outputs by index", j); break; }
        default: { u64 k = s.chance(1, 6) ? s.edgy64() : s.below(30); Str q = "n=" + std::to_string(k); if (s.chance(1, 5)) { q = ""; k = 10; } int w = (int)s.below(3); const Naive& m = w == 0 ? st.kernels : w == 1 ? st.outputs : st.proofs; std::set<u64> live; for (auto& u : st.utxo) live.insert(u.second.leaf); J j; u64 cnt = 0; for (u64 l = m.leaves; l-- > 0 && cnt < k;) if (w == 0 || live.count(l)) { cnt++; Str h = hx(m.nodes[posOf(l)]); if (w == 0) j.append(h); else { J o; o["hash"] = h; j.append(o); } } want(ask(Str("/v1/txhashset/last") + (w == 0 ? "kernels" : w == 1 ? "outputs" : "rangeproofs"), q), w == 0 ? "last kernels" : w == 1 ? "last outputs" : "last range proofs", j); } }
    }
    // the genesis block may or may not be among the blocks
    mg::Reply dropGenesis(mg::Reply r) { auto j = parseText(r.body); if (r.code == 200 && j && j->isArray() && !j->empty() && (*j)[0]["header"]["height"] == 0) { J o(Json::arrayValue); for (unsigned i = 1; i < j->size(); i++) o.append((*j)[i]); r.body = txt(o); } return r; }
    void peers() {
        int k = (int)s.below(4); if (k == 0) { J j; for (auto& x : p2p->v) j.append(peerJ(*x.p)); want(ask(s.pick<Str>({ "/v1/peers/all", "/v1/peers/" })), "all peers", j); return; }
        if (k == 1) { J j; for (auto& x : p2p->v) if (x.connected) { J o = peerJ(*x.p); o["direction"] = x.dir == EDirection::OUTBOUND ? "Outbound" : "Inbound"; o["total_difficulty"] = U(x.td); o["height"] = U(x.height); j.append(o); } want(ask("/v1/peers/connected"), "connected peers", j); return; }
        bool known = !p2p->v.empty() && s.chance(3, 4); IPAddress a = known ? p2p->v[s.below(p2p->v.size())].p->GetIPAddress() : IPAddress::CreateV4({ 250, 1, 2, (uint8_t)s.below(256) }); bool v4 = a.GetAddress().is_v4(); Str id = a.Format(); if (v4 && s.chance(1, 4)) id += ":" + std::to_string(s.below(65536)); size_t calls = p2p->calls.size();
        if (k == 2) { std::optional<J> j; if (auto q = p2p->GetPeer(a)) j = peerJ(**q); auto r = ask("/v1/peers/" + id); auto got = parseText(r.body); if (r.code == 200 && got && got->isArray() && got->size() == 1) { r.body = txt((*got)[0]); } want(r, "peer " + id, j); REQUIRE(p2p->calls.size() == calls); return; }
        Str cmd = s.pick<Str>({ "ban", "unban", "ban", "unban", "bann", "Ban", "ban/", "" }); bool post = s.chance(3, 4); bool ok = post && (cmd == "ban" || cmd == "unban"); time_t before = time(nullptr); auto r = ask("/v1/peers/" + id + "/" + cmd, "", post ? "POST" : s.pick<Str>({ "GET", "PUT", "DELETE" })); std::vector<Str> now(p2p->calls.begin() + calls, p2p->calls.end());
        if (!ok) { REQUIRE_MSG(now.empty(), "a peer command that is none calls " << now[0]); if (cmd != "") REQUIRE_MSG(r.code >= 400, "a peer command that is none is answered with " << r.code); return; } REQUIRE_MSG(r.code == 200, cmd << " " << id << " is answered with " << r.code << " " << shown(r.body)); Str w = cmd + " " + a.Format() + (cmd == "ban" ? " 5" : ""); REQUIRE_MSG(now.size() == 1 && now[0] == w, cmd << " " << id << " makes the calls " << now.size() << " " << (now.empty() ? "" : now[0])); (void)before;
    }
    // ---- transactions
    bool inPool(const TransactionPtr& x) { for (auto& y : n.pool->FindTransactionsByKernel(kernels)) if (y->GetHash() == x->GetHash()) return true; return false; }
    void push(INodeClient* client = nullptr) {
        Blk* b = tip(); auto av = t.spendable(b); std::set<Commitment> used; for (auto& x : ever) for (auto& i : x->GetInputs()) used.insert(i.GetCommitment()); std::vector<fab::Coin> f; for (auto& x : av) if (!used.count(x.commit) && x.amount > 200000000) f.push_back(x); if (f.empty()) return; int kind = (int)s.weighted({ 5, 2, 2, 2, 2 }); TransactionPtr x; bool ok = false; auto fresh = [&](u64 a) { return fab::coin(a, 900000 + t.serial++); }; auto& k = f[s.below(f.size())]; auto feat = b->st->utxo.at(k.commit).f; static const char* nm[] = { "new", "pooled", "cheap", "spent", "unbalanced" };
        if (kind == 0) { std::vector<fab::Coin> made; std::vector<fab::Coin> all = f; if (s.flip()) { x = t.randomTx(s, b, all, made, 60000000); for (auto& o : x->GetOutputs()) if (b->st->utxo.count(o.GetCommitment())) return; u64 lock = 0; for (auto& q : x->GetKernels()) if (q.GetFeatures() == EKernelFeatures::HEIGHT_LOCKED) lock = q.GetLockHeight(); ok = lock <= b->height + 1; for (auto& e : ever) for (auto& o : e->GetOutputs()) for (auto& p : x->GetOutputs()) if (o.GetCommitment() == p.GetCommitment()) return; } else { bool locked = s.flip(); u64 lock = b->height + s.below(4); x = bad::simpleTx(t, { k }, { feat }, { fresh(k.amount - 60000000) }, 60000000, locked ? EKernelFeatures::HEIGHT_LOCKED : EKernelFeatures::DEFAULT_KERNEL, locked ? lock : 0); ok = !locked || lock <= b->height + 1; } }
        else if (kind == 1) { std::vector<TransactionPtr> v; for (auto& e : ever) if (inPool(e)) v.push_back(e); if (v.empty()) return; x = v[s.below(v.size())]; } else if (kind == 2) x = bad::simpleTx(t, { k }, { feat }, { fresh(k.amount - 10) }, 10); else if (kind == 3) { std::vector<fab::Coin> v; for (auto& w : b->spent) if (!b->st->utxo.count(w.first) && w.second.amount > 100000000) v.push_back(w.second); if (v.empty()) return; auto& z = v[s.below(v.size())]; x = bad::simpleTx(t, { z }, {}, { fresh(z.amount - 60000000) }, 60000000); } else x = bad::simpleTx(t, { k }, { feat }, { fresh(k.amount - 60000000 + 1 + s.below(50)) }, 60000000);
        for (auto& q : x->GetKernels()) kernels.insert(q); bool fluff = s.flip(), had = inPool(x); size_t sent = p2p->sent.size(); bool got; if (client) { try { got = client->PostTransaction(x, fluff ? EPoolType::MEMPOOL : EPoolType::STEMPOOL); } catch (const std::exception&) { got = false; } } else { J p(Json::arrayValue); p.append(x->ToJSON()); if (fluff || s.flip()) p.append(fluff); got = (bool)rpc("push_transaction", p); } c.log << " (" << nm[kind] << (fluff ? " fluff " : " stem ") << got << ")"; c.label(Str("push ") + nm[kind]);
        REQUIRE_MSG(got == ok, "a transaction (" << nm[kind] << ") to be " << (fluff ? "fluffed" : "stemmed") << " is " << (got ? "taken" : "refused")); REQUIRE_MSG(inPool(x) == (had || (got && fluff)), "a transaction (" << nm[kind] << ") pushed with fluff " << fluff << ", answered with " << got << ", is " << (inPool(x) ? "" : "not ") << "in the pool"); bool out = p2p->sent.size() > sent; REQUIRE_MSG(out == (got && fluff) && p2p->sent.size() <= sent + 1, "a transaction (" << nm[kind] << ") pushed with fluff " << fluff << ", answered with " << got << ", is " << (out ? "" : "not ") << "broadcast"); if (out) REQUIRE(p2p->sent.back() == x->GetHash()); if (got) ever.push_back(x); else refused++;
    }
    // ---- the chain moves
    void grow() {
        Blk* b = tip(); int k = (int)s.weighted({ 5, 2, 2 }); if (k == 0) { Blk* x = t.randomBlock(s, b, b == cand() ? 1 : cand()->work - b->work + 1); REQUIRE_MSG(n.add(x->block) == (int)EBlockChainStatus::SUCCESS, "valid block refused"); headers.insert(x); blocks.insert(x); c.log << "; block"; }
        else if (k == 1) { Blk* p = b; for (size_t i = 1 + s.size(3); i-- && p->height > 27;) p = p->parent; size_t len = 1 + s.size(3); Blk* x = p; c.log << "; fork from " << p->height; u64 lead = std::max(b->work, cand()->work) - p->work; bool heavy = s.chance(3, 4); for (size_t i = 0; i < len; i++) { x = t.randomBlock(s, x, heavy && i + 1 == len ? lead + 1 : 1); n.add(x->block); headers.insert(x); blocks.insert(x); if (x->work > b->work) break; } n.settle(); if (heavy) REQUIRE_MSG(tip() == x, "the heavier chain is not followed"); c.label("fork"); }
        else { Blk* p = s.flip() ? cand() : b; Blk* x = t.randomBlock(s, p, 1 + s.below(3)); REQUIRE_MSG(n.addHeader(x->hdr) == (int)EBlockChainStatus::SUCCESS, "valid header refused"); headers.insert(x); c.log << "; header"; c.label("header only"); }
        for (auto it = ever.begin(); it != ever.end();) { bool clash = false; for (auto& i : (*it)->GetInputs()) clash |= !tip()->st->utxo.count(i.GetCommitment()); for (auto& o : (*it)->GetOutputs()) clash |= tip()->st->utxo.count(o.GetCommitment()) > 0; it = clash ? ever.erase(it) : it + 1; }
    }
    void client(INodeClient& k, bool remote) {
        Blk* b = tip(); const State& st = *b->st; switch (s.below(6)) {
        case 0: REQUIRE_EQ(k.GetChainHeight(), b->height); break; case 1: { auto h = k.GetTipHeader(); REQUIRE_MSG(h && gen::ser(*h, EProtocolVersion::V1) == gen::ser(*b->hdr, EProtocolVersion::V1), "GetTipHeader"); break; }
        case 2: { u64 h = height(); Blk* w = at(b, h); BlockHeaderPtr r; try { r = k.GetBlockHeader(h); } catch (const std::exception&) { REQUIRE_MSG(remote && !w, "GetBlockHeader(" << h << ") throws"); } c.log << "; client header " << h; REQUIRE_MSG(!w == !r, "GetBlockHeader(" << h << ") gives " << (r ? "a" : "no") << " header"); if (r) REQUIRE_MSG(gen::ser(*r, EProtocolVersion::V1) == gen::ser(*w->hdr, EProtocolVersion::V1), "GetBlockHeader(" << h << ") gives another header"); break; }
        case 3: { std::vector<Commitment> v; for (size_t i = s.below(6); i--;) v.push_back(anyCommit()); std::map<Commitment, std::pair<u64, u64>> w, r; for (auto& x : v) { auto u = st.utxo.find(x); if (u != st.utxo.end()) w[x] = { u->second.leaf, u->second.height }; } c.log << "; client outputs " << v.size(); for (auto& x : k.GetOutputsByCommitment(v)) r[x.first] = { x.second.GetLeafIndex().Get(), x.second.GetBlockHeight() }; REQUIRE_MSG(w == r, "GetOutputsByCommitment gives " << r.size() << " locations instead of " << w.size() << ", or other ones"); break; }
        case 4: { if (remote) break; u64 lo = s.chance(1, 6) ? s.edgy64() : s.below(b->height + 4), hi = s.chance(1, 6) ? s.edgy64() : lo + s.below(9); c.log << "; client blocks " << lo << "-" << hi; auto r = k.GetBlockOutputs(lo, hi); size_t i = 0; if (!r.empty() && !r[0].GetBlockIdentifier().GetHeight()) i = 1; for (u64 h = std::max<u64>(lo, 1); h <= hi && h <= b->height; h++, i++) { Blk* x = at(b, h); REQUIRE_MSG(i < r.size() && r[i].GetBlockIdentifier().GetHash() == x->hdr->GetHash() && r[i].GetBlockIdentifier().GetHeight() == h && r[i].GetBlockIdentifier().GetPreviousHash() == x->hdr->GetPreviousHash(), "GetBlockOutputs(" << lo << ", " << hi << ") lacks the block of height " << h); J w, o; for (auto& cm : unspentAt(x)) w.append(dtoJ(st, cm)); for (auto& q : r[i].GetOutputs()) o.append(q.ToJSON()); REQUIRE_MSG(flat(w) == flat(o), "GetBlockOutputs: other outputs at height " << h << ": " << shown(flat(o)) << " instead of " << shown(flat(w))); } REQUIRE_MSG(i == r.size(), "GetBlockOutputs gives more blocks than there are"); break; }
        default: { u64 page = 1 + s.below(60), from = 0; std::vector<u64> got; std::map<u64, Commitment> w; for (auto& u : st.utxo) w.insert({ u.second.leaf, u.first }); u64 start = s.chance(1, 2) ? 0 : s.below(st.outputs.leaves + 3); c.log << "; client pages of " << page; if (!remote) from = start; else start = 0;
            for (int i = 0; i < 400; i++) { auto r = k.GetOutputsByLeafIndex(from, page); REQUIRE(r != nullptr); REQUIRE_MSG(r->GetOutputs().size() <= page, "more outputs than asked for"); for (auto& o : r->GetOutputs()) { u64 l = o.GetLeafIndex().Get(); auto x = w.find(l); REQUIRE_MSG(x != w.end() && flat(o.ToJSON()) == flat(dtoJ(st, x->second)), "GetOutputsByLeafIndex gives an output that is not the unspent one there"); got.push_back(l); } if (!remote) REQUIRE_EQ(r->GetHighestIndex(), st.outputs.leaves - 1); if (r->GetOutputs().empty() || r->GetLastRetrievedIndex() >= r->GetHighestIndex()) break; from = r->GetLastRetrievedIndex() + 1; }
            std::vector<u64> all; for (auto& x : w) if (x.first >= start) all.push_back(x.first); REQUIRE_MSG(all == got, "pages of outputs give " << got.size() << " of " << all.size() << " unspent outputs"); } }
    }
    // everything is asked for again, and taken again
    void resync() {
        Blk* b = tip(); auto r = ask("/v1/resync", "", "POST"); REQUIRE_MSG(r.code == 200, "resync is answered with " << r.code); REQUIRE_MSG(tip() == t.genesis(), "after a resync the tip is at height " << tip()->height); for (auto& x : p2p->v) REQUIRE_MSG(!x.p->IsBanned(), "a peer is still banned after a resync"); blocks.clear(); blocks.insert(t.genesis()); state(); outputs(); std::vector<Blk*> v; for (Blk* x = b; x->parent; x = x->parent) v.push_back(x); std::reverse(v.begin(), v.end());
        c.label("resync"); for (auto x : v) { int st = n.add(x->block); REQUIRE_MSG(st == (int)EBlockChainStatus::SUCCESS, "after a resync the block at height " << x->height << " is refused: " << st); blocks.insert(x); } n.settle(); REQUIRE_MSG(tip() == b, "after a resync the chain doesn't come back"); chain::compare(n, t, b, true);
    }
    // ---- hostile requests
    Str mangle(Str x) { for (size_t k = 1 + s.size(3); k--;) switch (s.below(6)) { case 0: if (!x.empty()) x.erase(s.below(x.size()), 1 + s.below(8)); break; case 1: x.insert(s.below(x.size() + 1), s.pick<Str>({ "=", "&", "/", "?", "%00", "..", ",", "-", ":", "\xff", "0x", " ", "99999999999999999999", "id=", "n=", "{}" })); break; case 2: if (!x.empty()) x[s.below(x.size())] = (char)(1 + s.below(255)); break; case 3: x += x.substr(x.size() > 20 ? x.size() - 20 : 0); break; case 4: x = x.substr(0, s.below(x.size() + 1)); break; default: x += s.text("0123456789abcdefg=&/,x-", 12); } return x; }
    void hostile() {
        static const std::vector<Str> uris = { "/v1/status", "/v1/headers/", "/v1/blocks/", "/v1/chain", "/v1/chain/outputs/byids", "/v1/chain/outputs/byheight", "/v1/peers/all", "/v1/peers/connected", "/v1/peers/", "/v1/txhashset/roots", "/v1/txhashset/lastkernels", "/v1/txhashset/lastoutputs", "/v1/txhashset/lastrangeproofs", "/v1/txhashset/outputs", "/v1/", "/v2/foreign" }; Str u = s.pick<Str>(uris), q, body, m = s.pick<Str>({ "GET", "GET", "GET", "POST", "PUT", "DELETE", "OPTIONS", "HEAD", "PATCH" });
        auto num = [&] { return s.pick<Str>({ std::to_string(s.edgy64()), "", "-1", "x", "1e9", "18446744073709551616", "0", "+5", " 3", "0x1f", "99999999999999999999999" }); }; Commitment cm = anyCommit();
        if (u.back() == '/') u += s.pick<Str>({ "", num(), hx(cm.GetVec()), hx(tip()->hdr->GetHash()), "1.2.3.4", "1.2.3.4/ban", "::1", "1.2.3.4:x/unban", "/", "256.1.1.1/ban", hx(cm.GetVec()).substr(1), Str(64, 'g'), Str(66, 'z'), Str(5000, '1') }); if (s.flip()) q = s.pick<Str>({ "n=" + num(), "start_index=" + num() + "&max=" + num(), "start_height=" + num() + "&end_height=" + num(), "id=" + hx(cm.GetVec()) + "," + num(), "compact", "compact=1", "id=" + Str(66, 'z'), "n", "=", "&&&", "max==5", "id=a=b" }); if (s.flip()) q = mangle(q); if (s.chance(1, 3)) { u = "/v1/" + mangle(u.substr(4)); } if (u.compare(0, 12, "/v1/shutdown") == 0 || u.compare(0, 10, "/v1/resync") == 0) return;
        if (u == "/v2/foreign" || s.chance(1, 8)) { u = "/v2/foreign"; m = s.chance(1, 6) ? m : "POST"; J j; j["jsonrpc"] = "2.0"; j["id"] = s.pick<J>({ J(1), J("a"), J(), J(Json::objectValue) }); j["method"] = s.pick<Str>({ "get_header", "get_block", "get_tip", "get_version", "push_transaction", "x" }); J p(Json::arrayValue); for (size_t k = s.below(5); k--;) p.append(s.pick<J>({ J(), J(5), J(-1), J(1.5), J("5"), J("x"), J(true), J(hx(cm.GetVec())), J(hx(tip()->hdr->GetHash())), J(Json::objectValue), J(Json::arrayValue), U(s.edgy64()) })); if (s.chance(1, 4) && !ever.empty()) { p = J(Json::arrayValue); p.append(ever[s.below(ever.size())]->ToJSON()); auto names = p[0].getMemberNames(); p[0][names[s.below(names.size())]] = s.pick<J>({ J(), J(5), J("x"), J(Json::arrayValue), J(Json::objectValue) }); } j["params"] = s.chance(1, 6) ? s.pick<J>({ J(), J(5), J("x"), J(Json::objectValue), J(true) }) : p; body = txt(j); if (s.chance(1, 3)) body = mangle(body); }
        size_t calls = p2p->calls.size(), sent = p2p->sent.size(); Hash h = n.tip(); auto r = ask(u, q, m, body, s.chance(1, 10)); REQUIRE_MSG(r.handled, "nobody answers " << shown(u)); if (u == "/v2/foreign") { auto a = parseText(r.body); REQUIRE_MSG(r.code == 200 && a && a->isObject() && (*a)["jsonrpc"] == "2.0" && a->isMember("id") && a->isMember("result") != a->isMember("error"), "no JSON-RPC answer: " << shown(r.body)); } if (r.code == 200 && !r.body.empty()) REQUIRE_MSG(parseText(r.body), "the answer is not JSON: " << shown(r.body)); REQUIRE(n.tip() == h && p2p->sent.size() == sent); if (m != "POST") REQUIRE_MSG(p2p->calls.size() == calls, "a " << m << " request makes the node " << p2p->calls.back()); c.label("hostile " + std::to_string(r.code));
    }
};
static void queries(Ctx& c) {
    auto& s = c.src; World w(c); DefaultNodeClient local(w.n.db, w.n.txhs->Write().GetShared(), w.n.pool, w.n.bc, w.p2p); size_t steps = 6 + s.size(30);
    while (steps--) switch (s.weighted({ 3, 3, 4, 2, 4, 2, 2, 4, 3 })) { case 0: w.grow(); break; case 1: w.header(); break; case 2: w.block(); break; case 3: w.state(); break; case 4: w.outputs(); break; case 5: w.peers(); break; case 6: w.push(s.flip() ? nullptr : &local); break; case 7: w.hostile(); break; default: w.client(local, false); }
    if (s.chance(1, 6)) w.resync(); c.nontrivial(w.found > 1);
}
// ---- the remote client, over a real connection
struct Bridge {
    World& w; int fd; uint16_t port; bool rust, spentToo; std::atomic<bool> stop{ false }; Str wrong; std::thread th;
    Bridge(World& w) : w(w), rust(w.s.flip()), spentToo(w.s.flip()) { fd = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); REQUIRE(bind(fd, (sockaddr*)&a, sizeof a) == 0 && listen(fd, 8) == 0); socklen_t l = sizeof a; getsockname(fd, (sockaddr*)&a, &l); port = ntohs(a.sin_port); th = std::thread([this] { while (!stop) { pollfd p{ fd, POLLIN, 0 }; if (poll(&p, 1, 20) <= 0) continue; int k = accept(fd, nullptr, nullptr); if (k < 0) continue; serve(k); close(k); } }); }
    ~Bridge() { stop = true; th.join(); close(fd); }
    static Str readRequest(int fd) { Str t; char b[4096]; size_t need = Str::npos; for (;;) { pollfd p{ fd, POLLIN, 0 }; if (poll(&p, 1, 3000) <= 0) return t; ssize_t n = read(fd, b, sizeof b); if (n <= 0) return t; t.append(b, n); size_t e = t.find("\r\n\r\n"); if (e != t.npos && need == t.npos) { size_t l = t.find("Content-Length: "); need = e + 4 + (l != t.npos && l < e ? strtoull(t.c_str() + l + 16, nullptr, 10) : 0); } if (t.size() >= need) return t; } }
    void serve(int k) {
        Str q = readRequest(k), out; size_t e = q.find("\r\n\r\n"), sp = q.find(' '); if (e == q.npos || q.compare(0, 5, "POST ")) { wrong = "not a POST request: " + shown(q); return; } Str uri = q.substr(5, q.find(' ', 5) - 5); (void)sp; Str body = q.substr(e + 4); auto j = parseText(body); if (uri != "/v2/foreign" || !j || !j->isObject() || (*j)["jsonrpc"] != "2.0" || (*j)["id"].isNull()) { wrong = "no JSON-RPC request to /v2/foreign: " + shown(q); return; }
        Str m = (*j)["method"].asString(); J p = (*j)["params"], ok; bool mine = false; Blk* b = w.tip(); const State& st = *b->st;
        try { if (m == "get_outputs") { mine = true; ok = J(Json::arrayValue); if (!p.isArray() || p.size() < 1 || (!p[0].isArray() && !p[0].isNull())) { wrong = "get_outputs with " + txt(p); return; } for (auto& x : p[0]) { Commitment cm(CBigInteger<33>::FromHex(x.asString())); auto u = st.utxo.find(cm); if (u != st.utxo.end()) ok.append(dtoJ(st, cm)); else if (spentToo) { J o; o["output_type"] = "Transaction"; o["commit"] = x; o["spent"] = true; o["proof"] = J(); o["proof_hash"] = ""; o["block_height"] = J(); o["merkle_proof"] = J(); o["mmr_index"] = 0; ok.append(o); } } }
            else if (m == "get_unspent_outputs") { mine = true; u64 from = p[0].asUInt64(), max = p[2].asUInt64(), last = 0, cnt = 0; J o(Json::arrayValue); std::map<u64, Commitment> v; for (auto& u : st.utxo) v.insert({ u.second.leaf, u.first }); bool pos = rust; for (auto& x : v) { u64 i = pos ? posOf(x.first) + 1 : x.first; if (i < from) continue; if (cnt++ >= max) break; last = i; o.append(dtoJ(st, x.second)); } ok["highest_index"] = U(pos ? st.outputs.size() : st.outputs.leaves - 1); ok["last_retrieved_index"] = U(last); ok["outputs"] = o; if (!p[3].asBool()) wrong = "get_unspent_outputs without proofs"; }
            else if (m == "get_version" && rust) { mine = true; ok["node_version"] = "5.0.4"; ok["block_header_version"] = 5; }
            Str text; if (mine) { J r; r["jsonrpc"] = "2.0"; r["id"] = (*j)["id"]; r["result"]["Ok"] = ok; text = txt(r); out = "HTTP/1.1 200 OK\r\nContent-Length: " + std::to_string(text.size()) + "\r\n\r\n" + text; }
            else { mg_connection mc; mc.uri = uri; mc.body = body; mg::Reply r = mg::ask(w.ctx, mc); if (!r.handled) { wrong = "nobody answers " + shown(q); return; } out = mc.out; if (rust) { auto a = parseText(r.body); if (a && a->isMember("error")) { J v; v["jsonrpc"] = "2.0"; v["id"] = (*a)["id"]; v["result"]["Err"]["Internal"] = (*a)["error"]["message"]; text = txt(v); out = "HTTP/1.1 200 OK\r\nContent-Length: " + std::to_string(text.size()) + "\r\n\r\n" + text; } } }
        } catch (const std::exception& x) { wrong = Str("the request ") + shown(q) + " fails: " + x.what(); return; }
        size_t at = 0; while (at < out.size()) { ssize_t n = ::send(k, out.data() + at, out.size() - at, MSG_NOSIGNAL); if (n <= 0) break; at += n; }
    }
};
static void remote(Ctx& c) {
    auto& s = c.src; World w(c); Bridge b(w); auto k = RPCNodeClient::Create("127.0.0.1", b.port); size_t steps = 4 + s.size(12); c.log << (b.rust ? "rust node" : "Grin++ node");
    while (steps--) { switch (s.weighted({ 2, 2, 6 })) { case 0: w.grow(); break; case 1: w.push(k.get()); break; default: w.client(*k, true); } REQUIRE_MSG(b.wrong.empty(), b.wrong); }
    c.nontrivial(true);
}
void pbt::setup(Check& c) {
    c.id = "C42"; c.rule = "non-trivial: at least two queries for something that exists, or a conversation of the remote client"; c.workerInit = init; c.quickCases = 1500; c.thoroughCases = 40000; c.quickCap = 25; c.quickMin = 100;
    c.parts = { { "queries", 4, queries }, { "remote", 1, remote } };
    c.assumptions = { "network AUTOMATED_TESTING", "requests reach the handlers through a stand-in for civetweb, peers are a list kept by the check", "the genesis block need not be among the blocks" };
}
