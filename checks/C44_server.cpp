// C44: a running node serves its peers, passes on what is valid, turns away what is not, and outlives all of them
#include "p2pnode.h"
#include "badblock.h"
#include "badheader.h"
using namespace net; namespace MT = MessageTypes;
static std::vector<std::unique_ptr<Blk>> ext; static const int EXT = 280;   // headers beyond the last full block
struct Run { Server sv; Net net; std::vector<Wire*> honest; Blk *tip, *cand; Hash genesis; int hostile = 0, blockedNo = 0; bool twoHeads = false, dirty = false; std::map<Hash, Blk*> offer; std::set<std::string> banned;
    // what the node asks for
    bool on(Wire& w, int type, const Bytes& b) {
        ByteBuffer bb(b, ProtocolVersion::ToEnum(w.ver)); switch (type) {
        case MT::Ping: w.msg(PongMessage(w.td, w.height)); return true; case MT::GetPeerAddrs: w.msg(PeerAddressesMessage(std::vector<SocketAddress>{})); return true; case MT::GetHeaders: w.msg(HeadersMessage(locate(w.tip ? w.tip : tip, GetHeadersMessage::Deserialize(bb).GetHashes()))); return true;
        case MT::Header: w.heads.push_back(HeaderMessage::Deserialize(bb).GetHeader()->GetHash()); return true; case MT::TransactionKernelMsg: w.kernels.push_back(TransactionKernelMessage::Deserialize(bb).GetKernelHash()); return true;
        case MT::GetCompactBlock: { w.asked++; auto i = offer.find(GetCompactBlockMessage::Deserialize(bb).GetHash()); if (i != offer.end()) w.msg(CompactBlockMessage(CompactBlockFactory::CreateCompactBlock(i->second->block))); return true; }
        case MT::GetBlock: { w.asked++; auto h = GetBlockMessage::Deserialize(bb).GetHash(); auto i = offer.find(h); if (i != offer.end()) w.send(MT::Block, blockBody(i->second->block, w.ver)); return true; }
        case MT::GetTransactionMsg: { auto i = w.txs.find(GetTransactionMessage::Deserialize(bb).GetKernelHash()); w.asked++; if (i != w.txs.end()) w.msg(TransactionMessage(i->second)); return true; }
        default: return false; } }
    void fence(Wire& w, const std::string& what) { w.td = tip->work; w.height = tip->height; net.fence(w, tip->work, tip->height, what); }
    Wire& join(const std::string& ip, uint32_t ver, u64 nonce = 77, const std::string& agent = "check") { Wire* w = nullptr; w = net.fresh(); need(w->dial(ip), "cannot connect from " + ip); w->td = tip->work; w->height = tip->height; need(net.shake(*w, ver, tip->work, nonce, agent, genesis), "the handshake of " + ip + " (version " + std::to_string(ver) + ") is not answered"); return *w; }
    std::string hostileIp() { hostile++; return "127.9." + std::to_string(hostile / 200) + "." + std::to_string(1 + hostile % 200); }
    void mustClose(Wire& w, const std::string& why) { net.until([&] { return w.closed; }); need(w.closed, "the connection stays open after " + why); w.drop(); }
    // no connection of this address is served any more, and no new one is answered
    void mustBan(Wire& w, const std::string& why) { mustClose(w, why); Wire& r = *net.fresh(); need(r.dial(w.ip), "dial"); bool ok = net.shake(r, 1000, tip->work, 5, "again", genesis); need(!ok, w.ip + " is welcome again right after " + why); r.drop(); banned.insert(w.ip); }
    // what a hostile peer claimed about its chain is forgotten once it is gone
    void settle() { if (!dirty) return; dirty = false; double since = mono(); auto st = sv.p2p->GetSyncStatus(); need(net.until([&] { if (st->IsSyncing() || st->GetNetworkHeight() > tip->height + 4 || st->GetNetworkHeight() == 0) since = mono(); return mono() - since > 0.08; }), "the node does not come back from its synchronisation after the peer is gone"); }
    bool waitTip(Blk* b) { return net.until([&] { return sv.n.tip() == b->hdr->GetHash(); }); }
};
typedef std::function<void(Run&)> Op;
// inputs may lose their features on a branch (known finding v2-input-features): coinbase outputs stay out of the other cases
static std::vector<fab::Coin> plain(Blk* b, const std::vector<fab::Coin>& v, const std::set<Commitment>& used) { std::vector<fab::Coin> r; for (auto& x : v) { auto i = b->st->utxo.find(x.commit); if (!used.count(x.commit) && (i == b->st->utxo.end() || i->second.f != EOutputFeatures::COINBASE_OUTPUT)) r.push_back(x); } return r; }
static Bytes truncated(Src& s, const p2pm::Msg& m, uint32_t ver) { Enc e; m.gen(s, ProtocolVersion::ToEnum(ver), e); Bytes b = e.b; if (!b.empty()) b.resize(s.below(b.size())); return b; }
static void serve(Ctx& c) {
    auto& s = c.src; CaseTree ct; Tree& t = g->tree; std::vector<Op> ops; std::vector<std::unique_ptr<Blk>> keep; Global::SetCoinView(nullptr); bool far = s.chance(1, 3); Blk* tip = g->spine.back(); std::vector<Blk*> all(g->spine.begin(), g->spine.end()); size_t nh = 1 + s.size(2); std::vector<uint32_t> vers; for (size_t i = 0; i < nh; i++) vers.push_back(s.pick<uint32_t>({ 1000, 3, 2, 1, 999, 4000000000u })); std::vector<std::pair<TransactionPtr, bool>> pool; std::set<Commitment> used; auto ext0 = ext.empty() ? nullptr : ext.back().get();
    c.log << nh << " peers" << (far ? ", headers ahead of the blocks" : ""); size_t n = 3 + s.size(9); bool bad = false, work = false; auto mark = [&](const std::string& m) { c.log << "; " << m; return m; };
    for (size_t q = 0; q < n; q++) {
        int k = (int)s.weighted({ 3, 3, 2, 1, 4, 3, 2, 3, 10, 2, 1, 1, 2 }); size_t wi = s.below(nh);
        if (k == 0) { // headers after a locator, several requests at once
            size_t m = 1 + s.size(far ? 8 : 3); std::vector<std::vector<Hash>> locs; for (size_t i = 0; i < m; i++) { std::vector<Hash> l; size_t e = 1 + s.size(4); for (size_t j = 0; j < e; j++) { int z = (int)s.below(4); if (z == 0) l.push_back(Hash(s.bytes(32))); else if (z == 1 && far) l.push_back(ext[s.below(ext.size())]->hdr->GetHash()); else l.push_back(g->spine[s.below(LEN + 1)]->hdr->GetHash()); } locs.push_back(l); }
            auto what = mark(std::to_string(m) + " header requests at once"); ops.push_back([=](Run& r) { say(what); Wire& w = *r.honest[wi]; for (auto& l : locs) { w.msg(GetHeadersMessage(std::vector<Hash>(l))); } w.td = r.tip->work; w.height = r.tip->height; r.net.ping(w); Blk* from = far ? r.cand : r.tip; usleep(far ? 20000 : 0); for (auto& l : locs) { auto m = r.net.reply(w, "headers"); need(m.first == MT::Headers, "message of type " + std::to_string(m.first) + " instead of headers"); auto want = headersBody(locate(from, l)); need(r.twoHeads || m.second == want, "the answer to a request for headers is not the one of the chain (" + std::to_string(m.second.size()) + " bytes, expected " + std::to_string(want.size()) + ")"); } auto m = r.net.reply(w, "ping after headers"); need(m.first == MT::Pong, "answers out of order"); });
        } else if (k == 1) { size_t m = 1 + s.size(12); std::vector<Blk*> v; for (size_t i = 0; i < m; i++) v.push_back(s.chance(1, 8) ? nullptr : all[1 + s.below(all.size() - 1)]); Hash unknown(s.bytes(32));
            auto what = mark(std::to_string(m) + " block requests"); ops.push_back([=](Run& r) { say(what); Wire& w = *r.honest[wi]; for (auto b : v) w.msg(GetBlockMessage(b ? b->hdr->GetHash() : Hash(unknown))); for (auto b : v) { if (!b) continue; auto m = r.net.reply(w, "block"); need(m.first == MT::Block, "message of type " + std::to_string(m.first) + " instead of a block"); need(m.second == blockBody(b->block, w.ver), "the block of height " + std::to_string(b->height) + " is sent in another form at version " + std::to_string(w.ver)); } r.fence(w, "after blocks"); });
        } else if (k == 2) { Blk* b = all[1 + s.below(all.size() - 1)]; bool addrs = s.flip(); auto what = mark(addrs ? "compact block and addresses" : "compact block"); ops.push_back([=](Run& r) { say(what); Wire& w = *r.honest[wi]; w.msg(GetCompactBlockMessage(b->hdr->GetHash())); auto m = r.net.reply(w, "compact block"); need(m.first == MT::CompactBlockMsg, "no compact block"); ByteBuffer bb(m.second, ProtocolVersion::ToEnum(w.ver)); auto cb = CompactBlock::Deserialize(bb); need(cb.GetHash() == b->hdr->GetHash() && bb.GetRemainingSize() == 0, "another compact block"); size_t o = 0, kn = 0; for (auto& x : b->block.GetOutputs()) o += x.IsCoinbase(); for (auto& x : b->block.GetKernels()) kn += x.IsCoinbase(); need(cb.GetOutputs().size() == o && cb.GetKernels().size() == kn && cb.GetShortIds().size() == b->block.GetKernels().size() - kn, "the compact block does not describe the block"); if (addrs) { w.msg(GetPeerAddressesMessage(Capabilities(Capabilities::UNKNOWN))); auto a = r.net.reply(w, "addresses"); need(a.first == MT::PeerAddrs, "no addresses"); } r.fence(w, "after a compact block"); });
        } else if (k == 3) { auto what = mark("a ping byte by byte"); std::vector<size_t> cut; for (int i = 0; i < 4; i++) cut.push_back(1 + s.below(6)); ops.push_back([=](Run& r) { say(what); Wire& w = *r.honest[wi]; auto f = PingMessage(r.tip->work, r.tip->height).Serialize(EProtocolVersion::V1); size_t at = 0, i = 0; while (at < f.size()) { size_t k = std::min(f.size() - at, cut[i++ % cut.size()]); w.put(Bytes(f.begin() + (long)at, f.begin() + (long)(at + k))); at += k; r.net.pump(1); } auto m = r.net.reply(w, "pong"); need(m.first == MT::Pong, "no pong"); });
        } else if (k == 4) { // a new block: announced, handed over in full, or as a compact one
            size_t maxTx = s.chance(2, 3) ? 2 : 0; auto av = t.spendable(tip); std::vector<fab::Coin> a2 = plain(tip, av, used), made; std::vector<TransactionPtr> txs; size_t m = s.size(maxTx); for (size_t i = 0; i < m && !a2.empty(); i++) txs.push_back(t.randomTx(s, tip, a2, made)); Blk* b = t.make(tip, txs, 1 + s.below(3), made); tip = b; all.push_back(b); int how = (int)s.below(3); work = true; auto what = mark(std::string(how == 0 ? "header of " : how == 1 ? "" : "compact form of ") + "a new block with " + std::to_string(txs.size()) + " transactions");
            ops.push_back([=](Run& r) { say(what); Wire& w = *r.honest[wi]; r.offer[b->hdr->GetHash()] = b; w.td = b->work; w.height = b->height; if (how == 0) w.msg(HeaderMessage(b->hdr)); else if (how == 1) w.send(MT::Block, blockBody(b->block, w.ver)); else w.msg(CompactBlockMessage(CompactBlockFactory::CreateCompactBlock(b->block))); need(r.waitTip(b), "the block of height " + std::to_string(b->height) + " is not adopted"); r.tip = b; r.fence(w, "after a new block"); for (auto o : r.honest) if (o != &w) { r.fence(*o, "another peer after a new block"); need(r.net.until([&] { return std::count(o->heads.begin(), o->heads.end(), b->hdr->GetHash()) == 1; }, 10), "peer " + o->ip + " hears of the new block " + std::to_string(std::count(o->heads.begin(), o->heads.end(), b->hdr->GetHash())) + " times"); } need(std::count(w.heads.begin(), w.heads.end(), b->hdr->GetHash()) == 0, "the block is announced to the peer it came from"); });
        } else if (k == 5) { // a transaction
            auto av = t.spendable(tip); std::vector<fab::Coin> a2, made; for (auto& x : av) if (!used.count(x.commit) && x.amount > 200000000) a2.push_back(x); if (a2.empty()) continue; std::swap(a2[0], a2[s.below(a2.size())]); a2.erase(a2.begin() + 1, a2.end()); auto x = a2[0]; used.insert(x.commit); auto y = fab::coin(x.amount - 60000000, 900000 + t.serial++); auto f = tip->st->utxo.at(x.commit).f; TransactionPtr tx = std::make_shared<Transaction>(fab::tx({ x }, { f }, { y }, { { EKernelFeatures::DEFAULT_KERNEL, Fee::From(60000000), 0 } }, fab::blindNo(t.serial), t.serial)); Hash kh = tx->GetKernels()[0].GetHash(); int how = (int)s.below(3); work = true;
            auto what = mark(how == 0 ? "a transaction, announced" : how == 1 ? "a transaction, sent unasked" : "a stem transaction"); size_t ask = s.below(nh);
            ops.push_back([=](Run& r) { say(what); Wire& w = *r.honest[wi]; if (how == 2) { w.msg(StemTransactionMessage(tx)); r.fence(w, "after a stem transaction"); for (int i = 0; i < 3; i++) { Wire& o = *r.honest[ask]; o.msg(GetTransactionMessage(Hash(kh))); r.fence(o, "a transaction in its stem phase is handed out"); r.net.pump(5); } for (auto o : r.honest) need(std::count(o->kernels.begin(), o->kernels.end(), kh) == 0, "a transaction in its stem phase is announced"); return; }
                w.txs[kh] = tx; if (how == 0) w.msg(TransactionKernelMessage(Hash(kh))); else w.msg(TransactionMessage(tx)); for (auto o : r.honest) if (o != &w) need(r.net.until([&] { return std::count(o->kernels.begin(), o->kernels.end(), kh) > 0; }, 20), "peer " + o->ip + " never hears of the transaction"); need(r.net.until([&] { return r.sv.n.pool->FindTransactionByKernelHash(kh) != nullptr; }, 20), "the transaction does not get into the pool"); Wire& o = *r.honest[ask]; o.msg(GetTransactionMessage(Hash(kh))); auto m = r.net.reply(o, "transaction"); Enc e; p2pm::encTx(*tx, ProtocolVersion::ToEnum(o.ver), e); need(m.first == MT::TransactionMsg && m.second == e.b, "the transaction is handed out in another form"); r.fence(o, "after a transaction"); });
        } else if (k == 6) { int how = (int)s.below(4); uint32_t ver = s.pick<uint32_t>({ 1000, 3, 2, 1 }); auto what = mark(how == 0 ? "peers that connect and reset at once" : how == 1 ? "a peer that goes in the middle of a message" : how == 2 ? "a second connection of one address" : "a peer that comes back"); Bytes junk = s.bytes(1 + s.below(30)); size_t len = 40 + s.below(100); int many = 5 + (int)s.below(20); bad = true;
            ops.push_back([=](Run& r) { say(what); if (how == 0) { for (int i = 0; i < many; i++) { Wire& w = *r.net.fresh(); need(w.dial(r.hostileIp()), "dial"); if (i % 3 == 1) w.put(junk); w.reset(); } } else if (how == 1) { Wire& w = r.join(r.hostileIp(), ver); Enc e; e.v(Global::GetConfig().GetMagicBytes()).be(MT::PeerAddrs, 1).be(len, 8).v(Bytes(std::min<size_t>(junk.size(), len - 1), 3)); w.put(e.b); r.net.pump(3); if (many & 1) w.reset(); else w.drop(); } else if (how == 2) { Wire& w = *r.net.fresh(); need(w.dial(r.honest[wi]->ip), "dial"); bool ok = r.net.shake(w, 1000, 1, 3, "twice", r.genesis); need(!ok, "a second connection of " + w.ip + " is taken"); w.drop(); } else { Wire& w = r.join(r.hostileIp(), ver); r.fence(w, "new peer"); std::string ip = w.ip; w.drop(); bool ok = false; for (int i = 0; i < 200 && !ok; i++) { r.net.pump(20); Wire& v = *r.net.fresh(); need(v.dial(ip), "dial"); ok = r.net.shake(v, 1000, r.tip->work, 3, "back", r.genesis); if (ok) { v.td = r.tip->work; v.height = r.tip->height; r.fence(v, "peer that came back"); v.drop(); } } need(ok, "a peer that left may not come back"); } r.fence(*r.honest[wi], "after " + what); });
        } else if (k == 7) { // damaged messages
            int how = (int)s.below(3); uint32_t ver = s.pick<uint32_t>({ 1000, 2, 1 }); auto& m = p2pm::all()[s.below(p2pm::all().size())]; Bytes b; int type = m.type; bool close; std::string name = m.name; Bytes head; bad = true;
            if (how == 0) { b = truncated(s, m, ver); close = type != MT::Hand && type != MT::Shake && !((type == MT::Block || type == MT::TransactionMsg || type == MT::StemTransaction) && ver > 2); Enc e; m.gen(s, ProtocolVersion::ToEnum(ver), e); if (e.b.empty() || type == MT::Error) close = false; head = frame(type, b); }
            else if (how == 1) { type = (int)s.below(29); b = s.bytes(s.below(200)); close = false; head = frame(type, b); name = "type " + std::to_string(type); }
            else { Enc e; auto mg = Global::GetConfig().GetMagicBytes(); if (s.flip()) mg[s.below(2)] ^= (uint8_t)(1 + s.below(255)); else type = 200; e.v(mg).be(type == 200 ? (int)s.below(29) : type, 1).be(type == 200 ? (1ULL << (28 + s.below(36))) : 8, 8).v(s.bytes(8)); head = e.b; close = true; name = "header"; }
            if (how == 1 && type == MT::TxHashSetArchive) continue; auto what = mark(std::string(how == 0 ? "a message cut short: " : how == 1 ? "random bytes as a message of " : "a damaged message ") + name); c.label(how == 0 ? "cut short" : how == 1 ? "random" : "bad header");
            ops.push_back([=](Run& r) { say(what); Wire& w = r.join(r.hostileIp(), ver); r.fence(w, "new peer"); w.put(head); if (close) r.mustClose(w, what); else { r.net.ping(w); r.net.until([&] { return w.closed || !w.in.empty(); }, 5); w.drop(); } r.fence(*r.honest[wi], "after " + what); });
        } else if (k == 8) { // invalid contents
            int how = (int)s.weighted({ 4, 3, 3, 1, 1 }); bad = true; std::string what; if (how == 0) { int kind = (int)s.below(badh::KINDS); auto f = t.fields(tip, tip->block.GetTransactionBody(), BlindingFactor(CBigInteger<32>()), 2); badh::apply(s, kind, f, tip); auto h = std::make_shared<const BlockHeader>(f.make()); bool batch = s.flip(); what = mark(std::string("a header wrong in its ") + badh::name(kind) + (batch ? ", as a batch" : "")); c.label("invalid header"); ops.push_back([=](Run& r) { say(what); r.dirty = true; Wire& w = r.join(r.hostileIp(), 1000); r.fence(w, "new peer"); if (batch) w.msg(HeadersMessage({ h })); else w.msg(HeaderMessage(h)); if (batch) { r.net.ping(w); r.net.until([&] { return w.closed || !w.in.empty(); }, 10); w.drop(); } else r.mustBan(w, what); r.fence(*r.honest[wi], "after " + what); }); }
            else if (how == 1) { auto av = t.spendable(tip); if (av.empty()) continue; auto x = av[s.below(av.size())]; if (x.amount < 200000000) continue; bool inflate = s.flip(); auto y = fab::coin(x.amount - 60000000 + (inflate ? 1 + s.below(1000) : 0), 950000 + t.serial++); auto tx = fab::tx({ x }, { tip->st->utxo.at(x.commit).f }, { y }, { { EKernelFeatures::DEFAULT_KERNEL, Fee::From(60000000), 0 } }, fab::blindNo(t.serial), t.serial); TransactionPtr p; if (inflate) p = std::make_shared<Transaction>(tx); else { auto kk = tx.GetKernels(); auto v = kk[0].GetExcessSignature().GetSignatureBytes().GetData(); v[s.below(64)] ^= (uint8_t)(1 << s.below(8)); kk[0] = TransactionKernel(kk[0].GetFeatures(), Fee(kk[0].GetFeeShift(), kk[0].GetFee()), kk[0].GetLockHeight(), Commitment(kk[0].GetExcessCommitment()), Signature(CBigInteger<64>(v))); auto i = tx.GetInputs(); auto o = tx.GetOutputs(); p = std::make_shared<Transaction>(BlindingFactor(tx.GetOffset()), TransactionBody(std::move(i), std::move(o), std::move(kk))); }
                bool stem = s.flip(); what = mark(std::string(inflate ? "a transaction that creates value" : "a transaction with a wrong signature") + (stem ? ", as a stem transaction" : "")); c.label("invalid transaction"); ops.push_back([=](Run& r) { say(what); Wire& w = r.join(r.hostileIp(), 1000); r.fence(w, "new peer"); if (stem) w.msg(StemTransactionMessage(p)); else w.msg(TransactionMessage(p)); r.mustBan(w, what); need(r.sv.n.pool->FindTransactionByKernelHash(p->GetKernels()[0].GetHash()) == nullptr, "an invalid transaction is in the pool"); for (auto o : r.honest) need(std::count(o->kernels.begin(), o->kernels.end(), p->GetKernels()[0].GetHash()) == 0, "an invalid transaction is announced"); r.fence(*r.honest[wi], "after " + what); }); }
            else if (how == 2) { int kind = bad::FREE_TX + 1 + (int)s.below(bad::KINDS - bad::FREE_TX - 1); if (kind == bad::UNSORTED) continue; /* bodies are sorted when they are decoded */ auto b = bad::build(s, t, tip, kind, 2, 1); if (!b) continue; Blk* p = b.get(); keep.push_back(std::move(b)); bool hdr = s.chance(1, 4); what = mark(std::string("an invalid block: ") + bad::name(kind) + (hdr ? ", after its header" : "")); c.label("invalid block"); ops.push_back([=](Run& r) { say(what); Wire& w = r.join(r.hostileIp(), 1000); r.fence(w, "new peer"); r.twoHeads = r.dirty = true; if (hdr) { w.msg(HeaderMessage(p->hdr)); r.net.ping(w); r.net.until([&] { return w.closed || !w.in.empty(); }, 10); w.in.clear(); } w.send(MT::Block, blockBody(p->block, w.ver)); r.net.ping(w); r.net.until([&] { return w.closed || !w.in.empty(); }, 20); need(r.sv.n.tip() != p->hdr->GetHash(), "an invalid block is adopted"); for (auto o : r.honest) need(std::count(o->heads.begin(), o->heads.end(), p->hdr->GetHash()) == 0, "an invalid block is announced"); w.drop(); r.fence(*r.honest[wi], "after " + what); }); }
            else if (how == 3) { u64 size = s.pick<u64>({ 1, 100, 5000 }); Bytes b = s.bytes((size_t)size); Hash h = tip->parent->hdr->GetHash(); what = mark("an output set nobody asked for"); c.label("archive nobody asked for"); ops.push_back([=](Run& r) { say(what); Wire& w = r.join(r.hostileIp(), 1000); r.fence(w, "new peer"); w.msg(TxHashSetArchiveMessage(Hash(h), r.tip->height - 1, size)); w.put(b); r.mustClose(w, what); r.fence(*r.honest[wi], "after " + what); r.net.until([&] { return !r.sv.p2p->GetSyncStatus()->IsSyncing(); }, 20); need(!r.sv.p2p->GetSyncStatus()->IsSyncing(), "the node leaves its state for an output set that nobody asked for"); }); }
            else { what = mark("a blocked address"); c.label("blocked address"); ops.push_back([=](Run& r) { say(what); r.blockedNo++; Global::GetConfig().UpdateBlockedPeers({ IPAddress::CreateV4({ 127, 8, 0, (uint8_t)r.blockedNo }) }); Wire& w = *r.net.fresh(); need(w.dial("127.8.0." + std::to_string(r.blockedNo)), "dial"); bool ok = r.net.shake(w, 1000, 1, 3, "blocked", r.genesis); need(!ok, "a blocked address is served"); w.drop(); Wire& v = r.join(r.hostileIp(), 1000); r.fence(v, "a new peer after a blocked one"); v.drop(); }); }
        } else if (k == 9) { auto what = mark("an output set for a peer"); c.label("archive"); Blk* b = all[all.size() - 2 - s.below(3)]; bool unknown = s.chance(1, 3); Hash h = unknown ? Hash(s.bytes(32)) : b->hdr->GetHash(); ops.push_back([=](Run& r) { say(what); Wire& w = r.join(r.hostileIp(), 1000); r.fence(w, "new peer"); w.msg(TxHashSetRequestMessage(Hash(h), b->height)); if (!unknown) { auto m = r.net.reply(w, "output set"); need(m.first == MT::TxHashSetArchive, "no output set"); ByteBuffer bb(m.second); auto a = TxHashSetArchiveMessage::Deserialize(bb); need(a.GetBlockHash() == b->hdr->GetHash() && a.GetBlockHeight() == b->height, "an output set of another block"); need(r.net.until([&] { return w.rx.size() >= a.GetZippedSize() || w.closed; }, 20) && w.rx.size() >= a.GetZippedSize(), "only " + std::to_string(w.rx.size()) + " of " + std::to_string(a.GetZippedSize()) + " bytes of the output set arrive"); need(a.GetZippedSize() > 100 && w.rx[0] == 'P' && w.rx[1] == 'K', "not an archive"); w.rx.erase(w.rx.begin(), w.rx.begin() + (long)a.GetZippedSize()); w.raw = false; }
                // requests before the transfer is over may go unanswered
                bool ok = false; for (int i = 0; i < 400 && !ok; i++) { r.net.ping(w); r.net.until([&] { return !w.in.empty() || w.closed; }, 0.05); ok = !w.in.empty(); } need(ok, unknown ? "a peer that asked for the output set of an unknown block is never answered again" : "a peer that was sent an output set is never answered again"); w.drop(); r.fence(*r.honest[wi], "after an output set"); });
        } else if (k == 10) { auto what = mark("a stranger who does not shake hands"); int how = (int)s.below(4); Bytes b = s.bytes(40); Hash gen(s.bytes(32)); bad = true; ops.push_back([=](Run& r) { say(what); Wire& w = *r.net.fresh(); need(w.dial(r.hostileIp()), "dial"); if (how == 3) need(!r.net.shake(w, 1000, r.tip->work, 9, "stranger", gen), "a peer of another network is welcome"); else if (how == 0) w.put(b); else if (how == 1) w.msg(PingMessage(1, 1)); else w.msg(GetHeadersMessage({ r.genesis })); r.net.until([&] { return w.closed || !w.in.empty(); }, 0.2); need(w.in.empty(), "a peer without a handshake is served"); r.fence(*r.honest[wi], "after " + what); w.drop(); });
        } else if (k == 12) { // a heavier branch, from the oldest block on, or only its last block
            size_t depth = 1 + s.size(2), len = 1 + s.below(3); Blk* from = tip; for (size_t i = 0; i < depth; i++) from = from->parent; std::vector<Blk*> br; std::vector<fab::Coin> made; Blk* p = from; u64 need0 = tip->work - from->work; for (size_t i = 0; i < len; i++) { auto av = t.spendable(p); std::vector<fab::Coin> a2 = plain(p, av, used); std::vector<TransactionPtr> txs; if (s.flip() && !a2.empty()) txs.push_back(t.randomTx(s, p, a2, made)); made.clear(); p = t.make(p, txs, i + 1 == len ? need0 + 1 + s.below(3) : 1, made); br.push_back(p); } all.resize(all.size() - std::min(all.size() - 1, depth)); while (all.back() != from) all.pop_back(); all.insert(all.end(), br.begin(), br.end()); tip = p; bool order = s.flip() || len > 2; int form = (int)s.below(2); work = true; c.label("branch");
            auto what = mark("a heavier branch of " + std::to_string(len) + " from " + std::to_string(depth) + " back" + (order ? "" : ", its last block only") + (form ? " as compact blocks" : "")); Blk* last = p;
            ops.push_back([=](Run& r) { say(what); Wire& w = *r.honest[wi]; for (auto b : br) r.offer[b->hdr->GetHash()] = b; w.td = last->work; w.height = last->height; for (size_t i = order ? 0 : br.size() - 1; i < br.size(); i++) { if (form) w.msg(CompactBlockMessage(CompactBlockFactory::CreateCompactBlock(br[i]->block))); else w.send(MT::Block, blockBody(br[i]->block, w.ver)); if (order) { r.net.ping(w); auto m = r.net.reply(w, "a block of the branch"); need(m.first == MT::Pong, "no pong"); r.net.until([&] { return r.sv.n.bc->HasBlock(br[i]->height, br[i]->hdr->GetHash()) || r.sv.n.tip() == last->hdr->GetHash(); }, 1); } } need(r.waitTip(last), "the heavier branch is not adopted"); r.tip = last; r.dirty = true; r.fence(w, "after a branch"); if (order) for (auto o : r.honest) if (o != &w) { r.fence(*o, "another peer after a branch"); need(r.net.until([&] { return std::count(o->heads.begin(), o->heads.end(), last->hdr->GetHash()) >= 1; }, 10), "peer " + o->ip + " does not hear of the new tip"); } });
        } else { auto what = mark("a peer that goes and comes in between"); ops.push_back([=](Run& r) { say(what); Wire& w = r.join(r.hostileIp(), vers[wi]); w.msg(GetBlockMessage(g->spine[LEN]->hdr->GetHash())); auto m = r.net.reply(w, "block"); need(m.first == MT::Block && m.second == blockBody(g->spine[LEN]->block, w.ver), "another block"); w.drop(); }); }
    }
    c.nontrivial(ops.size() > 3 && bad && work); std::string dir = c.scratch() + "/node"; copyTree(g->dir, dir);
    inChild(40, [&] {
        Run& r = *new Run; r.tip = g->spine.back(); r.genesis = Global::GetGenesisHash(); r.cand = ext0; r.net.on = [&](Wire& w, int ty, const Bytes& b) { return r.on(w, ty, b); }; r.sv.open(dir); if (far) { std::vector<BlockHeaderPtr> v; for (auto& e : ext) v.push_back(e->hdr); need(r.sv.n.bc->AddBlockHeaders(v) == EBlockChainStatus::SUCCESS, "headers refused"); }
        say("handshakes"); for (size_t i = 0; i < nh; i++) { Wire& w = r.join("127.1.0." + std::to_string(1 + i), vers[i]); r.honest.push_back(&w); r.fence(w, "first ping"); }
        say("level with its peers"); need(r.net.until([&] { return !r.sv.p2p->GetSyncStatus()->IsSyncing(); }), "the node, level with its peers, does not end its synchronisation");
        for (auto& o : ops) { r.settle(); o(r); }
        say("at the end"); for (auto w : r.honest) r.fence(*w, "at the end"); Wire& w = r.join("127.2.0.1", 1000); r.fence(w, "a newcomer"); w.msg(GetBlockMessage(r.tip->hdr->GetHash())); auto m = r.net.reply(w, "tip"); need(m.first == MT::Block && m.second == blockBody(r.tip->block, w.ver), "the block at the tip"); need(r.sv.n.tip() == r.tip->hdr->GetHash(), "another tip"); compare(r.sv.n, g->tree, r.tip, false);
    });
}
// two blocks on the same parent spend the same coinbase output and arrive without the features of their inputs, an old peer asks for the second
static void features(Ctx& c) {
    auto& s = c.src; CaseTree ct; Tree& t = g->tree; Blk* tip = g->spine.back(); std::vector<fab::Coin> one, made; for (auto& x : t.spendable(tip)) if (one.empty() && tip->st->utxo.at(x.commit).f == EOutputFeatures::COINBASE_OUTPUT) one.push_back(x); REQUIRE(!one.empty()); auto x = one[0]; auto y = fab::coin(x.amount - 60000000, 910000 + t.serial++); TransactionPtr tx = std::make_shared<Transaction>(fab::tx({ x }, { EOutputFeatures::COINBASE_OUTPUT }, { y }, { { EKernelFeatures::DEFAULT_KERNEL, Fee::From(60000000), 0 } }, fab::blindNo(t.serial), t.serial)); Blk* a = t.make(tip, { tx }, 1, made); auto made2 = made; made2.clear(); Blk* b = t.make(tip, { tx }, 5, made2); (void)s; std::string dir = c.scratch() + "/node"; copyTree(g->dir, dir);
    inChild(40, [&] { Run& r = *new Run; r.tip = tip; r.genesis = Global::GetGenesisHash(); r.net.on = [&](Wire& w, int ty, const Bytes& m) { return r.on(w, ty, m); }; r.sv.open(dir); Wire& w = r.join("127.1.0.1", 1000); r.fence(w, "first ping"); Wire& o = r.join("127.1.0.2", 2); r.fence(o, "first ping"); w.send(MT::Block, blockBody(a->block, 1000)); need(r.waitTip(a), "the block is not adopted"); w.send(MT::Block, blockBody(b->block, 1000)); need(r.waitTip(b), "the heavier block is not adopted"); o.msg(GetBlockMessage(b->hdr->GetHash())); for (;;) { auto m = r.net.reply(o, "block"); if (m.first != MT::Block) continue; need(m.second == blockBody(b->block, 2), "the block is served with other features of its inputs"); break; } });
}
static void init44() { initNet(); Blk* p = g->spine.back(); for (int i = 0; i < EXT; i++) { auto b = std::make_unique<Blk>(); b->parent = p; b->height = p->height + 1; gen::HeaderFields f{ 1, p->height + 1, p->hdr->GetTimestamp() + 60, p->hdr->GetHash(), H(p->st->headers.root()), p->hdr->GetOutputRoot(), p->hdr->GetRangeProofRoot(), p->hdr->GetKernelRoot(), p->hdr->GetTotalKernelOffset(), p->hdr->GetOutputMMRSize(), p->hdr->GetKernelMMRSize(), p->work + 1, 1, g->tree.serial++, g->tree.proof() }; b->hdr = std::make_shared<const BlockHeader>(f.make()); b->work = f.td; b->st = std::make_shared<State>(); b->st->headers = p->st->headers; applyHeader(*b->st, *b->hdr); p = b.get(); ext.push_back(std::move(b)); } g->serial = g->tree.serial; }
void pbt::setup(Check& c) {
    c.id = "C44"; c.rule = "every case: a node on a 34-block chain with its network server, 1-3 lasting peers and a list of requests, new blocks and transactions, and misbehaving peers; non-trivial: more than three steps with both something new on the chain or in the pool and something to turn away"; c.workerInit = init44; c.quickCases = 400; c.thoroughCases = 20000; c.quickCap = 30; c.quickMin = 0; c.parts = { { "serve", 1, serve } };
    c.probes = { { "v2-input-features", "a block of another branch that arrived without input features (version 3 and later) is stored, and served to a peer of version 2, with the coinbase outputs it spends marked as plain", features } };
    c.assumptions = { "loopback connections from addresses in 127.0.0.0/8; the server's fixed port is exchanged for a free one", "peers are judged by what a 30 s wait shows" };
}
