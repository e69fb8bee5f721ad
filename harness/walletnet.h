// Real wallets (manager, sessions, database) over a model chain. Include once, in the check's own source file.
#pragma once
#include "env.h"
#include "gen.h"
#include "enc.h"
#include <random>
#include <thread>
#include <numeric>
#include <unordered_map>
#include <fstream>
#define private public
#include "Wallet/WalletManagerImpl.h"
#include "Wallet/SessionManager.h"
#include "Wallet/LoggedInSession.h"
#include "Wallet/ForeignController.h"
#include "Wallet/WalletImpl.h"
#include <Wallet/Wallet.h>
#undef private
#include "Wallet/WalletDB/Sqlite/SqliteStore.h"
#include <Wallet/WalletDB/Models/SlateContextEntity.h>
#include <Wallet/WalletDB/Models/EncryptedSeed.h>
#include <Wallet/Exceptions/InsufficientFundsException.h>
#include <Core/Validation/TransactionValidator.h>
#include <Net/Tor/TorAddressParser.h>
#include <Crypto/ED25519.h>
#include <Crypto/Hasher.h>
#include <API/Wallet/Owner/Models/EstimateFeeCriteria.h>
#include <filesystem>

#ifndef WALLETNET_REAL_LISTENER
// the listener of each wallet is not started: no ports, no Tor
struct ForeignController::Context { int refs = 1; };
ForeignController::ForeignController(IWalletManager& m) : m_walletManager(m) {}
ForeignController::~ForeignController() {}
std::pair<uint16_t, std::optional<TorAddress>> ForeignController::StartListener(const TorProcess::Ptr&, const std::string& u, const SessionToken&, const KeyChain& k, const int index) {
    auto& c = m_contextsByUsername[u]; if (c) c->refs++; else c = std::make_unique<Context>();
    auto key = k.DeriveED25519Key(KeyChainPath::FromString("m/0/1").GetChild(index)); return { (uint16_t)3415, std::make_optional(TorAddressParser::FromPubKey(key.public_key)) };
}
bool ForeignController::StopListener(const std::string& u) { auto it = m_contextsByUsername.find(u); if (it == m_contextsByUsername.end()) return false; if (--it->second->refs == 0) m_contextsByUsername.erase(it); return true; }
bool ForeignController::IsListening(const std::string& u) { return m_contextsByUsername.count(u) > 0; }
#endif

namespace wn {
using namespace pbt; typedef std::vector<uint8_t> Bytes; typedef uint64_t u64; typedef uint32_t u32; typedef std::string Str; namespace sfs = std::filesystem;
inline Str hx(const Bytes& b) { Str s; char t[3]; for (uint8_t x : b) { snprintf(t, 3, "%02x", x); s += t; } return s; }
inline Bytes uniq(Src& s, size_t n) { static u64 k = 0; k++; Bytes b = s.bytes(n), o; for (int i = 0; i < 8; i++) b.push_back((uint8_t)(k >> (8 * i))); while (o.size() < n) { b.push_back(1); Bytes h = Hasher::Blake2b(b).GetData(); o.insert(o.end(), h.begin(), h.end()); } o.resize(n); return o; }
struct Out { Commitment com; EOutputFeatures feat; RangeProof proof; u64 height = 0, leaf = 0; bool spent = false; };
struct Block { BlockHeaderPtr hdr; std::vector<TransactionOutput> outs; std::vector<Commitment> ins; std::vector<Transaction> txs; };
// the node the wallets talk to: a list of blocks
struct Node : INodeClient {
    u64 base = 0, serial = 0; int64_t now = 1600000000; std::vector<Block> blocks; std::vector<Transaction> pool; std::vector<std::pair<Transaction, EPoolType>> posted; bool acceptPosts = true;
    std::map<Commitment, Out> utxo; std::vector<Out> leaves; u64 batchLimit = 1000000;
    void rebuild() { utxo.clear(); leaves.clear(); for (auto& b : blocks) { for (auto& i : b.ins) { auto it = utxo.find(i); leaves[it->second.leaf].spent = true; utxo.erase(it); } for (auto& o : b.outs) { Out x{ o.GetCommitment(), o.GetFeatures(), o.GetRangeProof(), b.hdr->GetHeight(), leaves.size(), false }; leaves.push_back(x); utxo.insert({ o.GetCommitment(), x }); } } }
    TransactionOutput foreign(EOutputFeatures f) { return TransactionOutput(f, Crypto::CommitTransparent(0x100000000ULL + serial++), RangeProof(Bytes(675, 7))); }
    BlockHeaderPtr header(u64 height) { now += 60; serial++; std::vector<uint64_t> n; for (int i = 0; i < 42; i++) n.push_back((serial * 64 + i) & 0x1fffffff); Hash z; return std::make_shared<const BlockHeader>(gen::HeaderFields{ (uint16_t)Consensus::GetHeaderVersion(height), height, now, z, z, z, z, z, BlindingFactor(), 0, 0, height + 1, 1, serial, ProofOfWork(29, std::move(n)) }.make()); }
    u64 height() const { return blocks.empty() ? base : blocks.back().hdr->GetHeight(); }
    // whether every input is unspent and mature for the next block, and no output exists
    bool minable(const Transaction& t) const { u64 h = blocks.empty() ? base : height() + 1; for (auto& i : t.GetInputs()) { auto it = utxo.find(i.GetCommitment()); if (it == utxo.end() || it->second.feat != i.GetFeatures()) return false; if (it->second.feat == EOutputFeatures::COINBASE_OUTPUT && Consensus::GetMaxCoinbaseHeight(h) < it->second.height) return false; } for (auto& o : t.GetOutputs()) if (utxo.count(o.GetCommitment())) return false; return true; }
    void mine(std::vector<TransactionOutput> outs, const std::vector<Transaction>& txs = {}) { Block b; b.hdr = header(blocks.empty() ? base : height() + 1); for (auto& t : txs) { b.txs.push_back(t); for (auto& i : t.GetInputs()) b.ins.push_back(i.GetCommitment()); for (auto& o : t.GetOutputs()) outs.push_back(o); } b.outs = std::move(outs); b.outs.push_back(foreign(EOutputFeatures::COINBASE_OUTPUT)); blocks.push_back(std::move(b)); rebuild(); }
    // n blocks of which only the last is kept
    void skip(u64 n) { if (!n) return; Block b; b.hdr = header((blocks.empty() ? base : height()) + n); b.outs.push_back(foreign(EOutputFeatures::COINBASE_OUTPUT)); blocks.push_back(std::move(b)); rebuild(); }
    // mines what fits of the pool
    size_t minePool(std::vector<TransactionOutput> outs = {}) { std::vector<Transaction> in, rest; std::set<Commitment> used, made; for (auto& o : outs) made.insert(o.GetCommitment()); for (auto& t : pool) { bool ok = minable(t); for (auto& i : t.GetInputs()) ok = ok && !used.count(i.GetCommitment()); for (auto& o : t.GetOutputs()) ok = ok && !made.count(o.GetCommitment()); if (ok) { in.push_back(t); for (auto& i : t.GetInputs()) used.insert(i.GetCommitment()); for (auto& o : t.GetOutputs()) made.insert(o.GetCommitment()); } else rest.push_back(t); } mine(std::move(outs), in); pool = rest; return in.size(); }
    std::vector<Transaction> drop(size_t n) { std::vector<Transaction> t; while (n-- && blocks.size() > 1) { for (auto& x : blocks.back().txs) t.push_back(x); blocks.pop_back(); } rebuild(); return t; }
    u64 GetChainHeight() const override { return height(); }
    BlockHeaderPtr GetTipHeader() const override { return blocks.empty() ? nullptr : blocks.back().hdr; }
    BlockHeaderPtr GetBlockHeader(const u64 h) const override { for (auto& b : blocks) if (b.hdr->GetHeight() == h) return b.hdr; return nullptr; }
    std::map<Commitment, OutputLocation> GetOutputsByCommitment(const std::vector<Commitment>& cs) const override { std::map<Commitment, OutputLocation> m; for (auto& c : cs) { auto it = utxo.find(c); if (it != utxo.end()) m.insert({ c, OutputLocation(LeafIndex::At(it->second.leaf), it->second.height) }); } return m; }
    std::vector<BlockWithOutputs> GetBlockOutputs(const u64, const u64) const override { return {}; }
    std::unique_ptr<OutputRange> GetOutputsByLeafIndex(const u64 start, const u64 max) const override { std::vector<OutputDTO> v; for (u64 i = start; i < leaves.size() && v.size() < std::min(max, batchLimit); i++) if (!leaves[i].spent) v.push_back(OutputDTO(false, OutputIdentifier(leaves[i].feat, Commitment(leaves[i].com)), OutputLocation(LeafIndex::At(i), leaves[i].height), leaves[i].proof)); u64 last = v.empty() ? 0 : v.back().GetLeafIndex().Get(); return std::make_unique<OutputRange>(leaves.empty() ? 0 : leaves.size() - 1, last, std::move(v)); }
    bool PostTransaction(TransactionPtr t, const EPoolType p) override { posted.push_back({ *t, p }); if (!acceptPosts) return false; pool.push_back(*t); return true; }
};
struct Account { Str name; SecureVector seed; SessionToken token{ 0, Bytes() }; };
struct Net {
    Ctx& c; Str dir; ConfigPtr cfg; std::shared_ptr<Node> node; std::shared_ptr<SqliteStore> store; std::shared_ptr<WalletManager> mgr; std::vector<std::unique_ptr<Account>> accounts;
    Net(Ctx& c, u64 base = 0, std::shared_ptr<Node> shared = nullptr, const Str& name = "net") : c(c), dir(c.scratch() + "/" + name) { sfs::remove_all(dir); sfs::create_directories(dir); Json::Value j; j["DATA_PATH"] = dir; cfg = Config::Load(j, Environment::AUTOMATED_TESTING); node = shared ? shared : std::make_shared<Node>(); if (!shared) node->base = base; start(); }
    ~Net() { stop(); sfs::remove_all(dir); }
    void start() { store = SqliteStore::Open(*cfg); mgr = std::make_shared<WalletManager>(*cfg, node, store); }
    void stop() { mgr.reset(); store.reset(); }
    void login(Account& a) { a.token = mgr->m_sessionManager.Write()->Login(nullptr, a.name, a.seed); }
    void restart() { stop(); start(); for (auto& a : accounts) login(*a); }
    Account& add(const Str& name, const SecureVector& seed) { auto a = std::make_unique<Account>(); a->name = name; a->seed = seed; EncryptedSeed es(CBigInteger<16>(), CBigInteger<8>(), Bytes(48, 1), ScryptParameters(2, 1, 1)); store->CreateWallet(name, es); login(*a); accounts.push_back(std::move(a)); return *accounts.back(); }
    Account& add(const Str& name) { Bytes b = uniq(c.src, 32); return add(name, SecureVector(b.begin(), b.end())); }
    Locked<Wallet> wallet(Account& a) { return mgr->m_sessionManager.Read()->GetWallet(a.token); }
    Locked<WalletImpl> impl(Account& a) { return mgr->m_sessionManager.Read()->GetWalletImpl(a.token); }
    std::vector<OutputDataEntity> outputs(Account& a) { auto w = wallet(a); auto r = w.Read(); auto d = r->m_walletDB.Read(); return d->GetOutputs(a.seed); }
    std::vector<WalletTx> txs(Account& a) { auto w = wallet(a); auto r = w.Read(); auto d = r->m_walletDB.Read(); return d->GetTransactions(a.seed); }
    void refresh(Account& a, bool genesis = false) { mgr->CheckForOutputs(a.token, genesis); }
    WalletBalanceDTO balance(Account& a) { auto w = wallet(a); return w.Read()->GetBalance(); }
    // an output of this wallet at a given path, made without its database knowing
    TransactionOutput owned(Account& a, const KeyChainPath& p, u64 amount, EOutputFeatures f = EOutputFeatures::DEFAULT, EBulletproofType t = EBulletproofType::ENHANCED) { KeyChain k = KeyChain::FromSeed(a.seed); SecretKey b = k.DerivePrivateKey(p, amount); Commitment cm = Crypto::CommitBlinded(amount, BlindingFactor(b.GetBytes())); RangeProof rp = k.GenerateRangeProof(p, amount, cm, b, t); return TransactionOutput(f, std::move(cm), std::move(rp)); }
    TransactionOutput fresh(Account& a, u64 amount, EOutputFeatures f = EOutputFeatures::DEFAULT) { KeyChainPath p = [&] { auto w = impl(a); auto x = w.Write(); auto b = x->GetDatabase().BatchWrite(); auto q = b->GetNextChildPath(x->GetUserPath()); b->Commit(); return q; }(); return owned(a, p, amount, f); }
};
inline Str when(std::chrono::system_clock::time_point t) { return std::to_string(std::chrono::duration_cast<std::chrono::milliseconds>(t.time_since_epoch()).count()); }
inline Str show(const OutputDataEntity& e) { std::ostringstream t; t << e.GetCommitment().ToHex().substr(0, 12) << " " << e.GetKeyChainPath().Format() << " " << e.GetAmount() << " " << OutputStatus::ToString(e.GetStatus()) << " f" << (int)e.GetFeatures() << " h" << (e.GetBlockHeight() ? std::to_string(*e.GetBlockHeight()) : "-") << " tx" << (e.GetWalletTxId() ? std::to_string(*e.GetWalletTxId()) : "-"); return t.str(); }
inline Str show(const WalletTx& w) { std::ostringstream t; t << w.GetId() << " " << WalletTxType::ToString(w.GetType()) << " slate " << (w.GetSlateId() ? uuids::to_string(*w.GetSlateId()) : "-") << " +" << w.GetAmountCredited() << " -" << w.GetAmountDebited() << " fee " << (w.GetFee() ? std::to_string(w.GetFee()->GetFee()) : "-") << " h " << (w.GetConfirmationHeight() ? std::to_string(*w.GetConfirmationHeight()) : "-"); if (w.GetTransaction()) { Serializer o; w.GetTransaction()->Serialize(o); t << " tx " << Hasher::Blake2b(o.GetBytes()).ToHex().substr(0, 16); } return t.str(); }
// everything a wallet records, as text
inline Str dump(Net& n, Account& a) { std::vector<Str> v; for (auto& o : n.outputs(a)) v.push_back("out " + show(o)); for (auto& t : n.txs(a)) { v.push_back("tx " + show(t)); if (t.GetSlateId()) { auto w = n.wallet(a); auto r = w.Read(); auto d = r->m_walletDB.Read(); for (int st = 0; st < 6; st++) { auto sl = d->LoadSlate(a.seed, *t.GetSlateId(), SlateStage((ESlateStage)st)); if (sl) { Serializer o; sl->Serialize(o); v.push_back("slate " + std::to_string(st) + " " + Hasher::Blake2b(o.GetBytes()).ToHex()); } } v.push_back("pack " + Hasher::Blake2b([&] { Str p = d->LoadArmoredSlatepack(*t.GetSlateId()); return Bytes(p.begin(), p.end()); }()).ToHex().substr(0, 16)); } } std::sort(v.begin(), v.end()); Str s; for (auto& x : v) s += x + "\n"; return s; }
inline Bytes bytesOf(const Slate& s) { Serializer o; s.Serialize(o); return o.GetBytes(); }
inline Bytes bytesOf(const Transaction& t) { Serializer o; t.Serialize(o); return o.GetBytes(); }
}
