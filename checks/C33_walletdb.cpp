// C33: the wallet database against a model of what was committed, with several users, batches, reopenings, upgrades and a busy database
#include "env.h"
#include "gen.h"
#include "enc.h"
#include <Wallet/WalletDB/WalletStore.h>
#include <Wallet/WalletTx.h>
#include <Wallet/WalletDB/Models/OutputDataEntity.h>
#include <Wallet/WalletDB/Models/SlateContextEntity.h>
#include <Wallet/WalletDB/Models/EncryptedSeed.h>
#include "Wallet/WalletDB/Sqlite/SqliteStore.h"
#include <Crypto/Hasher.h>
#include <sqlite3.h>
#include <fstream>
#include <filesystem>
using namespace pbt; typedef std::vector<uint8_t> Bytes; typedef uint64_t u64; typedef uint32_t u32; typedef std::string Str; namespace sfs = std::filesystem;
static Str hx(const Bytes& b) { Str s; char t[3]; for (uint8_t x : b) { snprintf(t, 3, "%02x", x); s += t; } return s; }
static Slate slate(Src& s, size_t coms) {
    std::array<uint8_t, 16> id; Bytes r = s.bytes(16); std::copy(r.begin(), r.end(), id.begin()); Slate a{ uuids::uuid(id) }; a.blockVersion = (uint16_t)s.range(1, 5); a.stage = SlateStage((ESlateStage)s.below(6)); a.offset = BlindingFactor(CBigInteger<32>(s.bytes(32).data())); a.amount = s.flip() ? s.edgy64() : 0; a.fee = Fee((uint8_t)s.below(2), s.edgy64() & 0xffffffffffULL); a.ttl = s.flip() ? s.edgy64() : 0; if (s.chance(1, 4)) { a.kernelFeatures = EKernelFeatures::HEIGHT_LOCKED; SlateFeatureArgs f; f.lockHeightOpt = s.edgy64(); a.featureArgsOpt = f; }
    size_t n = s.below(3); for (size_t i = 0; i < n; i++) { auto pub = [&] { Bytes k = s.bytes(32); k[0] = 1; return Crypto::CalculatePublicKey(SecretKey(CBigInteger<32>(k.data()))); }; Bytes p = s.bytes(64); p[31] &= 0x7f; p[63] &= 0x7f; a.sigs.push_back(SlateSignature(pub(), pub(), s.flip() ? std::make_optional(CompactSignature(CBigInteger<64>(p.data()))) : std::nullopt)); }
    for (size_t i = 0; i < coms; i++) { Bytes cm = s.bytes(33); cm[0] = 8; a.commitments.push_back(SlateCommitment{ (EOutputFeatures)s.below(2), Commitment(CBigInteger<33>(cm.data())), s.chance(1, 4) ? std::make_optional(RangeProof(s.bytes(675))) : std::nullopt }); }
    if (s.chance(1, 4)) { Bytes x = s.bytes(32), y = s.bytes(32); a.proofOpt = SlatePaymentProof::Create(ed25519_public_key_t(CBigInteger<32>(x.data())), ed25519_public_key_t(CBigInteger<32>(y.data()))); } return a;
}
static Bytes bytesOf(const Slate& s) { Serializer o; s.Serialize(o); return o.GetBytes(); }

template<class T> static Str opt(const std::optional<T>& o) { std::ostringstream t; if (o) t << *o; else t << "-"; return t.str(); }
static Bytes uniq(Src& s, size_t n) { static u64 k = 0; k++; Bytes b = s.bytes(n), o; for (int i = 0; i < 8; i++) b.push_back((uint8_t)(k >> (8 * i))); while (o.size() < n) { b.push_back(1); Bytes h = Hasher::Blake2b(b).GetData(); o.insert(o.end(), h.begin(), h.end()); } o.resize(n); return o; }   // never repeats, also when shrunk
static Bytes be8(u64 x) { Bytes o; for (int i = 7; i >= 0; i--) o.push_back((uint8_t)(x >> (8 * i))); return o; }
static Bytes B(const Str& s) { return Bytes(s.begin(), s.end()); }
// ---- records: what goes in, and how what comes out is written down
static Str show(const OutputDataEntity& e) { std::ostringstream t; t << e.GetKeyChainPath().Format() << " blind " << hx(e.GetBlindingFactor().GetVec()) << " feat " << (int)e.GetFeatures() << " com " << e.GetCommitment().ToHex() << " proof " << hx(e.GetRangeProof().GetProofBytes()).substr(0, 40) << "/" << e.GetRangeProof().GetProofBytes().size() << " amt " << e.GetAmount() << " st " << (int)e.GetStatus() << " mmr " << opt(e.GetMMRIndex()) << " h " << opt(e.GetBlockHeight()) << " tx " << opt(e.GetWalletTxId()); for (auto& l : e.GetLabels()) t << " label '" << l << "'"; return t.str(); }
static Str show(const SlateContextEntity& c) { std::ostringstream t; t << "key " << hx(c.GetSecretKey().GetVec()) << " nonce " << hx(c.GetSecretNonce().GetVec()) << " in"; for (auto& o : c.GetInputs()) t << " [" << show(o) << "]"; t << " out"; for (auto& o : c.GetOutputs()) t << " [" << show(o) << "]"; return t.str(); }
static Str show(const WalletTx& w) { std::ostringstream t; t << w.GetId() << " type " << (int)w.GetType() << " slate " << (w.GetSlateId() ? uuids::to_string(*w.GetSlateId()) : "-") << " addr " << opt(w.GetAddress()) << " msg " << opt(w.GetSlateMessage()) << " at " << std::chrono::duration_cast<std::chrono::milliseconds>(w.GetCreationTime().time_since_epoch()).count() << " conf " << (w.GetConfirmationTime() ? std::to_string(std::chrono::duration_cast<std::chrono::milliseconds>(w.GetConfirmationTime()->time_since_epoch()).count()) : "-") << " h " << opt(w.GetConfirmationHeight()) << " + " << w.GetAmountCredited() << " - " << w.GetAmountDebited() << " fee " << (w.GetFee() ? std::to_string(w.GetFee()->GetShift()) + ":" + std::to_string(w.GetFee()->GetFee()) : "-"); if (w.GetTransaction()) { Serializer o; w.GetTransaction()->Serialize(o); t << " tx " << Hasher::Blake2b(o.GetBytes()).ToHex(); } if (w.GetPaymentProof()) { auto& p = *w.GetPaymentProof(); t << " proof " << hx(p.GetSenderAddress().vec()) << hx(p.GetReceiverAddress().vec()); if (p.GetReceiverSignature()) t << hx(p.GetReceiverSignature()->bytes.GetData()); } return t.str(); }
static std::vector<Bytes> secrets;
static void hide(const Bytes& b) { if (std::set<uint8_t>(b.begin(), b.end()).size() >= 6) secrets.push_back(b); } static void hideAmount(u64 a) { if (a >> 40) hide(be8(a)); }
template<class T> static std::optional<T> maybe(Src& s, T v) { return s.flip() ? std::make_optional(v) : std::nullopt; }
static u64 pos(Src& s) { u64 x = s.edgy64(); return x ? x : 1; }
static u32 num(Src& s) { return s.chance(1, 6) ? s.pick<u32>({ 0x7fffffff, 0x80000000, 0xffffffff }) : (u32)s.below(12); }
static Str text(Src& s, size_t max) { Str t; size_t n = 1 + s.below(max); for (size_t i = 0; i < n; i++) t += s.chance(1, 10) ? s.pick<Str>({ "'", "\"", "%", ";", "\xc3\xab", "{}", "\n", "?" }) : Str(1, (char)('a' + s.below(26))); return t; }
static KeyChainPath path(Src& s) { KeyChainPath p = KeyChainPath::FromString("m"); size_t n = s.chance(3, 4) ? 3 : s.below(4); for (size_t i = 0; i < n; i++) p = p.GetChild(num(s)); return p; }
static OutputDataEntity output(Src& s, const std::vector<Commitment>& known, bool ofTx = false) {
    Commitment cm = !known.empty() && s.chance(1, 3) ? known[s.below(known.size())] : Commitment([&] { Bytes b = uniq(s, 33); b[0] = 8; return CBigInteger<33>(b.data()); }()); Bytes bl = uniq(s, 32); hide(bl); u64 amt = s.edgy64(); hideAmount(amt); std::vector<Str> labels; if (s.chance(1, 4)) labels.push_back(text(s, 20));
    return OutputDataEntity(path(s), SecretKey(CBigInteger<32>(bl.data())), TransactionOutput((EOutputFeatures)s.below(2), Commitment(cm), RangeProof(s.bytes(s.chance(1, 8) ? 675 : 20))), amt, (EOutputStatus)s.below(6), maybe<u64>(s, pos(s)), maybe<u64>(s, pos(s)), ofTx ? std::make_optional(num(s)) : maybe<u32>(s, num(s)), labels);
}
static uuids::uuid uid(Src& s, std::vector<uuids::uuid>& ids) { if (!ids.empty() && s.chance(1, 2)) return ids[s.below(ids.size())]; std::array<uint8_t, 16> a; Bytes r = uniq(s, 16); std::copy(r.begin(), r.end(), a.begin()); uuids::uuid u{ a }; ids.push_back(u); return u; }
static WalletTx walletTx(Src& s, std::vector<uuids::uuid>& ids) {
    u64 cr = s.edgy64(), db = s.edgy64(); hideAmount(cr); hideAmount(db); auto when = [&] { return std::chrono::system_clock::time_point(std::chrono::milliseconds(1500000000000LL + (int64_t)s.below(1ULL << 40))); }; std::optional<Str> msg; if (s.chance(1, 3)) { msg = text(s, 30); if (msg->size() > 12) hide(B(*msg)); } std::optional<Str> ad; if (s.chance(1, 3)) { ad = text(s, 60); if (ad->size() > 12) hide(B(*ad)); }
    std::optional<Transaction> tx; if (s.chance(1, 3)) tx = gen::tx(s, 3); std::optional<SlatePaymentProof> pp; if (s.chance(1, 4)) { Bytes x = s.bytes(32), y = s.bytes(32), z = s.bytes(64); pp = SlatePaymentProof::Create(ed25519_public_key_t(CBigInteger<32>(x.data())), ed25519_public_key_t(CBigInteger<32>(y.data()))); if (s.flip()) pp->AddSignature(ed25519_signature_t{ CBigInteger<64>(z.data()) }); }
    std::optional<uuids::uuid> id; if (s.chance(2, 3)) id = uid(s, ids); return WalletTx(num(s), (EWalletTxType)s.below(8), id, ad, msg, when(), s.flip() ? std::make_optional(when()) : std::nullopt, maybe<u64>(s, pos(s)), cr, db, s.flip() ? std::make_optional(gen::fee(s)) : std::nullopt, tx, pp);
}
// ---- model
struct SlateRec { uuids::uuid id; int stage; Bytes bytes; Str armor; };
struct Data { std::map<Str, Str> outs; std::map<u32, Str> txs; std::map<Str, Str> ctxs; std::vector<SlateRec> slates; u32 nextTx = 0; u64 refresh = 0, restore = 0; u32 child = 0, first = 0; bool childKnown = false; int addr = 0; };
struct User { Str name; SecureVector seed; Data disk; std::vector<uuids::uuid> ids; std::vector<Commitment> coms; std::unique_ptr<Locked<IWalletDB>> db; };
static const KeyChainPath& account() { static KeyChainPath p = KeyChainPath::FromString("m/0/0"); return p; }
static void op(Ctx& c, User& u, IWalletDB& w, Data& d) {
    auto& s = c.src; switch (s.below(10)) {
    case 0: case 1: { std::vector<OutputDataEntity> v; size_t n = s.below(4); for (size_t i = 0; i < n; i++) { v.push_back(output(s, u.coms)); u.coms.push_back(v.back().GetCommitment()); } w.AddOutputs(u.seed, v); for (auto& o : v) d.outs[o.GetCommitment().ToHex()] = show(o); c.log << "outputs(" << n << ") "; break; }
    case 2: case 3: { WalletTx t = walletTx(s, u.ids); w.AddTransaction(u.seed, t); d.txs[t.GetId()] = show(t); c.log << "tx(" << t.GetId() << ") "; break; }
    case 4: case 5: { Slate sl = slate(s, s.below(3)); auto id = uid(s, u.ids); sl.slateId = id; hide(sl.offset.GetVec()); Str armor = s.chance(1, 4) ? "" : text(s, 40); w.SaveSlate(u.seed, sl, armor); int st = (int)sl.stage.value; auto& v = d.slates; v.erase(std::remove_if(v.begin(), v.end(), [&](auto& r) { return r.id == id && r.stage == st; }), v.end()); v.push_back({ id, st, bytesOf(sl), armor }); c.log << "slate(stage " << st << ") "; c.label("slate"); break; }
    case 6: { auto id = uid(s, u.ids); Bytes k = uniq(s, 32), n = uniq(s, 32); hide(k); hide(n); std::vector<OutputDataEntity> in, out; size_t a = s.below(3), b = s.below(3); while (a--) in.push_back(output(s, {}, true)); while (b--) out.push_back(output(s, {}, true)); SlateContextEntity x(SecretKey(CBigInteger<32>(k.data())), SecretKey(CBigInteger<32>(n.data())), in, out); Str key = uuids::to_string(id); bool dup = d.ctxs.count(key), threw = false; try { w.SaveSlateContext(u.seed, id, x); } catch (const std::exception&) { threw = true; } REQUIRE_MSG(!threw || dup, "context refused"); if (!threw) d.ctxs[key] = show(x); c.log << "context "; c.label(dup ? "second context of a slate" : "context"); break; }
    case 7: { u32 id = w.GetNextTransactionId(); REQUIRE_EQ(id, d.nextTx); d.nextTx++; c.log << "next id "; break; }
    case 8: if (s.flip()) { d.refresh = s.edgy64() >> 1; w.UpdateRefreshBlockHeight(d.refresh); } else { d.restore = s.edgy64() >> 1; w.UpdateRestoreLeafIndex(d.restore); } c.log << "heights "; break;
    default: if (s.flip()) { KeyChainPath p = w.GetNextChildPath(account()); auto k = p.GetKeyIndices(); REQUIRE_EQ(k.size(), (size_t)3); REQUIRE(k[0] == 0 && k[1] == 0); if (d.childKnown) REQUIRE_EQ(k[2], d.child); else d.first = k[2]; d.child = k[2] + 1; d.childKnown = true; c.log << "path "; } else { int i = w.IncreaseAddressIndex(account()); d.addr++; REQUIRE_EQ(i, d.addr); c.log << "address "; } }
}
static void same(const User& u, const IWalletDB& w, const Data& d, const char* when) {
    std::map<Str, Str> outs; for (auto& o : w.GetOutputs(u.seed)) REQUIRE_MSG(outs.emplace(o.GetCommitment().ToHex(), show(o)).second, when << ": output listed twice"); for (auto& kv : d.outs) REQUIRE_MSG(outs.count(kv.first) && outs[kv.first] == kv.second, when << ": output is " << (outs.count(kv.first) ? outs[kv.first] : Str("missing")) << " instead of " << kv.second); REQUIRE_MSG(outs.size() == d.outs.size(), when << ": " << outs.size() << " outputs instead of " << d.outs.size());
    std::map<u32, Str> txs; for (auto& t : w.GetTransactions(u.seed)) REQUIRE_MSG(txs.emplace(t.GetId(), show(t)).second, when << ": transaction listed twice"); for (auto& kv : d.txs) { REQUIRE_MSG(txs.count(kv.first) && txs[kv.first] == kv.second, when << ": transaction is " << (txs.count(kv.first) ? txs[kv.first] : Str("missing")) << " instead of " << kv.second); auto p = w.GetTransactionById(u.seed, kv.first); REQUIRE_MSG(p && show(*p) == kv.second, when << ": transaction " << kv.first << " by id"); } REQUIRE_MSG(txs.size() == d.txs.size(), when << ": " << txs.size() << " transactions instead of " << d.txs.size()); for (u32 i : { 3u, 0x7fffffffu, 0xfffffffeu }) if (!d.txs.count(i)) REQUIRE_MSG(!w.GetTransactionById(u.seed, i), when << ": transaction " << i << " exists");
    for (auto& id : u.ids) { auto it = d.ctxs.find(uuids::to_string(id)); auto p = w.LoadSlateContext(u.seed, id); REQUIRE_MSG((it != d.ctxs.end()) == (p != nullptr), when << ": context " << (p ? "present" : "missing")); if (p) { Str t = show(*p); REQUIRE_MSG(t == it->second, when << ": context is " << t << " instead of " << it->second); }
        int top = -1, topArmored = -1; const SlateRec *best = nullptr, *armored = nullptr; for (int st = 0; st < 6; st++) { const SlateRec* r = nullptr; for (auto& x : d.slates) if (x.id == id && x.stage == st) r = &x; SlateStage stage((ESlateStage)st); auto sl = w.LoadSlate(u.seed, id, stage); REQUIRE_MSG((sl != nullptr) == (r != nullptr), when << ": slate at stage " << st << (sl ? " present" : " missing")); if (sl) REQUIRE_MSG(bytesOf(*sl) == r->bytes, when << ": slate at stage " << st << " is " << hx(bytesOf(*sl)).substr(0, 200) << " instead of " << hx(r->bytes).substr(0, 200)); if (r && st > top) { top = st; best = r; } if (r && !r->armor.empty() && st > topArmored) { topArmored = st; armored = r; } }
        auto latest = w.LoadLatestSlate(u.seed, id); REQUIRE_MSG((latest.first != nullptr) == (best != nullptr), when << ": latest slate"); if (best) { REQUIRE_MSG(bytesOf(*latest.first) == best->bytes, when << ": latest slate differs"); REQUIRE_MSG(latest.second == best->armor, when << ": slatepack is '" << latest.second << "' instead of '" << best->armor << "'"); } Str a = w.LoadArmoredSlatepack(id); REQUIRE_MSG(a == (armored ? armored->armor : Str()), when << ": slatepack is '" << a << "' instead of '" << (armored ? armored->armor : Str()) << "'"); }
    REQUIRE_EQ(w.GetRefreshBlockHeight(), d.refresh); REQUIRE_EQ(w.GetRestoreLeafIndex(), d.restore); REQUIRE_EQ(w.GetCurrentAddressIndex(account()), d.addr);
}
static Bytes slurp(const Str& f) { std::ifstream i(f, std::ios::binary); return Bytes((std::istreambuf_iterator<char>(i)), {}); }
static void noSecrets(const Str& dir, const User& u) {
    std::vector<Bytes> all; for (auto& e : sfs::recursive_directory_iterator(dir)) if (e.is_regular_file()) all.push_back(slurp(e.path())); std::vector<Bytes> look = secrets; look.push_back(Bytes(u.seed.begin(), u.seed.end())); for (auto& x : look) { Str hex = hx(x); for (auto& f : all) { REQUIRE_MSG(std::search(f.begin(), f.end(), x.begin(), x.end()) == f.end(), "secret " << hex << " in clear in the files"); REQUIRE_MSG(x.size() < 16 || std::search(f.begin(), f.end(), hex.begin(), hex.end()) == f.end(), "secret " << hex << " as text in the files"); } }
}
static std::shared_ptr<SqliteStore> store(const Str& dir) { static std::map<Str, std::unique_ptr<ConfigPtr>> keep; Json::Value j; j["DATA_PATH"] = dir; auto cfg = Config::Load(j, Environment::AUTOMATED_TESTING); keep.clear(); keep[dir] = std::make_unique<ConfigPtr>(cfg); return SqliteStore::Open(*cfg); }
static EncryptedSeed encSeed(Src& s) { Bytes iv = s.bytes(16), salt = s.bytes(8); return EncryptedSeed(CBigInteger<16>(iv.data()), CBigInteger<8>(salt.data()), s.bytes(48), ScryptParameters((u32)s.range(1, 1 << 20), (u32)s.range(1, 16), (u32)s.range(1, 4))); }
static Str seedText(const EncryptedSeed& e) { Serializer o; e.Serialize(o); return hx(o.GetBytes()); }
static void sql(const Str& file, const Str& cmd) { sqlite3* db = nullptr; sqlite3_open(file.c_str(), &db); char* e = nullptr; int r = sqlite3_exec(db, cmd.c_str(), nullptr, nullptr, &e); Str m = e ? e : ""; sqlite3_close(db); if (r != SQLITE_OK) throw std::logic_error("sqlite: " + m + " in " + cmd); }
static Str userName(Src& s, size_t i) { static const char* n[] = { "alice", "BOB", "Zo\xc3\xab", "a b'c", "x" }; return Str(n[s.below(5)]) + std::to_string(i); }
static void history(Ctx& c, bool faults, bool old) {
    auto& s = c.src; secrets.clear(); Str dir = c.scratch(); auto st = store(dir); std::vector<User> us(faults || old ? 1 : 1 + s.below(3)); Str wp; std::vector<Str> seeds;
    for (size_t i = 0; i < us.size(); i++) { auto& u = us[i]; u.name = userName(s, i); Bytes sd = uniq(s, s.flip() ? 32 : 16); u.seed = SecureVector(sd.begin(), sd.end()); auto es = encSeed(s); seeds.push_back(seedText(es)); u.db = std::make_unique<Locked<IWalletDB>>(st->CreateWallet(u.name, es)); c.log << "user " << u.name << "; "; bool th = false; try { st->CreateWallet(u.name, encSeed(s)); } catch (const std::exception&) { th = true; } REQUIRE_MSG(th, "wallet created over an existing one"); }
    for (auto& e : sfs::recursive_directory_iterator(dir)) if (e.path().filename() == "wallet.db") { wp = e.path().parent_path().parent_path(); } auto file = [&](const User& u) { return wp + "/" + u.name + "/wallet.db"; };
    size_t steps = 3 + s.below(14); bool reopened = false, rolled = false; for (size_t k = 0; k < steps; k++) {
        auto& u = us[s.below(us.size())]; switch (s.below(10)) {
        case 0: case 1: { auto w = u.db->Write(); c.log << "write{"; op(c, u, *w, u.disk); same(u, *w, u.disk, "while writing"); c.log << "} "; break; }
        case 2: case 3: case 4: case 5: { Data d = u.disk; bool finish = s.chance(3, 5); bool explicitly = s.flip(); { auto w = u.db->BatchWrite(); size_t n = 1 + s.below(5); c.log << "batch{"; for (size_t i = 0; i < n; i++) op(c, u, *w, d); same(u, *w, d, "inside a batch"); if (s.chance(1, 4)) { Str cp = c.scratch() + "/copy"; sfs::remove_all(cp); sfs::create_directories(cp); auto st2 = std::string(wp).substr(dir.size()); sfs::create_directories(cp + st2); sfs::copy(wp + "/" + u.name, cp + st2 + "/" + u.name, sfs::copy_options::recursive); Json::Value j; j["DATA_PATH"] = cp; auto cfg = Config::Load(j, Environment::AUTOMATED_TESTING); { auto s2 = SqliteStore::Open(*cfg); auto db2 = s2->OpenWallet(u.name, u.seed); auto r = db2.Read(); same(u, *r, u.disk, "as found after a crash inside a batch"); } sfs::remove_all(cp); c.label("crash inside a batch"); } if (finish) w->Commit(); else if (explicitly) w->Rollback(); }
            if (finish) u.disk = d; else { rolled = true; } if (!u.disk.childKnown && d.childKnown && !finish) { u.disk.child = u.disk.first = d.first; u.disk.childKnown = true; } c.log << (finish ? "}commit " : explicitly ? "}rollback " : "}dropped "); c.label(finish ? "commit" : "rollback"); break; }
        case 6: { u.db.reset(); if (s.flip()) { c.log << "reopen " << u.name << " "; st->CloseWallet(u.name); } else { c.log << "restart "; for (auto& x : us) x.db.reset(); st.reset(); st = store(dir); for (auto& x : us) x.db = std::make_unique<Locked<IWalletDB>>(st->OpenWallet(x.name, x.seed)); } noSecrets(wp + "/" + u.name, u); if (!u.db) { if (old) { int v = (int)s.range(2, 3); if (v == 2 && s.chance(2, 3)) { sql(file(u), "begin; create table t2 as select slate_id, stage, iv, slate from slate; drop table slate; create table slate(slate_id TEXT NOT NULL, stage TEXT NOT NULL, iv BLOB NOT NULL, slate BLOB NOT NULL); insert into slate select * from t2; drop table t2; commit;"); for (auto& r : u.disk.slates) r.armor.clear(); } sql(file(u), "begin; create table a2 as select parent_path, account_name, next_child_index from accounts; drop table accounts; create table accounts(parent_path TEXT PRIMARY KEY, account_name TEXT NOT NULL, next_child_index INTEGER NOT NULL); insert into accounts select * from a2; drop table a2; update version set schema_version=" + std::to_string(v) + "; commit;"); u.disk.addr = 0; c.label("upgrade from schema " + std::to_string(v)); } u.db = std::make_unique<Locked<IWalletDB>>(st->OpenWallet(u.name, u.seed)); } reopened = true; c.label("reopened"); break; }
        case 7: { auto r = u.db->Read(); same(u, *r, u.disk, "on reading"); break; }
        case 8: { Bytes o = uniq(s, 32); SecureVector other(o.begin(), o.end()); if (us.size() > 1) other = us[&u == &us[0] ? 1 : 0].seed; auto r = u.db->Read(); auto fails = [&](auto f) { try { f(); } catch (const std::exception&) { return true; } return false; }; REQUIRE_MSG(u.disk.outs.empty() || fails([&] { r->GetOutputs(other); }), "outputs read with another seed"); REQUIRE_MSG(u.disk.txs.empty() || fails([&] { r->GetTransactions(other); }), "transactions read with another seed"); for (auto& x : u.disk.slates) { REQUIRE_MSG(fails([&] { r->LoadSlate(other, x.id, SlateStage((ESlateStage)x.stage)); }), "slate read with another seed"); std::unique_ptr<Slate> l; try { l = r->LoadLatestSlate(other, x.id).first; } catch (const std::exception&) {} REQUIRE_MSG(!l, "latest slate read with another seed"); } for (auto& id : u.ids) if (u.disk.ctxs.count(uuids::to_string(id))) REQUIRE_MSG(fails([&] { r->LoadSlateContext(other, id); }), "context read with another seed"); c.label("another seed"); break; }
        default: if (faults) {
            // another process holds the database
            sqlite3* x = nullptr; sqlite3_open(file(u).c_str(), &x); bool excl = s.flip(); c.label(excl ? "database locked" : "commit refused"); c.log << (excl ? "locked " : "commit blocked ");
            if (excl) { sqlite3_exec(x, "begin exclusive;", nullptr, nullptr, nullptr); auto r = u.db->Read(); auto ex = [&](auto f, const char* what) { bool ok = true; try { ok = f(); } catch (const std::exception&) { return; } REQUIRE_MSG(ok, "a locked database reads as one without " << what); }; ex([&] { return r->GetOutputs(u.seed).size() == u.disk.outs.size(); }, "outputs"); ex([&] { return r->GetTransactions(u.seed).size() == u.disk.txs.size(); }, "transactions"); for (auto& kv : u.disk.txs) ex([&] { return r->GetTransactionById(u.seed, kv.first) != nullptr; }, "a transaction"); for (auto& id : u.ids) { ex([&] { return (r->LoadSlateContext(u.seed, id) != nullptr) == (u.disk.ctxs.count(uuids::to_string(id)) > 0); }, "a context"); for (auto& q : u.disk.slates) if (q.id == id) { ex([&] { return r->LoadSlate(u.seed, id, SlateStage((ESlateStage)q.stage)) != nullptr; }, "a slate"); ex([&] { return r->LoadLatestSlate(u.seed, id).first != nullptr; }, "a latest slate"); } }
            } else { sqlite3_stmt* q = nullptr; sqlite3_prepare_v2(x, "select * from metadata", -1, &q, nullptr); sqlite3_step(q); Data d = u.disk; bool threw = false; { auto w = u.db->BatchWrite(); op(c, u, *w, d); w->UpdateRefreshBlockHeight(d.refresh); try { w->Commit(); } catch (const std::exception&) { threw = true; } } sqlite3_finalize(q); REQUIRE_MSG(threw, "commit reported although the database was locked"); rolled = true; }
            sqlite3_exec(x, "rollback;", nullptr, nullptr, nullptr); sqlite3_close(x); auto r = u.db->Read(); same(u, *r, u.disk, "after the lock"); }
            else { auto es = encSeed(s); size_t i = &u - us.data(); st->ChangePassword(u.name, es); seeds[i] = seedText(es); REQUIRE_EQ(seedText(st->LoadWalletSeed(u.name)), seeds[i]); c.log << "password "; }
        } }
    for (auto& u : us) { { auto r = u.db->Read(); same(u, *r, u.disk, "at the end"); } u.db.reset(); } st.reset(); st = store(dir); std::set<Str> names, want; for (auto& x : st->GetAccounts()) names.insert(Str(x)); for (size_t i = 0; i < us.size(); i++) { auto& u = us[i]; want.insert(u.name); noSecrets(wp + "/" + u.name, u); REQUIRE_EQ(seedText(st->LoadWalletSeed(u.name)), seeds[i]); auto db = st->OpenWallet(u.name, u.seed); auto r = db.Read(); same(u, *r, u.disk, "after reopening"); } REQUIRE(names == want);
    size_t recs = 0; for (auto& u : us) recs += u.disk.outs.size() + u.disk.txs.size() + u.disk.slates.size() + u.disk.ctxs.size(); c.nontrivial(recs >= 2); if (us.size() > 1) c.label("several users"); (void)reopened; (void)rolled;
    if (s.chance(1, 3)) { size_t k = s.below(us.size()); bool th = false; auto db = st->OpenWallet(us[k].name, us[k].seed); try { st->DeleteWallet(us[k].name); } catch (const std::exception&) { th = true; } REQUIRE_MSG(th, "open wallet deleted"); st->CloseWallet(us[k].name); st->DeleteWallet(us[k].name); REQUIRE(!sfs::exists(wp + "/" + us[k].name)); th = false; try { st->OpenWallet(us[k].name, us[k].seed); } catch (const std::exception&) { th = true; } REQUIRE_MSG(th, "deleted wallet opened"); for (size_t i = 0; i < us.size(); i++) if (i != k) { auto d2 = st->OpenWallet(us[i].name, us[i].seed); auto r = d2.Read(); same(us[i], *r, us[i].disk, "after another user's wallet was deleted"); } c.label("deleted"); }
}
static void plain(Ctx& c) { history(c, false, false); } static void busy(Ctx& c) { history(c, true, false); } static void upgrade(Ctx& c) { history(c, false, true); }
void pbt::setup(Check& c) {
    c.id = "C33"; c.rule = "non-trivial: at least two records are committed at the end"; c.workerInit = env::workerDefault; c.quickCases = 1500; c.thoroughCases = 60000; c.quickCap = 25; c.parts = { { "history", 5, plain }, { "busy", 2, busy }, { "upgrade", 1, upgrade } };
    c.assumptions = { "heights, leaf indices and times of zero stand for none", "an output carries at most one label", "the outputs of a slate's context belong to a transaction", "refresh heights and leaf indices are below 2^63" };
}
