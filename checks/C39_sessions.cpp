// C39: histories of several users creating, opening, renaming the password of and deleting wallets through the owner API's handlers, against a model of users and sessions
#include "walletnet.h"
#include "Wallet/Keychain/Mnemonic.h"
#define private public
#include "API/Wallet/Owner/Handlers/CreateWalletHandler.h"
#include "API/Wallet/Owner/Handlers/RestoreWalletHandler.h"
#include "API/Wallet/Owner/Handlers/LoginHandler.h"
#include "API/Wallet/Owner/Handlers/LogoutHandler.h"
#include "API/Wallet/Owner/Handlers/SendHandler.h"
#include "API/Wallet/Owner/Handlers/ReceiveHandler.h"
#include "API/Wallet/Owner/Handlers/FinalizeHandler.h"
#include "API/Wallet/Owner/Handlers/RetryTorHandler.h"
#include "API/Wallet/Owner/Handlers/DeleteWalletHandler.h"
#include "API/Wallet/Owner/Handlers/GetWalletSeedHandler.h"
#include "API/Wallet/Owner/Handlers/CancelTxHandler.h"
#include "API/Wallet/Owner/Handlers/GetBalanceHandler.h"
#include "API/Wallet/Owner/Handlers/ListTxsHandler.h"
#include "API/Wallet/Owner/Handlers/ListOutputsHandler.h"
#include "API/Wallet/Owner/Handlers/RepostTxHandler.h"
#include "API/Wallet/Owner/Handlers/EstimateFeeHandler.h"
#include "API/Wallet/Owner/Handlers/ScanForOutputsHandler.h"
#include "API/Wallet/Owner/Handlers/ListWalletsHandler.h"
#include "API/Wallet/Owner/Handlers/GetWalletAddressHandler.h"
#include "API/Wallet/Owner/Handlers/GetNewWalletAddressHandler.h"
#undef private
#include <Net/Tor/TorProcess.h>
using namespace wn;
// a cheap stand-in for scrypt: still a function of password, salt and parameters
int crypto_scrypt(const uint8_t* pw, size_t pl, const uint8_t* salt, size_t sl, uint64_t N, uint32_t r, uint32_t p, uint8_t* buf, size_t len) { Serializer o; o.Append<u64>(pl); o.AppendByteVector(Bytes(pw, pw + pl)); o.Append<u64>(sl); o.AppendByteVector(Bytes(salt, salt + sl)); o.Append<u64>(N); o.Append<u32>(r); o.Append<u32>(p); Bytes in = o.GetBytes(), out; for (uint8_t i = 0; out.size() < len; i++) { in.push_back(i); Bytes h = Hasher::Blake2b(in).GetData(); out.insert(out.end(), h.begin(), h.end()); } memcpy(buf, out.data(), len); return 0; }
static Str low(Str s) { for (auto& ch : s) if (ch >= 'A' && ch <= 'Z') ch += 32; return s; }
static Str trim(const Str& s) { size_t a = s.find_first_not_of(" \t\r\n\v\f"); return a == s.npos ? "" : s.substr(a, s.find_last_not_of(" \t\r\n\v\f") - a + 1); }
static bool plain(const Str& s) { if (s.empty() || s.size() > 60) return false; for (unsigned char ch : s) if (!isalnum(ch) && ch != ' ' && ch != '_' && ch != '-') return false; return true; }
// a name that is the name of a single directory entry
static bool component(const Str& s) { return !s.empty() && s != "." && s != ".." && s.find('/') == s.npos && s.find('\0') == s.npos && s.size() <= 255; }
static Str printable(const Str& s) { Str o = "\""; char t[8]; for (unsigned char ch : s.substr(0, 80)) if (ch < 32 || ch > 126) { snprintf(t, 8, "\\x%02x", ch); o += t; } else o += ch; return o + "\""; }
struct User { Str name, pw, words; SecureVector seed; int addr = 0; };
struct Session { Str token; Str user; bool live = true; SlatepackAddress address; };
struct Flaky : Node { bool down = false; u64 GetChainHeight() const override { if (down) throw std::runtime_error("node is down"); return Node::GetChainHeight(); } };
// no Tor process: only computes addresses
struct FakeTor : ITorProcess { bool up = true; TorAddress AddListener(const ed25519_secret_key_t& k, const uint16_t) override { return TorAddressParser::FromPubKey(ED25519::CalculatePubKey(k)); } bool RemoveListener(const TorAddress&) override { return true; } std::shared_ptr<ITorConnection> Connect(const TorAddress&) override { return nullptr; } bool RetryInit() override { return up; } };
struct World {
    Ctx& c; Src& s; std::shared_ptr<Flaky> node; std::unique_ptr<Net> n; TorProcess::Ptr tor; std::map<Str, std::shared_ptr<RPCMethod>> api; std::map<Str, User> users; std::vector<Session> sessions; Str dir, outside; int refused = 0, forged = 0, logins = 0;
    std::vector<Str> names;
    World(Ctx& c) : c(c), s(c.src) {
        dir = c.scratch() + "/a"; sfs::remove_all(dir); sfs::create_directories(dir + "/b"); std::ofstream(dir + "/b/precious") << "keep"; std::ofstream(dir + "/precious") << "keep"; node = std::make_shared<Flaky>(); node->base = 1000; node->mine({}); n = std::make_unique<Net>(c, 1000, node, "a/b/net"); open();
        names = { "alice", "bob", "carol", "Bob", "ALICE", " bob ", "dave jr", "a" }; int odd = (int)s.below(3); if (odd) for (Str x : std::vector<Str>{ "", ".", "..", "bob/.", "./bob", "bob/", "x/y", "../sibling", "../WALLET", "alice/..", "bob\\..", "..x", ".hidden", "é", "Ünder", Str(300, 'q'), Str(255, 'r'), Str("bob\0x", 5), Str("\0", 1), dir + "/abs", dir + "/b", "bob/wallet.db", "con", "a:b", "\xff\xfe", "bob\n", "a'b\"c", "%s", "~" }) if (s.chance(1, 3)) names.push_back(x);
    }
    ~World() { sessions.clear(); api.clear(); n.reset(); sfs::remove_all(dir); }
    void open() {
        tor = std::make_shared<FakeTor>(); auto m = std::static_pointer_cast<IWalletManager>(n->mgr);
        api = { { "create_wallet", std::make_shared<CreateWalletHandler>(m, tor) }, { "restore_wallet", std::make_shared<RestoreWalletHandler>(m, tor) }, { "login", std::make_shared<LoginHandler>(m, tor) }, { "logout", std::make_shared<LogoutHandler>(m) }, { "send", std::make_shared<SendHandler>(tor, m) }, { "receive", std::make_shared<ReceiveHandler>(m) }, { "finalize", std::make_shared<FinalizeHandler>(tor, m) }, { "retry_tor", std::make_shared<RetryTorHandler>(tor, m) }, { "delete_wallet", std::make_shared<DeleteWalletHandler>(m) }, { "get_wallet_seed", std::make_shared<GetWalletSeedHandler>(m) }, { "cancel_tx", std::make_shared<CancelTxHandler>(m) }, { "get_balance", std::make_shared<GetBalanceHandler>(m) }, { "list_txs", std::make_shared<ListTxsHandler>(m) }, { "list_outputs", std::make_shared<ListOutputsHandler>(m) }, { "repost_tx", std::make_shared<RepostTxHandler>(tor, m) }, { "estimate_fee", std::make_shared<EstimateFeeHandler>(m) }, { "scan_for_outputs", std::make_shared<ScanForOutputsHandler>(m) }, { "list_wallets", std::make_shared<ListWalletsHandler>(m) }, { "get_wallet_address", std::make_shared<GetWalletAddressHandler>(m) }, { "get_new_wallet_address", std::make_shared<GetNewWalletAddressHandler>(m, tor) } };
    }
    struct Ans { bool ok; Json::Value v; Str err; };
    Ans call(const Str& m, const Json::Value& p) { try { auto r = api.at(m)->Handle(RPC::Request::BuildRequest(m, p)); if (r.GetError()) return { false, Json::Value(), r.GetError()->GetMsg() }; return { true, r.GetResult().value_or(Json::Value()), "" }; } catch (const std::exception& e) { return { false, Json::Value(), e.what() }; } }
    static Json::Value who(const Str& u, const Str& pw) { Json::Value j; j["username"] = u; j["password"] = pw; return j; }
    static Json::Value tok(const Str& t) { Json::Value j; j["session_token"] = t; return j; }
    SlatepackAddress addressOf(const User& u) { return SlatepackAddress(KeyChain::FromSeed(u.seed).DeriveED25519Key(KeyChainPath::FromString("m/0/1").GetChild(u.addr)).public_key); }
    Str password() { switch (s.below(6)) { case 0: return s.pick<Str>({ "p", "P", "p ", " p", "pp", "pass word", "pässword", "0" }); case 1: return Str(1 + s.below(100), 'z'); default: { Bytes b = uniq(s, 1 + s.below(12)); return hx(b); } } }
    // a wrong password close to the right one
    Str wrong(const Str& pw) { Str w = pw; switch (s.below(9)) { case 0: w += s.pick<Str>({ "x", " ", "\n", Str("\0", 1) }); break; case 1: w.pop_back(); break; case 2: w[s.below(w.size())] ^= (char)(1 << s.below(7)); break; case 3: w = ""; break; case 4: w = " " + w; break; case 5: w = low(w) == w ? w + w : low(w); break; case 6: if (!users.empty()) { auto it = users.begin(); std::advance(it, s.below(users.size())); w = it->second.pw; } break; case 7: w = password(); break; default: std::reverse(w.begin(), w.end()); } if (w == pw) w += "!"; return w; }
    Session* live() { std::vector<size_t> v; for (size_t i = 0; i < sessions.size(); i++) if (sessions[i].live) v.push_back(i); return v.empty() ? nullptr : &sessions[v[s.below(v.size())]]; }
    size_t open(const Str& u) { size_t k = 0; for (auto& x : sessions) k += x.live && x.user == u; return k; }
    // what a wallet holds, told through one of its sessions
    Str state(const Session& x) { SessionToken t = SessionToken::FromBase64(x.token); auto r = n->mgr->m_sessionManager.Read(); auto& u = users.at(x.user); auto w = r->GetWallet(t); auto p = w.Read(); auto d = p->m_walletDB.Read(); Str o = std::to_string(d->GetCurrentAddressIndex(KeyChainPath::FromString("m/0/0"))) + " "; std::vector<Str> v; for (auto& e : d->GetOutputs(u.seed)) v.push_back(show(e)); for (auto& e : d->GetTransactions(u.seed)) v.push_back(show(e)); std::sort(v.begin(), v.end()); for (auto& e : v) o += e + "|"; return o; }
    std::map<Str, Str> states(const Str& except = "\1") { std::map<Str, Str> m; for (auto& x : sessions) if (x.live && x.user != except && !m.count(x.user)) m[x.user] = state(x); return m; }
    // every file below the scratch directory, except the databases of the users there are
    Str tree() { Str o; Str w = n->cfg->GetWalletPath().u8string(); std::vector<Str> v; for (auto& e : sfs::recursive_directory_iterator(c.scratch())) { Str p = e.path().string(); if (p.rfind(w + "/", 0) == 0) { Str rest = p.substr(w.size() + 1); if (rest.size() > 5 && rest.find("/") != rest.npos && rest.find("wallet.db") != rest.npos) continue; } Str h; if (e.is_regular_file()) { std::ifstream f(p, std::ios::binary); std::stringstream b; b << f.rdbuf(); Str t = b.str(); h = Hasher::Blake2b(Bytes(t.begin(), t.end())).ToHex().substr(0, 12); } v.push_back(p + " " + h); } std::sort(v.begin(), v.end()); for (auto& x : v) o += x + "\n"; return o; }
    void invariant() {
        auto r = call("list_wallets", Json::Value()); REQUIRE_MSG(r.ok, "the wallets cannot be listed: " << r.err); std::set<Str> got, want; for (auto& x : r.v["wallets"]) REQUIRE(got.insert(x.asString()).second); for (auto& u : users) want.insert(u.first); if (got != want) { Str g, w; for (auto& x : got) g += printable(x) + " "; for (auto& x : want) w += printable(x) + " "; REQUIRE_MSG(false, "the wallets listed are " << g << "but those made are " << w); }
        for (auto& x : sessions) { if (!x.live) continue; SessionToken t = SessionToken::FromBase64(x.token); SecureVector seed; try { seed = n->mgr->m_sessionManager.Read()->GetSeed(t); } catch (const std::exception& e) { REQUIRE_MSG(false, "the token of an open session of " << x.user << " is refused: " << e.what()); } REQUIRE_MSG(seed == users.at(x.user).seed, "a session of " << x.user << " has another seed"); }
        std::set<Str> disk; for (auto& e : sfs::directory_iterator(n->cfg->GetWalletPath().u8string())) disk.insert(e.path().filename().string()); REQUIRE_MSG(disk == want, "the wallet directory holds something other than the wallets: " << [&] { Str o; for (auto& x : disk) if (!want.count(x)) o += printable(x) + " "; return o; }()); std::ifstream f(dir + "/precious"), g(dir + "/b/precious"); Str a, b; f >> a; g >> b; REQUIRE_MSG(a == "keep" && b == "keep", "files outside the wallet directory changed"); std::set<Str> out; for (Str d : { dir, dir + "/b" }) for (auto& e : sfs::directory_iterator(d)) out.insert(e.path().filename().string()); REQUIRE_MSG(out == (std::set<Str>{ "b", "precious", "net" }), "something was made outside the wallet directory");
    }
    void opened(const Json::Value& v, const Str& u, bool fresh) { logins++; Session x; x.token = v["session_token"].asString(); x.user = u; for (auto& o : sessions) REQUIRE_MSG(o.token != x.token, "a token was issued twice"); x.address = addressOf(users.at(u)); REQUIRE_MSG(v["slatepack_address"].asString() == x.address.ToString(), "logged in as " << u << " with address " << v["slatepack_address"].asString() << " instead of " << x.address.ToString()); sessions.push_back(x); (void)fresh; }
    void create(bool restore) {
        Str typed = s.pick<Str>(names), name = low(trim(typed)), pw = s.chance(1, 10) ? "" : password(); int num = s.chance(1, 8) ? (int)s.below(30) : s.pick<int>({ 12, 15, 18, 21, 24 }); Json::Value j = who(typed, pw); Str words; SecureVector seed; bool okWords = num >= 12 && num <= 24 && num % 3 == 0;
        if (restore) { if (s.chance(1, 3) && !users.empty()) { auto it = users.begin(); std::advance(it, s.below(users.size())); words = it->second.words; seed = it->second.seed; okWords = true; } else { Bytes e = uniq(s, 4 * s.range(4, 8)); seed = SecureVector(e.begin(), e.end()); auto m = Mnemonic::CreateMnemonic(e.data(), e.size()); words = Str(m.begin(), m.end()); okWords = true; if (s.chance(1, 5)) { words = words.substr(0, words.size() - 1 - s.below(5)); okWords = false; } } j["wallet_seed"] = words; } else j["num_seed_words"] = num;
        Str before = tree(); auto st = states(); auto r = call(restore ? "restore_wallet" : "create_wallet", j); c.log << "; " << (restore ? "restore " : "create ") << printable(typed) << (r.ok ? "" : " refused");
        bool possible = !users.count(name) && !pw.empty() && okWords && component(name);
        if (r.ok) { REQUIRE_MSG(possible, "a wallet was made for " << printable(typed) << (users.count(name) ? " although there is one" : pw.empty() ? " with an empty password" : !okWords ? " with " + std::to_string(num) + " words" : "")); User u; u.name = name; u.pw = pw; if (restore) { u.seed = seed; u.words = words; } else { u.words = r.v["wallet_seed"].asString(); size_t k = 1 + std::count(u.words.begin(), u.words.end(), ' '); REQUIRE_EQ((int)k, num); u.seed = Mnemonic::ToEntropy(SecureString(u.words.c_str())); for (auto& o : users) REQUIRE_MSG(o.second.seed != u.seed, "two wallets were given the same seed"); } users[name] = u; opened(r.v, name, true); }
        else { refused++; REQUIRE_MSG(!(possible && plain(name)), "no wallet could be made for " << printable(typed) << ": " << r.err); REQUIRE_MSG(tree() == before, "a refused creation of " << printable(typed) << " left a trace"); }
        same(st, r.ok ? name : "\1");
    }
    void same(const std::map<Str, Str>& was, const Str& except) { auto now = states(); for (auto& x : was) if (x.first != except && now.count(x.first)) REQUIRE_MSG(now[x.first] == x.second, "the wallet of " << x.first << " changed: " << x.second << " -> " << now[x.first]); }
    void login() {
        Str typed = s.chance(3, 4) && !users.empty() ? [&] { auto it = users.begin(); std::advance(it, s.below(users.size())); Str x = it->first; if (s.chance(1, 4)) for (auto& ch : x) ch = (char)toupper(ch); return x; }() : s.pick<Str>(names); Str name = low(typed); auto it = users.find(name); Str pw = it == users.end() ? password() : it->second.pw; bool right = it != users.end() && s.chance(3, 5); if (!right) pw = wrong(pw); node->down = s.chance(1, 12); auto st = states(); Str before = tree(); auto r = call("login", who(typed, pw)); bool down = node->down; node->down = false; c.log << "; login " << printable(typed) << (right ? "" : " (wrong)") << (down ? " (node down)" : "") << (r.ok ? "" : " refused");
        if (r.ok) { REQUIRE_MSG(right, "logged in as " << printable(typed) << " with password " << printable(pw) << (it == users.end() ? ", who does not exist" : " instead of " + printable(it->second.pw))); opened(r.v, name, false); } else { refused++; REQUIRE_MSG(!right || down, "the right password of " << printable(typed) << " is refused: " << r.err); REQUIRE_MSG(tree() == before, "a refused login left a trace"); if (it != users.end()) same(st, "\1"); }
        REQUIRE_EQ(n->mgr->m_sessionManager.Read()->m_sessionsById.size(), [&] { size_t k = 0; for (auto& x : sessions) k += x.live; return k; }());
    }
    void logout() { if (sessions.empty()) return; auto& x = sessions[s.below(sessions.size())]; bool was = x.live; auto st = states(); call("logout", tok(x.token)); c.log << "; logout " << x.user << (was ? "" : " again"); x.live = false; same(st, "\1"); refuses(x.token, "logged-out"); }
    // a token that is no open session's
    Str forge() {
        Session* base = sessions.empty() ? nullptr : &sessions[s.below(sessions.size())]; Bytes raw = base ? cppcodec::base64_rfc4648::decode(base->token) : s.bytes(44); std::vector<Str> dead; for (auto& x : sessions) if (!x.live) dead.push_back(x.token);
        switch (s.below(11)) { case 0: raw[8 + s.below(raw.size() - 8)] ^= (uint8_t)(1 << s.below(8)); break; case 1: raw.resize(8 + s.below(raw.size() - 8)); break; case 2: { Bytes x = s.bytes(1 + s.below(40)); raw.insert(raw.end(), x.begin(), x.end()); break; } case 3: raw[7] += (uint8_t)(1 + s.below(3)); break; case 4: raw[7] -= (uint8_t)(1 + s.below(3)); break; case 5: if (sessions.size() > 1) { Bytes o = cppcodec::base64_rfc4648::decode(sessions[s.below(sessions.size())].token); std::copy(o.begin(), o.begin() + 8, raw.begin()); } break; case 6: { Bytes k = s.bytes(raw.size() - 8); std::copy(k.begin(), k.end(), raw.begin() + 8); break; } case 7: raw.resize(s.below(9)); break; case 8: if (!dead.empty()) return s.pick<Str>(dead); raw = s.bytes(s.below(60)); break; case 9: return s.pick<Str>({ "", "AAAA", "!!!!", "null", "====", Str(5000, 'A'), "AAAAAAAAAAA=" }); default: std::fill(raw.begin() + 8, raw.end(), 0); }
        return cppcodec::base64_rfc4648::encode(raw);
    }
    bool isLive(const Str& t) { Bytes raw; try { raw = cppcodec::base64_rfc4648::decode(t); } catch (const std::exception&) { return false; } for (auto& x : sessions) if (x.live && cppcodec::base64_rfc4648::decode(x.token) == raw) return true; return false; }
    Json::Value args(const Str& m, const Str& t) { Json::Value j = tok(t); if (m == "send" || m == "estimate_fee") { j["amount"] = Json::UInt64(1 + s.below(3000000)); j["fee_base"] = Json::UInt64(s.below(100)); j["change_outputs"] = 1; j["selection_strategy"]["strategy"] = "SMALLEST"; } if (m == "cancel_tx" || m == "repost_tx") j["tx_id"] = Json::UInt64(s.below(4)); if (m == "repost_tx") j["method"] = "FLUFF"; if (m == "receive" || m == "finalize") { Slate sl; sl.amount = 5; j["slate"] = sl.ToJSON(); } return j; }
    Str method() { return s.pick<Str>({ "get_balance", "list_txs", "list_outputs", "scan_for_outputs", "get_wallet_address", "get_new_wallet_address", "send", "estimate_fee", "cancel_tx", "repost_tx", "receive", "finalize", "retry_tor" }); }
    void refuses(const Str& t, const char* what) { if (isLive(t)) return; auto st = states(); Str m = method(); auto r = call(m, args(m, t)); c.log << "; " << m << " with a " << what << " token"; forged++; REQUIRE_MSG(!r.ok, m << " is answered for a " << what << " token: " << JsonUtil::WriteCondensed(r.v)); same(st, "\1"); SessionToken k(0, Bytes()); try { k = SessionToken::FromBase64(t); } catch (const std::exception&) { return; } for (int i = 0; i < 5; i++) { bool ok = true; try { switch (i) { case 0: n->mgr->GetWallet(k); break; case 1: n->mgr->CheckForOutputs(k, false); break; case 2: n->mgr->IncreaseAddressKeyChainPathIndex(k); break; case 3: n->mgr->AddTorListener(k, KeyChainPath::FromString("m/0/1/0"), tor); break; default: n->mgr->RemoveCurrentTorListener(k, tor); } } catch (const std::exception&) { ok = false; } static const char* nm[] = { "GetWallet", "CheckForOutputs", "IncreaseAddressKeyChainPathIndex", "AddTorListener", "RemoveCurrentTorListener" }; REQUIRE_MSG(!ok, nm[i] << " accepts a " << what << " token"); } same(st, "\1"); }
    void forgery() { Str t = forge(); if (isLive(t)) return; refuses(t, "forged"); if (s.flip()) { c.log << " and logout"; call("logout", tok(t)); } }
    void use() {
        Session* x = live(); if (!x) return; auto& u = users.at(x->user); Str m = method(); auto st = states(); auto r = call(m, args(m, x->token)); c.log << "; " << x->user << " " << m << (r.ok ? "" : " refused"); same(st, x->user);
        if (m == "get_wallet_address") REQUIRE_MSG(r.ok && JsonUtil::WriteCondensed(r.v).find(x->address.ToString()) != Str::npos, "the session of " << x->user << " gives address " << JsonUtil::WriteCondensed(r.v) << " instead of " << x->address.ToString());
        if (m == "get_new_wallet_address") { REQUIRE_MSG(r.ok, "no new address for " << x->user << ": " << r.err); u.addr++; x->address = addressOf(u); REQUIRE_MSG(JsonUtil::WriteCondensed(r.v).find(x->address.ToString()) != Str::npos, "the new address of " << x->user << " is " << JsonUtil::WriteCondensed(r.v) << " instead of " << x->address.ToString()); }
        if (m == "get_balance" || m == "list_outputs") { u64 sum = 0, want = 0; for (auto& o : node->utxo) { auto it = funds.find(o.first); if (it != funds.end() && it->second.first == u.seed) want += it->second.second; } REQUIRE_MSG(r.ok, m << " fails for " << x->user << ": " << r.err); if (m == "get_balance") sum = r.v["total"].asUInt64(); else for (auto& o : r.v["outputs"]) sum += o["amount"].asUInt64(); REQUIRE_MSG(sum == want, "the session of " << x->user << " sees " << sum << " instead of " << want); }
    }
    std::map<Commitment, std::pair<SecureVector, u64>> funds;
    void fund() { Session* x = live(); if (!x) return; Account a; a.name = x->user; a.seed = users.at(x->user).seed; a.token = SessionToken::FromBase64(x->token); u64 amt = 1000000 * s.range(1, 50); auto o = n->fresh(a, amt); if (node->utxo.count(o.GetCommitment())) return; funds[o.GetCommitment()] = { a.seed, amt }; node->mine({ o }); c.log << "; " << x->user << " gets " << amt; }
    void change() { Str name = s.chance(4, 5) && !users.empty() ? [&] { auto it = users.begin(); std::advance(it, s.below(users.size())); return it->first; }() : s.pick<Str>(names); auto it = users.find(low(name)); Str cur = it == users.end() ? password() : it->second.pw, next = password(); bool right = it != users.end() && s.chance(2, 3); if (!right) cur = wrong(cur); Str before = tree(); bool ok = true; try { n->mgr->ChangePassword(name, SecureString(cur.begin(), cur.end()), SecureString(next.begin(), next.end())); } catch (const std::exception&) { ok = false; } c.log << "; password of " << printable(name) << " " << printable(cur) << " to " << printable(next) << (ok ? " changed" : " not changed"); REQUIRE_MSG(ok == right, "the password of " << printable(name) << (ok ? " was changed with a wrong one" : " cannot be changed")); if (!ok) { refused++; REQUIRE_MSG(tree() == before, "a refused change of password left a trace"); return; } Str old = it->second.pw; it->second.pw = next; if (old != next) { auto r = call("get_wallet_seed", who(name, old)); REQUIRE_MSG(!r.ok, "the old password of " << name << " still opens its seed"); } auto r = call("get_wallet_seed", who(name, next)); REQUIRE_MSG(r.ok && r.v["wallet_seed"].asString() == it->second.words, "after a change of password the seed of " << name << " is " << (r.ok ? "another" : r.err)); }
    void seedOf() { Str name = s.chance(3, 4) && !users.empty() ? [&] { auto it = users.begin(); std::advance(it, s.below(users.size())); return it->first; }() : s.pick<Str>(names); auto it = users.find(low(name)); Str pw = it == users.end() ? password() : it->second.pw; bool right = it != users.end() && s.flip(); if (!right) pw = wrong(pw); Str before = tree(); auto r = call("get_wallet_seed", who(name, pw)); c.log << "; seed of " << printable(name) << (r.ok ? "" : " refused"); REQUIRE_MSG(r.ok == right, "the seed of " << printable(name) << (r.ok ? " is given for a wrong password" : " is not given for the right password: " + r.err)); if (r.ok) REQUIRE_MSG(r.v["wallet_seed"].asString() == it->second.words, "the words of " << name << " changed"); else { refused++; REQUIRE_MSG(tree() == before, "a refused request for the seed left a trace"); } }
    void remove() { Str name = s.chance(3, 4) && !users.empty() ? [&] { auto it = users.begin(); std::advance(it, s.below(users.size())); return it->first; }() : s.pick<Str>(names); auto it = users.find(low(name)); Str pw = it == users.end() ? password() : it->second.pw; bool right = it != users.end() && s.chance(2, 3); if (it == users.end() && !users.empty() && s.flip()) pw = users.begin()->second.pw; else if (!right) pw = wrong(pw); Str before = tree(); auto st = states(); bool in = it != users.end() && open(it->first); auto r = call("delete_wallet", who(name, pw)); c.log << "; delete " << printable(name) << (right ? "" : " (wrong)") << (in ? " (logged in)" : "") << (r.ok ? "" : " refused"); REQUIRE_MSG(r.ok == (right && !in), "the wallet of " << printable(name) << (r.ok ? in ? " is deleted while logged in" : " is deleted with a wrong password" : " cannot be deleted: " + r.err)); if (r.ok) { for (auto f = funds.begin(); f != funds.end();) ++f; users.erase(it); } else { refused++; REQUIRE_MSG(tree() == before, "a refused deletion changed something"); } same(st, "\1"); }
    void restart() { n->stop(); for (auto& x : sessions) x.live = false; n->start(); open(); c.log << "; restart"; if (!sessions.empty()) refuses(sessions[s.below(sessions.size())].token, "old"); }
    void step() { switch (s.below(18)) { case 0: case 1: create(false); break; case 2: create(true); break; case 3: case 4: case 5: login(); break; case 6: logout(); break; case 7: case 8: forgery(); break; case 9: case 10: case 11: use(); break; case 12: fund(); break; case 13: change(); break; case 14: seedOf(); break; case 15: case 16: remove(); break; default: if (s.chance(1, 3)) restart(); else use(); } invariant(); }
};
static void history(Ctx& c) { World w(c); size_t k = 6 + c.src.below(25); while (k--) w.step(); for (auto& u : w.users) { auto r = w.call("get_wallet_seed", World::who(u.first, u.second.pw)); REQUIRE_MSG(r.ok && r.v["wallet_seed"].asString() == u.second.words, "at the end the seed of " << printable(u.first) << " cannot be had back"); } w.n->stop(); w.sessions.clear(); w.n->start(); w.open(); for (auto& u : w.users) { auto r = w.call("login", World::who(u.first, u.second.pw)); REQUIRE_MSG(r.ok, "after a restart " << printable(u.first) << " cannot log in: " << r.err); w.opened(r.v, u.first, false); } w.invariant(); c.nontrivial(w.logins > 1 && w.refused + w.forged > 1); if (w.forged) c.label("forged tokens"); if (w.users.size() > 1) c.label("several users"); }
void pbt::setup(Check& c) {
    c.id = "C39"; c.rule = "non-trivial: at least two logins and two refusals"; c.workerInit = env::workerDefault; c.quickCases = 3000; c.thoroughCases = 100000; c.quickCap = 25; c.parts = { { "history", 1, history } };
    c.assumptions = { "scrypt is replaced by a cheap function of the same arguments (the real one is covered by C28)", "no listener is started and no Tor process runs: the stand-ins only count sessions and compute addresses", "signatures and range proofs through the algebraic stand-in for secp256k1-zkp" };
}
