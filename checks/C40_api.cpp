// C40: API parameters, JSON-RPC envelopes, whole requests and responses, generated and then damaged, against a model of what they say
#include "mgstub.h"
#include "walletnet.h"
#include "Wallet/Keychain/Mnemonic.h"
#include <Common/Logger.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <poll.h>
#include <sys/syscall.h>
#include <unistd.h>
#define private public
#include <API/Wallet/Owner/OwnerServer.h>
#include <API/Wallet/Foreign/ForeignServer.h>
#undef private
#include <API/Wallet/Owner/Models/CancelTxCriteria.h>
#include <API/Wallet/Owner/Models/CreateWalletCriteria.h>
#include <API/Wallet/Owner/Models/DeleteWalletCriteria.h>
#include <API/Wallet/Owner/Models/GetSeedPhraseCriteria.h>
#include <API/Wallet/Owner/Models/ListTxsCriteria.h>
#include <API/Wallet/Owner/Models/LoginCriteria.h>
#include <API/Wallet/Owner/Models/RepostTxCriteria.h>
#include <API/Wallet/Owner/Models/RestoreWalletCriteria.h>
#include <API/Wallet/Owner/Models/SendCriteria.h>
#include <API/Wallet/Owner/Models/SendResponse.h>
#include <API/Wallet/Owner/Models/FinalizeCriteria.h>
#include <API/Wallet/Foreign/Models/BuildCoinbaseCriteria.h>
#include <API/Wallet/Foreign/Models/CheckVersionResponse.h>
#include <API/Wallet/Foreign/Models/FinalizeTxRequest.h>
#include <API/Wallet/Foreign/Models/FinalizeTxResponse.h>
#include <API/Wallet/Foreign/Models/ReceiveTxRequest.h>
#include <API/Wallet/Foreign/Models/ReceiveTxResponse.h>
#include <API/Wallet/Foreign/Clients/CheckVersionClient.h>
#include <API/Wallet/Foreign/Clients/ReceiveTxClient.h>
#include <Net/Connections/HttpConnection.h>
#include <Wallet/Models/DTOs/FeeEstimateDTO.h>
#include <Wallet/Models/DTOs/WalletBalanceDTO.h>
#include <Net/Tor/TorProcess.h>
using namespace wn;
int crypto_scrypt(const uint8_t* pw, size_t pl, const uint8_t* salt, size_t sl, uint64_t N, uint32_t r, uint32_t p, uint8_t* buf, size_t len) { Serializer o; o.Append<u64>(pl); o.AppendByteVector(Bytes(pw, pw + pl)); o.Append<u64>(sl); o.AppendByteVector(Bytes(salt, salt + sl)); o.Append<u64>(N); o.Append<u32>(r); o.Append<u32>(p); Bytes in = o.GetBytes(), out; for (uint8_t i = 0; out.size() < len; i++) { in.push_back(i); Bytes h = Hasher::Blake2b(in).GetData(); out.insert(out.end(), h.begin(), h.end()); } memcpy(buf, out.data(), len); return 0; }
// the client pauses a second before each connection
extern "C" int nanosleep(const struct timespec* t, struct timespec* r) { if (t->tv_sec == 1 && t->tv_nsec == 0) return 0; return (int)syscall(SYS_nanosleep, t, r); }
extern "C" int clock_nanosleep(clockid_t k, int f, const struct timespec* t, struct timespec* r) { if (t->tv_sec == 1 && t->tv_nsec == 0 && f == 0) return 0; return syscall(SYS_clock_nanosleep, k, f, t, r) ? errno : 0; }
// everything logged since the last call
static Str logDir;
static Str logged() {
    static u64 k = 0; static std::map<Str, Str> last; Str mark = "verif-mark-" + std::to_string(++k) + ";", out; LoggerAPI::Log(LoggerAPI::LogFile::NODE, LoggerAPI::LogLevel::ERR, mark); LoggerAPI::Log(LoggerAPI::LogFile::WALLET, LoggerAPI::LogLevel::ERR, mark); LoggerAPI::Flush();
    for (Str f : { "Node", "Wallet" }) for (int tries = 0;; tries++) { Str all; for (Str p : { f + ".2.log", f + ".1.log", f + ".log" }) { std::ifstream i(logDir + "/" + p, std::ios::binary); std::stringstream b; b << i.rdbuf(); all += b.str(); } if (all.find(mark) == Str::npos) { REQUIRE_MSG(tries < 20000, "the log does not arrive"); usleep(500); continue; } Str& was = last[f]; size_t from = was.empty() ? 0 : all.find(was); out += all.substr(from == Str::npos ? 0 : from); was = mark; break; }
    return out;
}
static void workerInit() { env::workerDefault(); char b[4096]; if (!getcwd(b, sizeof b)) abort(); logDir = Str(b) + "/logs"; LoggerAPI::Initialize(fs::path(logDir), "TRACE"); }
typedef Json::Value J;
static Str txt(const J& j) { Json::StreamWriterBuilder b; b["indentation"] = ""; return Json::writeString(b, j); }
static J norm(const J& j) { J o; JsonUtil::Parse(txt(j), o); return o; }
static bool alike(const J& a, const J& b) { return txt(norm(norm(a))) == txt(norm(norm(b))); }
static Str shown(const Str& s) { Str o; char t[8]; for (unsigned char ch : s.substr(0, 600)) if (ch < 32 || ch > 126) { snprintf(t, 8, "\\x%02x", ch); o += t; } else o += ch; if (s.size() > 600) o += "...(" + std::to_string(s.size()) + ")"; return o; }
enum Verdict { ABSENT, OK, BAD, ANY };
struct V { J j; Verdict v = ABSENT; u64 n = 0; Str s; void put(J& o, const char* k) const { if (v != ABSENT || j.isBool()) o[k] = j; } };
static J junk(Src& s, int depth = 0) { switch (s.below(depth > 2 ? 9 : 11)) { case 0: return J(); case 1: return J(s.flip()); case 2: return J(Json::UInt64(s.edgy64())); case 3: return J(Json::Int64((int64_t)s.edgy64())); case 4: return J((double)s.range(0, 100000) / 8); case 5: return J(s.pick<double>({ 1e300, -1e300, 1e-300, 18446744073709551616.0, -0.0 })); case 6: return J(s.text("aA0-.e{}[]\"\\ ", 12)); case 7: return J(std::to_string(s.edgy64())); case 8: { Bytes b = s.bytes(s.below(40)); return J(Str(b.begin(), b.end())); } case 9: { J a(Json::arrayValue); size_t n = s.below(4); while (n--) a.append(junk(s, depth + 1)); return a; } default: { J o(Json::objectValue); size_t n = s.below(4); while (n--) o[s.text("abc", 3)] = junk(s, depth + 1); return o; } } }
// an unsigned integer of so many bits, or something that is not one
static V num(Src& s, int bits, bool required, bool plain = false) {
    V f; u64 max = bits == 64 ? UINT64_MAX : (1ULL << bits) - 1; u64 v = s.flip() ? s.below(20) : s.edgy64() & max; if (s.chance(1, 12)) v = max; f.n = v; f.v = OK; if (plain) { f.j = J(Json::UInt64(v)); return f; }
    switch (s.below(14)) { case 0: f.j = J(std::to_string(v)); break; case 1: f.v = ABSENT; break; case 2: f.j = J(); f.v = ABSENT; break; case 3: if (bits < 64) { f.j = J(Json::UInt64(max + 1 + (s.flip() ? v : s.edgy64() % (UINT64_MAX - max)))); f.v = BAD; if (f.j.asUInt64() <= max) f.j = J(Json::UInt64(max + 1)); if (s.flip()) f.j = J(std::to_string(f.j.asUInt64())); break; } f.j = J(s.pick<Str>({ "18446744073709551616", "99999999999999999999", "36893488147419103232" })); f.v = BAD; break;
        case 4: f.j = J(Json::Int64(-1 - (int64_t)(v >> 1))); f.v = BAD; break; case 5: f.j = J(s.pick<double>({ 0.5, 1.5, -2.25, 1e300, 18446744073709551616.0 })); f.v = BAD; break; case 6: f.j = J((double)(v & 0xffff)); f.n = v & 0xffff; f.v = f.n <= max ? ANY : BAD; break; case 7: f.j = J(s.pick<Str>({ "", "-1", "+1", "1a", "0x10", " 5", "5 ", "1.0", "1e3", "٣", "-0", "NaN", "true", "1,000" })); f.v = BAD; break; case 8: f.j = junk(s); f.v = f.j.isArray() || f.j.isObject() || f.j.isBool() ? BAD : f.j.isNull() ? ABSENT : ANY; if (f.j.isString()) f.v = ANY; break; case 9: f.j = J("000" + std::to_string(v)); f.v = ANY; break; case 10: f.j = J(s.flip()); f.v = BAD; break; default: f.j = J(Json::UInt64(v)); }
    if (f.v == ABSENT && required) f.v = BAD;
    return f;
}
// a string of the given choices, or something that is not one
static V str(Src& s, bool required, const Str& good, bool plain = false) { V f; f.s = good; f.v = OK; f.j = J(good); if (plain) return f; switch (s.below(12)) { case 0: f.v = required ? BAD : ABSENT; f.j = J(); break; case 1: f.j = s.flip() ? J(Json::arrayValue) : J(Json::objectValue); if (s.flip()) { if (f.j.isArray()) f.j.append(good); else f.j[good] = good; } f.v = BAD; break; case 2: f.j = s.flip() ? J(s.flip()) : J(Json::UInt64(s.u64())); f.v = ANY; break; default: break; } return f; }
static V one(Src& s, bool required, std::vector<Str> set) { V f = str(s, required, s.pick<Str>(set)); if (f.v == OK && s.chance(1, 6)) { Str x = s.pick<Str>({ "", "x", f.s + " ", " " + f.s, f.s.substr(0, f.s.size() - 1), "smallest", "Fluff", "NULL" }); if (std::find(set.begin(), set.end(), x) == set.end()) { f.j = J(x); f.s = x; f.v = BAD; } } return f; }
static V token(Src& s, Bytes& raw) { raw = uniq(s, 8 + s.below(60)); for (int i = 0; i < 8; i++) raw[i] = (uint8_t)s.below(256); Str b = SessionToken(0, Bytes()).ToBase64(); V f = str(s, true, cppcodec::base64_rfc4648::encode(raw)); if (f.v == ANY) f.v = BAD, f.j = J(true); if (f.v == OK && s.chance(1, 8)) { f.j = J(s.pick<Str>({ "", "!!!!", "AAA", "AAAA", "AAAAAAA=", "AA AAAAAAAAAA==" })); f.v = BAD; } return f; }
static bool all(std::initializer_list<V> f, bool& any) { bool ok = true; for (auto& x : f) { if (x.v == BAD) ok = false; if (x.v == ANY) any = true; } return ok; }
static V commits(Src& s, std::set<Commitment>& want) {
    V f; f.v = OK; switch (s.below(8)) { case 0: f.v = ABSENT; return f; case 1: f.j = s.pick<J>({ J("abc"), J(true), J(5), J(1.5), J(Json::objectValue) }); if (f.j.isObject()) { if (s.flip()) f.j["a"] = gen::commit(s).ToHex(); } f.v = BAD; return f; default: break; }
    f.j = J(Json::arrayValue); size_t n = s.below(5); for (size_t i = 0; i < n; i++) { Commitment c = gen::commit(s); want.insert(c); Str h = c.ToHex(); f.j.append(h); if (s.chance(1, 6)) f.j.append(h); } if (n && s.chance(1, 6)) { Str h = f.j[0].asString(); f.j[(unsigned)s.below(f.j.size())] = s.pick<J>({ J(h + "00"), J(h.substr(2)), J(h.substr(1)), J("g" + h.substr(1)), J(), J(""), J(Json::arrayValue), J(7) }); f.v = BAD; } return f;
}
static V strategy(Src& s, Str& name, std::set<Commitment>& in) { V f; f.v = OK; V k = one(s, true, { "SMALLEST", "FEWEST_INPUTS", "CUSTOM", "ALL" }); V i = commits(s, in); bool any = false; bool ok = all({ k, i }, any); f.j = J(Json::objectValue); if (!k.j.isNull()) f.j["strategy"] = k.j; if (!i.j.isNull()) f.j["inputs"] = i.j; name = k.s; f.v = !ok ? BAD : any ? ANY : OK; if (s.chance(1, 10)) { f.j = s.pick<J>({ J(), J("SMALLEST"), J(3), J(Json::arrayValue), J(true) }); f.v = BAD; } return f; }
static V post(Src& s, Str& name, Str& addr) { V f; if (s.flip()) return f; V m = one(s, true, { "FLUFF", "STEM", "JOIN" }); V a; Bytes kb = uniq(s, 32); ed25519_public_key_t k = ED25519::CalculateKeypair(SecretKey(CBigInteger<32>(kb.data()))).public_key; if (s.flip()) { a = str(s, false, TorAddressParser::FromPubKey(k).ToString()); if (a.v == ANY) a.v = BAD, a.j = J(Json::arrayValue); } bool any = false, ok = all({ m, a }, any); f.j = J(Json::objectValue); if (!m.j.isNull()) f.j["method"] = m.j; if (!a.j.isNull()) f.j["grinjoin_address"] = a.j; name = m.s; addr = a.v == OK ? a.s : ""; f.v = ok ? any ? ANY : OK : BAD; return f; }
template <class F> static void parses(Ctx& c, const J& j, bool ok, bool any, const char* what, F fn) { bool got = false; Str err; try { fn(); got = true; } catch (const pbt::Failure&) { throw; } catch (const std::exception& e) { err = e.what(); } c.label(any ? "lenient" : ok ? "good" : "bad"); if (any) return; REQUIRE_MSG(got == ok, what << (ok ? " refuses " : " accepts ") << shown(txt(j)) << (ok ? ": " + err : "")); }
static void extra(Src& s, J& j) { if (s.chance(1, 5)) j["zz_unknown"] = junk(s); }
#define SAME(a, b) do { if (good) REQUIRE_MSG((a) == (b), what << " " << shown(txt(j)) << ": " << #a << " is not as given"); } while (0)
static void models(Ctx& c) {
    auto& s = c.src; Bytes raw; bool any = false; J j(Json::objectValue); V t = token(s, raw); auto tok = [&](const SessionToken& x) { return x.ToBase64() == t.s; }; c.nontrivial();
    switch (s.below(12)) {
    case 0: { const char* what = "cancel_tx"; V id = num(s, 32, true); bool ok = all({ t, id }, any), good = ok && !any; t.put(j, "session_token"); id.put(j, "tx_id"); extra(s, j); c.log << what << " " << shown(txt(j)); parses(c, j, ok, any, what, [&] { auto x = CancelTxCriteria::FromJSON(j); SAME(tok(x.GetToken()), true); SAME(x.GetTxId(), (u32)id.n); auto y = CancelTxCriteria::FromJSON(x.ToJSON()); REQUIRE(y.GetTxId() == x.GetTxId() && y.GetToken().ToBase64() == x.GetToken().ToBase64()); }); break; }
    case 1: { const char* what = "repost_tx"; V id = num(s, 32, true); V m = one(s, true, { "FLUFF", "STEM", "JOIN" }); bool ok = all({ t, id, m }, any), good = ok && !any; t.put(j, "session_token"); id.put(j, "tx_id"); m.put(j, "method"); extra(s, j); c.log << what << " " << shown(txt(j)); parses(c, j, ok, any, what, [&] { auto x = RepostTxCriteria::FromJSON(j); SAME(tok(x.GetToken()), true); SAME(x.GetTxId(), (u32)id.n); SAME(PostMethod::ToString(x.GetMethod()), m.s); SAME(x.GetGrinJoinAddress().has_value(), false); }); break; }
    case 2: case 3: {
        const char* what = "list_txs"; bool ok = t.v != BAD; any = t.v == ANY; t.put(j, "session_token"); std::unordered_set<u32> ids; std::set<Str> st;
        if (s.flip()) { if (s.chance(1, 8)) { j["ids"] = s.pick<J>({ J(5), J("5"), J(true), J(Json::objectValue), J(0.5) }); ok = false; } else { J a(Json::arrayValue); size_t n = s.below(5); while (n--) { V x = num(s, 32, true, s.chance(3, 4)); a.append(x.j); if (x.v == BAD) ok = false; if (x.v == ANY) any = true; ids.insert((u32)x.n); } j["ids"] = a; } }
        std::optional<u64> from, to; bool vague = false; for (int e = 0; e < 2; e++) if (s.flip()) { V x = num(s, 64, true); if (x.v == OK && s.chance(3, 4)) { x.n = s.below(4000000000000ULL); x.j = J(Json::UInt64(x.n)); } const char* k = e ? "end_range_ms" : "start_range_ms"; if (x.v == BAD && x.j.isNull()) { x.n = 7; x.j = J(7); x.v = OK; } j[k] = x.j; if (x.v == BAD) ok = false; if (x.v == ANY) any = true, x.n = 0; (e ? to : from) = x.n; if (x.v == ANY) vague = true; }
        if (s.flip()) { J a(Json::arrayValue); size_t n = s.below(4); while (n--) { V x = one(s, true, { "COINBASE", "SENT", "RECEIVED", "SENT_CANCELED", "RECEIVED_CANCELED", "SENDING_NOT_FINALIZED", "RECEIVING_IN_PROGRESS", "SENDING_FINALIZED" }); a.append(x.j); if (x.v == BAD) ok = false; if (x.v == ANY) ok = false; st.insert(x.s); } j["statuses"] = a; if (s.chance(1, 8)) { j["statuses"] = s.pick<J>({ J("SENT"), J(1), J(Json::objectValue) }); ok = false; } }
        extra(s, j); bool good = ok && !any; c.log << what << " " << shown(txt(j)); auto ms = [](const std::optional<std::chrono::system_clock::time_point>& t) { return std::chrono::duration_cast<std::chrono::milliseconds>(t->time_since_epoch()).count(); }; const u64 lim = 9223372036854ULL; bool far = (from && *from > lim) || (to && *to > lim); if (far) any = true, good = false;
        parses(c, j, ok, any, what, [&] { auto x = ListTxsCriteria::FromJSON(j); SAME(tok(x.GetToken()), true); SAME(x.GetTxIds(), ids); if (ok) for (int e = 0; e < 2; e++) { auto& want = e ? to : from; auto& is = e ? x.GetEndRange() : x.GetStartRange(); REQUIRE(is.has_value() == want.has_value()); if (!want || vague || (any && !far)) continue; if (*want <= lim) REQUIRE_MSG((u64)ms(is) == *want, "a time of " << *want << " ms becomes " << ms(is)); else REQUIRE_MSG(ms(is) > 4102444800000LL, "the far future " << *want << " ms becomes " << ms(is)); } std::unordered_set<EWalletTxType> w; for (auto& k : st) { static const std::map<Str, EWalletTxType> m = { { "COINBASE", EWalletTxType::COINBASE }, { "SENT", EWalletTxType::SENT }, { "RECEIVED", EWalletTxType::RECEIVED }, { "SENT_CANCELED", EWalletTxType::SENT_CANCELED }, { "RECEIVED_CANCELED", EWalletTxType::RECEIVED_CANCELED }, { "SENDING_NOT_FINALIZED", EWalletTxType::SENDING_STARTED }, { "RECEIVING_IN_PROGRESS", EWalletTxType::RECEIVING_IN_PROGRESS }, { "SENDING_FINALIZED", EWalletTxType::SENDING_FINALIZED } }; auto it = m.find(k); if (it != m.end()) w.insert(it->second); } SAME(x.GetStatuses(), w); }); break; }
    case 4: case 5: case 6: {
        bool est = s.below(3) == 0; const char* what = est ? "estimate_fee" : "send"; V amt = num(s, 64, false), fee = num(s, 64, true), ch = num(s, 8, false); std::set<Commitment> in; Str sn, pn, pa; V st = strategy(s, sn, in), po, ad; if (!est) { po = post(s, pn, pa); if (s.flip()) ad = str(s, false, SlatepackAddress::Random().ToString()); } bool ok = all({ t, amt, fee, ch, st, po, ad }, any), good = ok && !any; t.put(j, "session_token"); amt.put(j, "amount"); fee.put(j, "fee_base"); ch.put(j, "change_outputs"); st.put(j, "selection_strategy"); po.put(j, "post_tx"); ad.put(j, "address"); extra(s, j); if (ch.v == ABSENT) ch.n = 1; c.log << what << " " << shown(txt(j));
        if (est) parses(c, j, ok, any, what, [&] { auto x = EstimateFeeCriteria::FromJSON(j); SAME(tok(x.GetToken()), true); SAME(x.SendEntireBalance(), amt.v == ABSENT); SAME(x.GetAmount(), amt.v == ABSENT ? 0 : amt.n); SAME(x.GetFeeBase(), fee.n); SAME((u64)x.GetNumChangeOutputs(), amt.v == ABSENT ? 0 : ch.n); SAME(SelectionStrategy::ToString(x.GetSelectionStrategy().GetStrategy()), sn); SAME(x.GetSelectionStrategy().GetInputs(), in); });
        else parses(c, j, ok, any, what, [&] { for (int k = 0; k < 2; k++) { auto x = SendCriteria::FromJSON(k ? SendCriteria::FromJSON(j).ToJSON() : j); SAME(tok(x.GetToken()), true); SAME(x.GetAmount().has_value(), amt.v == OK); if (amt.v == OK) SAME(*x.GetAmount(), amt.n); SAME(x.GetFeeBase(), fee.n); SAME((u64)x.GetNumOutputs(), ch.n); SAME(SelectionStrategy::ToString(x.GetSelectionStrategy().GetStrategy()), sn); SAME(x.GetSelectionStrategy().GetInputs(), in); SAME(x.GetAddress().has_value(), ad.v == OK); if (ad.v == OK) SAME(x.GetAddress().value_or(""), ad.s); SAME(x.GetPostMethod().has_value(), po.v == OK); if (po.v == OK && good) { SAME(PostMethod::ToString(x.GetPostMethod()->GetMethod()), pn); SAME(x.GetPostMethod()->GetGrinJoinAddress().has_value(), !pa.empty()); if (!pa.empty()) SAME(x.GetPostMethod()->GetGrinJoinAddress()->ToString(), pa); } } });
        break; }
    case 7: {
        int k = (int)s.below(5); static const char* names[] = { "create_wallet", "restore_wallet", "login", "delete_wallet", "get_wallet_seed" }; const char* what = names[k]; Str base = s.pick<Str>({ "alice", "Bob", "CAROL", "x y", "é", "a1" }), name = base; if (k < 2 && s.flip()) name = s.pick<Str>({ " ", "\t", "\n " }) + base + s.pick<Str>({ "", " ", "\r\n" }); Str low = base; for (auto& ch : low) if (ch >= 'A' && ch <= 'Z') ch += 32; Str pws = s.pick<Str>({ "", "p", "Pass Word ", " x", "\xf0\x9f\x98\x80", Str(300, 'z') }), seeds = s.pick<Str>({ "abandon ability", "", " a  b " });
        V u = str(s, true, name), p = str(s, true, pws), n, w; if (k == 0) n = num(s, 8, true); if (k == 1) w = str(s, true, seeds); bool ok = all({ u, p, n, w }, any), good = ok && !any; u.put(j, "username"); p.put(j, "password"); n.put(j, "num_seed_words"); w.put(j, "wallet_seed"); if (k == 0 && n.v == BAD && n.j.isUInt64() && n.j.asUInt64() <= INT32_MAX) any = true, good = false; if (k == 0 && n.v == BAD && n.j.isString() && n.j.asString().size() < 11) { Str z = n.j.asString(); if (!z.empty() && z.find_first_not_of("0123456789") == z.npos && std::stoull(z) <= INT32_MAX) any = true, good = false; } extra(s, j); c.log << what << " " << shown(txt(j));
        parses(c, j, ok, any, what, [&] { auto same = [&](const auto& x) { SAME((Str)x.GetUsername(), low); SAME(Str(x.GetPassword().c_str()), pws); }; if (k == 0) for (int r = 0; r < 2; r++) { auto x = CreateWalletCriteria::FromJSON(r ? CreateWalletCriteria::FromJSON(j).ToJSON() : j); same(x); SAME((u64)x.GetNumWords(), n.n); } else if (k == 1) for (int r = 0; r < 2; r++) { auto x = RestoreWalletCriteria::FromJSON(r ? RestoreWalletCriteria::FromJSON(j).ToJSON() : j); same(x); SAME(Str(x.GetSeedWords().c_str()), seeds); } else if (k == 2) { same(LoginCriteria::FromJSON(j)); same(LoginCriteria::FromJSON(LoginCriteria::FromJSON(j).ToJSON())); } else if (k == 3) { same(DeleteWalletCriteria::FromJSON(j)); same(DeleteWalletCriteria::FromJSON(DeleteWalletCriteria::FromJSON(j).ToJSON())); } else { same(GetSeedPhraseCriteria::FromJSON(j)); same(GetSeedPhraseCriteria::FromJSON(GetSeedPhraseCriteria::FromJSON(j).ToJSON())); } });
        break; }
    case 8: { const char* what = "build_coinbase"; V fee = num(s, 64, true), key; Str path = "m"; size_t d = s.below(5); while (d--) path += "/" + std::to_string(s.edgy32() & 0x7fffffff); KeyChainPath p = KeyChainPath::FromString(path); if (s.flip()) { key = str(s, false, p.ToHex()); if (key.v == ANY) key.v = BAD, key.j = J(Json::arrayValue); } bool ok = all({ t, fee, key }, any), good = ok && !any; t.put(j, "session_token"); fee.put(j, "fees"); key.put(j, "key_id"); extra(s, j); c.log << what << " " << shown(txt(j)); parses(c, j, ok, any, what, [&] { auto x = BuildCoinbaseCriteria::FromJSON(j); SAME(tok(x.GetToken()), true); SAME(x.GetFees(), fee.n); SAME(x.GetPath().has_value(), key.v == OK); if (key.v == OK && good) SAME(x.GetPath()->Format(), p.Format()); }); break; }
    case 9: { const char* what = "check_version"; std::vector<u64> vs; J o, a(Json::arrayValue); V api = num(s, 64, true); size_t n = s.below(5); bool ok = true; while (n--) { u64 v = s.flip() ? s.below(9) : s.edgy64(); Str x = "V" + std::to_string(v); vs.push_back(v); if (s.chance(1, 8)) { x = s.pick<Str>({ "V", "", "4", "v4", "Vx", "V18446744073709551616" }); ok = false; } a.append(x); } if (s.chance(1, 10)) { a = s.pick<J>({ J("V4"), J(4), J(Json::objectValue) }); ok = false; } if (!all({ api }, any)) ok = false; api.put(o, "foreign_api_version"); o["supported_slate_versions"] = a; j["Ok"] = o; if (a.isArray() && a.empty()) any = true; bool good = ok && !any; c.log << what << " " << shown(txt(j)); parses(c, j, ok, any, what, [&] { auto x = CheckVersionResponse::FromJSON(j); SAME(x.GetForeignApiVersion(), api.n); SAME(x.GetSupportedSlateVersions(), vs); if (!vs.empty()) { auto y = CheckVersionResponse::FromJSON(x.ToJSON()); SAME(y.GetSupportedSlateVersions(), vs); SAME(y.GetForeignApiVersion(), api.n); } });
        // what the client makes of such an answer: the newest version it can speak
        struct Conn : ITorConnection { J r; RPC::Response Invoke(const RPC::Request& q, const std::string&) override { return q.BuildResult(r); } } conn; conn.r = j; auto got = CheckVersionClient::Call(conn); if (good && api.n == 2) { u64 best = 0; for (u64 v : vs) if (v <= MAX_SLATE_VERSION) best = std::max(best, v); REQUIRE_MSG(got.error.empty() && got.slate_version == best, "of " << shown(txt(a)) << " version " << got.slate_version << " is chosen: " << got.error); } if (good && api.n != 2) REQUIRE(!got.error.empty()); break; }
    case 10: { Slate sl; sl.amount = s.edgy64(); sl.ttl = s.edgy64(); Bytes ob = uniq(s, 32); sl.offset = BlindingFactor(CBigInteger<32>(ob)); J sj = sl.ToJSON(); c.log << "receive_tx / finalize_tx"; auto eq = [&](const Slate& x) { REQUIRE(txt(x.ToJSON()) == txt(sj)); }; std::optional<Str> a, b; J arr(Json::arrayValue); arr.append(sj); if (s.flip()) a = "acc"; if (s.flip()) b = s.text("ab \"\\", 10); arr.append(a ? J(*a) : J()); arr.append(b ? J(*b) : J()); auto x = ReceiveTxRequest::FromJSON(arr); eq(x.GetSlate()); REQUIRE(x.GetAccountName() == a && x.GetMsg() == b); REQUIRE(txt(x.ToJSON()) == txt(arr)); auto y = FinalizeTxRequest::FromJSON(arr); eq(y.GetSlate()); eq(FinalizeTxRequest::FromJSON(y.ToJSON()).GetSlate()); eq(ReceiveTxResponse::FromJSON(ReceiveTxResponse(sl).ToJSON()).GetSlate()); eq(FinalizeTxResponse::FromJSON(FinalizeTxResponse(Slate(sl)).ToJSON()).GetSlate()); for (auto st : { SendResponse::EStatus::SENT, SendResponse::EStatus::FINALIZED }) { SendResponse r(st, sl, "BEGINSLATEPACK. x.", a.value_or("")); auto q = SendResponse::FromJSON(r.ToJSON()); eq(q.GetSlate()); REQUIRE(q.GetStatus() == st && q.GetArmoredSlate() == r.GetArmoredSlate() && q.GetError() == r.GetError()); }
        for (J bad : { J(), J(5), J(Json::objectValue), J(Json::arrayValue), sj, [&] { J z = arr; z[0] = junk(s); return z; }() }) { bool ok = true; try { ReceiveTxRequest::FromJSON(bad); } catch (const std::exception&) { ok = false; } REQUIRE_MSG(!ok, "receive_tx accepts " << shown(txt(bad))); ok = true; try { FinalizeTxRequest::FromJSON(bad); } catch (const std::exception&) { ok = false; } REQUIRE_MSG(!ok, "finalize_tx accepts " << shown(txt(bad))); } break; }
    default: {
        u64 am = s.edgy64(), fe = s.edgy64(); std::vector<WalletOutputDTO> outs; size_t n = s.below(4); while (n--) { Str p = "m"; size_t d = 1 + s.below(4); while (d--) p += "/" + std::to_string(s.edgy32() & 0x7fffffff); auto o64 = [&]() -> std::optional<u64> { if (s.flip()) return std::nullopt; return s.edgy64(); }; std::optional<u32> id; if (s.flip()) id = s.edgy32(); std::optional<Str> lab; if (s.flip()) lab = s.text("abé\"", 8); outs.emplace_back(KeyChainPath::FromString(p), gen::commit(s), s.edgy64(), s.pick<EOutputStatus>({ EOutputStatus::SPENDABLE, EOutputStatus::IMMATURE, EOutputStatus::NO_CONFIRMATIONS, EOutputStatus::SPENT, EOutputStatus::LOCKED, EOutputStatus::CANCELED }), o64(), o64(), id, lab); }
        auto copy = outs; FeeEstimateDTO f(am, fe, std::move(copy)); J fj = f.ToJSON(); c.log << "fee estimate " << shown(txt(fj)); auto g = FeeEstimateDTO::FromJSON(fj); REQUIRE(g.GetAmount() == am && g.GetFee() == fe && g.GetInputs().size() == outs.size()); for (size_t i = 0; i < outs.size(); i++) { const WalletOutputDTO &a = outs[i], &b = g.GetInputs()[i]; REQUIRE(a.GetPath().Format() == b.GetPath().Format() && a.GetCommitment() == b.GetCommitment() && a.GetAmount() == b.GetAmount() && a.GetStatus() == b.GetStatus() && a.GetMMRIndex() == b.GetMMRIndex() && a.GetBlockHeight() == b.GetBlockHeight() && a.GetWalletTxId() == b.GetWalletTxId() && a.GetLabel() == b.GetLabel()); } REQUIRE(txt(g.ToJSON()) == txt(fj));
        auto part = [&] { return s.edgy64() >> 3; }; u64 un = part(), im = part(), lo = part(), sp = part(); J bj = WalletBalanceDTO(7, un, im, lo, sp).ToJSON(); auto grin = [&](const char* k, u64 v) { REQUIRE_MSG(bj[k] == J(Json::UInt64(v)), k << " is " << txt(bj[k]) << " instead of " << v); Str t = bj[Str("fmt_") + k].asString(); size_t d = t.find('.'); Str ip = t.substr(0, d), fp = d == t.npos ? "" : t.substr(d + 1); REQUIRE_MSG(!ip.empty() && ip.find_first_not_of("0123456789") == ip.npos && fp.size() <= 9 && fp.find_first_not_of("0123456789") == fp.npos, "an amount of " << v << " is shown as " << t); fp.resize(9, '0'); REQUIRE_MSG(std::stoull(ip) == v / 1000000000 && std::stoull(fp) == v % 1000000000, "an amount of " << v << " nanogrin is shown as " << t << " grin"); }; grin("total", un + im + sp); grin("unconfirmed", un); grin("immature", im); grin("locked", lo); grin("spendable", sp); break; }
    }
}
// ---- JSON-RPC envelopes
static J id(Src& s) { switch (s.below(6)) { case 0: return J(Json::UInt64(s.edgy64())); case 1: return J(s.text("abc-\"\\{}", 10)); case 2: return J(Json::Int64(-(int64_t)s.below(1000))); case 3: return J(s.flip()); case 4: { J a(Json::arrayValue); a.append(1); return a; } default: return J(1); } }
static Str mangle(Src& s, Str t) {
    size_t k = 1 + s.size(3); while (k--) switch (s.below(9)) { case 0: t = t.substr(0, s.below(t.size() + 1)); break; case 1: if (!t.empty()) t[s.below(t.size())] = (char)s.below(256); break; case 2: t.insert(s.below(t.size() + 1), s.pick<Str>({ "{", "}", "[", "]", "\"", ",", ":", "null", "-", "1e999", "\\u0000", "\\ud800", "/*", "//", "\xff", Str("\0", 1), "99999999999999999999999", " " })); break; case 3: if (!t.empty()) { size_t a = s.below(t.size()), n = s.below(20); t.erase(a, n); } break; case 4: { size_t a = s.below(t.size() + 1); t.insert(a, t.substr(0, s.below(60))); break; } case 5: t += s.pick<Str>({ "x", "{}", "\n", " ", "null", t }); break; case 6: { Str d(s.pick<size_t>({ 10, 900, 1100, 20000 }), s.pick<char>({ '[', '{' })); t = s.flip() ? d + t : d; break; } case 7: { size_t a = t.find(':'); if (a != t.npos) t.insert(a + 1, Str(s.below(1500), '[')); break; } default: t = s.text("{}[]\",:0aeltrufns", 30); } return t;
}
static std::optional<J> parseText(const Str& t) { J j; if (t.empty()) return {}; try { if (!JsonUtil::Parse(t, j)) return {}; } catch (const std::exception&) { return {}; } return j; }
static void envelopes(Ctx& c) {
    auto& s = c.src; bool req = s.flip(); J j(Json::objectValue); j["jsonrpc"] = "2.0"; j["id"] = id(s); Str method = s.pick<Str>({ "get_balance", "x", "é", "a\"b", "send" }); bool hasP = s.flip(), err = s.flip(); J payload = norm(junk(s)); if (req) { j["method"] = method; if (hasP) j["params"] = payload; } else if (err) { j["error"]["code"] = (int)s.range(0, 70000) - 35000; j["error"]["message"] = s.text("abc \"", 12); if (s.flip()) j["error"]["data"] = junk(s); } else j["result"] = payload;
    Verdict v = OK; J full = j; switch (s.below(12)) { case 0: j.removeMember("id"); v = BAD; break; case 1: j["id"] = J(); v = BAD; break; case 2: j.removeMember("jsonrpc"); v = BAD; break; case 3: j["jsonrpc"] = s.pick<J>({ J(2.0), J("1.0"), J("2"), J(""), J(Json::arrayValue), J("2.0 ") }); v = BAD; break; case 4: if (req) { j["method"] = s.pick<J>({ J(), J(5), J(""), J(Json::objectValue), J(true) }); v = BAD; } break; case 5: if (req) { j.removeMember("method"); v = BAD; } break; case 6: j["extra"] = junk(s); break; case 7: if (!req && err) { j["error"] = s.pick<J>({ J("x"), J(5), J(Json::objectValue), J(Json::arrayValue) }); v = BAD; } break; case 8: j = s.pick<J>({ J(Json::arrayValue), J(5), J("x"), J() }); v = BAD; break; default: break; }
    j = norm(j); Str t = txt(j); if (s.chance(1, 4)) { t = mangle(s, t); v = ANY; } c.log << (req ? "request " : "response ") << shown(t); c.nontrivial(); c.label(v == OK ? "good" : v == BAD ? "bad" : "mangled");
    if (req) {
        mg_connection mc; if (s.chance(1, 40)) t += Str(s.pick<size_t>({ 8192, 70000, 250000 }), ' '); mc.chunk = s.pick<size_t>({ 0, 0, 3, 1460 }); mc.body = t; mc.length = (long long)t.size(); memset(&mc.info, 0, sizeof mc.info); mc.info.request_method = "POST"; mc.info.content_length = mc.length; std::optional<RPC::Request> r; Str e; try { r = RPC::Request::Parse(&mc); } catch (const RPCException& x) { e = x.what(); if (x.GetId() && v != ANY && j.isObject() && j.isMember("id")) REQUIRE(alike(*x.GetId(), j["id"])); } REQUIRE_MSG(v == ANY || r.has_value() == (v == OK), "the request " << shown(t) << (r ? " is accepted" : " is refused: " + e));
        if (v == OK) { REQUIRE(alike(r->GetId(), j["id"])); REQUIRE(r->GetMethod() == method); REQUIRE(r->GetParams().has_value() == (hasP && !payload.isNull())); if (r->GetParams()) REQUIRE(alike(*r->GetParams(), payload)); }
        if (r) { auto back = parseText(r->ToString()); REQUIRE_MSG(back && alike(*back, r->ToJSON()), "a request does not print as itself: " << shown(r->ToString())); auto p = parseText(t); REQUIRE(p && alike((*p)["id"], r->GetId()) && (*p)["method"] == r->GetMethod()); for (auto q : { r->BuildResult(payload), r->BuildError(-5, "m"), r->BuildError("T", "m") }) { auto z = parseText(q.ToString()); REQUIRE(z && alike((*z)["id"], r->GetId()) && (*z)["jsonrpc"] == "2.0" && z->isMember("result") != z->isMember("error")); } }
    } else {
        std::optional<RPC::Response> r; Str e; try { r = RPC::Response::Parse(t); } catch (const RPCException& x) { e = x.what(); } REQUIRE_MSG(v == ANY || r.has_value() == (v == OK), "the response " << shown(t) << (r ? " is accepted" : " is refused: " + e));
        if (v == OK) { REQUIRE(alike(r->GetId(), j["id"])); REQUIRE(r->GetError().has_value() == err); if (err) { REQUIRE_EQ(r->GetError()->GetCode(), j["error"]["code"].asInt()); REQUIRE(r->GetError()->GetMsg() == j["error"]["message"].asString()); } else if (!payload.isNull()) { REQUIRE(r->GetResult().has_value() && alike(*r->GetResult(), payload)); } }
        if (r) { Str p; try { p = r->ToString(); } catch (const std::exception& x) { REQUIRE_MSG(false, "the accepted response " << shown(t) << " cannot be printed: " << x.what()); } auto z = parseText(p); REQUIRE(z && alike((*z)["id"], r->GetId())); REQUIRE(z->isMember("result") != z->isMember("error")); if (v == OK && !err) REQUIRE(alike((*z)["result"], payload)); }
    }
}
// ---- whole requests to the two servers
struct FakeTor : ITorProcess { TorAddress AddListener(const ed25519_secret_key_t& k, const uint16_t) override { return TorAddressParser::FromPubKey(ED25519::CalculatePubKey(k)); } bool RemoveListener(const TorAddress&) override { return true; } std::shared_ptr<ITorConnection> Connect(const TorAddress&) override { return nullptr; } bool RetryInit() override { return true; } };
static long peakKb() { rusage r; getrusage(RUSAGE_SELF, &r); return r.ru_maxrss; }
struct World {
    Ctx& c; Src& s; std::unique_ptr<Net> n; TorProcess::Ptr tor = std::make_shared<FakeTor>(); std::unique_ptr<OwnerServer> owner; std::vector<ForeignServer::UPtr> foreign; mg_context* octx; std::vector<mg_context*> fctx; std::vector<Str> secrets, packs; int errors = 0, good = 0; bool mustFail = false;
    World(Ctx& c) : c(c), s(c.src) {
        n = std::make_unique<Net>(c, 1000); for (Str u : { "alice", "bob" }) n->add(u); std::vector<TransactionOutput> o; for (auto& a : n->accounts) for (size_t k = 1 + s.below(3); k--;) o.push_back(n->fresh(*a, 1000000000ULL * (1 + s.below(60)))); n->node->mine(o); for (auto& a : n->accounts) n->refresh(*a);
        auto m = std::static_pointer_cast<IWalletManager>(n->mgr); owner = OwnerServer::Create(tor, m); octx = mg::started().back(); for (auto& a : n->accounts) { foreign.push_back(ForeignServer::Create(KeyChain::FromSeed(a->seed), tor, *n->mgr, a->token, 0)); fctx.push_back(mg::started().back()); }
    }
    ~World() { owner.reset(); foreign.clear(); n.reset(); }
    Account& acc(size_t i) { return *n->accounts[i]; }
    Str all() { Str o; for (auto& a : n->accounts) { o += dump(*n, *a); auto w = n->wallet(*a); o += w.Read()->GetSlatepackAddress().ToString() + ";"; } std::set<Str> d; for (auto& e : sfs::directory_iterator(n->cfg->GetWalletPath().u8string())) d.insert(e.path().filename().string()); for (auto& x : d) o += x + " "; return o; }
    J sendParams(Account& a) { J j; j["session_token"] = a.token.ToBase64(); if (!s.chance(1, 6)) j["amount"] = Json::UInt64(1 + s.below(70000000000ULL)); j["fee_base"] = Json::UInt64(s.chance(1, 6) ? s.below(3000000000ULL) : 500000); if (s.flip()) j["change_outputs"] = (int)s.below(4); j["selection_strategy"]["strategy"] = s.pick<Str>({ "SMALLEST", "ALL", "FEWEST_INPUTS" }); return j; }
    Str secret() { Bytes b = uniq(s, 9); Str t = "pw" + hx(b); secrets.push_back(t); return t; }
    // a request the API offers, whose parameters are all of the right kind
    std::pair<Str, J> valid(Account& a, bool foreignApi, bool& mustWork) {
        J t; t["session_token"] = a.token.ToBase64(); mustWork = false; if (foreignApi) switch (s.below(4)) { case 0: mustWork = true; return { "check_version", J() }; case 1: t["fees"] = Json::UInt64(s.below(1000000)); mustWork = true; return { "build_coinbase", t }; default: { Slate sl; Account& o = acc(1 - (&a == &acc(1))); try { sl = n->mgr->Send(SendCriteria::FromJSON(sendParams(o))); } catch (const std::exception&) {} J p(Json::arrayValue); p.append(sl.ToJSON()); if (s.below(3)) { p.append(J()); p.append(J()); return { "receive_tx", p }; } return { "finalize_tx", p }; } }
        switch (s.below(20)) {
        case 0: mustWork = true; return { "get_balance", t }; case 1: mustWork = true; return { "list_outputs", t }; case 2: { mustWork = true; if (s.flip()) t["statuses"].append("SENT"); if (s.flip()) t["ids"].append(1); if (s.flip()) t["start_range_ms"] = Json::UInt64(s.below(2000000000000ULL)); return { "list_txs", t }; }
        case 3: case 4: case 5: { auto p = sendParams(a); if (s.chance(1, 3)) p["address"] = SlatepackAddress::Random().ToString(); else if (s.chance(1, 6)) { Str ad = SlatepackAddress::Random().ToString(); p["address"] = s.pick<Str>({ "bob", "grin1", ad.substr(0, ad.size() - 1), ad + "q", " " + ad + "x", ad.substr(1) }); mustFail = true; } if (s.chance(1, 4)) p["post_tx"]["method"] = "FLUFF"; return { "send", p }; } case 6: return { "estimate_fee", sendParams(a) };
        case 7: t["tx_id"] = (int)s.below(5); return { "cancel_tx", t }; case 8: t["tx_id"] = (int)s.below(5); t["method"] = s.pick<Str>({ "FLUFF", "STEM" }); return { "repost_tx", t };
        case 9: mustWork = true; return { "get_slatepack_address", t }; case 10: { J p; p["slatepack_address"] = SlatepackAddress::Random().ToString(); mustWork = true; return { "address_info", p }; } case 11: mustWork = true; return { "list_wallets", J() }; case 12: mustWork = true; return { "scan_for_outputs", t };
        case 13: { J p; p["username"] = "u" + std::to_string(s.below(5)); p["password"] = secret(); p["num_seed_words"] = 12; return { "create_wallet", p }; } case 14: { J p; p["username"] = s.pick<Str>({ "u0", "u1", "alice", "zed" }); p["password"] = secret(); return { s.pick<Str>({ "login", "delete_wallet", "get_wallet_seed" }), p }; }
        case 15: { J p; Bytes e = uniq(s, 16); auto m = Mnemonic::CreateMnemonic(e.data(), e.size()); secrets.push_back(Str(m.begin(), m.end())); p["username"] = "r" + std::to_string(s.below(4)); p["password"] = secret(); p["wallet_seed"] = secrets[secrets.size() - 2]; return { "restore_wallet", p }; }
        case 16: t["slatepack"] = packs.empty() ? "BEGINSLATEPACK. ENDSLATEPACK." : s.pick<Str>(packs); return { "receive", t }; case 17: t["slatepack"] = packs.empty() ? "x" : s.pick<Str>(packs); return { "finalize", t }; case 18: return { "retry_tor", t }; default: return { s.pick<Str>({ "nope", "", "Send", "get_tor_config" }), t };
        }
    }
    void paths(const J& j, std::vector<std::vector<Str>>& out, std::vector<Str> at = {}) { if (!at.empty()) out.push_back(at); if (j.isObject()) for (auto& k : j.getMemberNames()) { auto b = at; b.push_back(k); paths(j[k], out, b); } else if (j.isArray()) for (unsigned i = 0; i < j.size(); i++) { auto b = at; b.push_back("#" + std::to_string(i)); paths(j[i], out, b); } }
    void harm(J& j) { std::vector<std::vector<Str>> v; paths(j, v); if (v.empty()) { j = junk(s); return; } auto p = v[s.below(v.size())]; J* x = &j; for (size_t i = 0; i + 1 < p.size(); i++) x = p[i][0] == '#' && x->isArray() ? &(*x)[(unsigned)atoi(p[i].c_str() + 1)] : &(*x)[p[i]]; Str k = p.back(); bool arr = x->isArray(); unsigned ix = arr ? (unsigned)atoi(k.c_str() + 1) : 0; J& leaf = arr ? (*x)[ix] : (*x)[k]; switch (s.below(6)) { case 0: leaf = junk(s); break; case 1: if (arr) { J z; x->removeIndex(ix, &z); } else x->removeMember(k); break; case 2: if (leaf.isString()) { Str t = leaf.asString(); leaf = mangle(s, t.substr(0, 20000)); } else leaf = Json::UInt64(s.edgy64()); break; case 3: if (leaf.isString()) { Str t = leaf.asString(); if (!t.empty()) t[s.below(t.size())] = s.text("0123456789abcdefABCDEF", 1).c_str()[0]; leaf = t; } else leaf = txt(leaf); break; case 4: leaf = s.pick<J>({ J(), J(""), J(Json::arrayValue), J(Json::objectValue), J(-1), J(Json::UInt64(UINT64_MAX)), J(Json::UInt64(1ULL << 32)), J(256), J(0.5) }); break; default: if (arr) x->append(leaf); else (*x)[k + "x"] = leaf; } }
    void step() {
        bool foreignApi = s.chance(1, 3); size_t who = s.below(2); Account& a = acc(who); bool must; mustFail = false; auto [method, params] = valid(a, foreignApi, must); J j; j["jsonrpc"] = "2.0"; j["id"] = id(s); j["method"] = method; if (!params.isNull()) j["params"] = params; int how = (int)s.below(12); mg_connection mc;
        if (how == 0 || how == 1 || how == 2) harm(j["params"]); else if (how == 3) { switch (s.below(6)) { case 0: j.removeMember("params"); break; case 1: j["params"] = junk(s); break; case 2: j["params"] = J(Json::arrayValue); j["params"].append(params); break; case 3: j["jsonrpc"] = "1.0"; break; case 4: j.removeMember("id"); break; default: j["method"] = junk(s); } }
        Str t = txt(j); if (s.chance(1, 20)) { Json::StreamWriterBuilder b; t = Json::writeString(b, j); } if (how == 4 || how == 5) t = mangle(s, t); if (how > 8 && s.chance(1, 12)) t.insert(s.flip() ? 0 : t.size(), Str(s.pick<size_t>({ 8192, 30000, 70000, 250000 }), s.pick<char>({ ' ', '\n', '\t' }))); mc.chunk = s.pick<size_t>({ 0, 0, 5, 1460, 8191 }); mc.body = t; mc.length = (long long)t.size(); bool huge = false; if (how == 6 && s.chance(1, 2)) { switch (s.below(6)) { case 0: mc.length = (long long)t.size() + 1 + (long long)s.below(50); break; case 1: mc.length = -1; break; case 2: mc.length = 0; break; case 3: mc.length = (long long)s.below(t.size()); break; case 4: mc.length = s.pick<long long>({ 600LL << 20, 700LL << 20, 0x7fffffffLL }); huge = true; break; default: mc.length = s.pick<long long>({ INT64_MAX, 1LL << 32, (1LL << 32) + 5, (1LL << 40) }); } }
        mc.uri = foreignApi ? "/v2/foreign" : "/v2/owner"; if (s.chance(1, 10)) mc.method = s.pick<Str>({ "GET", "PUT", "OPTIONS" }); Str before = all(); long mem = peakKb(); c.log << "; " << (foreignApi ? "foreign " : "") << (how < 3 || how == 3 ? shown(t) : how == 4 || how == 5 ? "mangled " + shown(t) : method + (mc.length != (long long)t.size() ? " length " + std::to_string(mc.length) + " for " + std::to_string(t.size()) : ""));
        mg::Reply r; try { r = mg::ask(foreignApi ? fctx[who] : octx, mc); } catch (const std::exception& e) { REQUIRE_MSG(false, "an exception escapes the request handler: " << e.what() << " on " << shown(t)); }
        (void)huge; REQUIRE_MSG(peakKb() - mem < 300 * 1024, "a request of " << t.size() << " bytes that claims " << mc.length << " makes the server take " << (peakKb() - mem) / 1024 << " MB");
        REQUIRE_MSG(r.handled && r.wrong.empty() && r.code == 200, "not answered by one good HTTP response: " << r.wrong << " " << shown(mc.out)); auto ans = parseText(r.body); REQUIRE_MSG(ans && ans->isObject(), "the answer is not a JSON object: " << shown(r.body)); const J& v = *ans; REQUIRE_MSG(v["jsonrpc"] == "2.0" && v.isMember("id") && v.isMember("result") != v.isMember("error"), "the answer is no JSON-RPC response: " << shown(r.body)); if (v.isMember("error")) REQUIRE_MSG(v["error"].isObject() && v["error"]["code"].isInt() && v["error"]["message"].isString(), "no proper error: " << shown(r.body));
        Str seen = mc.length <= 0 ? "" : t.substr(0, (size_t)std::min<long long>(mc.length, (long long)t.size())); bool whole = mc.length > 0 && mc.length <= (long long)t.size(); auto p = whole ? parseText(seen) : std::nullopt; bool callable = p && p->isObject() && !(*p)["id"].isNull() && (*p)["jsonrpc"] == "2.0" && (*p)["method"].isString(); if (p && p->isObject()) { J want = (*p)["id"]; if (callable) REQUIRE_MSG(alike(v["id"], want), "the answer has the id " << txt(v["id"]) << " instead of " << txt(want)); else REQUIRE(v["id"].isNull() || alike(v["id"], want)); } if (!callable) REQUIRE_MSG(v.isMember("error"), "no JSON-RPC request, yet answered with a result: " << shown(t));
        Str after = all(); if (v.isMember("error")) { errors++; REQUIRE_MSG(before == after, "refused with " << txt(v["error"]) << " but the wallets changed from " << before << " to " << after); } else { good++; if (v["result"].isObject() && v["result"]["slatepack"].isString()) packs.push_back(v["result"]["slatepack"].asString()); if (v["result"].isObject() && v["result"]["wallet_seed"].isString()) secrets.push_back(v["result"]["wallet_seed"].asString()); }
        if (how > 6 && mustFail) REQUIRE_MSG(v.isMember("error"), "sending to the address " << txt(params["address"]) << " works");
        if (how > 6 && must && mc.length == (long long)t.size()) REQUIRE_MSG(v.isMember("result"), method << " with good parameters is refused: " << txt(v["error"]));
        
    }
};
static void server(Ctx& c) { World w(c); size_t k = 4 + c.src.below(12); while (k--) w.step(); Str log = logged(); for (auto& x : w.secrets) { size_t at = log.find(x); REQUIRE_MSG(at == Str::npos, "the log holds the secret " << x << ": " << shown(log.substr(at > 150 ? at - 150 : 0, 400))); } for (auto& q : w.n->accounts) REQUIRE_MSG(log.find(hx(Bytes(q->seed.begin(), q->seed.end()))) == Str::npos, "the log holds a wallet's seed"); c.nontrivial(w.errors && w.good); }
// ---- the HTTP client against a server that answers as told
struct Script { Bytes send_; bool reset = false; };
struct Listener { int fd; uint16_t port; Listener() { fd = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); REQUIRE(bind(fd, (sockaddr*)&a, sizeof a) == 0 && listen(fd, 8) == 0); socklen_t l = sizeof a; getsockname(fd, (sockaddr*)&a, &l); port = ntohs(a.sin_port); } ~Listener() { close(fd); } };
static Str readRequest(int fd) { Str t; char b[4096]; size_t need = Str::npos; for (;;) { pollfd p{ fd, POLLIN, 0 }; if (poll(&p, 1, 3000) <= 0) return t; ssize_t n = read(fd, b, sizeof b); if (n <= 0) return t; t.append(b, n); size_t e = t.find("\r\n\r\n"); if (e != t.npos && need == t.npos) { size_t l = t.find("Content-Length: "); need = e + 4 + (l != t.npos && l < e ? strtoull(t.c_str() + l + 16, nullptr, 10) : 0); } if (t.size() >= need) return t; } }
static void http(Ctx& c) {
    auto& s = c.src; static Listener* l = new Listener; HttpConnection conn("127.0.0.1", l->port); size_t k = 2 + s.below(4); int bad = 0;
    while (k--) {
        J params = junk(s); Str method = s.pick<Str>({ "get_tip", "a b", "é", "receive_tx" }), loc = s.pick<Str>({ "/v2/foreign", "/v2/owner", "/x" }); bool hasParams = s.flip(); RPC::Request q = hasParams ? RPC::Request::BuildRequest(method, params) : RPC::Request::BuildRequest(method); J result = norm(junk(s)); if (result.isNull()) result = J(5); Str body = q.BuildResult(result).ToString(); if (s.chance(1, 6)) { Str pad(s.below(3) ? s.below(200) : 70000, ' '); body += pad; }
        bool ok = true; Str head = s.pick<Str>({ "HTTP/1.1 200 OK\r\n", "HTTP/1.0 200 OK\r\n", "HTTP/1.1 200 \r\n" }); Str cl = s.pick<Str>({ "Content-Length", "content-length", "CONTENT-LENGTH" }), len = std::to_string(body.size()); std::vector<Str> hs = { cl + s.pick<Str>({ ": ", ":", ":  " }) + len }; if (s.flip()) hs.insert(hs.begin() + s.below(2), "Content-Type: application/json"); if (s.flip()) hs.push_back("Date: Mon, 01 Jan 2024 00:00:00 GMT"); if (s.flip()) hs.push_back("Connection: close"); for (auto& h : hs) head += h + "\r\n"; head += "\r\n"; Str all = head + body; int how = (int)s.below(8);
        if (how == 0) { all = all.substr(0, s.below(all.size())); ok = false; } else if (how == 1) { all += s.pick<Str>({ "x", "HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\n{}", "\r\n", Str(3000, 'y'), body }); } else if (how == 2) { all = "HTTP/1.1 200 OK\r\nX: y\r\n\r\n" + body; ok = false; } else if (how == 3) { all = mangle(s, all); ok = false; }
        c.log << "; " << (how == 0 ? "cut " : how == 1 ? "with more " : how == 2 ? "no length " : how == 3 ? "mangled " : "") << (how == 3 ? shown(all) : std::to_string(all.size())); std::vector<size_t> cuts; for (size_t n = s.below(4); n--;) cuts.push_back(s.below(all.size() + 1)); std::sort(cuts.begin(), cuts.end());
        Str got; std::thread th([&] { int fd = accept(l->fd, nullptr, nullptr); if (fd < 0) return; got = readRequest(fd); size_t at = 0; cuts.push_back(all.size()); for (size_t x : cuts) { while (at < x) { ssize_t n = ::send(fd, all.data() + at, x - at, MSG_NOSIGNAL); if (n <= 0) break; at += n; } sched_yield(); } close(fd); });
        std::optional<RPC::Response> r; Str err; try { r = conn.Invoke(loc, q); } catch (const std::exception& e) { err = e.what(); }
        th.join();
        REQUIRE_MSG(got == "POST " + loc + " HTTP/1.1\r\nHost: 127.0.0.1\r\nContent-Length: " + std::to_string(txt(q.ToJSON()).size()) + "\r\nContent-Type: application/json-rpc\r\n\r\n" + txt(q.ToJSON()) || got.find("\r\n\r\n" + txt(q.ToJSON())) != Str::npos, "the request sent is " << shown(got)); REQUIRE_MSG(got.compare(0, 5 + loc.size() + 11, "POST " + loc + " HTTP/1.1\r\n") == 0, "the request sent is " << shown(got));
        if (how == 3) { c.label("mangled"); continue; } if (!ok) { bad++; c.label("damaged"); REQUIRE_MSG(!r, "a damaged response is accepted: " << shown(all)); continue; } REQUIRE_MSG(r.has_value(), "a good response is refused: " << err << " after " << bad << " damaged ones"); REQUIRE_MSG(alike(r->GetId(), q.GetId()) && r->GetResult().has_value() && alike(*r->GetResult(), result), "the answer became " << shown(r->ToString()) << " instead of " << shown(body)); c.label("good");
    }
    c.nontrivial();
}
void pbt::setup(Check& c) {
    c.id = "C40"; c.rule = "non-trivial: every parameter object, envelope and HTTP exchange; a server history with at least one answer and one error"; c.workerInit = workerInit; c.quickCases = 40000; c.thoroughCases = 1500000; c.quickCap = 25; c.parts = { { "models", 40, models }, { "envelopes", 30, envelopes }, { "server", 3, server }, { "http", 4, http } };
    c.assumptions = { "civetweb is replaced by a stand-in which hands requests to the registered handlers and keeps what they write", "scrypt is replaced by a cheap function of the same arguments (C28 covers the real one)", "no Tor process: connections over Tor are refused", "one-second pauses before a connection are skipped", "signatures and range proofs through the algebraic stand-in for secp256k1-zkp", "where JSON types differ but the value is plain (a number for a string), refusing and accepting are both fine" };
}
