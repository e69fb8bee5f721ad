// C41: settings read back as set, across updates and restarts, against a model of the configuration
#include "env.h"
#include <API/Node/Handlers/UpdateConfigHandler.h>
#include <API/Node/Handlers/GetConfigHandler.h>
#include <Net/Tor/TorProcess.h>
#include <API/Wallet/Owner/Handlers/UpdateTorConfigHandler.h>
#include <API/Wallet/Owner/Handlers/GetTorConfigHandler.h>
#include <arpa/inet.h>
#include <dlfcn.h>
#include <netdb.h>
#include <fstream>
#include <set>
#include <sstream>
using namespace pbt; typedef std::string Str; typedef Json::Value J; typedef uint64_t u64;
// names are resolved without a network: peer-N.example is 10.9.0.N, anything else is unknown
extern "C" int getaddrinfo(const char* node, const char* service, const struct addrinfo* hints, struct addrinfo** out) {
    typedef int (*F)(const char*, const char*, const struct addrinfo*, struct addrinfo**); static F real = (F)dlsym(RTLD_NEXT, "getaddrinfo");
    unsigned char b[16]; Str n = node ? node : ""; if (n.compare(0, 5, "peer-") == 0 && n.size() > 13 && n.substr(n.size() - 8) == ".example") { n = "10.9.0." + n.substr(5, n.size() - 13); }
    if (inet_pton(AF_INET, n.c_str(), b) != 1 && inet_pton(AF_INET6, n.c_str(), b) != 1) return EAI_NONAME;
    struct addrinfo h; memset(&h, 0, sizeof h); h.ai_socktype = SOCK_STREAM; h.ai_flags = AI_NUMERICHOST; (void)service; (void)hints; return real(n.c_str(), nullptr, &h, out);
}
static Str txt(const J& j) { Json::StreamWriterBuilder b; b["indentation"] = ""; return Json::writeString(b, j); }
static std::optional<J> parseText(const Str& t) { J v; Json::CharReaderBuilder b; std::unique_ptr<Json::CharReader> r(b.newCharReader()); Str e; try { if (!r->parse(t.data(), t.data() + t.size(), &v, &e)) return std::nullopt; } catch (...) { return std::nullopt; } return v; }
static Str slurp(const Str& p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static void spill(const Str& p, const Str& t) { std::ofstream f(p, std::ios::binary | std::ios::trunc); f << t; }
// an address and one of the ways to write it
struct Addr { Str canon, shown; };
static Str v6(const unsigned char* b) { char t[INET6_ADDRSTRLEN]; inet_ntop(AF_INET6, b, t, sizeof t); return t; }
static Addr addr(Src& s, bool names) {
    size_t k = s.below(names ? 5 : 4); if (k < 2) { Str t = std::to_string(s.below(256)) + "." + std::to_string(s.below(3)) + "." + std::to_string(s.below(256)) + "." + std::to_string(s.below(4)); return { t, t }; }
    if (k < 4) { unsigned char b[16] = { 0x20, 1, 0xd, 0xb8 }; for (int i = 4; i < 16; i++) b[i] = s.chance(1, 2) ? 0 : (unsigned char)s.below(256); if (s.chance(1, 8)) { memset(b, 0, 16); b[15] = 1; } Str c = v6(b); if (k == 2) return { c, c }; Str f; char t[8]; for (int i = 0; i < 16; i += 2) { snprintf(t, 8, s.flip() ? "%04X" : "%x", b[i] * 256 + b[i + 1]); f += (i ? ":" : "") + Str(t); } return { c, f }; }
    size_t n = 1 + s.below(250); return { "10.9.0." + std::to_string(n), "peer-" + std::to_string(n) + ".example" };
}
typedef std::set<Str> Set;
struct Model {
    Environment e; int minP = 10, maxP = 60; uint32_t conf = 10; bool reuse = true; Set pref, allow, block; unsigned relay = 600, embargo = 180, patience = 10, stem = 90, rest, socks = 3422, control = 3423; Str pass = "MyPassword", hashed = "16:906248AB51F939ED605CE9937D3B1FDE65DEB4098A889B2A07AC221D8F", level = "DEBUG", data; bool passSet = false;
    explicit Model(Environment x) : e(x) { rest = x == Environment::MAINNET ? 3413 : 13413; }
    int minSync() const { return e == Environment::AUTOMATED_TESTING ? 1 : 3; }
};
static Set shownAs(const std::unordered_set<IPAddress>& v) { Set o; for (auto& a : v) o.insert(a.Format()); return o; }
static Str list(const Set& v) { Str o; for (auto& x : v) o += (o.empty() ? "" : " ") + x; return "{" + o + "}"; }
struct World {
    Ctx& c; Str home, path; Model m; J doc; size_t updates = 0, refused = 0, restarts = 0; std::set<Str> seen;
    World(Ctx& cc, Environment e) : c(cc), m(e) {}
    // settings of the file as the user wrote them, and others which nobody knows
    J peersJson(Src& s, Set& out) { J a(Json::arrayValue); size_t n = s.below(4); out.clear(); for (size_t i = 0; i < n; i++) { Addr x = addr(s, true); a.append(x.shown); out.insert(x.canon); seen.insert(x.canon); } return a; }
    void write(Src& s) {
        auto& P = doc["P2P"]; if (s.flip()) P["MIN_PEERS"] = m.minP = (int)(s.chance(1, 6) ? s.edgy32() & 0x7fffffff : s.below(200)); if (s.flip()) P["MAX_PEERS"] = m.maxP = (int)(s.chance(1, 6) ? s.edgy32() & 0x7fffffff : s.below(500));
        if (s.chance(1, 3)) P["PREFERRED_PEERS"] = peersJson(s, m.pref); if (s.chance(1, 3)) P["ALLOWED_PEERS"] = peersJson(s, m.allow); if (s.chance(1, 3)) P["BLOCKED_PEERS"] = peersJson(s, m.block); if (P.empty() && s.flip()) doc.removeMember("P2P");
        if (s.flip()) { auto& W = doc["WALLET"]; if (s.flip()) W["MIN_CONFIRMATIONS"] = m.conf = (uint32_t)(s.chance(1, 6) ? s.edgy32() : s.below(100)); if (s.flip()) { unsigned r = s.chance(1, 8) ? (unsigned)s.below(9) : (unsigned)s.below(2); W["REUSE_ADDRESS"] = r; m.reuse = r != 0; } if (s.flip()) W["DATABASE"] = "SQLITE"; }
        if (s.flip()) { auto& D = doc["DANDELION"]; if (s.flip()) D["RELAY_SECS"] = m.relay = (unsigned)s.below(65536); if (s.flip()) D["EMBARGO_SECS"] = m.embargo = (unsigned)s.below(65536); if (s.flip()) D["PATIENCE_SECS"] = m.patience = (unsigned)s.below(256); if (s.flip()) D["STEM_PROBABILITY"] = m.stem = (unsigned)s.below(101); }
        if (s.chance(1, 3)) doc["SERVER"]["REST_API_PORT"] = m.rest = (unsigned)s.below(65536);
        if (s.chance(1, 3)) doc["LOGGER"]["LOG_LEVEL"] = m.level = s.pick<Str>({ "TRACE", "DEBUG", "INFO", "WARNING", "ERROR" });
        if (s.flip()) { auto& T = doc["TOR"]; if (s.flip()) T["SOCKS_PORT"] = m.socks = (unsigned)s.below(65536); if (s.flip()) T["CONTROL_PORT"] = m.control = (unsigned)s.below(65536); if (s.chance(1, 3)) { T["PASSWORD"] = m.pass = s.text("abcXYZ019 _-\"\\", 12); T["HASHED_PASSWORD"] = m.hashed = "16:" + s.text("0123456789ABCDEF", 20); } }
        for (auto sec : { "", "P2P", "WALLET", "DANDELION", "TOR", "NOTES" }) if (s.chance(1, 4)) { J& at = *sec ? doc[sec] : doc; at["X_" + s.text("ABC", 3) + "é"] = s.pick<J>({ J("text \n é"), J(-7), J(1.25), J(true), J(Json::nullValue), J(Json::arrayValue) }); c.label("unknown-keys"); }
        if (doc.isObject() && doc.isMember("P2P") && doc["P2P"].isNull()) doc["P2P"] = J(Json::objectValue);
    }
    std::shared_ptr<Config> cfg;
    void load() {
        try { cfg = Config::Load(fs::path(path), m.e); } catch (std::exception& e) { REQUIRE_MSG(false, "loading the configuration: " << e.what()); }
        Global::Init(std::make_shared<Context>(m.e, cfg, nullptr)); for (int s : { SIGINT, SIGTERM, SIGABRT }) signal(s, SIG_DFL); env::ctx() = Global::GetContext();
    }
    void compare(const char* when) {
        auto& g = Global::GetConfig();
#define SAME(what, got, want) REQUIRE_MSG((got) == (want), when << ": " << what << " is " << (got) << ", not " << (want))
        SAME("the minimum of peers", g.GetMinPeers(), m.minP); SAME("the maximum of peers", g.GetMaxPeers(), m.maxP); SAME("the minimum of confirmations", g.GetMinimumConfirmations(), m.conf); SAME("address reuse", g.ShouldReuseAddresses(), m.reuse);
        SAME("the list of preferred peers", list(shownAs(g.GetPreferredPeers())), list(m.pref)); SAME("the list of allowed peers", list(shownAs(g.GetAllowedPeers())), list(m.allow)); SAME("the list of blocked peers", list(shownAs(g.GetBlockedPeers())), list(m.block));
        SAME("the relay time", (unsigned)g.GetRelaySeconds(), m.relay); SAME("the embargo time", (unsigned)g.GetEmbargoSeconds(), m.embargo); SAME("the patience", (unsigned)g.GetPatienceSeconds(), m.patience); SAME("the stem probability", (unsigned)g.GetStemProbability(), m.stem);
        SAME("the REST port", (unsigned)g.GetRestAPIPort(), m.rest); SAME("the socks port", (unsigned)g.GetSocksPort(), m.socks); SAME("the control port", (unsigned)g.GetControlPort(), m.control); SAME("the control password", g.GetControlPassword(), m.pass); SAME("the hashed control password", g.GetHashedControlPassword(), m.hashed); SAME("the log level", g.GetLogLevel(), m.level);
        bool main = m.e == Environment::MAINNET; SAME("the P2P port", (int)g.GetP2PPort(), main ? 3414 : 13414); SAME("the owner port", (int)g.GetOwnerPort(), main ? 3420 : 13420); SAME("the magic", (int)g.GetMagicBytes().at(0) * 256 + g.GetMagicBytes().at(1), main ? 97 * 256 + 61 : 83 * 256 + 59); SAME("the fee base", (u64)g.GetFeeBase(), (u64)500000); SAME("the peers needed to sync", (int)g.GetMinSyncPeers(), m.minSync());
        SAME("the data directory", g.GetDataDirectory().u8string(), m.data); SAME("the chain path", g.GetChainPath().u8string(), m.data + "/NODE/CHAIN"); SAME("the database path", g.GetDatabasePath().u8string(), m.data + "/NODE/DB"); SAME("the txhashset path", g.GetTxHashSetPath().u8string(), m.data + "/NODE/TXHASHSET"); SAME("the wallet path", g.GetWalletPath().u8string(), m.data + "/WALLET"); SAME("the log path", g.GetLogDirectory().u8string(), m.data + "/LOGS"); SAME("the tor path", g.GetTorDataPath().u8string(), m.data + "/TOR"); REQUIRE_MSG(fs::exists(g.GetTxHashSetPath() / "kernel") && fs::exists(g.GetWalletPath()) && fs::exists(g.GetLogDirectory()), "a directory of the node was not created");
        std::set<Str> some = seen; some.insert("10.99.1.2"); some.insert("2001:db8::77"); for (auto& a : some) { IPAddress ip = IPAddress::Parse(a); SAME("whether " << a << " is allowed", g.IsPeerAllowed(ip), m.allow.empty() || m.allow.count(a)); SAME("whether " << a << " is blocked", g.IsPeerBlocked(ip), m.block.count(a) > 0); SAME("whether " << a << " is preferred", g.IsPeerPreferred(ip), m.pref.empty() || m.pref.count(a)); }
    }
    // keys nobody knows are still in the file
    void unknownKept() { auto f = parseText(slurp(path)); REQUIRE_MSG(f && f->isObject(), "the saved configuration can't be parsed"); kept(doc, *f, ""); }
    void kept(const J& want, const J& got, const Str& at) { for (auto& k : want.getMemberNames()) { if (want[k].isObject()) { REQUIRE_MSG(got.isMember(k) && got[k].isObject(), "section " << k << " was dropped from the file"); kept(want[k], got[k], at + k + "/"); } else if (k.compare(0, 2, "X_") == 0 || k == "DATABASE" || k == "DATA_PATH") REQUIRE_MSG(got.isMember(k) && txt(got[k]) == txt(want[k]), "key " << at << k << " of the file became " << (got.isMember(k) ? txt(got[k]) : Str("nothing"))); } }
    std::optional<J> call(const RPCMethod& h, const J& params, bool has = true) { RPC::Request q = has ? RPC::Request::BuildRequest("m", params) : RPC::Request::BuildRequest("m"); try { RPC::Response r = h.Handle(q); if (r.GetError().has_value()) return std::nullopt; return r.GetResult().value_or(J()); } catch (std::exception&) { return std::nullopt; } }
    void report() {
        auto r = call(GetConfigHandler(), J(Json::objectValue)); REQUIRE_MSG(r && r->isObject(), "get_config failed"); auto& j = *r; SAME("the reported minimum of peers", txt(j["min_peers"]), std::to_string(m.minP)); SAME("the reported maximum of peers", txt(j["max_peers"]), std::to_string(m.maxP)); SAME("the reported confirmations", txt(j["min_confirmations"]), std::to_string(m.conf)); SAME("the reported address reuse", txt(j["reuse_address"]), Str(m.reuse ? "true" : "false")); 
        auto set = [&](const char* k) { Set o; REQUIRE_MSG(j[k].isNull() || j[k].isArray(), "get_config's " << k << " is no list"); for (auto& x : j[k]) o.insert(x.asString()); return list(o); }; const char* when = "get_config"; SAME("preferred_peers", set("preferred_peers"), list(m.pref)); SAME("allowed_peers", set("allowed_peers"), list(m.allow)); SAME("blocked_peers", set("blocked_peers"), list(m.block));
    }
    const char* when = "get_config";
    struct Num { J j; bool ok; u64 v; };
    Num num(Src& s, u64 lim, u64 lo) { size_t k = s.below(16); if (k < 10) { u64 v = s.chance(1, 5) ? s.edgy32() : s.below(300); bool ok = v <= lim && v >= lo; J j; j = Json::UInt64(v); if (k == 9) j = std::to_string(v); return { j, ok, v }; } switch (k) { case 10: return { J(-1 - (int)s.below(5)), false, 0 }; case 11: return { J(Json::UInt64(s.edgy64() | (1ull << 32))), false, 0 }; case 12: return { J("twelve"), false, 0 }; case 13: return { J(1.5), false, 0 }; case 14: return { J(true), false, 0 }; default: return { J(Json::arrayValue), false, 0 }; } }
    void update(Src& s) {
        J p(Json::objectValue); Model n = m; bool ok = true, any = false; c.log << " update";
        if (s.chance(1, 2)) { auto v = num(s, INT32_MAX, (u64)m.minSync()); p["min_peers"] = v.j; ok &= v.ok; n.minP = (int)v.v; any = true; }
        if (s.chance(1, 2)) { auto v = num(s, INT32_MAX, 0); p["max_peers"] = v.j; ok &= v.ok; n.maxP = (int)v.v; any = true; }
        if (s.chance(1, 3)) { auto v = num(s, UINT32_MAX, 0); p["min_confirmations"] = v.j; ok &= v.ok; n.conf = (uint32_t)v.v; any = true; }
        bool odd = false; if (s.chance(1, 3)) { unsigned v = s.chance(1, 8) ? 2 + (unsigned)s.below(300) : (unsigned)s.below(2); p["reuse_address"] = v; n.reuse = v == 1; odd = v > 1; any = true; }
        for (auto& f : std::vector<std::pair<const char*, Set*>>{ { "preferred_peers", &n.pref }, { "allowed_peers", &n.allow }, { "blocked_peers", &n.block } }) if (s.chance(1, 3)) { any = true; J a(Json::arrayValue); f.second->clear(); size_t k = s.below(4); for (size_t i = 0; i < k; i++) { Addr x = addr(s, false); a.append(x.shown); f.second->insert(x.canon); seen.insert(x.canon); if (s.chance(1, 6)) a.append(x.canon); } size_t bad = s.below(24); if (bad == 0) { a.append(s.pick<J>({ J("300.1.2.3"), J(""), J("no address"), J(Json::nullValue), J(17), J(Json::objectValue) })); ok = false; } else if (bad == 1) { a = s.pick<J>({ J("1.2.3.4"), J(5), J(Json::objectValue) }); ok = false; } p[f.first] = a; }
        if (s.chance(1, 6)) p["x_unknown"] = 5; bool wrong = s.chance(1, 30); if (wrong) { ok = false; p = s.pick<J>({ J(Json::arrayValue), J("min_peers"), J(4) }); } c.log << " " << txt(p);
        auto r = call(UpdateConfigHandler(), p); if (odd && r) n.reuse = Global::GetConfig().ShouldReuseAddresses(); if (!odd || !ok) REQUIRE_MSG(r.has_value() == ok, "update " << txt(p) << (ok ? " was refused" : " was accepted")); if (r) { m = n; updates += any; } else { c.log << " (refused)"; refused++; }
        compare(r ? "after the update" : "after the refused update");
    }
};
static void place(World& w, Src& s) {   // where the data and the file are
    auto& c = w.c; w.home = c.scratch(); setenv("HOME", w.home.c_str(), 1); Str def = w.home + "/.GrinPP/" + Env::ToString(w.m.e); bool data = s.flip(), custom = s.flip(); if (data) { w.m.data = w.home + s.pick<Str>({ "/data", "/my data", "/d\xc3\xa4ta" }); w.doc["DATA_PATH"] = w.m.data; c.label("data-path"); } else w.m.data = def;
    w.path = custom ? w.home + "/own.json" : def + "/server_config.json"; if (custom) c.label("own-file"); fs::create_directories(fs::path(w.path).parent_path()); Global::SetConfigFilePath(custom ? std::make_optional<fs::path>(fs::path(w.path)) : std::nullopt, Env::ToString(w.m.e)); REQUIRE_EQ(Global::GetConfigFilePath().u8string(), w.path);
}
static Environment anyEnv(Src& s) { return s.pick<Environment>({ Environment::MAINNET, Environment::FLOONET, Environment::AUTOMATED_TESTING }); }
static void settings(Ctx& c) {
    auto& s = c.src; World w(c, anyEnv(s)); place(w, s); bool none = s.chance(1, 10); if (none) { w.doc = J(Json::objectValue); w.m.data = w.home + "/.GrinPP/" + Env::ToString(w.m.e); c.label("no-file"); } else { w.write(s); if (w.doc.empty()) w.doc["X_"] = 1; std::ostringstream o; if (s.flip()) o << w.doc; else o << txt(w.doc); spill(w.path, o.str()); }
    c.log << Env::ToString(w.m.e) << " " << (none ? Str("no file") : txt(w.doc)) << ";"; w.load(); w.compare("after loading"); w.unknownKept(); w.report();
    size_t n = 1 + s.size(7); for (size_t i = 0; i < n; i++) { if (s.chance(1, 4)) { c.log << " restart"; w.load(); w.compare("after the restart"); w.restarts++; } else w.update(s); if (s.chance(1, 3)) w.report(); }
    c.log << " restart"; w.load(); w.compare("after the last restart"); w.unknownKept(); w.report(); if (w.updates > 1) c.label("several-updates"); if (w.refused) c.label("refused"); if (w.updates) c.nontrivial();
}
// a file that makes no sense: the node starts anyway, with the same settings each time
static void damaged(Ctx& c) {
    auto& s = c.src; World w(c, anyEnv(s)); place(w, s); w.doc.removeMember("DATA_PATH"); w.write(s); Str t = txt(w.doc); if (s.chance(1, 4)) t = s.pick<Str>({ "", "[]", "5", "null", "\"x\"", "{}", "{\"P2P\":5}", "{\"P2P\":[]}", "{\"WALLET\":\"x\"}", "{\"P2P\":{\"ALLOWED_PEERS\":[5]}}", "{\"P2P\":{\"ALLOWED_PEERS\":{\"a\":\"1.2.3.4\"}}}", "{\"TOR\":{\"PASSWORD\":5,\"HASHED_PASSWORD\":6}}", "{\"DATA_PATH\":7}", "{\"SERVER\":{\"REST_API_PORT\":\"x\"}}" });
    else { size_t n = 1 + s.below(4); for (size_t i = 0; i < n && !t.empty(); i++) switch (s.below(5)) { case 0: t.resize(s.below(t.size() + 1)); break; case 1: t[s.below(t.size())] = (char)s.below(128); break; case 2: t.erase(s.below(t.size()), 1 + s.below(6)); break; case 3: { size_t p = s.below(t.size()); t.insert(p, t.substr(s.below(t.size()), s.below(20))); break; } default: t.insert(s.below(t.size() + 1), s.pick<Str>({ "{", "}", "[", "]", "\"", ":", ",", "-", "1e400", "null", Str(60, '9') })); } }
    if (t.find("DATA_PATH") != Str::npos && t != "{\"DATA_PATH\":7}") return; c.log << t; spill(w.path, t); auto before = parseText(t); bool same = before && txt(*before) == txt(w.doc); fs::current_path(fs::path(w.home)); w.load(); if (!same) c.nontrivial(); auto snap = [&] { auto& g = Global::GetConfig(); std::ostringstream o; o << g.GetMinPeers() << " " << g.GetMaxPeers() << " " << g.GetMinimumConfirmations() << g.ShouldReuseAddresses() << " " << list(shownAs(g.GetPreferredPeers())) << list(shownAs(g.GetAllowedPeers())) << list(shownAs(g.GetBlockedPeers())) << g.GetRelaySeconds() << " " << g.GetEmbargoSeconds() << " " << (int)g.GetPatienceSeconds() << " " << (int)g.GetStemProbability() << " " << g.GetRestAPIPort() << " " << g.GetSocksPort() << " " << g.GetControlPort() << g.GetControlPassword() << g.GetDataDirectory().u8string() << g.GetLogLevel(); return o.str(); };
    Str a = snap(); w.load(); Str b = snap(); REQUIRE_MSG(a == b, "settings changed with a restart: " << a << " became " << b); if (!before) { Model d(w.m.e); d.data = w.home + "/.GrinPP/" + Env::ToString(w.m.e); w.m = d; w.compare("with an unreadable file"); c.label("unreadable"); } else c.label("readable");
}
// bridges
static void tor(Ctx& c) {
    auto& s = c.src; World w(c, anyEnv(s)); place(w, s); w.write(s); spill(w.path, txt(w.doc)); w.load(); Str dir = w.home + "/gone"; mkdir(dir.c_str(), 0700); if (s.flip()) { if (chdir(dir.c_str()) || rmdir(dir.c_str())) return; c.label("no-working-directory"); } else if (chdir(dir.c_str())) return;
    std::set<Str> must, may; Str type; size_t n = 1 + s.size(8), sets = 0; UpdateTorConfigHandler up(nullptr); GetTorConfigHandler get;
    auto check = [&](const J& j, const char* when) { Set got; size_t k = 0; for (auto& b : j["bridges"]) { got.insert(b.asString()); k++; } REQUIRE_MSG(j["bridges"].isArray(), when << ": no list of bridges"); SAME("the type of bridges", j["bridges_type"].asString(), type); if (type == "snowflake") REQUIRE_MSG(k == 1 && got.begin()->compare(0, 10, "snowflake ") == 0, when << ": bridges with Snowflake are " << list(got)); else { for (auto& x : must) REQUIRE_MSG(got.count(x), when << ": bridge " << x << " is not in use"); for (auto& x : got) REQUIRE_MSG(may.count(x), when << ": bridge " << x << " is in use though never set, or disabled"); } };
    auto reported = [&](const char* when) { auto r = w.call(get, J(Json::objectValue)); REQUIRE_MSG(r && r->isObject(), "get_tor_config failed"); check(*r, when); Str t = slurp(w.m.data + "/TOR/.torrc"); REQUIRE_MSG((*r)["torrc"].asString() == t, when << ": the torrc reported is not the file's"); size_t use = 0, plug = 0, br = 0; std::istringstream f(t); Str l; while (std::getline(f, l)) { use += l == "UseBridges 1"; plug += l.compare(0, 21, "ClientTransportPlugin") == 0; br += l.compare(0, 7, "Bridge ") == 0; REQUIRE_MSG(l.empty() || l == "UseBridges 1" || l.compare(0, 7, "Bridge ") == 0 || l.compare(0, 21, "ClientTransportPlugin") == 0, "odd line in the torrc: " << l); } size_t on = type.empty() ? 0 : 1; REQUIRE_MSG(use == on && plug == on && (br > 0) == (on > 0), when << ": the torrc does not fit " << (type.empty() ? "no bridges" : type) << ": " << t); };
    for (size_t i = 0; i < n; i++) {
        size_t k = s.below(8); J p(Json::objectValue); bool ok = true; if (k == 7) { c.log << " restart"; w.load(); reported("after the restart"); continue; }
        J a(Json::arrayValue); std::set<Str> add; if (k < 4) { size_t m = 1 + s.below(3); for (size_t q = 0; q < m; q++) { Str b = "obfs4 10.0." + std::to_string(s.below(3)) + "." + std::to_string(s.below(4)) + ":" + std::to_string(1 + s.below(65535)) + " " + Str(40, "0123456789ABCDEF"[s.below(16)]) + " cert=" + s.text("abcXYZ012+/", 20) + " iat-mode=" + std::to_string(s.below(3)); a.append(b); add.insert(b); } } bool snow = k == 4 || k == 5; if (k < 4 && s.chance(1, 8)) { snow = true; ok = false; }
        p["bridges_list"] = a; p["enable_snowflake"] = snow; if (s.chance(1, 8)) { ok = false; switch (s.below(5)) { case 0: p.removeMember("bridges_list"); break; case 1: p.removeMember("enable_snowflake"); break; case 2: p["bridges_list"] = "obfs4"; break; case 3: p["bridges_list"].append(J(Json::arrayValue)); p["bridges_list"].append("obfs4 1"); break; default: p["enable_snowflake"] = "maybe"; } }
        c.log << " set " << txt(p); auto r = w.call(up, p); REQUIRE_MSG(r.has_value() == ok, "setting bridges " << txt(p) << (ok ? " was refused" : " was accepted")); if (ok) { sets++; if (snow) { type = "snowflake"; must.clear(); may.clear(); } else if (add.empty()) { type = ""; must.clear(); may.clear(); } else { type = "obfs4"; must = add; may.insert(add.begin(), add.end()); } check(*r, "the answer"); } else c.log << " (refused)"; reported(ok ? "after setting bridges" : "after a refused change");
    }
    w.load(); reported("after the last restart"); w.compare("after the last restart"); if (sets > 1) c.nontrivial(); c.label(type.empty() ? "bridges-none" : "bridges-" + type);
}
void pbt::setup(Check& c) {
    c.id = "C41"; c.rule = "non-trivial: settings: at least one accepted update that named a setting; damaged: the file differs from a valid one; tor: bridges were set at least twice";
    c.workerInit = [] {}; c.quickCases = 6000; c.thoroughCases = 300000; c.quickCap = 25; c.quickMin = 1000; c.parts = { { "settings", 4, settings }, { "damaged", 2, damaged }, { "tor", 2, tor } };
    c.assumptions = { "names of peers are resolved by a stand-in for the resolver; no tor process is started (a stand-in takes its place)", "values of the file are of the right type and in range, except in part 'damaged'" };
}
