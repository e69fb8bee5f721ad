// C22: peers are remembered, banned and selected as recorded
#include <sstream>
#include <chrono>
#include <thread>
#include <atomic>
#include <functional>
#include <iomanip>
#include <P2P/Common.h>
#include <P2P/Peer.h>
#include <Core/Context.h>
#define private public
#include "P2P/Seed/PeerManager.h"
#undef private
#include "Database/PeerDBImpl.h"
#include "pbt.h"
#include "gen.h"
#include "env.h"
#include <dlfcn.h>
#include <time.h>
#include <arpa/inet.h>
using namespace pbt;
// ---- the wall clock as this thread sees it: stands still unless the check moves it
static thread_local long frozen = 0;
extern "C" int clock_gettime(clockid_t id, struct timespec* t) { static auto real = (int (*)(clockid_t, struct timespec*))dlsym(RTLD_NEXT, "clock_gettime"); int r = real(id, t); if (id == CLOCK_REALTIME && frozen) { t->tv_sec = frozen; t->tv_nsec = 0; } return r; }
extern "C" time_t time(time_t* p) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (p) *p = t.tv_sec; return t.tv_sec; }
struct Thaw { ~Thaw() { frozen = 0; } };
struct Rec { uint32_t version = 0, caps = 0; std::string ua; long contact = 0, ban = 0; int reason = 0; bool connected = false, dirty = false; long attempt = 0; };
typedef std::map<std::string, Rec> Model;
static IPAddress ip(const std::string& t) { return IPAddress(asio::ip::make_address(t)); }
static std::string address(Src& s) {
    switch (s.below(6)) { case 0: return "127.0.0." + std::to_string(1 + s.below(3)); case 1: return "10.1.0." + std::to_string(s.below(4)); case 2: return "2001:db8::" + std::to_string(1 + s.below(4)); case 3: return "203.0.113." + std::to_string(s.below(6)); case 4: return s.flip() ? "::1" : "::203.0.113." + std::to_string(1 + s.below(3));
    default: { uint8_t b[4] = { (uint8_t)(1 + s.below(223)), (uint8_t)s.below(256), (uint8_t)s.below(256), (uint8_t)s.below(256) }; char o[64]; return inet_ntop(AF_INET, b, o, sizeof o); } } }
static std::string canon(const std::string& t) { uint8_t b[16]; char o[64]; if (inet_pton(AF_INET, t.c_str(), b) == 1) return inet_ntop(AF_INET, b, o, sizeof o); inet_pton(AF_INET6, t.c_str(), b); return inet_ntop(AF_INET6, b, o, sizeof o); }
static uint32_t capsOf(Src& s) { return s.chance(1, 8) ? (uint32_t)s.edgy64() : (uint32_t)s.below(8); }
static std::string agent(Src& s) { return s.chance(1, 3) ? "" : s.chance(1, 4) ? s.text("\xff\x01 az/", 300) : "MW/Grin++ " + s.text("0123456789.", 8); }
static Rec record(Src& s, long now) { Rec r; r.version = s.chance(1, 4) ? (uint32_t)s.edgy64() : (uint32_t)s.below(4); r.caps = capsOf(s); r.ua = agent(s); r.contact = s.chance(1, 5) ? (long)s.edgy64() : s.chance(1, 4) ? 0 : now - (long)s.below(1000000); r.ban = s.chance(1, 3) ? now - (long)s.below(20000) : s.chance(1, 6) ? (long)s.edgy64() : 0; r.reason = (int)s.below(10); return r; }
static PeerPtr peerOf(const std::string& a, const Rec& r) { return std::make_shared<Peer>(ip(a), r.version, Capabilities(r.caps), r.ua, (std::time_t)r.contact, (std::time_t)r.ban, (EBanReason)r.reason); }
static void same(const Peer& p, const std::string& a, const Rec& r, const char* where) {
    REQUIRE_MSG(p.GetIPAddress() == ip(a), where << ": " << p.GetIPAddress().Format() << " for " << a); REQUIRE_MSG(p.GetVersion() == r.version, where << ": version of " << a << " is " << p.GetVersion() << ", recorded was " << r.version);
    REQUIRE_MSG((uint32_t)p.GetCapabilities().GetCapability() == r.caps, where << ": capabilities of " << a); REQUIRE_MSG(p.GetUserAgent() == r.ua, where << ": user agent of " << a); REQUIRE_MSG(p.GetLastContactTime() == r.contact, where << ": last contact of " << a << " is " << p.GetLastContactTime() << ", recorded was " << r.contact);
    REQUIRE_MSG(p.GetLastBanTime() == r.ban, where << ": ban time of " << a << " is " << p.GetLastBanTime() << ", recorded was " << r.ban); if (r.ban) REQUIRE_MSG((int)p.GetBanReason() == r.reason, where << ": ban reason of " << a); }
static void sameAll(const std::vector<PeerPtr>& v, const Model& m, const char* where) { std::set<std::string> seen; for (auto& p : v) { std::string a = canon(p->GetIPAddress().GetAddress().to_string()); REQUIRE_MSG(m.count(a), where << ": unexpected record of " << a); REQUIRE_MSG(seen.insert(a).second, where << ": " << a << " twice"); same(*p, a, m.at(a), where); } for (auto& kv : m) REQUIRE_MSG(seen.count(kv.first), where << ": record of " << kv.first << " is missing"); }
static void database(Ctx& c) {
    auto& s = c.src; Thaw thaw; env::init(c.scratch() + "/node"); auto db = PeerDB::OpenDB(Global::GetConfig()); Model m; REQUIRE(db->LoadAllPeers().empty()); long now = 1700000000; size_t steps = 2 + s.size(20); size_t over = 0;
    for (size_t q = 0; q < steps; q++) switch (s.weighted({ 4, 2, 3, 1 })) {
        case 0: { std::vector<PeerPtr> v; size_t n = s.size(6); for (size_t i = 0; i < n; i++) { std::string a = canon(address(s)); Rec r = record(s, now); over += m.count(a); v.push_back(peerOf(a, r)); m[a] = r; } c.log << "save " << n << "; "; db->SavePeers(v); break; }
        case 1: { std::vector<PeerPtr> v; size_t n = s.size(4); for (size_t i = 0; i < n; i++) { std::string a = canon(address(s)); if (!m.empty() && s.chance(2, 3)) a = std::next(m.begin(), s.below(m.size()))->first; v.push_back(peerOf(a, record(s, now))); m.erase(a); } c.log << "delete " << n << "; "; db->DeletePeers(v); break; }
        case 2: { std::string a = canon(address(s)); if (!m.empty() && s.chance(2, 3)) a = std::next(m.begin(), s.below(m.size()))->first; std::optional<uint16_t> port; if (s.flip()) port = (uint16_t)s.edgy64(); auto r = db->GetPeer(ip(a), port); REQUIRE_MSG(r.has_value() == (m.count(a) > 0), a << (r ? " found though not saved" : " not found though saved") << (port ? " (asked with a port)" : "")); if (r) same(**r, a, m[a], "read back"); break; }
        case 3: sameAll(db->LoadAllPeers(), m, "all peers"); break; }
    sameAll(db->LoadAllPeers(), m, "all peers at the end"); c.nontrivial(over > 0 && m.size() >= 2);
}
enum Tri { NO, YES, EITHER };
static Tri before(long then, long now, long window) { __int128 d = (__int128)now - then; return d < window ? YES : d == window ? EITHER : NO; }   // less than the window has passed
static void manager(Ctx& c) {
    auto& s = c.src; Thaw thaw; auto sched = std::make_shared<Bosma::Scheduler>(1); env::init(c.scratch() + "/node", Environment::AUTOMATED_TESTING, Json::Value(Json::objectValue), sched); long now = 4000000000 + (long)s.below(100000000); frozen = now;
    auto db = std::make_shared<Locked<IPeerDB>>(std::static_pointer_cast<IPeerDB>(PeerDB::OpenDB(Global::GetConfig()))); Model disk, m; bool offered = false, refusedSome = false, restarted = false;
    { size_t n = s.size(8); std::vector<PeerPtr> v; for (size_t i = 0; i < n; i++) { std::string a = canon(address(s)); Rec r = record(s, now); if (r.ban > now || r.ban < 0) r.ban = 0; v.push_back(peerOf(a, r)); disk[a] = r; } db->Write()->SavePeers(v); }
    auto ctx = env::ctx(); std::shared_ptr<Locked<PeerManager>> pm; std::map<std::string, PeerPtr> handle;
    auto open = [&] { pm = PeerManager::Create(ctx, db); m = disk; for (auto& kv : m) { kv.second.connected = kv.second.dirty = false; kv.second.attempt = 0; } handle.clear(); };
    auto manage = [&] { Model n; for (auto& kv : m) { auto& r = kv.second; if (r.dirty) { r.dirty = false; disk[kv.first] = r; } else if (r.contact > 0 && r.contact < now - 7 * 24 * 3600) { disk.erase(kv.first); continue; } n[kv.first] = r; } m = n; };
    auto close = [&] { handle.clear(); pm.reset(); manage(); for (auto& kv : disk) { kv.second.connected = kv.second.dirty = false; } sameAll(db->Read()->LoadAllPeers(), disk, "in the database after closing"); };
    auto banned = [&](const Rec& r) { return before(r.ban, now, P2P::BAN_WINDOW); }; auto eligible = [&](const Rec& r) { if (r.connected) return NO; Tri a = banned(r), b = before(r.attempt, now, P2P::RETRY_WINDOW); if (a == YES || b == YES) return NO; return a == EITHER || b == EITHER ? EITHER : YES; };
    open(); c.log << m.size() << " saved:"; size_t steps = 3 + s.size(30);
    for (size_t q = 0; q < steps; q++) {
        frozen = now; std::string a = canon(address(s)); if (!m.empty() && s.chance(4, 5)) a = std::next(m.begin(), s.below(m.size()))->first; c.log << " ";
        switch (s.weighted({ 6, 3, 3, 1, 3, 3, 4, 3, 1, 1, 2 })) {
        case 0: { uint32_t cap = s.chance(3, 4) ? (uint32_t)s.pick<uint32_t>({ 6, 6, 4, 2 }) : capsOf(s); PeerPtr p; { auto w = pm->Write(); p = w->GetNewPeer((Capabilities::ECapability)cap); } size_t sure = 0, sureCap = 0, no = 0; for (auto& kv : m) { Tri e = eligible(kv.second); sure += e == YES; sureCap += e == YES && (kv.second.caps & cap) == cap; no += e == NO; }
            c.log << "offer"; if (!p) { REQUIRE_MSG(sure == 0, "no peer is offered though " << sure << " can be connected to"); c.log << "-"; refusedSome |= no > 0; break; }
            std::string o = canon(p->GetIPAddress().GetAddress().to_string()); c.log << "(" << o << ")"; REQUIRE_MSG(m.count(o), "an unknown peer is offered"); Rec& r = m[o]; REQUIRE_MSG(eligible(r) != NO, "offered " << o << ", which is " << (r.connected ? "connected" : banned(r) == YES ? "banned" : "tried a moment ago")); if (sureCap) REQUIRE_MSG((r.caps & cap) == cap, "a peer lacking the preferred capability is offered though others have it"); r.attempt = now; offered = true; refusedSome |= no > 0; break; }
        case 1: { size_t n = s.size(4); std::vector<SocketAddress> v; for (size_t i = 0; i < n; i++) { std::string x = canon(address(s)); v.push_back(SocketAddress(ip(x), (uint16_t)s.edgy64())); if (!m.count(x)) m[x] = Rec(); } pm->Write()->AddFreshPeers(v); c.log << "add" << n; break; }
        case 2: { int reason = 1 + (int)s.below(9); pm->Write()->BanPeer(ip(a), (EBanReason)reason); if (!m.count(a)) { m[a] = Rec(); m[a].attempt = now; } m[a].ban = now; m[a].reason = reason; m[a].dirty = true; c.log << "ban(" << a << ")"; break; }
        case 3: { pm->Write()->UnbanPeer(ip(a)); if (m.count(a)) { m[a].ban = 0; m[a].dirty = true; } c.log << "unban(" << a << ")"; break; }
        case 4: { PeerPtr p; { auto w = pm->Write(); p = w->GetPeer(ip(a)); } REQUIRE(p != nullptr); if (!m.count(a)) m[a] = Rec(); Rec& r = m[a]; bool on = s.chance(2, 3); if (on) { r.caps = capsOf(s); r.ua = agent(s); r.version = (uint32_t)s.below(4); p->UpdateCapabilities(Capabilities(r.caps)); p->UpdateUserAgent(r.ua); p->UpdateVersion(r.version); p->UpdateLastContactTime(); r.contact = now; } p->SetConnected(on); r.connected = on; r.dirty = true; c.log << (on ? "connect(" : "disconnect(") << a << ")"; break; }
        case 5: { uint32_t cap = capsOf(s); uint16_t max = (uint16_t)(1 + s.below(6)); std::vector<PeerPtr> v = pm->Read()->GetPeers((Capabilities::ECapability)cap, max); size_t with = 0, un = 0; for (auto& kv : m) if (banned(kv.second) == NO) { un++; with += (kv.second.caps & cap) == cap; } c.log << "serve" << v.size(); REQUIRE_MSG(v.size() <= max, v.size() << " peers are served, asked for " << max); REQUIRE_MSG(!v.empty() || un == 0, "no peer is served though " << un << " are known"); std::set<std::string> seen;
            for (auto& p : v) { std::string o = canon(p->GetIPAddress().GetAddress().to_string()); REQUIRE_MSG(m.count(o) && seen.insert(o).second, "an unknown peer, or one twice: " << o); REQUIRE_MSG(banned(m[o]) != YES, "the banned peer " << o << " is served"); if (with) REQUIRE_MSG((m[o].caps & cap) == cap, "a peer lacking the capability is served though others have it"); } break; }
        case 6: { long d = s.pick<long>({ 1, 60, P2P::RETRY_WINDOW + 1, P2P::RETRY_WINDOW - 1, P2P::BAN_WINDOW - 1, P2P::BAN_WINDOW + 1, 3 * 24 * 3600 }); if (s.chance(1, 3)) d = (long)s.below((uint64_t)d + 1); now += d; frozen = now; c.log << "+" << d << "s"; break; }
        case 7: for (auto& kv : m) { auto w = pm->Write(); PeerPtr p = w->GetPeer(ip(kv.first)); same(*p, kv.first, kv.second, "known peer"); Tri b = banned(kv.second); if (b != EITHER) REQUIRE_MSG(p->IsBanned() == (b == YES), kv.first << " is reported as " << (p->IsBanned() ? "banned" : "not banned")); REQUIRE_MSG(p->IsConnected() == kv.second.connected, "connected state of " << kv.first); } c.log << "look"; break;
        case 8: { auto rd = pm->Read(); auto p = static_cast<const PeerManager&>(*rd.GetShared()).GetPeer(ip(a)); REQUIRE_MSG(p.has_value() == (m.count(a) > 0), "peer " << a << (p ? " is known" : " is not known")); if (p) same(**p, a, m[a], "queried"); auto all = static_cast<const PeerManager&>(*rd.GetShared()).GetAllPeers(); std::set<std::string> seen; for (auto& x : all) { std::string o = canon(x->GetIPAddress().GetAddress().to_string()); REQUIRE(m.count(o) && seen.insert(o).second); } for (auto& kv : m) REQUIRE_MSG(seen.count(kv.first) == (kv.second.contact > 0), "list of all peers: " << kv.first); c.log << "list"; break; }
        case 9: close(); open(); c.log << "reopen"; restarted = true; break;
        case 10: { { auto w = pm->Write(); PeerManager::Thread_ManagePeers(*w.GetShared()); } manage(); c.log << "save"; break; } }
    }
    close(); c.nontrivial(offered && refusedSome); if (restarted) c.label("reopened");
}
void pbt::setup(Check& c) {
    c.id = "C22"; c.rule = "non-trivial: a peer was offered and another one was not eligible when asked (manager), a record was overwritten and at least two remained (database)"; c.quickCases = 4000; c.thoroughCases = 200000; c.quickCap = 15; c.quickMin = 0; c.workerInit = env::workerDefault;
    c.parts = { { "manager", 3, manager }, { "database", 1, database } };
    c.assumptions = { "the exact second in which a ban or the retry window ends may go either way", "the periodic saving is called by the check instead of the scheduler" };
}
