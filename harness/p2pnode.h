// The real network server of a node on a loopback port of its own, scripted peers with addresses of their own (127.x.y.z),
// a clock that the check moves, and a child process for every case.
#pragma once
#include "chainbase.h"
#include "p2pmsgs.h"
#include <P2P/P2PServer.h>
#include <P2P/SyncStatus.h>
#include <P2P/Common.h>
#include <BlockChain/CompactBlockFactory.h>
#include <arpa/inet.h>
#include <atomic>
#include <deque>
#include <dlfcn.h>
#include <netdb.h>
#include <poll.h>
#include <scheduler/Scheduler.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
static std::atomic<int64_t> aheadMs{ 0 }; static std::atomic<int> nodePort{ 0 }, dialPort{ 0 };
static const int P2P_PORT = 13414;
extern "C" {
int clock_gettime(clockid_t id, struct timespec* t) { static auto real = (int (*)(clockid_t, struct timespec*))dlsym(RTLD_NEXT, "clock_gettime"); int r = real(id, t); if (id == CLOCK_REALTIME) { int64_t a = aheadMs; t->tv_sec += a / 1000; t->tv_nsec += a % 1000 * 1000000; if (t->tv_nsec >= 1000000000) { t->tv_sec++; t->tv_nsec -= 1000000000; } } return r; }
time_t time(time_t* p) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (p) *p = t.tv_sec; return t.tv_sec; }
// the server's port is fixed: many of them run here at once, each gets one of its own
int bind(int fd, const struct sockaddr* a, socklen_t n) { static auto real = (int (*)(int, const struct sockaddr*, socklen_t))dlsym(RTLD_NEXT, "bind"); auto s = (const sockaddr_in*)a; if (a->sa_family != AF_INET || ntohs(s->sin_port) != P2P_PORT) return real(fd, a, n); sockaddr_in b = *s; b.sin_port = 0; int r = real(fd, (sockaddr*)&b, sizeof b); if (!r) { socklen_t l = sizeof b; getsockname(fd, (sockaddr*)&b, &l); nodePort = ntohs(b.sin_port); } return r; }
// connections of the server to the peers' port reach the check's own listener
int connect(int fd, const struct sockaddr* a, socklen_t n) { static auto real = (int (*)(int, const struct sockaddr*, socklen_t))dlsym(RTLD_NEXT, "connect"); auto s = (const sockaddr_in*)a; if (a->sa_family != AF_INET || ntohs(s->sin_port) != P2P_PORT) return real(fd, a, n); if ((ntohl(s->sin_addr.s_addr) >> 24) != 127) { errno = ENETUNREACH; return -1; } sockaddr_in b = *s; b.sin_port = htons(dialPort); return real(fd, (sockaddr*)&b, sizeof b); }
int getaddrinfo(const char*, const char*, const struct addrinfo*, struct addrinfo**) { return EAI_FAIL; }
}
namespace net {
typedef std::vector<uint8_t> Bytes; using enc::Enc;
struct Shared { char msg[2000]; volatile int ok; char log[4000]; }; static Shared* sh;
static double mono() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static std::string step = "start"; static void say(const std::string& s) { step = s; size_t n = strlen(sh->log); if (n + s.size() + 3 < sizeof sh->log) { strcat(sh->log, s.c_str()); strcat(sh->log, "; "); } }
static void need(bool ok, const std::string& m) { if (!ok) throw std::runtime_error(step + ": " + m); }
// runs in a child process; its failure becomes the case's
template <class F> static void inChild(double limit, F f) {
    sh->msg[0] = 0; sh->ok = 0; sh->log[0] = 0; fflush(nullptr); pid_t p = fork(); if (!p) { prctl(PR_SET_PDEATHSIG, SIGKILL); try { f(); sh->ok = 1; } catch (std::exception& e) { snprintf(sh->msg, sizeof sh->msg, "%s", e.what()); } _exit(sh->ok ? 0 : 1); }
    int st = 0; double end = mono() + limit; for (;;) { pid_t r = waitpid(p, &st, WNOHANG); if (r == p) break; if (mono() > end) { kill(p, 9); waitpid(p, &st, 0); if (getenv("NET_TRACE")) { FILE* t = fopen(getenv("NET_TRACE"), "a"); fprintf(t, "%d TIMEOUT %s\n", (int)p, sh->log); fclose(t); } pbt::fail(std::string("the node does not get on within ") + std::to_string((int)limit) + " s: " + sh->log); } usleep(2000); }
    if (getenv("NET_TRACE")) { FILE* t = fopen(getenv("NET_TRACE"), "a"); fprintf(t, "%d st %x %s | %s\n", (int)p, st, sh->msg, sh->log); fclose(t); }
    if (WIFSIGNALED(st)) pbt::fail("the node ended by signal " + std::to_string(WTERMSIG(st)) + " after: " + sh->log); if (!sh->ok) pbt::fail(std::string(sh->msg[0] ? sh->msg : "exit without a result") + (WEXITSTATUS(st) > 1 ? " exit " + std::to_string(WEXITSTATUS(st)) : "") + " | steps: " + sh->log);
}
static Bytes frame(int type, const Bytes& body) { Enc e; e.v(Global::GetConfig().GetMagicBytes()).be(type, 1).be(body.size(), 8).v(body); return e.b; }
// ---- one peer
struct Wire {
    int fd = -1; std::string ip; Bytes rx; bool closed = false, raw = false; std::deque<std::pair<int, Bytes>> in; std::vector<Hash> heads, kernels; uint32_t ver = 1000; u64 td = 0, height = 0; Blk* tip = nullptr; int mood = 0; size_t asked = 0, silent = 0; std::map<Hash, TransactionPtr> txs; bool outbound = false; bool shaken = false;
    ~Wire() { drop(); } void drop() { if (fd >= 0) ::close(fd); fd = -1; closed = true; }
    void reset() { if (fd >= 0) { struct linger l { 1, 0 }; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); } drop(); }
    bool dial(const std::string& from) { ip = from; closed = false; rx.clear(); in.clear(); fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); sockaddr_in a{}; a.sin_family = AF_INET; inet_pton(AF_INET, from.c_str(), &a.sin_addr); if (::bind(fd, (sockaddr*)&a, sizeof a)) { drop(); return false; } sockaddr_in b{}; b.sin_family = AF_INET; b.sin_port = htons(nodePort); inet_pton(AF_INET, "127.0.0.1", &b.sin_addr); if (::connect(fd, (sockaddr*)&b, sizeof b)) { drop(); return false; } fcntl(fd, F_SETFL, O_NONBLOCK); return true; }
    void put(const Bytes& b) { size_t at = 0; double end = mono() + 20; while (at < b.size() && fd >= 0 && mono() < end) { ssize_t n = ::send(fd, b.data() + at, b.size() - at, MSG_NOSIGNAL); if (n > 0) at += (size_t)n; else if (errno == EAGAIN) { pollfd p{ fd, POLLOUT, 0 }; poll(&p, 1, 50); } else { closed = true; return; } } }
    void send(int type, const Bytes& body) { put(frame(type, body)); }
    void msg(const IMessage& m) { put(m.Serialize(ProtocolVersion::ToEnum(ver))); }
    // reads what is there
    void read() { uint8_t b[65536]; for (;;) { if (fd < 0) return; ssize_t n = ::recv(fd, b, sizeof b, 0); if (n > 0) { rx.insert(rx.end(), b, b + n); continue; } if (n == 0 || (errno != EAGAIN && errno != EINTR)) closed = true; break; } }
    bool next(std::pair<int, Bytes>& m) { if (raw || rx.size() < 11) return false; u64 len = 0; for (int i = 0; i < 8; i++) len = len << 8 | rx[3 + i]; auto& mg = Global::GetConfig().GetMagicBytes(); need(rx[0] == mg[0] && rx[1] == mg[1] && len < (64u << 20), "peer " + ip + " received garbage instead of a message: " + pbt::hex(rx.data(), 11)); if (rx.size() < 11 + len) return false; m.first = rx[2]; m.second.assign(rx.begin() + 11, rx.begin() + 11 + (long)len); rx.erase(rx.begin(), rx.begin() + 11 + (long)len); if (m.first == MessageTypes::TxHashSetArchive) raw = true; return true; }
};
static double waitMax = getenv("NET_WAIT") ? atof(getenv("NET_WAIT")) : 10;
struct Net {
    std::vector<std::unique_ptr<Wire>> ws; std::function<bool(Wire&, int, const Bytes&)> on; size_t traffic = 0; int listener = -1;
    Wire* fresh() { ws.push_back(std::make_unique<Wire>()); return ws.back().get(); }
    void pump(int ms) {
        std::vector<pollfd> p; for (auto& w : ws) if (w->fd >= 0 && !w->closed) p.push_back({ w->fd, POLLIN, 0 }); if (p.empty()) { usleep((useconds_t)ms * 1000); return; } poll(p.data(), p.size(), ms);
        for (size_t i = 0; i < ws.size(); i++) { Wire& w = *ws[i]; if (w.fd < 0 || w.closed) continue; w.read(); std::pair<int, Bytes> m; while (w.next(m)) { traffic++; if (!on || !on(w, m.first, m.second)) w.in.push_back(std::move(m)); } }
    }
    template <class F> bool until(F f, double limit = waitMax) { double end = mono() + limit; while (!f()) { if (mono() > end) return false; pump(2); } return true; }
    std::pair<int, Bytes> reply(Wire& w, const std::string& what) { until([&] { return !w.in.empty() || w.closed; }); need(!w.in.empty(), (w.closed ? "the connection was closed" : "no answer") + std::string(" (") + what + ")"); auto m = std::move(w.in.front()); w.in.pop_front(); return m; }
    bool shake(Wire& w, uint32_t version, u64 td, u64 nonce, const std::string& agent, const Hash& genesis) {
        w.ver = std::min<uint32_t>(version, 1000); HandMessage h(version, Capabilities(Capabilities::FAST_SYNC_NODE), nonce, Hash(genesis), td, SocketAddress::CreateV4({ 127, 0, 0, 1 }, 1), SocketAddress::CreateV4({ 127, 0, 0, 1 }, 2), agent); w.put(h.Serialize(EProtocolVersion::V1000));
        until([&] { return !w.in.empty() || w.closed; }); if (w.in.empty()) return false; auto m = std::move(w.in.front()); w.in.pop_front(); need(m.first == MessageTypes::Shake, "the handshake was answered by a message of type " + std::to_string(m.first)); ByteBuffer b(m.second); auto s = ShakeMessage::Deserialize(b); need(s.GetVersion() == std::min<uint32_t>(version, 1000), "version " + std::to_string(s.GetVersion()) + " agreed on with a peer of version " + std::to_string(version)); need(s.GetHash() == Global::GetGenesisHash(), "the handshake names another genesis block"); w.shaken = true; return true;
    }
    void ping(Wire& w) { w.msg(PingMessage(w.td, w.height)); }
    // everything sent before has been dealt with once this is answered
    void fence(Wire& w, u64 td, u64 height, const std::string& what) { ping(w); auto m = reply(w, what); need(m.first == MessageTypes::Pong, "message of type " + std::to_string(m.first) + " instead of the answer to a ping (" + what + ")"); ByteBuffer b(m.second); auto p = PongMessage::Deserialize(b); need(p.GetTotalDifficulty() == td && p.GetHeight() == height, "the node says it is at height " + std::to_string(p.GetHeight()) + " with work " + std::to_string(p.GetTotalDifficulty()) + ", its chain at " + std::to_string(height) + " with " + std::to_string(td) + " (" + what + ")"); }
};
static std::shared_ptr<Bosma::Scheduler> sched;
struct Server {
    Node n; std::shared_ptr<IP2PServer> p2p;
    void open(const std::string& dir, int minPeers = 0, int maxPeers = 60) { signal(SIGPIPE, SIG_IGN); Json::Value j(Json::objectValue); j["P2P"]["MIN_PEERS"] = minPeers; j["P2P"]["MAX_PEERS"] = maxPeers; j["DANDELION"]["PATIENCE_SECS"] = 250; env::init(dir, Environment::AUTOMATED_TESTING, j, std::make_shared<Bosma::Scheduler>(2)); n.open(); p2p = P2PAPI::StartP2PServer(env::ctx(), n.bc, n.txhs, n.db, n.pool); double end = mono() + 20; while (!nodePort && mono() < end) usleep(1000); need(nodePort != 0, "the server does not listen"); usleep(2000); }
};
// messages about a model block
inline std::vector<Blk*> pathTo(Blk* b) { std::vector<Blk*> r; for (; b; b = b->parent) r.push_back(b); std::reverse(r.begin(), r.end()); return r; }
inline Bytes headersBody(const std::vector<BlockHeaderPtr>& v) { Enc e; e.be(v.size(), 2); for (auto& h : v) enc::encHeader(e, *h); return e.b; }
inline Bytes blockBody(const FullBlock& b, uint32_t ver) { Enc e; enc::encHeader(e, *b.GetHeader()); enc::encBody(e, b.GetTransactionBody(), ProtocolVersion::ToEnum(ver)); return e.b; }
inline std::vector<BlockHeaderPtr> locate(Blk* tip, const std::vector<Hash>& loc) { auto p = pathTo(tip); std::vector<BlockHeaderPtr> r; for (auto& h : loc) for (Blk* b : p) if (b->hdr->GetHash() == h) { for (size_t i = b->height + 1; i < p.size() && r.size() < P2P::MAX_BLOCK_HEADERS; i++) r.push_back(p[i]->hdr); return r; } return r; }
static void initNet() {
    env::workerDefault(); sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); char b[4096]; if (!getcwd(b, sizeof b)) abort(); std::string d = std::string(b) + "/basenode"; ::mkdir(d.c_str(), 0755); g = new Base; g->dir = d; std::vector<uint64_t> seedv(4000); uint64_t x = 42; for (auto& v : seedv) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; v = x >> 20; }
    static uint64_t rec[4096]; static volatile uint64_t cnt; Src s(seedv, rec, 4096, &cnt); Blk* t = g->tree.genesis(); g->spine.push_back(t); for (int i = 0; i < LEN; i++) { t = g->tree.randomBlock(s, t, 3); g->spine.push_back(t); }
    try { inChild(120, [&] { env::init(d); Node* n = new Node; n->open(); for (size_t i = 1; i < g->spine.size(); i++) need(n->add(g->spine[i]->block) == (int)EBlockChainStatus::SUCCESS, "base chain refused at " + std::to_string(i)); delete n; }); } catch (std::exception& e) { fprintf(stderr, "base: %s\n", e.what()); abort(); }
    g->serial = g->tree.serial; g->n = g->tree.all.size();
}
}
