// Node context for code under test, rooted in a scratch directory.
#pragma once
#include "pbt.h"
#include <BlockChain/ICoinView.h>
#include <Core/Config.h>
#include <Core/Context.h>
#include <Core/Global.h>
#include <Core/Exceptions/BlockChainException.h>
#include <csignal>
#include <map>

namespace env {
inline std::shared_ptr<Context>& ctx() { static std::shared_ptr<Context> c; return c; }
inline void init(const std::string& dir, Environment e = Environment::AUTOMATED_TESTING, Json::Value json = Json::Value(Json::objectValue), std::shared_ptr<Bosma::Scheduler> sched = nullptr) {
    json["DATA_PATH"] = dir;
    auto cfg = Config::Load(json, e);
    auto c = std::make_shared<Context>(e, cfg, sched);
    Global::Init(c);
    ctx() = c;
    for (int s : { SIGINT, SIGTERM, SIGABRT }) signal(s, SIG_DFL);
}
// looks input features up for protocol versions that do not carry them
struct MapCoinView : ICoinView {
    std::map<std::vector<uint8_t>, EOutputFeatures> m;
    EOutputFeatures GetOutputType(const Commitment& c) const override { auto it = m.find(c.GetVec()); if (it == m.end()) throw BLOCK_CHAIN_EXCEPTION("output unknown"); return it->second; }
    void add(const TransactionBody& b) { for (auto& i : b.GetInputs()) m[i.GetCommitment().GetVec()] = i.GetFeatures(); }
};
inline void workerDefault() { char b[4096]; if (getcwd(b, sizeof b)) init(std::string(b) + "/data"); }
}
namespace env {
// switches between contexts of the three networks, created once per process
inline void use(Environment e) {
    static std::map<int, std::shared_ptr<Context>> all; auto& c = all[(int)e];
    if (!c) { char b[4096]; if (!getcwd(b, sizeof b)) abort(); init(std::string(b) + "/data" + std::to_string((int)e), e); c = ctx(); return; }
    if (ctx() != c) { Global::Init(c); ctx() = c; for (int s : { SIGINT, SIGTERM, SIGABRT }) signal(s, SIG_DFL); }
}
}
