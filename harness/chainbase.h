#pragma once
#include "chain.h"
using namespace pbt; using namespace chain;
// a chain of blocks built once per worker; every case starts from a copy of the data directory of a node that holds it
struct Base { Tree tree; std::vector<Blk*> spine; std::string dir; uint64_t serial = 0; size_t n = 0; };
static Base* g; static const int LEN = 34;
static void init() {
    env::workerDefault(); char b[4096]; if (!getcwd(b, sizeof b)) abort(); std::string d = std::string(b) + "/basenode"; mkdir(d.c_str(), 0755); env::init(d); g = new Base; g->dir = d; std::vector<uint64_t> seedv(4000); uint64_t x = 42; for (auto& v : seedv) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; v = x >> 20; }
    static uint64_t rec[4096]; static volatile uint64_t cnt; Src s(seedv, rec, 4096, &cnt); Node n; n.open(); Blk* t = g->tree.genesis(); g->spine.push_back(t); for (int i = 0; i < LEN; i++) { t = g->tree.randomBlock(s, t, 3); if (n.add(t->block) != (int)EBlockChainStatus::SUCCESS) { fprintf(stderr, "base chain refused at %d\n", i); abort(); } g->spine.push_back(t); }
    n.close(); g->serial = g->tree.serial; g->n = g->tree.all.size();
}
struct CaseTree { ~CaseTree() { while (g->tree.all.size() > g->n) { g->tree.byHash.erase(g->tree.all.back()->hdr->GetHash()); g->tree.all.pop_back(); } g->tree.serial = g->serial; } };
// a node opened on a copy of the base
struct NodeOn { Node n; NodeOn(Ctx& c) { copyTree(g->dir, c.scratch() + "/node"); env::init(c.scratch() + "/node"); n.open(); } };
