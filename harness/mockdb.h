// IBlockDB holding headers only (everything else throws), for code that reads header history.
#pragma once
#include <Core/Models/FullBlock.h>
#include <Core/Models/BlockSums.h>
#include <Core/Models/OutputLocation.h>
#include <Database/BlockDb.h>
#include <map>
struct HeaderDB : IBlockDB {
    std::map<Hash, BlockHeaderPtr> m; BlockHeaderPtr any;   // any: returned for unknown hashes when set
    [[noreturn]] static void no() { throw std::logic_error("not a header query"); }
    void add(const BlockHeaderPtr& h) { m[h->GetHash()] = h; }
    BlockHeaderPtr GetBlockHeader(const Hash& h) const override { auto i = m.find(h); return i == m.end() ? any : i->second; }
    void Commit() override {} void Rollback() noexcept override {}
    uint8_t GetVersion() const override { return 2; } void SetVersion(const uint8_t) override {} void MigrateBlocks() override {} void Compact(const std::shared_ptr<const Chain>&) override {}
    void AddBlockHeader(BlockHeaderPtr h) override { add(h); } void AddBlockHeaders(const std::vector<BlockHeaderPtr>& v) override { for (auto& h : v) add(h); }
    void AddBlock(const FullBlock&) override { no(); } std::unique_ptr<FullBlock> GetBlock(const Hash&) const override { no(); } void ClearBlocks() override { no(); }
    void AddBlockSums(const Hash&, const BlockSums&) override { no(); } std::unique_ptr<BlockSums> GetBlockSums(const Hash&) const override { no(); } void ClearBlockSums() override { no(); }
    void AddOutputPosition(const Commitment&, const OutputLocation&) override { no(); } std::unique_ptr<OutputLocation> GetOutputPosition(const Commitment&) const override { no(); } void RemoveOutputPositions(const std::vector<Commitment>&) override { no(); } void ClearOutputPositions() override { no(); }
    void AddSpentPositions(const Hash&, const std::vector<SpentOutput>&) override { no(); } std::unordered_map<Commitment, OutputLocation> GetSpentPositions(const Hash&) const override { no(); } void ClearSpentPositions() override { no(); }
};
