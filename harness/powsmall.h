#pragma once
#include <Core/Models/BlockHeader.h>
#include <functional>
#include <memory>
class IBlockDB;
namespace powsmall {
extern int bits; extern std::function<bool(const BlockHeader&)> cuckaroo;
bool cuckarood(const BlockHeader&); bool cuckaroom(const BlockHeader&); bool cuckarooz(const BlockHeader&);
bool validator(const std::shared_ptr<const IBlockDB>& db, const BlockHeader& h, const BlockHeader& prev);
}
