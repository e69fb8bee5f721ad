// The verifiers whose graph size is fixed at 29 bits, and the validator that chooses among them, compiled again from the
// repository's sources for a graph size chosen at run time. The verifier for version 1 takes its size from the header,
// which has to say 29 bits here, so the caller stands in for it.
#include "powsmall.h"
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <numeric>
#include <memory>
#include <cstring>
#include <Consensus.h>
#include <Core/Models/BlockHeader.h>
#include <Common/Logger.h>
#include <Crypto/Hasher.h>
#include <Database/BlockDb.h>
#include "PoW/DifficultyCalculator.h"
#include "PoW/Cuckatoo.h"
#include "PoW/Common.h"
#include "PoW/uint128.h"
#include "PoW/Cuckarood.h"
#include "PoW/Cuckaroom.h"
#include "PoW/Cuckarooz.h"
#include "PoW/Cuckaroo.h"
namespace powsmall { int bits = 29; std::function<bool(const BlockHeader&)> cuckaroo; }
#define GRINPP_VERIF_EDGEBITS powsmall::bits
namespace small {
struct Cuckaroo { static bool Validate(const BlockHeader& h) { return powsmall::cuckaroo(h); } };
struct Cuckarood { static bool Validate(const BlockHeader&); }; struct Cuckaroom { static bool Validate(const BlockHeader&); }; struct Cuckarooz { static bool Validate(const BlockHeader&); };
#include <PoW/PoWValidator.h>
#include "PoW/Cuckarood.cpp"
#undef EDGEBITS
#undef NEDGES
#undef EDGEMASK
#undef NNODES
#undef NODEMASK
#include "PoW/Cuckaroom.cpp"
#undef EDGEBITS
#undef NEDGES
#undef EDGEMASK
#undef NNODES
#undef NODEMASK
#include "PoW/Cuckarooz.cpp"
#include "PoW/PoWValidator.cpp"
}
namespace powsmall {
bool cuckarood(const BlockHeader& h) { return small::Cuckarood::Validate(h); }
bool cuckaroom(const BlockHeader& h) { return small::Cuckaroom::Validate(h); }
bool cuckarooz(const BlockHeader& h) { return small::Cuckarooz::Validate(h); }
bool validator(const std::shared_ptr<const IBlockDB>& db, const BlockHeader& h, const BlockHeader& prev) { return small::PoWValidator(db).IsPoWValid(h, prev); }
}
