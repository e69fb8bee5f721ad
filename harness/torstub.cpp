// Replaces TorProcess.cpp: no child process is ever started by a check.
#include <Net/Tor/TorProcess.h>
#include <Net/Tor/TorAddressParser.h>
#include <Net/Tor/TorConnection.h>
#include <Crypto/ED25519.h>
TorProcess::~TorProcess() {}
TorProcess::Ptr TorProcess::Initialize(const fs::path&, const uint16_t, const uint16_t) noexcept { return nullptr; }
TorAddress TorProcess::AddListener(const ed25519_secret_key_t& k, const uint16_t) { return TorAddressParser::FromPubKey(ED25519::CalculatePubKey(k)); }
bool TorProcess::RemoveListener(const TorAddress&) { return true; }
std::shared_ptr<ITorConnection> TorProcess::Connect(const TorAddress&) { return nullptr; }
bool TorProcess::RetryInit() { return false; }
fs::path TorProcess::GetTorCommand() { return fs::path("/nonexistent/tor"); }
