From 455345ed6001fc297eb3948fab9174f4bb035303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 001/128] fix: refuse kernels with unknown features or non-zero
 unused fields

The version 1 encoding carries a fee and lock height for every kernel. They
are covered by the kernel's hash but not by its signature for variants that
do not use them, so one kernel could be given many hashes.
---
 src/Core/Models/TransactionKernel.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/Core/Models/TransactionKernel.cpp b/src/Core/Models/TransactionKernel.cpp
index 71de1cd..f3010c8 100644
--- a/src/Core/Models/TransactionKernel.cpp
+++ b/src/Core/Models/TransactionKernel.cpp
@@ -61,6 +61,10 @@ TransactionKernel TransactionKernel::Deserialize(ByteBuffer& byteBuffer)
 {
 	// Read KernelFeatures (1 byte)
 	const EKernelFeatures features = (EKernelFeatures)byteBuffer.ReadU8();
+	if (features > EKernelFeatures::NO_RECENT_DUPLICATE)
+	{
+		throw DESERIALIZATION_EXCEPTION_F("Unknown kernel features: {}", (int)features);
+	}
 
 	Fee fee;
 	uint64_t lockHeight = 0;
@@ -84,6 +88,17 @@ TransactionKernel TransactionKernel::Deserialize(ByteBuffer& byteBuffer)
 	{
 		fee = Fee::Deserialize(byteBuffer);
 		lockHeight = byteBuffer.ReadU64();
+
+		// Fields that a kernel variant doesn't use must be zero, since the kernel hash covers them but its signature doesn't.
+		if (features == EKernelFeatures::COINBASE_KERNEL && fee != Fee())
+		{
+			throw DESERIALIZATION_EXCEPTION("Coinbase kernel with non-zero fee");
+		}
+
+		if ((features == EKernelFeatures::COINBASE_KERNEL || features == EKernelFeatures::DEFAULT_KERNEL) && lockHeight != 0)
+		{
+			throw DESERIALIZATION_EXCEPTION_F("Kernel with unexpected lock height {}", lockHeight);
+		}
 	}
 
 	// Read ExcessCommitment (33 bytes)
-- 
2.43.0


From 763a6e3be1b5c6e937f1251dfcc034876ce1b550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 002/128] fix: refuse proofs of work with non-zero padding bits

The header hash is taken over the packed bytes, padding included, so one
proof could be given several hashes.
---
 src/Core/Models/ProofOfWork.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/Core/Models/ProofOfWork.cpp b/src/Core/Models/ProofOfWork.cpp
index 0149c79..8f69caa 100644
--- a/src/Core/Models/ProofOfWork.cpp
+++ b/src/Core/Models/ProofOfWork.cpp
@@ -107,6 +107,15 @@ std::vector<uint64_t> ProofOfWork::DeserializeProofNonces(const std::vector<unsi
 		proofNonces.push_back(proofNonce);
 	}
 
+	// The unused bits at the end must be zero. Otherwise, the same proof could be given many different hashes.
+	for (size_t position = (size_t)Consensus::PROOFSIZE * edgeBits; position < bits.size() * 8; position++)
+	{
+		if ((bits[position / 8] & (1 << (position % 8))) != 0)
+		{
+			throw DESERIALIZATION_EXCEPTION("Non-zero padding in proof of work");
+		}
+	}
+
 	return proofNonces;
 }
 
-- 
2.43.0


From a0834cf25d8cec3be6e30e75559b98e19380f020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:21 +0000
Subject: [PATCH 003/128] fix: error messages keep their own copy of the text

---
 src/P2P/Messages/ErrorMessage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/P2P/Messages/ErrorMessage.h b/src/P2P/Messages/ErrorMessage.h
index f0a92f5..b49189d 100644
--- a/src/P2P/Messages/ErrorMessage.h
+++ b/src/P2P/Messages/ErrorMessage.h
@@ -62,5 +62,5 @@ private:
 	const uint32_t m_errorCode; // TODO: Create EErrorType enum
 
 	// Error Message
-	const std::string& m_message;
+	const std::string m_message;
 };
\ No newline at end of file
-- 
2.43.0


From 93cc04de79fdf3daec1296490ea8527a68bf7111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:27 +0000
Subject: [PATCH 004/128] fix: byte buffer length checks no longer wrap around
 for huge lengths

---
 include/Core/Serialization/ByteBuffer.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Core/Serialization/ByteBuffer.h b/include/Core/Serialization/ByteBuffer.h
index 17ae678..f852c16 100644
--- a/include/Core/Serialization/ByteBuffer.h
+++ b/include/Core/Serialization/ByteBuffer.h
@@ -157,7 +157,7 @@ public:
             return "";
         }
 
-        if (m_index + stringLength > m_bytes.size()) {
+        if (stringLength > GetRemainingSize()) {
             throw DESERIALIZATION_EXCEPTION("Attempted to read past end of ByteBuffer.");
         }
 
@@ -169,7 +169,7 @@ public:
 
     std::string ReadString(const size_t size)
     {
-        if (m_index + size > m_bytes.size()) {
+        if (size > GetRemainingSize()) {
             throw DESERIALIZATION_EXCEPTION("Attempted to read past end of ByteBuffer.");
         }
 
@@ -195,7 +195,7 @@ public:
 
     std::vector<uint8_t> ReadVector(const uint64_t numBytes)
     {
-        if (m_index + numBytes > m_bytes.size()) {
+        if (numBytes > GetRemainingSize()) {
             throw DESERIALIZATION_EXCEPTION("Attempted to read past end of ByteBuffer.");
         }
 
-- 
2.43.0


From eb37dd4384620a557c08839c80d73f89148af18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:27 +0000
Subject: [PATCH 005/128] fix: segments cannot claim more hashes or leaves than
 their bytes can hold

---
 include/PMMR/Common/Segment.h      | 8 ++++++++
 include/PMMR/Common/SegmentProof.h | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/include/PMMR/Common/Segment.h b/include/PMMR/Common/Segment.h
index 6d85823..ea27fe4 100644
--- a/include/PMMR/Common/Segment.h
+++ b/include/PMMR/Common/Segment.h
@@ -94,6 +94,10 @@ public:
     {
         SegmentIdentifier segmentId = SegmentIdentifier::Deserialize(byteBuffer);
         const uint64_t numHashes = byteBuffer.Read<uint64_t>();
+        if (numHashes > byteBuffer.GetRemainingSize() / (8 + 32)) {
+            throw DESERIALIZATION_EXCEPTION_F("Segment claims {} hashes", numHashes);
+        }
+
         std::vector<uint64_t> hashPos(numHashes);
         for (uint64_t i = 0; i < numHashes; ++i) {
             hashPos[i] = byteBuffer.Read<uint64_t>();
@@ -104,6 +108,10 @@ public:
             hashes.push_back(byteBuffer.ReadBigInteger<32>());
         }
         const uint64_t numLeaves = byteBuffer.Read<uint64_t>();
+        if (numLeaves > byteBuffer.GetRemainingSize() / 8) {
+            throw DESERIALIZATION_EXCEPTION_F("Segment claims {} leaves", numLeaves);
+        }
+
         std::vector<uint64_t> leafPos(numLeaves);
         for (uint64_t i = 0; i < numLeaves; ++i) {
             leafPos[i] = byteBuffer.Read<uint64_t>();
diff --git a/include/PMMR/Common/SegmentProof.h b/include/PMMR/Common/SegmentProof.h
index 6495ab7..94e697d 100644
--- a/include/PMMR/Common/SegmentProof.h
+++ b/include/PMMR/Common/SegmentProof.h
@@ -51,6 +51,10 @@ public:
 	static SegmentProof Deserialize(ByteBuffer& byteBuffer)
 	{
 		const uint64_t size = byteBuffer.Read<uint64_t>();
+		if (size > byteBuffer.GetRemainingSize() / 32) {
+			throw DESERIALIZATION_EXCEPTION_F("Segment proof claims {} hashes", size);
+		}
+
 		std::vector<Hash> hashes;
 		hashes.reserve(size);
 		for (uint64_t i = 0; i < size; ++i) {
-- 
2.43.0


From 7f074a933b839ef18c82a767caa482d728e85dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:12 +0000
Subject: [PATCH 006/128] fix: reading a string of length zero no longer
 indexes an empty vector

---
 include/Core/Serialization/ByteBuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Core/Serialization/ByteBuffer.h b/include/Core/Serialization/ByteBuffer.h
index f852c16..f8b9af0 100644
--- a/include/Core/Serialization/ByteBuffer.h
+++ b/include/Core/Serialization/ByteBuffer.h
@@ -176,7 +176,7 @@ public:
         std::vector<uint8_t> temp(m_bytes.cbegin() + m_index, m_bytes.cbegin() + m_index + size);
         m_index += size;
 
-        return std::string((char*)&temp[0], size);
+        return std::string(temp.cbegin(), temp.cend());
     }
 
     template<size_t NUM_BYTES>
-- 
2.43.0


From 0c200a4fd126446258091fa3a5973b63add05d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:09 +0000
Subject: [PATCH 007/128] fix: fees read from json keep their fee shift

---
 include/Core/Models/Fee.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/Core/Models/Fee.h b/include/Core/Models/Fee.h
index b1a5ae2..45b27ea 100644
--- a/include/Core/Models/Fee.h
+++ b/include/Core/Models/Fee.h
@@ -62,7 +62,11 @@ public:
 
 	static Fee FromJSON(const Json::Value& json)
 	{
-		return Fee::From(JsonUtil::ConvertToUInt64(json));
+		Serializer serializer;
+		serializer.Append<uint64_t>(JsonUtil::ConvertToUInt64(json));
+
+		ByteBuffer byteBuffer(serializer.GetBytes());
+		return Fee::Deserialize(byteBuffer);
 	}
 
 private:
-- 
2.43.0


From 39f426cef36181b7b191aaa7dad2604ffb4f3b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:09 +0000
Subject: [PATCH 008/128] fix: json of no-recent-duplicate kernels includes
 their lock height

---
 src/Core/Models/TransactionKernel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Core/Models/TransactionKernel.cpp b/src/Core/Models/TransactionKernel.cpp
index f3010c8..7d576c4 100644
--- a/src/Core/Models/TransactionKernel.cpp
+++ b/src/Core/Models/TransactionKernel.cpp
@@ -130,7 +130,7 @@ Json::Value TransactionKernel::ToJSON() const
 		features_attrs_json["fee"] = m_fee.ToJSON();
 	}
 
-	if (m_features == EKernelFeatures::HEIGHT_LOCKED) {
+	if (m_features == EKernelFeatures::HEIGHT_LOCKED || m_features == EKernelFeatures::NO_RECENT_DUPLICATE) {
 		features_attrs_json["lock_height"] = GetLockHeight();
 	}
 
-- 
2.43.0


From fa8f4e1a0c043e15cd7fb0ba87fcbbe1eb72badc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:09 +0000
Subject: [PATCH 009/128] fix: kernel json without features is refused instead
 of dereferencing an empty list

---
 src/Core/Models/TransactionKernel.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Core/Models/TransactionKernel.cpp b/src/Core/Models/TransactionKernel.cpp
index 7d576c4..af85a54 100644
--- a/src/Core/Models/TransactionKernel.cpp
+++ b/src/Core/Models/TransactionKernel.cpp
@@ -145,6 +145,10 @@ Json::Value TransactionKernel::ToJSON() const
 TransactionKernel TransactionKernel::FromJSON(const Json::Value& transactionKernelJSON)
 {
 	Json::Value features_json = JsonUtil::GetRequiredField(transactionKernelJSON, "features");
+	if (!features_json.isObject() || features_json.size() != 1) {
+		throw DESERIALIZATION_EXCEPTION("Kernel features must be an object with a single member");
+	}
+
 	std::string feature_str = features_json.getMemberNames().front();
 	EKernelFeatures features = KernelFeatures::FromString(feature_str);
 
-- 
2.43.0


From 06e5a6b908f3262ad2ee7a280852dc8d0568020a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:41 +0000
Subject: [PATCH 010/128] fix: json numbers that are malformed or out of range
 are refused instead of becoming another number

---
 include/Core/Util/JsonUtil.h | 41 ++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/include/Core/Util/JsonUtil.h b/include/Core/Util/JsonUtil.h
index f85a509..5ab48f0 100644
--- a/include/Core/Util/JsonUtil.h
+++ b/include/Core/Util/JsonUtil.h
@@ -10,6 +10,7 @@
 #include <Common/Logger.h>
 #include <json/json.h>
 #include <sstream>
+#include <limits>
 #include <optional>
 #include <vector>
 
@@ -356,7 +357,13 @@ public:
 		}
 		else if (uint64JSON.isString())
 		{
-			return std::stoull(uint64JSON.asString());
+			const std::string str = uint64JSON.asString();
+			if (str.empty() || str.find_first_not_of("0123456789") != std::string::npos)
+			{
+				throw DESERIALIZATION_EXCEPTION_F("{} is not a uint64", str);
+			}
+
+			return std::stoull(str);
 		}
 		else
 		{
@@ -364,6 +371,19 @@ public:
 		}
 	}
 
+	// Converts to a smaller unsigned integer type, refusing values that it can't represent.
+	template<class T>
+	static T ConvertToUInt(const Json::Value& json)
+	{
+		const uint64_t value = ConvertToUInt64(json);
+		if (value > std::numeric_limits<T>::max())
+		{
+			throw DESERIALIZATION_EXCEPTION_F("{} is out of range", value);
+		}
+
+		return (T)value;
+	}
+
 	static uint64_t GetRequiredUInt64(const Json::Value& parentJSON, const std::string& key)
 	{
 		const Json::Value value = JsonUtil::GetRequiredField(parentJSON, key);
@@ -395,14 +415,14 @@ public:
 		}
 		else
 		{
-			return std::make_optional((uint32_t)ConvertToUInt64(json.value()));
+			return std::make_optional(ConvertToUInt<uint32_t>(json.value()));
 		}
 	}
 
 	static uint32_t GetRequiredUInt32(const Json::Value& parentJSON, const std::string& key)
 	{
 		const Json::Value value = JsonUtil::GetRequiredField(parentJSON, key);
-		return (uint32_t)ConvertToUInt64(value);
+		return ConvertToUInt<uint32_t>(value);
 	}
 
 	//
@@ -411,7 +431,7 @@ public:
 	static uint16_t GetRequiredUInt16(const Json::Value& parentJSON, const std::string& key)
 	{
 		const Json::Value value = JsonUtil::GetRequiredField(parentJSON, key);
-		return (uint16_t)ConvertToUInt64(value);
+		return ConvertToUInt<uint16_t>(value);
 	}
 
 	//
@@ -420,7 +440,7 @@ public:
 	static uint8_t GetRequiredUInt8(const Json::Value& parentJSON, const std::string& key)
 	{
 		const Json::Value value = JsonUtil::GetRequiredField(parentJSON, key);
-		return (uint8_t)ConvertToUInt64(value);
+		return ConvertToUInt<uint8_t>(value);
 	}
 
 	static std::optional<uint8_t> GetUInt8Opt(const Json::Value& parentJSON, const std::string& key)
@@ -432,7 +452,7 @@ public:
 		}
 		else
 		{
-			return (uint8_t)ConvertToUInt64(json.value());
+			return ConvertToUInt<uint8_t>(json.value());
 		}
 	}
 
@@ -447,7 +467,14 @@ public:
 		}
 		else if (int64JSON.isString())
 		{
-			return std::stoll(int64JSON.asString());
+			const std::string str = int64JSON.asString();
+			const size_t digits = str.rfind('-', 0) == 0 ? 1 : 0;
+			if (str.size() == digits || str.find_first_not_of("0123456789", digits) != std::string::npos)
+			{
+				throw DESERIALIZATION_EXCEPTION_F("{} is not an int64", str);
+			}
+
+			return std::stoll(str);
 		}
 		else
 		{
-- 
2.43.0


From b6a896b900dd9c6603783a14c370439bfe3f0db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:41 +0000
Subject: [PATCH 011/128] fix: header times in json are really UTC, whatever
 the local time zone

---
 include/Common/Util/TimeUtil.h | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/Common/Util/TimeUtil.h b/include/Common/Util/TimeUtil.h
index 77f9602..15aec3b 100644
--- a/include/Common/Util/TimeUtil.h
+++ b/include/Common/Util/TimeUtil.h
@@ -17,15 +17,31 @@ public:
 
 	static std::string FormatUTC(const int64_t timestamp)
 	{
-		return Format(timestamp, "%Y-%m-%d %H:%M:%S UTC");
+		std::time_t time(timestamp);
+
+		std::tm tm;
+#ifdef _WIN32
+		gmtime_s(&tm, &time);
+#else
+		tm = *gmtime(&time);
+#endif
+
+		std::ostringstream stream;
+		stream << std::put_time(&tm, "%Y-%m-%d %H:%M:%S UTC");
+		return stream.str();
 	}
 	
-	static std::time_t FromString(const std::string& str, const std::string& format = "%Y-%m-%d %H:%M:%S%z")
+	// Parses a UTC time, as formatted by FormatUTC
+	static std::time_t FromString(const std::string& str, const std::string& format = "%Y-%m-%d %H:%M:%S UTC")
 	{
 		std::tm t = { 0 };
 		std::istringstream ss(str);
 		ss >> std::get_time(&t, format.c_str());
-		return mktime(&t);
+#ifdef _WIN32
+		return _mkgmtime(&t);
+#else
+		return timegm(&t);
+#endif
 	}
 
 	static std::string Format(const int64_t timestamp, const std::string& format)
-- 
2.43.0


From d04e71ed1185800520284b691b077dd155a5d5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:41 +0000
Subject: [PATCH 012/128] fix: header json with the wrong number of proof
 nonces is refused

---
 src/Core/Models/BlockHeader.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Core/Models/BlockHeader.cpp b/src/Core/Models/BlockHeader.cpp
index 92ce620..aba8776 100644
--- a/src/Core/Models/BlockHeader.cpp
+++ b/src/Core/Models/BlockHeader.cpp
@@ -162,6 +162,11 @@ std::shared_ptr<BlockHeader> BlockHeader::FromJSON(const Json::Value& json)
 		proofNonces.push_back(cuckoo_nonce.asUInt64());
 	}
 
+	if (edgeBits == 0 || edgeBits > 63 || proofNonces.size() != Consensus::PROOFSIZE)
+	{
+		throw DESERIALIZATION_EXCEPTION_F("Invalid proof of work with {} edge bits and {} nonces", edgeBits, proofNonces.size());
+	}
+
 	return std::make_shared<BlockHeader>(
 		version,
 		height,
-- 
2.43.0


From 8b27d20564833ce1132aefb90380a99fa672283c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:41 +0000
Subject: [PATCH 013/128] fix: unparseable compact signatures are refused
 instead of reading an empty list

---
 src/Crypto/Crypto.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Crypto/Crypto.cpp b/src/Crypto/Crypto.cpp
index 3bf1958..cd3bc24 100644
--- a/src/Crypto/Crypto.cpp
+++ b/src/Crypto/Crypto.cpp
@@ -154,6 +154,9 @@ bool Crypto::VerifyAggregateSignature(const Signature& aggregateSignature, const
 Signature Crypto::ParseCompactSignature(const CompactSignature& signature)
 {
 	auto sigs = AggSig::GetInstance().ParseCompactSignatures({ signature });
+	if (sigs.empty()) {
+		throw CRYPTO_EXCEPTION("Failed to parse compact signature");
+	}
 
 	return Signature(sigs.front().data);
 }
-- 
2.43.0


From 2af76ab29ccb25beab2e9c7ef7e463eae2ee5fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 014/128] fix: json of a transaction without inputs, outputs or
 kernels can be read back

---
 src/Core/Models/TransactionBody.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Core/Models/TransactionBody.cpp b/src/Core/Models/TransactionBody.cpp
index b3ff484..9674e04 100644
--- a/src/Core/Models/TransactionBody.cpp
+++ b/src/Core/Models/TransactionBody.cpp
@@ -90,21 +90,21 @@ Json::Value TransactionBody::ToJSON() const
 {
 	Json::Value bodyNode;
 
-	Json::Value inputsNode;
+	Json::Value inputsNode(Json::arrayValue);
 	for (const TransactionInput& input : GetInputs())
 	{
 		inputsNode.append(input.ToJSON());
 	}
 	bodyNode["inputs"] = inputsNode;
 
-	Json::Value outputsNode;
+	Json::Value outputsNode(Json::arrayValue);
 	for (const TransactionOutput& output : GetOutputs())
 	{
 		outputsNode.append(output.ToJSON());
 	}
 	bodyNode["outputs"] = outputsNode;
 
-	Json::Value kernelsNode;
+	Json::Value kernelsNode(Json::arrayValue);
 	for (const TransactionKernel& kernel : GetKernels())
 	{
 		kernelsNode.append(kernel.ToJSON());
-- 
2.43.0


From 97783bdeb065c405a699f19b295c7ac23e74b0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 015/128] fix: json of coinbase kernels can be read back

---
 src/Core/Models/TransactionKernel.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Core/Models/TransactionKernel.cpp b/src/Core/Models/TransactionKernel.cpp
index af85a54..f1feaf7 100644
--- a/src/Core/Models/TransactionKernel.cpp
+++ b/src/Core/Models/TransactionKernel.cpp
@@ -153,6 +153,9 @@ TransactionKernel TransactionKernel::FromJSON(const Json::Value& transactionKern
 	EKernelFeatures features = KernelFeatures::FromString(feature_str);
 
 	Json::Value feature_json = features_json.get(feature_str, Json::nullValue);
+	if (feature_json.isNull()) {
+		feature_json = Json::Value(Json::objectValue); // Coinbase kernels have no attributes
+	}
 
 	Fee fee;
 	auto fee_json_opt = JsonUtil::GetOptionalField(feature_json, "fee");
-- 
2.43.0


From 439a22f7bfd0fa9d85f7be880bd41019b4d831db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 016/128] fix: base58 text containing a NUL is refused instead
 of being cut off there

---
 src/Core/Serialization/Base58.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/Core/Serialization/Base58.cpp b/src/Core/Serialization/Base58.cpp
index fdc9c34..1b638c2 100644
--- a/src/Core/Serialization/Base58.cpp
+++ b/src/Core/Serialization/Base58.cpp
@@ -44,6 +44,16 @@ constexpr inline bool IsSpace(char c) noexcept {
     return c == ' ' || c == '\f' || c == '\n' || c == '\r' || c == '\t' || c == '\v';
 }
 
+// The decoder stops at the first NUL, so strings that contain one must be refused, rather than read up to it.
+static const char* AsCString(const std::string& str)
+{
+    if (str.find('\0') != std::string::npos) {
+        throw std::exception();
+    }
+
+    return str.c_str();
+}
+
 std::vector<uint8_t> Base58::Decode(const char* psz, const bool include_version)
 {
     // Skip leading spaces.
@@ -166,7 +176,7 @@ std::string Base58::Encode(const std::vector<unsigned char>& vch)
 
 std::vector<uint8_t> Base58::Decode(const std::string& str)
 {
-    return Decode(str.c_str(), true);
+    return Decode(AsCString(str), true);
 }
 
 std::string Base58::EncodeCheck(const std::vector<unsigned char>& vchIn)
@@ -198,7 +208,7 @@ std::vector<uint8_t> Base58::DecodeCheck(const char* psz)
 
 std::vector<uint8_t> Base58::DecodeCheck(const std::string& str)
 {
-    return DecodeCheck(str.c_str());
+    return DecodeCheck(AsCString(str));
 }
 
 std::string Base58::SimpleEncodeCheck(const std::vector<unsigned char>& vchIn)
@@ -214,7 +224,7 @@ std::string Base58::SimpleEncodeCheck(const std::vector<unsigned char>& vchIn)
 
 std::vector<uint8_t> Base58::SimpleDecodeCheck(const std::string& str)
 {
-    std::vector<uint8_t> decoded = Decode(str.data(), false);
+    std::vector<uint8_t> decoded = Decode(AsCString(str), false);
 
     if (decoded.size() < 4) {
         throw std::exception();
-- 
2.43.0


From 0789d73f4fafbc9c72afe94eae5c8cde07e44914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:35 +0000
Subject: [PATCH 017/128] fix: proofs of work with too few edge bits are
 refused

---
 src/PoW/PoWValidator.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/PoW/PoWValidator.cpp b/src/PoW/PoWValidator.cpp
index dd2bd6e..2c828a8 100644
--- a/src/PoW/PoWValidator.cpp
+++ b/src/PoW/PoWValidator.cpp
@@ -11,6 +11,12 @@
 
 bool PoWValidator::IsPoWValid(const BlockHeader& header, const BlockHeader& previousHeader) const
 {
+    // Validate Edge Bits
+    if (!header.GetProofOfWork().IsPrimary() && !header.GetProofOfWork().IsSecondary()) {
+        LOG_WARNING_F("Too few edge bits for block {}", header);
+        return false;
+    }
+
     // Validate Total Difficulty
     if (header.GetTotalDifficulty() <= previousHeader.GetTotalDifficulty()) {
         LOG_WARNING_F("Target difficulty too low for block {}", header);
-- 
2.43.0


From 2d683371609faeeaedc49024592ad7948023173b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:35 +0000
Subject: [PATCH 018/128] fix: the difficulty of a 31-bit proof of work takes
 its phase-out into account

---
 src/PoW/PoWValidator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PoW/PoWValidator.cpp b/src/PoW/PoWValidator.cpp
index 2c828a8..52c10d5 100644
--- a/src/PoW/PoWValidator.cpp
+++ b/src/PoW/PoWValidator.cpp
@@ -70,7 +70,7 @@ uint64_t PoWValidator::GetMaximumDifficulty(const BlockHeader& header) const
     if (proofOfWork.GetEdgeBits() == Consensus::SECOND_POW_EDGE_BITS) {
         scalingDifficulty = header.GetScalingDifficulty();
     } else {
-        scalingDifficulty = Consensus::ScalingDifficulty(proofOfWork.GetEdgeBits());
+        scalingDifficulty = Consensus::GraphWeight(header.GetHeight(), proofOfWork.GetEdgeBits());
     }
 
     std::vector<uint8_t> temp;
-- 
2.43.0


From 582fe80cdcf53b8dfb65a552495f69e08e1eedbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:35 +0000
Subject: [PATCH 019/128] verification hook: graph size of the fixed-size proof
 verifiers can be overridden (GRINPP_VERIF_EDGEBITS)

---
 src/PoW/Cuckarood.cpp | 4 ++++
 src/PoW/Cuckaroom.cpp | 4 ++++
 src/PoW/Cuckarooz.cpp | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/src/PoW/Cuckarood.cpp b/src/PoW/Cuckarood.cpp
index cea45b8..ecec99d 100644
--- a/src/PoW/Cuckarood.cpp
+++ b/src/PoW/Cuckarood.cpp
@@ -5,7 +5,11 @@
 
 // the main parameter is the number of bits in an edge index,
 // i.e. the 2-log of the number of edges
+#ifdef GRINPP_VERIF_EDGEBITS
+#define EDGEBITS GRINPP_VERIF_EDGEBITS
+#else
 #define EDGEBITS 29
+#endif
 
 // number of edges
 #define NEDGES2 ((word_t)1 << EDGEBITS)
diff --git a/src/PoW/Cuckaroom.cpp b/src/PoW/Cuckaroom.cpp
index f94cf86..2dd6280 100644
--- a/src/PoW/Cuckaroom.cpp
+++ b/src/PoW/Cuckaroom.cpp
@@ -5,7 +5,11 @@
 
 // the main parameter is the number of bits in an edge index,
 // i.e. the 2-log of the number of edges
+#ifdef GRINPP_VERIF_EDGEBITS
+#define EDGEBITS GRINPP_VERIF_EDGEBITS
+#else
 #define EDGEBITS 29
+#endif
 
 // number of edges
 #define NEDGES ((word_t)1 << EDGEBITS)
diff --git a/src/PoW/Cuckarooz.cpp b/src/PoW/Cuckarooz.cpp
index f6b9e93..2b76cb1 100644
--- a/src/PoW/Cuckarooz.cpp
+++ b/src/PoW/Cuckarooz.cpp
@@ -5,7 +5,11 @@
 
 // the main parameter is the number of bits in an edge index,
 // i.e. the 2-log of the number of edges
+#ifdef GRINPP_VERIF_EDGEBITS
+#define EDGEBITS GRINPP_VERIF_EDGEBITS
+#else
 #define EDGEBITS 29
+#endif
 
 // number of edges
 #define NEDGES ((word_t)1 << EDGEBITS)
-- 
2.43.0


From 2b9125d1d15614b4983571d8e77d9096057fff8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:34 +0000
Subject: [PATCH 020/128] fix: the future time limit of headers is compared in
 seconds, whatever the resolution of the clock

---
 src/BlockChain/Validators/BlockHeaderValidator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/BlockChain/Validators/BlockHeaderValidator.cpp b/src/BlockChain/Validators/BlockHeaderValidator.cpp
index 41ab9ee..609334a 100644
--- a/src/BlockChain/Validators/BlockHeaderValidator.cpp
+++ b/src/BlockChain/Validators/BlockHeaderValidator.cpp
@@ -16,7 +16,9 @@ void BlockHeaderValidator::Validate(const BlockHeader& header, const BlockHeader
     }
 
     // Validate Timestamp - Ensure timestamp not too far in the future
-    if (header.GetTimestamp() > Consensus::GetMaxBlockTime(std::chrono::system_clock::now())) {
+    // (GetMaxBlockTime counts ticks of the system clock, timestamps count seconds)
+    const std::chrono::system_clock::duration maxBlockTime(Consensus::GetMaxBlockTime(std::chrono::system_clock::now()));
+    if (header.GetTimestamp() > std::chrono::duration_cast<std::chrono::seconds>(maxBlockTime).count()) {
         throw BAD_DATA_EXCEPTION_F(EBanReason::BadBlockHeader, "Timestamp beyond maxBlockTime for header {}", header);
     }
 
-- 
2.43.0


From d3f560dabcf544f0a35a457635fcd286d5a85221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:46 +0000
Subject: [PATCH 021/128] fix: no-recent-duplicate kernels are not coinbase
 kernels

---
 include/Core/Models/TransactionKernel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Core/Models/TransactionKernel.h b/include/Core/Models/TransactionKernel.h
index f77276a..1683f74 100644
--- a/include/Core/Models/TransactionKernel.h
+++ b/include/Core/Models/TransactionKernel.h
@@ -54,7 +54,7 @@ public:
 	uint64_t GetLockHeight() const { return m_lockHeight; }
 	const Commitment& GetExcessCommitment() const { return m_excessCommitment; }
 	const Signature& GetExcessSignature() const { return m_excessSignature; }
-	bool IsCoinbase() const { return (m_features & EKernelFeatures::COINBASE_KERNEL) == EKernelFeatures::COINBASE_KERNEL; }
+	bool IsCoinbase() const { return m_features == EKernelFeatures::COINBASE_KERNEL; }
 	Hash GetSignatureMessage() const;
 	static Hash GetSignatureMessage(const EKernelFeatures features, const Fee& fee, const uint64_t lockHeight);
 
-- 
2.43.0


From 22cba90a867b5bbf6cad0ae161212896068bf16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:30 +0000
Subject: [PATCH 022/128] fix: bodies with duplicate kernels are refused

---
 src/Core/Validation/TxBodyValidator.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Core/Validation/TxBodyValidator.cpp b/src/Core/Validation/TxBodyValidator.cpp
index 43be51d..5a36134 100644
--- a/src/Core/Validation/TxBodyValidator.cpp
+++ b/src/Core/Validation/TxBodyValidator.cpp
@@ -41,6 +41,12 @@ void TxBodyValidator::VerifySorted(const TransactionBody& body)
 			throw BAD_DATA_EXCEPTION(EBanReason::BadTransaction, "Duplicate outputs.");
 		}
 	}
+
+	for (size_t i = 1; i < body.GetKernels().size(); i++) {
+		if (body.GetKernels()[i] == body.GetKernels()[i - 1]) {
+			throw BAD_DATA_EXCEPTION(EBanReason::BadTransaction, "Duplicate kernels.");
+		}
+	}
 }
 
 // Verify that no input is spending an output from the same block.
-- 
2.43.0


From eb4907565f19faa78b92ab10b2a76a07f7a9f4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:30 +0000
Subject: [PATCH 023/128] fix: sets of range proofs that are empty or differ in
 size are verified without reading past them

---
 src/Crypto/Bulletproofs.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/Crypto/Bulletproofs.cpp b/src/Crypto/Bulletproofs.cpp
index 5088209..3ebeb59 100644
--- a/src/Crypto/Bulletproofs.cpp
+++ b/src/Crypto/Bulletproofs.cpp
@@ -34,6 +34,11 @@ bool Bulletproofs::VerifyBulletproofs(const std::vector<std::pair<Commitment, Ra
 {
 	std::shared_lock<std::shared_mutex> readLock(m_mutex);
 
+	if (rangeProofs.empty())
+	{
+		return true;
+	}
+
 	const size_t numBits = 64;
 	const size_t proofLength = rangeProofs.front().second.GetProofBytes().size();
 
@@ -44,6 +49,13 @@ bool Bulletproofs::VerifyBulletproofs(const std::vector<std::pair<Commitment, Ra
 	bulletproofPointers.reserve(rangeProofs.size());
 	for (const std::pair<Commitment, RangeProof>& rangeProof : rangeProofs)
 	{
+		// All of the proofs are verified with the same length
+		if (rangeProof.second.GetProofBytes().size() != proofLength)
+		{
+			LOG_ERROR("Rangeproofs differ in size");
+			return false;
+		}
+
 		if (!m_cache.WasAlreadyVerified(rangeProof.first))
 		{
 			commitments.push_back(rangeProof.first);
-- 
2.43.0


From 5408615ed0536486af9f79803aff1802eb284e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:31 +0000
Subject: [PATCH 024/128] fix: a verified range proof vouches only for itself,
 not for other proofs of its commitment

---
 src/Crypto/BulletProofsCache.h | 13 ++++++++-----
 src/Crypto/Bulletproofs.cpp    |  6 +++---
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/Crypto/BulletProofsCache.h b/src/Crypto/BulletProofsCache.h
index 81aa04b..065eff1 100644
--- a/src/Crypto/BulletProofsCache.h
+++ b/src/Crypto/BulletProofsCache.h
@@ -1,7 +1,9 @@
 #pragma once
 
 #include <caches/Cache.h>
+#include <Crypto/Hasher.h>
 #include <Crypto/Models/Commitment.h>
+#include <Crypto/Models/RangeProof.h>
 #include <mutex>
 
 class BulletProofsCache
@@ -13,20 +15,20 @@ public:
 
 	}
 
-	void AddToCache(const Commitment& commitment)
+	void AddToCache(const Commitment& commitment, const RangeProof& rangeProof)
 	{
 		std::unique_lock<std::mutex> lock(m_mutex);
 
-		m_bulletproofsCache.Put(commitment, commitment);
+		m_bulletproofsCache.Put(commitment, Hasher::Blake2b(rangeProof.GetProofBytes()));
 	}
 
-	bool WasAlreadyVerified(const Commitment& commitment) const
+	bool WasAlreadyVerified(const Commitment& commitment, const RangeProof& rangeProof) const
 	{
 		std::unique_lock<std::mutex> lock(m_mutex);
 
 		if (m_bulletproofsCache.Cached(commitment))
 		{
-			return m_bulletproofsCache.Get(commitment) == commitment;
+			return m_bulletproofsCache.Get(commitment) == Hasher::Blake2b(rangeProof.GetProofBytes());
 		}
 
 		return false;
@@ -34,5 +36,6 @@ public:
 
 private:
 	mutable std::mutex m_mutex;
-	mutable LRUCache<Commitment, Commitment> m_bulletproofsCache;
+	// The proof each commitment was verified with, as its hash
+	mutable LRUCache<Commitment, Hash> m_bulletproofsCache;
 };
\ No newline at end of file
diff --git a/src/Crypto/Bulletproofs.cpp b/src/Crypto/Bulletproofs.cpp
index 3ebeb59..6cf9336 100644
--- a/src/Crypto/Bulletproofs.cpp
+++ b/src/Crypto/Bulletproofs.cpp
@@ -56,7 +56,7 @@ bool Bulletproofs::VerifyBulletproofs(const std::vector<std::pair<Commitment, Ra
 			return false;
 		}
 
-		if (!m_cache.WasAlreadyVerified(rangeProof.first))
+		if (!m_cache.WasAlreadyVerified(rangeProof.first, rangeProof.second))
 		{
 			commitments.push_back(rangeProof.first);
 			bulletproofPointers.emplace_back(rangeProof.second.GetProofBytes().data());
@@ -87,9 +87,9 @@ bool Bulletproofs::VerifyBulletproofs(const std::vector<std::pair<Commitment, Ra
 		return false;
 	}
 
-	for (const Commitment& commitment : commitments)
+	for (const std::pair<Commitment, RangeProof>& rangeProof : rangeProofs)
 	{
-		m_cache.AddToCache(commitment);
+		m_cache.AddToCache(rangeProof.first, rangeProof.second);
 	}
 
 	return true;
-- 
2.43.0


From 1dcd22a3e563ed4e342ac6ecf5ea87b2a7f6078b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:58 +0000
Subject: [PATCH 025/128] fix: every header of a batch has to follow the header
 before it

---
 src/BlockChain/Processors/BlockHeaderProcessor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/BlockChain/Processors/BlockHeaderProcessor.cpp b/src/BlockChain/Processors/BlockHeaderProcessor.cpp
index ada2fb2..7e77986 100644
--- a/src/BlockChain/Processors/BlockHeaderProcessor.cpp
+++ b/src/BlockChain/Processors/BlockHeaderProcessor.cpp
@@ -237,6 +237,10 @@ void BlockHeaderProcessor::ValidateHeaders(Writer<ChainState> pLockedState, cons
     }
 
     for (const auto& pHeader : headers) {
+        if (pHeader->GetPreviousHash() != pPreviousHeader->GetHash()) {
+            throw BAD_DATA_EXCEPTION_F(EBanReason::BadBlockHeader, "Previous hash of header {} is not the hash of the previous header", *pHeader);
+        }
+
         validator.Validate(*pHeader, *pPreviousHeader);
 
         pHeaderMMR->AddHeader(*pHeader);
-- 
2.43.0


From dbfe645e5c3812c3d6ba22907b1f613f1ddd96ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:58 +0000
Subject: [PATCH 026/128] fix: blocks waiting on a heavier fork that is not
 higher than the confirmed chain are processed

---
 src/BlockChain/BlockChainImpl.cpp | 21 ++++-----------------
 src/BlockChain/ChainState.cpp     | 17 +++++++++++++++++
 src/BlockChain/ChainState.h       |  4 ++++
 3 files changed, 25 insertions(+), 17 deletions(-)

diff --git a/src/BlockChain/BlockChainImpl.cpp b/src/BlockChain/BlockChainImpl.cpp
index d1f97ed..49c7067 100644
--- a/src/BlockChain/BlockChainImpl.cpp
+++ b/src/BlockChain/BlockChainImpl.cpp
@@ -385,23 +385,10 @@ std::vector<std::pair<uint64_t, Hash>> BlockChain::GetBlocksNeeded(const uint64_
 
 bool BlockChain::ProcessNextOrphanBlock()
 {
-	BlockHeaderPtr pNextHeader = nullptr;
-	std::shared_ptr<const FullBlock> pOrphanBlock = nullptr;
-
+	const std::shared_ptr<const FullBlock> pOrphanBlock = m_pChainState->Read()->GetNextOrphanBlock();
+	if (pOrphanBlock == nullptr)
 	{
-		auto pReader = m_pChainState->Read();
-		const uint64_t height = pReader->GetHeight(EChainType::CONFIRMED) + 1;
-		pNextHeader = pReader->GetBlockHeaderByHeight(height, EChainType::CANDIDATE);
-		if (pNextHeader == nullptr)
-		{
-			return false;
-		}
-
-		pOrphanBlock = pReader->GetOrphanBlock(height, pNextHeader->GetHash());
-		if (pOrphanBlock == nullptr)
-		{
-			return false;
-		}
+		return false;
 	}
 
 	try
@@ -413,7 +400,7 @@ bool BlockChain::ProcessNextOrphanBlock()
 		m_pChainState->
 			Write()->
 			GetOrphanPool()->
-			RemoveOrphan(pNextHeader->GetHeight(), pNextHeader->GetHash());
+			RemoveOrphan(pOrphanBlock->GetHeight(), pOrphanBlock->GetHash());
 		return false;
 	}
 }
diff --git a/src/BlockChain/ChainState.cpp b/src/BlockChain/ChainState.cpp
index 7a0eb0a..25f2f2b 100644
--- a/src/BlockChain/ChainState.cpp
+++ b/src/BlockChain/ChainState.cpp
@@ -166,6 +166,23 @@ std::shared_ptr<const FullBlock> ChainState::GetOrphanBlock(const uint64_t heigh
 	return m_pOrphanPool->GetOrphanBlock(height, hash);
 }
 
+std::shared_ptr<const FullBlock> ChainState::GetNextOrphanBlock() const
+{
+	std::shared_ptr<const Chain> pCandidateChain = GetChainStore()->GetCandidateChain();
+	const uint64_t candidateHeight = pCandidateChain->GetTip()->GetHeight();
+
+	uint64_t height = GetChainStore()->FindCommonIndex(EChainType::CANDIDATE, EChainType::CONFIRMED)->GetHeight() + 1;
+	for (; height <= candidateHeight; ++height) {
+		const Hash hash = pCandidateChain->GetHash(height);
+
+		if (GetBlockDB()->GetBlock(hash) == nullptr) {
+			return m_pOrphanPool->GetOrphanBlock(height, hash);
+		}
+	}
+
+	return nullptr;
+}
+
 std::unique_ptr<BlockWithOutputs> ChainState::GetBlockWithOutputs(const uint64_t height) const
 {
 	auto pBlockIndex = GetChainStore()->GetChain(EChainType::CONFIRMED)->GetByHeight(height);
diff --git a/src/BlockChain/ChainState.h b/src/BlockChain/ChainState.h
index a88e25c..90186df 100644
--- a/src/BlockChain/ChainState.h
+++ b/src/BlockChain/ChainState.h
@@ -44,6 +44,10 @@ public:
 	std::unique_ptr<FullBlock> GetBlockByHeight(const uint64_t height) const;
 	std::shared_ptr<const FullBlock> GetOrphanBlock(const uint64_t height, const Hash& hash) const;
 
+	// Returns the first block of the candidate chain that hasn't been processed yet, if it's in the orphan pool.
+	// Blocks of a candidate chain that hasn't overtaken the confirmed chain yet are skipped once they've been processed.
+	std::shared_ptr<const FullBlock> GetNextOrphanBlock() const;
+
 	std::unique_ptr<BlockWithOutputs> GetBlockWithOutputs(const uint64_t height) const;
 
 	std::vector<std::pair<uint64_t, Hash>> GetBlocksNeeded(const uint64_t maxNumBlocks) const;
-- 
2.43.0


From 22d634d2d24eac22e92319deab7ad8e2510b9582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:44 +0000
Subject: [PATCH 027/128] fix: blocks that were already processed are not
 requested again

---
 src/BlockChain/ChainState.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/BlockChain/ChainState.cpp b/src/BlockChain/ChainState.cpp
index 25f2f2b..0f2dba0 100644
--- a/src/BlockChain/ChainState.cpp
+++ b/src/BlockChain/ChainState.cpp
@@ -222,7 +222,9 @@ std::vector<std::pair<uint64_t, Hash>> ChainState::GetBlocksNeeded(const uint64_
     uint64_t nextHeight = GetChainStore()->FindCommonIndex(EChainType::CANDIDATE, EChainType::CONFIRMED)->GetHeight() + 1;
     while (nextHeight <= candidateHeight) {
         auto pIndex = pCandidateChain->GetByHeight(nextHeight);
-        if (!m_pOrphanPool->IsOrphan(nextHeight, pIndex->GetHash())) {
+        const bool processed = m_pOrphanPool->IsOrphan(nextHeight, pIndex->GetHash())
+            || GetBlockDB()->GetBlock(pIndex->GetHash()) != nullptr;
+        if (!processed) {
             blocksNeeded.emplace_back(std::pair<uint64_t, Hash>(nextHeight, pIndex->GetHash()));
 
             if (blocksNeeded.size() == maxNumBlocks) {
-- 
2.43.0


From 4d0539fceb664945484cb6eb0925f8b0d150bcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:50 +0000
Subject: [PATCH 028/128] fix: only blocks that become part of the confirmed
 chain are removed from the transaction pool

---
 src/BlockChain/Processors/BlockProcessor.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/BlockChain/Processors/BlockProcessor.cpp b/src/BlockChain/Processors/BlockProcessor.cpp
index d429276..7d2f1e6 100644
--- a/src/BlockChain/Processors/BlockProcessor.cpp
+++ b/src/BlockChain/Processors/BlockProcessor.cpp
@@ -77,6 +77,7 @@ EBlockChainStatus BlockProcessor::ProcessBlockInternal(const FullBlock& block)
 
 		ValidateAndAddBlock(block, pBatch);
 		pConfirmedChain->AddBlock(block.GetHash(), block.GetHeight());
+		pBatch->GetTransactionPool()->ReconcileBlock(pBatch->GetBlockDB(), pBatch->GetTxHashSetManager()->GetTxHashSet(), block);
 		pBatch->Commit();
 	}
 
@@ -164,6 +165,11 @@ void BlockProcessor::HandleReorg(Writer<ChainState> pBatch, const std::vector<Fu
 			pConfirmedChain->AddBlock(pBlock->GetHash(), pBlock->GetHeight());
 		}
 
+		for (const FullBlock::CPtr& pBlock : reorgBlocks)
+		{
+			pBatch->GetTransactionPool()->ReconcileBlock(pBlockDB, pTxHashSet, *pBlock);
+		}
+
 		pBatch->Commit();
 	}
 	else
@@ -186,7 +192,6 @@ void BlockProcessor::ValidateAndAddBlock(const FullBlock& block, Writer<ChainSta
 	auto pOrphanPool = pBatch->GetOrphanPool();
 	auto pBlockDB = pBatch->GetBlockDB();
 	auto pTxHashSet = pBatch->GetTxHashSetManager()->GetTxHashSet();
-	auto pTxPool = pBatch->GetTransactionPool();
 
 	const Hash& previousHash = block.GetPreviousHash();
 	auto pPreviousHeader = pBlockDB->GetBlockHeader(previousHash);
@@ -221,5 +226,4 @@ void BlockProcessor::ValidateAndAddBlock(const FullBlock& block, Writer<ChainSta
 	pBlockDB->AddBlockSums(block.GetHash(), blockSums);
 	pBlockDB->AddBlock(block);
 	pOrphanPool->RemoveOrphan(block.GetHeight(), block.GetHash());
-	pTxPool->ReconcileBlock(pBlockDB, pTxHashSet, block);
 }
\ No newline at end of file
-- 
2.43.0


From be658b6c92a7eacfb7cb87ef4a76cddc04de46ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 029/128] fix: hydrate compact blocks only from transactions
 whose kernels all belong to the block

---
 src/BlockChain/BlockHydrator.cpp | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/BlockChain/BlockHydrator.cpp b/src/BlockChain/BlockHydrator.cpp
index 59e553a..034b3e5 100644
--- a/src/BlockChain/BlockHydrator.cpp
+++ b/src/BlockChain/BlockHydrator.cpp
@@ -1,6 +1,8 @@
 #include "BlockHydrator.h"
 
 #include <Core/Util/TransactionUtil.h>
+#include <algorithm>
+#include <set>
 #include <unordered_set>
 
 BlockHydrator::BlockHydrator(std::shared_ptr<const ITransactionPool> pTransactionPool)
@@ -21,9 +23,31 @@ std::unique_ptr<FullBlock> BlockHydrator::Hydrate(const CompactBlock& compactBlo
 		const Hash& hash = compactBlock.GetHash();
 		uint64_t nonce = compactBlock.GetNonce();
 		std::set<ShortId> shortIdsSet(shortIds.cbegin(), shortIds.cend());
-		std::vector<TransactionPtr> transactions = m_pTransactionPool->GetTransactionsByShortId(hash, nonce, shortIdsSet);
+		std::vector<TransactionPtr> found = m_pTransactionPool->GetTransactionsByShortId(hash, nonce, shortIdsSet);
 
-		if (transactions.size() == shortIds.size())
+		// A transaction may match once for each of its kernels.
+		// Only use transactions whose kernels are all part of the block, each of them exactly once.
+		std::set<ShortId> missing = shortIdsSet;
+		std::vector<TransactionPtr> transactions;
+		for (const TransactionPtr& pTransaction : found)
+		{
+			if (std::find(transactions.cbegin(), transactions.cend(), pTransaction) != transactions.cend())
+			{
+				continue;
+			}
+
+			for (const TransactionKernel& kernel : pTransaction->GetKernels())
+			{
+				if (missing.erase(ShortId::Create(kernel.GetHash(), hash, nonce)) == 0)
+				{
+					return std::unique_ptr<FullBlock>(nullptr);
+				}
+			}
+
+			transactions.push_back(pTransaction);
+		}
+
+		if (missing.empty() && shortIdsSet.size() == shortIds.size())
 		{
 			return Hydrate(compactBlock, transactions);
 		}
-- 
2.43.0


From 51bd06019957d86b39773cf67e4e828e33582de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:38 +0000
Subject: [PATCH 030/128] fix: remember when a transaction was added to a pool

---
 src/TxPool/Pool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TxPool/Pool.cpp b/src/TxPool/Pool.cpp
index b875915..604c826 100644
--- a/src/TxPool/Pool.cpp
+++ b/src/TxPool/Pool.cpp
@@ -33,7 +33,7 @@ void Pool::AddTransaction(TransactionPtr pTransaction, const EDandelionStatus st
 {
 	LOG_DEBUG_F("Transaction added: {}", pTransaction->GetHash());
 
-	m_transactions.emplace_back(TxPoolEntry(pTransaction, status, std::time_t()));
+	m_transactions.emplace_back(TxPoolEntry(pTransaction, status, std::time(nullptr)));
 }
 
 bool Pool::ContainsTransaction(const Transaction& transaction) const
-- 
2.43.0


From 07f1a29db5ddf12721cab988f421b6c3031aa3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:38 +0000
Subject: [PATCH 031/128] fix: transactions in the stempool are not revealed to
 peers asking for a kernel

---
 src/TxPool/TransactionPoolImpl.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/TxPool/TransactionPoolImpl.cpp b/src/TxPool/TransactionPoolImpl.cpp
index a3a5529..163a205 100644
--- a/src/TxPool/TransactionPoolImpl.cpp
+++ b/src/TxPool/TransactionPoolImpl.cpp
@@ -101,13 +101,8 @@ TransactionPtr TransactionPool::FindTransactionByKernelHash(const Hash& kernelHa
 {
 	std::shared_lock<std::shared_mutex> readLock(m_mutex);
 
-	TransactionPtr pTransaction = m_memPool.FindTransactionByKernelHash(kernelHash);
-	if (pTransaction == nullptr)
-	{
-		pTransaction = m_stemPool.FindTransactionByKernelHash(kernelHash);
-	}
-
-	return pTransaction;
+	// NOTE: Transactions in the stempool must not be revealed to peers.
+	return m_memPool.FindTransactionByKernelHash(kernelHash);
 }
 
 void TransactionPool::ReconcileBlock(std::shared_ptr<const IBlockDB> pBlockDB, ITxHashSetConstPtr pTxHashSet, const FullBlock& block)
-- 
2.43.0


From 28733a08c841cca4ad5a9b44030fb9dcd431fbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:11 +0000
Subject: [PATCH 032/128] fix: refuse transactions that conflict with a pooled
 transaction

---
 src/TxPool/Pool.cpp                | 51 ++++++++++++++++++++++++++++++
 src/TxPool/Pool.h                  |  4 +++
 src/TxPool/TransactionPoolImpl.cpp |  7 ++++
 3 files changed, 62 insertions(+)

diff --git a/src/TxPool/Pool.cpp b/src/TxPool/Pool.cpp
index 604c826..b1ddc77 100644
--- a/src/TxPool/Pool.cpp
+++ b/src/TxPool/Pool.cpp
@@ -5,6 +5,7 @@
 #include <Common/Logger.h>
 #include <algorithm>
 #include <unordered_map>
+#include <unordered_set>
 
 std::vector<TransactionPtr> Pool::GetTransactionsByShortId(const Hash& hash, const uint64_t nonce, const std::set<ShortId>& missingShortIds) const
 {
@@ -49,6 +50,56 @@ bool Pool::ContainsTransaction(const Transaction& transaction) const
 	return false;
 }
 
+bool Pool::ConflictsWith(const Transaction& transaction) const
+{
+	std::unordered_set<Hash> kernels;
+	std::set<Commitment> inputs;
+	std::set<Commitment> outputs;
+	for (const TransactionKernel& kernel : transaction.GetKernels())
+	{
+		kernels.insert(kernel.GetHash());
+	}
+
+	for (const TransactionInput& input : transaction.GetInputs())
+	{
+		inputs.insert(input.GetCommitment());
+	}
+
+	for (const TransactionOutput& output : transaction.GetOutputs())
+	{
+		outputs.insert(output.GetCommitment());
+	}
+
+	for (const TxPoolEntry& txPoolEntry : m_transactions)
+	{
+		for (const TransactionKernel& kernel : txPoolEntry.GetTransaction()->GetKernels())
+		{
+			if (kernels.count(kernel.GetHash()) > 0)
+			{
+				return true;
+			}
+		}
+
+		for (const TransactionInput& input : txPoolEntry.GetTransaction()->GetInputs())
+		{
+			if (inputs.count(input.GetCommitment()) > 0)
+			{
+				return true;
+			}
+		}
+
+		for (const TransactionOutput& output : txPoolEntry.GetTransaction()->GetOutputs())
+		{
+			if (outputs.count(output.GetCommitment()) > 0)
+			{
+				return true;
+			}
+		}
+	}
+
+	return false;
+}
+
 std::vector<TransactionPtr> Pool::FindTransactionsByKernel(const std::set<TransactionKernel>& kernels) const
 {
 	std::set<TransactionPtr> transactionSet;
diff --git a/src/TxPool/Pool.h b/src/TxPool/Pool.h
index 8c1ce18..45015f8 100644
--- a/src/TxPool/Pool.h
+++ b/src/TxPool/Pool.h
@@ -20,6 +20,10 @@ public:
 
 	void AddTransaction(TransactionPtr pTransaction, const EDandelionStatus status);
 	bool ContainsTransaction(const Transaction& transaction) const;
+
+	// Returns true if the transaction shares an input, output, or kernel with a transaction of the pool.
+	bool ConflictsWith(const Transaction& transaction) const;
+
 	void RemoveTransaction(const Transaction& transaction);
 	void ReconcileBlock(
 		std::shared_ptr<const IBlockDB> pBlockDB,
diff --git a/src/TxPool/TransactionPoolImpl.cpp b/src/TxPool/TransactionPoolImpl.cpp
index 163a205..bb34c38 100644
--- a/src/TxPool/TransactionPoolImpl.cpp
+++ b/src/TxPool/TransactionPoolImpl.cpp
@@ -67,6 +67,13 @@ EAddTransactionStatus TransactionPool::AddTransaction(
 		return EAddTransactionStatus::NOT_ADDED;
 	}
 
+	// Transactions that can't be mined together with those already in the pool can't be added.
+	if (m_memPool.ConflictsWith(*pTransaction) || (poolType == EPoolType::STEMPOOL && m_stemPool.ConflictsWith(*pTransaction)))
+	{
+		LOG_INFO_F("Transaction ({}) conflicts with a transaction in the pool", *pTransaction);
+		return EAddTransactionStatus::NOT_ADDED;
+	}
+
 	if (poolType == EPoolType::MEMPOOL)
 	{
 		m_memPool.AddTransaction(pTransaction, EDandelionStatus::FLUFFED);
-- 
2.43.0


From 69014ed4b29e1ada095324050f85d8e45802d895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 033/128] fix: do not let long Dandelion embargoes overflow 16
 bits

---
 src/TxPool/Pool.cpp                | 2 +-
 src/TxPool/Pool.h                  | 2 +-
 src/TxPool/TransactionPoolImpl.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/TxPool/Pool.cpp b/src/TxPool/Pool.cpp
index b1ddc77..1a57cd9 100644
--- a/src/TxPool/Pool.cpp
+++ b/src/TxPool/Pool.cpp
@@ -150,7 +150,7 @@ std::vector<TransactionPtr> Pool::FindTransactionsByStatus(const EDandelionStatu
 	return transactions;
 }
 
-std::vector<TransactionPtr> Pool::GetExpiredTransactions(const uint16_t embargoSeconds) const
+std::vector<TransactionPtr> Pool::GetExpiredTransactions(const uint32_t embargoSeconds) const
 {
 	const std::time_t cutoff = std::chrono::system_clock::to_time_t(std::chrono::system_clock::now() - std::chrono::seconds(embargoSeconds));
 
diff --git a/src/TxPool/Pool.h b/src/TxPool/Pool.h
index 45015f8..928321b 100644
--- a/src/TxPool/Pool.h
+++ b/src/TxPool/Pool.h
@@ -41,7 +41,7 @@ public:
 	std::vector<TransactionPtr> FindTransactionsByKernel(const std::set<TransactionKernel>& kernels) const;
 	TransactionPtr FindTransactionByKernelHash(const Hash& kernelHash) const;
 	std::vector<TransactionPtr> FindTransactionsByStatus(const EDandelionStatus status) const;
-	std::vector<TransactionPtr> GetExpiredTransactions(const uint16_t embargoSeconds) const;
+	std::vector<TransactionPtr> GetExpiredTransactions(const uint32_t embargoSeconds) const;
 
 	TransactionPtr Aggregate() const;
 	void Clear() { m_transactions.clear(); }
diff --git a/src/TxPool/TransactionPoolImpl.cpp b/src/TxPool/TransactionPoolImpl.cpp
index bb34c38..9cb2553 100644
--- a/src/TxPool/TransactionPoolImpl.cpp
+++ b/src/TxPool/TransactionPoolImpl.cpp
@@ -192,7 +192,7 @@ std::vector<TransactionPtr> TransactionPool::GetExpiredTransactions() const
 {
 	std::shared_lock<std::shared_mutex> readLock(m_mutex);
 
-	const uint16_t embargoSeconds = Global::GetConfig().GetEmbargoSeconds() + (uint16_t)CSPRNG::GenerateRandom(0, 30);
+	const uint32_t embargoSeconds = (uint32_t)Global::GetConfig().GetEmbargoSeconds() + (uint32_t)CSPRNG::GenerateRandom(0, 30);
 	return m_stemPool.GetExpiredTransactions(embargoSeconds);
 }
 
-- 
2.43.0


From f24303a39f97fc0e69cebb5cfe418c7a0e39e002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:23 +0000
Subject: [PATCH 034/128] fix: clear database tables inside a batch without
 reading the key from a moving buffer

---
 src/Database/RocksDB/RocksDB.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Database/RocksDB/RocksDB.h b/src/Database/RocksDB/RocksDB.h
index a959524..2cb7a83 100644
--- a/src/Database/RocksDB/RocksDB.h
+++ b/src/Database/RocksDB/RocksDB.h
@@ -234,7 +234,9 @@ public:
 			std::unique_ptr<rocksdb::Iterator> it(m_pTransaction->GetIterator(rocksdb::ReadOptions(), table.GetHandle()));
 			for (it->SeekToFirst(); it->Valid(); it->Next())
 			{
-				status = m_pTransaction->Delete(table.GetHandle(), it->key());
+				// The key may point into the transaction's own buffer, which Delete writes to.
+				const std::string key = it->key().ToString();
+				status = m_pTransaction->Delete(table.GetHandle(), key);
 				if (!status.ok())
 				{
 					LOG_ERROR(
-- 
2.43.0


From 18194c3777edc54033125003ed9055c6b3dbf9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 035/128] fix: hash IPv6 addresses instead of throwing

---
 include/Net/IPAddress.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/Net/IPAddress.h b/include/Net/IPAddress.h
index 1e41669..0ca5841 100644
--- a/include/Net/IPAddress.h
+++ b/include/Net/IPAddress.h
@@ -184,10 +184,15 @@ namespace std
     {
         size_t operator()(const IPAddress& address) const
         {
-            asio::ip::address_v4 v4 = address.IsV4() ?
-                address.GetAddress().to_v4() :
-                address.GetAddress().to_v6().to_v4();
-            return v4.to_uint();
+            if (address.IsV4()) {
+                return address.GetAddress().to_v4().to_uint();
+            }
+
+            size_t result = 0;
+            for (const uint8_t byte : address.GetAddress().to_v6().to_bytes()) {
+                result = (result * 31) + byte;
+            }
+            return result;
         }
     };
 }
\ No newline at end of file
-- 
2.43.0


From bde85df01f4b9bf5995a5f8007e5426514537f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 036/128] fix: validate dotted IPv4 addresses strictly

---
 include/Net/IPAddress.h | 49 +++--------------------------------------
 1 file changed, 3 insertions(+), 46 deletions(-)

diff --git a/include/Net/IPAddress.h b/include/Net/IPAddress.h
index 0ca5841..f467e7d 100644
--- a/include/Net/IPAddress.h
+++ b/include/Net/IPAddress.h
@@ -45,25 +45,9 @@ public:
 
     static bool IsValidIPAddress(const std::string& addressStr)
     {
-        // split the string into tokens
-        std::vector<std::string> list = split(addressStr, '.');
-    
-        // if the token size is not equal to four
-        if (list.size() != 4) {
-            return false;
-        }
-    
-        // validate each token
-        for (std::string str: list)
-        {
-            // verify that the string is a number or not, and the numbers
-            // are in the valid range
-            if (!isNumber(str) || stoi(str) > 255 || stoi(str) < 0) {
-                return false;
-            }
-        }
-    
-        return true;
+        asio::error_code ec;
+        asio::ip::make_address_v4(addressStr, ec);
+        return !ec;
     }
 
     static std::vector<IPAddress> Resolve(const std::string& domainName)
@@ -148,33 +132,6 @@ public:
 
 private:
     asio::ip::address m_address;
-
-    // check if a given string is a numeric string or not
-    static bool isNumber(const std::string& str)
-    {
-        // `std::find_first_not_of` searches the string for the first character
-        return !str.empty() && (str.find_first_not_of("[0123456789]") == std::string::npos);
-    };
-    
-    // Function to split string `str` using a given delimiter
-    static std::vector<std::string> split(const std::string& str, char delim)
-    {
-        auto i = 0;
-        std::vector<std::string> list;
-    
-        int pos = static_cast<int>(str.find(delim));
-    
-        while (pos != std::string::npos)
-        {
-            list.push_back(str.substr(i, static_cast<std::basic_string<char, std::char_traits<char>, std::allocator<char>>::size_type>(pos) - i));
-            i = ++pos;
-            pos = static_cast<int>(str.find(delim, pos));
-        }
-    
-        list.push_back(str.substr(i, str.length()));
-    
-        return list;
-    };
 };
 
 namespace std
-- 
2.43.0


From 4144281a677c27263fc7956706b41d4b6cb9722e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 037/128] fix: refuse ports that are out of range or not
 numeric

---
 include/Net/SocketAddress.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/Net/SocketAddress.h b/include/Net/SocketAddress.h
index 43d65e3..dff977c 100644
--- a/include/Net/SocketAddress.h
+++ b/include/Net/SocketAddress.h
@@ -43,9 +43,15 @@ public:
 		}
 
 		IPAddress ipAddress = IPAddress::Parse(parts[0]);
-		uint16_t port = (uint16_t)std::stoi(parts[1]);
 
-		return SocketAddress(std::move(ipAddress), port);
+		const std::string& portStr = parts[1];
+		const bool numeric = !portStr.empty() && portStr.size() <= 5 && portStr.find_first_not_of("0123456789") == std::string::npos;
+		if (!numeric || std::stoi(portStr) > UINT16_MAX)
+		{
+			throw DESERIALIZATION_EXCEPTION_F("Failed to parse port of SocketAddress: {}", addressStr);
+		}
+
+		return SocketAddress(std::move(ipAddress), (uint16_t)std::stoi(portStr));
 	}
 
 	static SocketAddress CreateV4(const std::array<uint8_t, 4>& bytes, const uint16_t port)
-- 
2.43.0


From 2b336116445a052de3eff653938dd98e976cefe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 038/128] fix: print and parse socket addresses with IPv6
 addresses

---
 include/Net/SocketAddress.h | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/include/Net/SocketAddress.h b/include/Net/SocketAddress.h
index dff977c..ea71ffd 100644
--- a/include/Net/SocketAddress.h
+++ b/include/Net/SocketAddress.h
@@ -36,15 +36,27 @@ public:
 
 	static SocketAddress Parse(const std::string& addressStr)
 	{
-		auto parts = StringUtil::Split(addressStr, ":");
-		if (parts.size() != 2)
+		// IPv6 addresses are enclosed in brackets, e.g. [::1]:3414
+		const size_t separator = addressStr.rfind(':');
+		if (separator == std::string::npos)
 		{
 			throw DESERIALIZATION_EXCEPTION_F("Failed to parse SocketAddress: {}", addressStr);
 		}
 
-		IPAddress ipAddress = IPAddress::Parse(parts[0]);
+		std::string ipStr = addressStr.substr(0, separator);
+		const bool brackets = ipStr.size() > 2 && ipStr.front() == '[' && ipStr.back() == ']';
+		if (brackets)
+		{
+			ipStr = ipStr.substr(1, ipStr.size() - 2);
+		}
+
+		IPAddress ipAddress = IPAddress::Parse(ipStr);
+		if (ipAddress.IsV6() != brackets)
+		{
+			throw DESERIALIZATION_EXCEPTION_F("Failed to parse SocketAddress: {}", addressStr);
+		}
 
-		const std::string& portStr = parts[1];
+		const std::string portStr = addressStr.substr(separator + 1);
 		const bool numeric = !portStr.empty() && portStr.size() <= 5 && portStr.find_first_not_of("0123456789") == std::string::npos;
 		if (!numeric || std::stoi(portStr) > UINT16_MAX)
 		{
@@ -98,7 +110,8 @@ public:
 	const uint16_t GetPortNumber() const { return m_port; }
 	std::string Format() const final
 	{
-		return m_ipAddress.Format() + ":" + std::to_string(m_port);
+		const std::string ipStr = m_ipAddress.IsV6() ? "[" + m_ipAddress.Format() + "]" : m_ipAddress.Format();
+		return ipStr + ":" + std::to_string(m_port);
 	}
 
 	asio::ip::tcp::endpoint GetEndpoint() const
-- 
2.43.0


From bff5fcb7459b70da7d4e6a966eae4ace48c2c43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 039/128] fix: use the address itself for endpoints, whatever
 its family

---
 include/Net/SocketAddress.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/Net/SocketAddress.h b/include/Net/SocketAddress.h
index ea71ffd..7b206b8 100644
--- a/include/Net/SocketAddress.h
+++ b/include/Net/SocketAddress.h
@@ -116,10 +116,7 @@ public:
 
 	asio::ip::tcp::endpoint GetEndpoint() const
 	{
-		return asio::ip::tcp::endpoint{
-			asio::ip::address_v4::from_string(m_ipAddress.Format()),
-			m_port
-		};
+		return asio::ip::tcp::endpoint{ m_ipAddress.GetAddress(), m_port };
 	}
 
 	//
-- 
2.43.0


From 02814df27e19364df624f6ad2a4d2e98c4b34ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:30 +0000
Subject: [PATCH 040/128] fix: step past banned peers when choosing a peer to
 connect to

---
 src/P2P/Seed/PeerManager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/P2P/Seed/PeerManager.cpp b/src/P2P/Seed/PeerManager.cpp
index 3709062..5c92ef9 100644
--- a/src/P2P/Seed/PeerManager.cpp
+++ b/src/P2P/Seed/PeerManager.cpp
@@ -242,6 +242,7 @@ std::vector<PeerPtr> PeerManager::GetPeersWithCapability(
         const PeerPtr& peer = peerEntry.m_peer;
 
         if (connectingToPeer && peer->GetLastBanTime() > maxBanTime) {
+            iter++;
             continue;
         }
 
-- 
2.43.0


From a1254487a92fefb90300e24af700be2de501c371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:30 +0000
Subject: [PATCH 041/128] fix: do not hand out the addresses of banned peers

---
 src/P2P/Seed/PeerManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/P2P/Seed/PeerManager.cpp b/src/P2P/Seed/PeerManager.cpp
index 5c92ef9..3829e9e 100644
--- a/src/P2P/Seed/PeerManager.cpp
+++ b/src/P2P/Seed/PeerManager.cpp
@@ -241,7 +241,7 @@ std::vector<PeerPtr> PeerManager::GetPeersWithCapability(
         PeerEntry& peerEntry = iter->second;
         const PeerPtr& peer = peerEntry.m_peer;
 
-        if (connectingToPeer && peer->GetLastBanTime() > maxBanTime) {
+        if (peer->GetLastBanTime() > maxBanTime) {
             iter++;
             continue;
         }
-- 
2.43.0


From 7e412ff5bb36de4a30f3d21795bb3ea2242a324e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:30 +0000
Subject: [PATCH 042/128] fix: look up peers by the key they are saved under

---
 src/Database/PeerDBImpl.cpp | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/Database/PeerDBImpl.cpp b/src/Database/PeerDBImpl.cpp
index 756522f..4453cae 100644
--- a/src/Database/PeerDBImpl.cpp
+++ b/src/Database/PeerDBImpl.cpp
@@ -70,14 +70,7 @@ std::optional<PeerPtr> PeerDB::GetPeer(const IPAddress& address, const std::opti
 	LOG_TRACE("Loading peer: " + (portOpt.has_value() ? SocketAddress(address, portOpt.value()).Format() : address.Format()));
 
 	Serializer addressSerializer;
-	if (address.IsLocalhost() && portOpt.has_value())
-	{
-		SocketAddress(address, portOpt.value()).Serialize(addressSerializer);
-	}
-	else
-	{
-		address.Serialize(addressSerializer);
-	}
+	address.Serialize(addressSerializer);
 
 	Slice key((const char*)addressSerializer.data(), addressSerializer.size());
 
-- 
2.43.0


From 53149267e6c61881e2d18b6bd1e24bfe89bda925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:15 +0000
Subject: [PATCH 043/128] fix: answer header locators from the current chain,
 not from an abandoned fork

---
 src/P2P/BlockLocator.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/P2P/BlockLocator.cpp b/src/P2P/BlockLocator.cpp
index 900b856..a5084e4 100644
--- a/src/P2P/BlockLocator.cpp
+++ b/src/P2P/BlockLocator.cpp
@@ -82,7 +82,14 @@ BlockHeaderPtr BlockLocator::FindCommonHeader(const std::vector<Hash>& locatorHa
 	for (const Hash& locatorHash : locatorHashes)
 	{
 		auto pHeader = m_pBlockChain->GetBlockHeaderByHash(locatorHash);
-		if (pHeader != nullptr)
+		if (pHeader == nullptr)
+		{
+			continue;
+		}
+
+		// Headers of abandoned forks are still known, but only those of the current chain can be built upon.
+		auto pChainHeader = m_pBlockChain->GetBlockHeaderByHeight(pHeader->GetHeight(), EChainType::CANDIDATE);
+		if (pChainHeader != nullptr && pChainHeader->GetHash() == pHeader->GetHash())
 		{
 			return pHeader;
 		}
-- 
2.43.0


From 64ed5dd1cafac54614ac6a20f63627e7a78862a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:58 +0000
Subject: [PATCH 044/128] fix: put the current leaf sets and prune lists into
 snapshots

---
 src/PMMR/Common/LeafSet.h      |  4 ++--
 src/PMMR/Common/PruneableMMR.h |  7 +++++++
 src/PMMR/TxHashSetManager.cpp  | 23 ++++++++++++-----------
 3 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/PMMR/Common/LeafSet.h b/src/PMMR/Common/LeafSet.h
index 9dab68b..68ad32d 100644
--- a/src/PMMR/Common/LeafSet.h
+++ b/src/PMMR/Common/LeafSet.h
@@ -40,7 +40,7 @@ public:
 	void Rollback() noexcept { m_pBitmap->Rollback(); }
 	void Snapshot(const Hash& blockHash)
 	{
-		GrinStr pathStr = m_path.u8string() + "." + HASH::ShortHash(blockHash);
+		const fs::path path = m_path.parent_path() / ("pmmr_leaf.bin." + HASH::ShortHash(blockHash));
 		Roaring snapshotBitmap = m_pBitmap->ToRoaring();
 
 		const size_t numBytes = snapshotBitmap.getSizeInBytes();
@@ -51,7 +51,7 @@ public:
 			throw std::exception(); // TODO: Handle this.
 		}
 
-		FileUtil::SafeWriteToFile(pathStr.ToPath(), bytes);
+		FileUtil::SafeWriteToFile(path, bytes);
 	}
 
 	Hash Root(const uint64_t numOutputs) const
diff --git a/src/PMMR/Common/PruneableMMR.h b/src/PMMR/Common/PruneableMMR.h
index fa8eec1..d1b2004 100644
--- a/src/PMMR/Common/PruneableMMR.h
+++ b/src/PMMR/Common/PruneableMMR.h
@@ -159,6 +159,13 @@ public:
 		}
 	}
 
+	// Writes the leaf set and prune list in the portable format used by snapshots.
+	void Snapshot(const Hash& blockHash)
+	{
+		m_pLeafSet->Snapshot(blockHash);
+		m_pPruneList->Flush();
+	}
+
 private:
 	std::shared_ptr<HashFile> m_pHashFile;
 	std::shared_ptr<LeafSet> m_pLeafSet;
diff --git a/src/PMMR/TxHashSetManager.cpp b/src/PMMR/TxHashSetManager.cpp
index 40a0fb5..373c4a9 100644
--- a/src/PMMR/TxHashSetManager.cpp
+++ b/src/PMMR/TxHashSetManager.cpp
@@ -124,19 +124,20 @@ fs::path TxHashSetManager::SaveSnapshot(std::shared_ptr<IBlockDB> pBlockDB, Bloc
 
 			// Flush Snapshot TxHashSet
 			snapshotTxHashSet.Commit();
+
+			// Write pmmr_leaf and pmmr_prun files
+			pOutputPMMR->Snapshot(pHeader->GetHash());
+			pRangeProofPMMR->Snapshot(pHeader->GetHash());
 		}
 
-		// Rename pmmr_leaf files
-		const std::string newFileName = StringUtil::Format("pmmr_leaf.bin.{}", pHeader->ShortHash());
-		FileUtil::RenameFile(
-			snapshotDir / "output" / "pmmr_leaf.bin",
-			snapshotDir / "output" / newFileName
-		);
-
-		FileUtil::RenameFile(
-			snapshotDir / "rangeproof" / "pmmr_leaf.bin",
-			snapshotDir / "rangeproof" / newFileName
-		);
+		// Only the snapshotted leaf sets belong in the zip.
+		for (const char* folder : { "output", "rangeproof" })
+		{
+			for (const char* file : { "pmmr_leafset.bin", "pmmr_leaf.bin", "version1" })
+			{
+				FileUtil::RemoveFile(snapshotDir / folder / file);
+			}
+		}
 
 		// Create Zip
 		const std::vector<fs::path> pathsToZip = {
-- 
2.43.0


From 06f46618512b08286d83859e8459c8711005223d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:08 +0000
Subject: [PATCH 045/128] fix: check the data of snapshot leaves against their
 hashes

---
 src/PMMR/Common/MMRHashUtil.h   |  2 +-
 src/PMMR/TxHashSetValidator.cpp | 21 ++++++++++++++++++++-
 src/PMMR/TxHashSetValidator.h   |  3 +++
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/PMMR/Common/MMRHashUtil.h b/src/PMMR/Common/MMRHashUtil.h
index b0e765b..5bc788f 100644
--- a/src/PMMR/Common/MMRHashUtil.h
+++ b/src/PMMR/Common/MMRHashUtil.h
@@ -39,9 +39,9 @@ public:
 		const uint64_t numHashes
 	);
 
+	static Hash HashLeafWithIndex(const std::vector<uint8_t>& serializedLeaf, const uint64_t mmrIndex);
 	static Hash HashParentWithIndex(const Hash& leftChild, const Hash& rightChild, const uint64_t parentIndex);
 
 private:
-	static Hash HashLeafWithIndex(const std::vector<uint8_t>& serializedLeaf, const uint64_t mmrIndex);
 	static uint64_t GetShiftedIndex(const Index& mmr_idx, const PruneList::CPtr& pPruneList);
 };
\ No newline at end of file
diff --git a/src/PMMR/TxHashSetValidator.cpp b/src/PMMR/TxHashSetValidator.cpp
index 374e655..70d07f2 100644
--- a/src/PMMR/TxHashSetValidator.cpp
+++ b/src/PMMR/TxHashSetValidator.cpp
@@ -170,6 +170,19 @@ bool TxHashSetValidator::ValidateMMRHashes(std::shared_ptr<const MMR> pMMR) cons
 	return true;
 }
 
+// The roots only commit to the leaf hashes, so the data of each leaf must match its hash.
+bool TxHashSetValidator::ValidateLeaf(const MMR& mmr, const LeafIndex& leaf_idx, const Traits::ISerializable& leaf) const
+{
+	const std::unique_ptr<Hash> pLeafHash = mmr.GetHashAt(leaf_idx.GetIndex());
+	if (pLeafHash == nullptr || *pLeafHash != MMRHashUtil::HashLeafWithIndex(leaf.Serialized(), leaf_idx.GetPosition()))
+	{
+		LOG_ERROR_F("Data does not match hash at leaf index ({})", leaf_idx);
+		return false;
+	}
+
+	return true;
+}
+
 bool TxHashSetValidator::ValidateKernelHistory(const KernelMMR& kernelMMR, const BlockHeader& blockHeader, SyncStatus& syncStatus) const
 {
 	const uint64_t totalHeight = blockHeader.GetHeight();
@@ -251,6 +264,12 @@ bool TxHashSetValidator::ValidateRangeProofs(TxHashSet& txHashSet, SyncStatus& s
 				return false;
 			}
 
+			if (!ValidateLeaf(*txHashSet.GetOutputPMMR(), leaf_idx, *pOutput)
+				|| !ValidateLeaf(*txHashSet.GetRangeProofPMMR(), leaf_idx, *pRangeProof))
+			{
+				return false;
+			}
+
 			rangeProofs.emplace_back(std::make_pair(pOutput->GetCommitment(), *pRangeProof));
 			++i;
 
@@ -287,7 +306,7 @@ bool TxHashSetValidator::ValidateKernelSignatures(const KernelMMR& kernelMMR, Sy
 	const uint64_t num_kernels = kernelMMR.GetNumKernels();
 	for (LeafIndex leaf_idx = LeafIndex::At(0); leaf_idx < num_kernels; leaf_idx++) {
 		std::unique_ptr<TransactionKernel> pKernel = kernelMMR.GetKernelAt(leaf_idx);
-		if (pKernel == nullptr) {
+		if (pKernel == nullptr || !ValidateLeaf(kernelMMR, leaf_idx, *pKernel)) {
 			return false;
 		}
 
diff --git a/src/PMMR/TxHashSetValidator.h b/src/PMMR/TxHashSetValidator.h
index 46e6865..cd3264b 100644
--- a/src/PMMR/TxHashSetValidator.h
+++ b/src/PMMR/TxHashSetValidator.h
@@ -4,6 +4,8 @@
 #include <Core/Models/BlockSums.h>
 #include <P2P/SyncStatus.h>
 #include "Common/HashFile.h"
+#include <Core/Traits/Serializable.h>
+#include <PMMR/Common/LeafIndex.h>
 
 // Forward Declarations
 class TxHashSet;
@@ -27,6 +29,7 @@ public:
 private:
 	bool ValidateSizes(TxHashSet& txHashSet, const BlockHeader& blockHeader) const;
 	bool ValidateMMRHashes(std::shared_ptr<const MMR> pMMR) const;
+	bool ValidateLeaf(const MMR& mmr, const LeafIndex& leaf_idx, const Traits::ISerializable& leaf) const;
 
 	bool ValidateKernelHistory(
 		const KernelMMR& kernelMMR,
-- 
2.43.0


From 85aa9efcf8d35ba3775128874d46e9af2d6c8212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:13 +0000
Subject: [PATCH 046/128] fix: read and write empty files without indexing into
 an empty vector

---
 src/Common/Util/FileUtil.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Common/Util/FileUtil.cpp b/src/Common/Util/FileUtil.cpp
index d6520fc..865a17d 100644
--- a/src/Common/Util/FileUtil.cpp
+++ b/src/Common/Util/FileUtil.cpp
@@ -29,7 +29,7 @@ bool FileUtil::ReadFile(const fs::path& filePath, std::vector<uint8_t>& data)
 	data.resize((size_t)size);
 
 	file.seekg(0, std::ios::beg);
-	file.read((char*)&data[0], size);
+	file.read((char*)data.data(), size);
 	file.close();
 
 	return true;
@@ -63,7 +63,7 @@ void FileUtil::SafeWriteToFile(const fs::path& filePath, const std::vector<uint8
 		throw FILE_EXCEPTION_F("Failed to open {}", tmpFilePath);
 	}
 
-	file.write((const char*)&data[0], data.size());
+	file.write((const char*)data.data(), data.size());
 	file.close();
 
 	RenameFile(tmpFilePath, filePath);
-- 
2.43.0


From 6a527076ed27cda44dad433ffbdea23bdb74b293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:12 +0000
Subject: [PATCH 047/128] fix: remove the files of a refused snapshot, so that
 the node can be started again

---
 include/PMMR/TxHashSetManager.h               |  5 +++++
 .../Processors/TxHashSetProcessor.cpp         |  2 ++
 src/PMMR/TxHashSetManager.cpp                 | 21 +++++++++++++++++++
 3 files changed, 28 insertions(+)

diff --git a/include/PMMR/TxHashSetManager.h b/include/PMMR/TxHashSetManager.h
index 1496936..859d70e 100644
--- a/include/PMMR/TxHashSetManager.h
+++ b/include/PMMR/TxHashSetManager.h
@@ -26,6 +26,11 @@ public:
 	void SetTxHashSet(ITxHashSetPtr pTxHashSet) { m_pTxHashSet = pTxHashSet; }
 
 	static ITxHashSetPtr LoadFromZip(const Config& config, const fs::path& zipFilePath, BlockHeaderPtr pHeader);
+
+	//
+	// Removes the files of a TxHashSet that turned out to be invalid, so they're not loaded on the next start.
+	//
+	static void RemoveFiles(const Config& config);
 	fs::path SaveSnapshot(std::shared_ptr<IBlockDB> pBlockDB, BlockHeaderPtr pHeader) const;
 
 	void Commit() final
diff --git a/src/BlockChain/Processors/TxHashSetProcessor.cpp b/src/BlockChain/Processors/TxHashSetProcessor.cpp
index a28b153..ad1a649 100644
--- a/src/BlockChain/Processors/TxHashSetProcessor.cpp
+++ b/src/BlockChain/Processors/TxHashSetProcessor.cpp
@@ -43,6 +43,8 @@ bool TxHashSetProcessor::ProcessTxHashSet(const Hash& blockHash, const fs::path&
 	if (pBlockSums == nullptr)
 	{
 		LOG_ERROR_F("Validation of {} failed.", path);
+		pTxHashSet.reset();
+		TxHashSetManager::RemoveFiles(m_config);
 		return false;
 	}
 
diff --git a/src/PMMR/TxHashSetManager.cpp b/src/PMMR/TxHashSetManager.cpp
index 373c4a9..9cfd44b 100644
--- a/src/PMMR/TxHashSetManager.cpp
+++ b/src/PMMR/TxHashSetManager.cpp
@@ -85,9 +85,30 @@ std::shared_ptr<ITxHashSet> TxHashSetManager::LoadFromZip(const Config& config,
 		LOG_ERROR_F("Failed to load: {}", e.what());
 	}
 
+	RemoveFiles(config);
 	return nullptr;
 }
 
+void TxHashSetManager::RemoveFiles(const Config& config)
+{
+	for (const char* folder : { "kernel", "output", "rangeproof" })
+	{
+		const fs::path path = config.GetTxHashSetPath() / folder;
+
+		std::error_code ec;
+		fs::remove_all(path, ec);
+		if (!ec)
+		{
+			fs::create_directories(path, ec);
+		}
+
+		if (ec)
+		{
+			LOG_ERROR_F("Failed to clear {}. Error: {}", path, ec.message());
+		}
+	}
+}
+
 fs::path TxHashSetManager::SaveSnapshot(std::shared_ptr<IBlockDB> pBlockDB, BlockHeaderPtr pHeader) const
 {
 	if (m_pTxHashSet == nullptr)
-- 
2.43.0


From 5550936bd8492e40c2b0e19377dfcd2417f86215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:54 +0000
Subject: [PATCH 048/128] fix: refuse damaged bitmaps in prune lists and leaf
 sets instead of crashing on them

---
 src/PMMR/Common/PruneList.cpp |   3 +-
 src/PMMR/Common/RoaringUtil.h | 195 ++++++++++++++++++++++++++++++++++
 src/PMMR/OutputPMMR.h         |   3 +-
 src/PMMR/RangeProofPMMR.h     |   3 +-
 4 files changed, 201 insertions(+), 3 deletions(-)
 create mode 100644 src/PMMR/Common/RoaringUtil.h

diff --git a/src/PMMR/Common/PruneList.cpp b/src/PMMR/Common/PruneList.cpp
index dfe7467..3bf5199 100644
--- a/src/PMMR/Common/PruneList.cpp
+++ b/src/PMMR/Common/PruneList.cpp
@@ -1,5 +1,6 @@
 #include "PruneList.h"
 #include "MMRUtil.h"
+#include "RoaringUtil.h"
 
 #include <Common/Util/FileUtil.h>
 
@@ -15,7 +16,7 @@ std::shared_ptr<PruneList> PruneList::Load(const fs::path& filePath)
 {
     std::vector<unsigned char> data;
     if (FileUtil::ReadFile(filePath, data)) {
-        Roaring prunedRoots = Roaring::readSafe((const char*)data.data(), data.size());
+        Roaring prunedRoots = RoaringUtil::Read(data);
         PruneList* pPruneList = new PruneList(filePath, std::move(prunedRoots));
         pPruneList->BuildPrunedCache();
         pPruneList->BuildShiftCaches();
diff --git a/src/PMMR/Common/RoaringUtil.h b/src/PMMR/Common/RoaringUtil.h
new file mode 100644
index 0000000..c1802fa
--- /dev/null
+++ b/src/PMMR/Common/RoaringUtil.h
@@ -0,0 +1,195 @@
+#pragma once
+
+#include <Roaring.h>
+
+#include <cstdint>
+#include <cstring>
+#include <stdexcept>
+#include <vector>
+
+class RoaringUtil
+{
+public:
+	//
+	// Reads a portable roaring bitmap from bytes that may be damaged.
+	// Roaring::readSafe only stays within the bytes, but trusts the containers' contents, which other operations rely on.
+	//
+	// Throws std::runtime_error if the bytes are not a valid bitmap.
+	//
+	static Roaring Read(const std::vector<uint8_t>& bytes)
+	{
+		if (!IsValid(bytes))
+		{
+			throw std::runtime_error("Invalid roaring bitmap");
+		}
+
+		return Roaring::readSafe((const char*)bytes.data(), bytes.size());
+	}
+
+private:
+	static constexpr uint32_t COOKIE_NO_RUNS = 12346;
+	static constexpr uint32_t COOKIE_RUNS = 12347;
+	static constexpr size_t MAX_ARRAY_SIZE = 4096;
+	static constexpr size_t BITSET_BYTES = 8192;
+
+	class Reader
+	{
+	public:
+		Reader(const std::vector<uint8_t>& bytes) : m_bytes(bytes), m_offset(0) { }
+
+		bool Has(const uint64_t numBytes) const { return numBytes <= m_bytes.size() - m_offset; }
+		const uint8_t* Skip(const uint64_t numBytes)
+		{
+			const uint8_t* pBytes = m_bytes.data() + m_offset;
+			m_offset += (size_t)numBytes;
+			return pBytes;
+		}
+
+		template<typename T> T Next()
+		{
+			T value;
+			std::memcpy(&value, Skip(sizeof(T)), sizeof(T));
+			return value;
+		}
+
+	private:
+		const std::vector<uint8_t>& m_bytes;
+		size_t m_offset;
+	};
+
+	static bool IsValid(const std::vector<uint8_t>& bytes)
+	{
+		Reader reader(bytes);
+		if (!reader.Has(4))
+		{
+			return false;
+		}
+
+		const uint32_t cookie = reader.Next<uint32_t>();
+		const bool hasRuns = (cookie & 0xFFFF) == COOKIE_RUNS;
+		if (!hasRuns && (cookie != COOKIE_NO_RUNS || !reader.Has(4)))
+		{
+			return false;
+		}
+
+		const uint32_t size = hasRuns ? (cookie >> 16) + 1 : reader.Next<uint32_t>();
+		const uint32_t runFlagBytes = hasRuns ? (size + 7) / 8 : 0;
+		if (size > 65536 || !reader.Has(runFlagBytes + 4ull * size))
+		{
+			return false;
+		}
+
+		const uint8_t* pRunFlags = reader.Skip(runFlagBytes);
+
+		std::vector<size_t> cardinalities;
+		int previousKey = -1;
+		for (uint32_t i = 0; i < size; i++)
+		{
+			const uint16_t key = reader.Next<uint16_t>();
+			if (key <= previousKey)
+			{
+				return false;
+			}
+
+			previousKey = key;
+			cardinalities.push_back((size_t)reader.Next<uint16_t>() + 1);
+		}
+
+		if (!hasRuns || size >= 4)
+		{
+			if (!reader.Has(4ull * size))
+			{
+				return false;
+			}
+
+			reader.Skip(4ull * size); // Offsets of the containers, which are stored without gaps.
+		}
+
+		for (uint32_t i = 0; i < size; i++)
+		{
+			const bool isRun = hasRuns && ((pRunFlags[i / 8] >> (i % 8)) & 1) != 0;
+			const bool valid = isRun ? IsValidRun(reader, cardinalities[i])
+				: cardinalities[i] > MAX_ARRAY_SIZE ? IsValidBitset(reader, cardinalities[i])
+				: IsValidArray(reader, cardinalities[i]);
+			if (!valid)
+			{
+				return false;
+			}
+		}
+
+		return true;
+	}
+
+	static bool IsValidRun(Reader& reader, const size_t cardinality)
+	{
+		if (!reader.Has(2))
+		{
+			return false;
+		}
+
+		const size_t numRuns = reader.Next<uint16_t>();
+		if (!reader.Has(4 * numRuns))
+		{
+			return false;
+		}
+
+		size_t count = 0;
+		uint32_t next = 0; // First value that the following run may start at
+		for (size_t i = 0; i < numRuns; i++)
+		{
+			const uint32_t first = reader.Next<uint16_t>();
+			const uint32_t last = first + reader.Next<uint16_t>();
+			if (first < next || last > 0xFFFF)
+			{
+				return false;
+			}
+
+			count += (size_t)(last - first) + 1;
+			next = last + 1;
+		}
+
+		return count == cardinality;
+	}
+
+	static bool IsValidBitset(Reader& reader, const size_t cardinality)
+	{
+		if (!reader.Has(BITSET_BYTES))
+		{
+			return false;
+		}
+
+		size_t count = 0;
+		const uint8_t* pBitset = reader.Skip(BITSET_BYTES);
+		for (size_t i = 0; i < BITSET_BYTES; i++)
+		{
+			for (uint8_t byte = pBitset[i]; byte != 0; byte &= (uint8_t)(byte - 1))
+			{
+				++count;
+			}
+		}
+
+		return count == cardinality;
+	}
+
+	static bool IsValidArray(Reader& reader, const size_t cardinality)
+	{
+		if (!reader.Has(2 * cardinality))
+		{
+			return false;
+		}
+
+		int previous = -1;
+		for (size_t i = 0; i < cardinality; i++)
+		{
+			const uint16_t value = reader.Next<uint16_t>();
+			if (value <= previous)
+			{
+				return false;
+			}
+
+			previous = value;
+		}
+
+		return true;
+	}
+};
diff --git a/src/PMMR/OutputPMMR.h b/src/PMMR/OutputPMMR.h
index fc7b0fd..d567f13 100644
--- a/src/PMMR/OutputPMMR.h
+++ b/src/PMMR/OutputPMMR.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "Common/PruneableMMR.h"
+#include "Common/RoaringUtil.h"
 
 #include <Core/Global.h>
 #include <Core/Models/OutputIdentifier.h>
@@ -23,7 +24,7 @@ public:
 			std::vector<unsigned char> outputBytes;
 			if (FileUtil::ReadFile(txHashSetPath / "output" / "pmmr_leaf.bin", outputBytes))
 			{
-				outputBitmap = Roaring::readSafe((const char*)outputBytes.data(), outputBytes.size());
+				outputBitmap = RoaringUtil::Read(outputBytes);
 			}
 			BitmapFile::Create(txHashSetPath / "output" / "pmmr_leafset.bin", outputBitmap);
 		}
diff --git a/src/PMMR/RangeProofPMMR.h b/src/PMMR/RangeProofPMMR.h
index 58bd24d..7b06ad3 100644
--- a/src/PMMR/RangeProofPMMR.h
+++ b/src/PMMR/RangeProofPMMR.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "Common/PruneableMMR.h"
+#include "Common/RoaringUtil.h"
 
 #include <Core/Global.h>
 #include <Crypto/Models/RangeProof.h>
@@ -21,7 +22,7 @@ public:
 			std::vector<unsigned char> outputBytes;
 			if (FileUtil::ReadFile(txHashSetPath / "rangeproof" / "pmmr_leaf.bin", outputBytes))
 			{
-				outputBitmap = Roaring::readSafe((const char*)outputBytes.data(), outputBytes.size());
+				outputBitmap = RoaringUtil::Read(outputBytes);
 			}
 			BitmapFile::Create(txHashSetPath / "rangeproof" / "pmmr_leafset.bin", outputBitmap);
 		}
-- 
2.43.0


From acb0fd18d577eeb227486ecb9f97e6cb92a5e545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:07 +0000
Subject: [PATCH 049/128] fix: build the caches of a prune list from its roots
 instead of stepping through every position

---
 src/PMMR/Common/PruneList.cpp | 47 +++++++++++++++--------------------
 1 file changed, 20 insertions(+), 27 deletions(-)

diff --git a/src/PMMR/Common/PruneList.cpp b/src/PMMR/Common/PruneList.cpp
index 3bf5199..ac5cd40 100644
--- a/src/PMMR/Common/PruneList.cpp
+++ b/src/PMMR/Common/PruneList.cpp
@@ -17,6 +17,10 @@ std::shared_ptr<PruneList> PruneList::Load(const fs::path& filePath)
     std::vector<unsigned char> data;
     if (FileUtil::ReadFile(filePath, data)) {
         Roaring prunedRoots = RoaringUtil::Read(data);
+        if (prunedRoots.contains(0)) {
+            throw std::runtime_error("Invalid prune list"); // Values are positions + 1
+        }
+
         PruneList* pPruneList = new PruneList(filePath, std::move(prunedRoots));
         pPruneList->BuildPrunedCache();
         pPruneList->BuildShiftCaches();
@@ -136,19 +140,13 @@ void PruneList::BuildPrunedCache()
         return;
     }
 
-    const uint64_t maximum = m_prunedRoots.maximum();
-    m_prunedCache = Roaring(roaring_bitmap_create_with_capacity(maximum));
-
-    for (Index mmr_idx = Index::At(0); mmr_idx < maximum; mmr_idx++) {
-        Index parent_idx = mmr_idx;
-        while (parent_idx < maximum) {
-            if (m_prunedRoots.contains(parent_idx.GetPosition() + 1)) {
-                m_prunedCache.add(mmr_idx.GetPosition() + 1);
-                break;
-            }
+    m_prunedCache = Roaring();
 
-            parent_idx = parent_idx.GetParent();
-        }
+    // A root covers its whole subtree: the 2^(height + 1) - 1 positions that end with the root itself.
+    for (const uint32_t root : m_prunedRoots) {
+        const uint64_t height = Index::At((uint64_t)root - 1).GetHeight();
+        const uint64_t numNodes = (2ULL << height) - 1;
+        m_prunedCache.addRange((uint64_t)root + 1 - numNodes, (uint64_t)root + 1);
     }
 
     m_prunedCache.runOptimize();
@@ -163,22 +161,17 @@ void PruneList::BuildShiftCaches()
     m_shiftCache.clear();
     m_leafShiftCache.clear();
 
-    // TODO: Use m_prunedRoots.iterate instead of looping through all values and checking contains.
-    const uint64_t maximum = m_prunedRoots.maximum();
-
-    for (Index mmr_idx = Index::At(0); mmr_idx < maximum; mmr_idx++) {
-        if (m_prunedRoots.contains(mmr_idx.GetPosition() + 1)) {
-            const uint64_t height = mmr_idx.GetHeight();
+    for (const uint32_t root : m_prunedRoots) {
+        const uint64_t height = Index::At((uint64_t)root - 1).GetHeight();
 
-            // Add to shift cache
-            const uint64_t previousShift = GetShift(mmr_idx - 1);
-            const uint64_t currentShift = 2ULL * ((1ULL << height) - 1);
-            m_shiftCache.push_back(previousShift + currentShift);
+        // Add to shift cache
+        const uint64_t previousShift = m_shiftCache.empty() ? 0 : m_shiftCache.back();
+        const uint64_t currentShift = 2ULL * ((1ULL << height) - 1);
+        m_shiftCache.push_back(previousShift + currentShift);
 
-            // Add to leaf shift cache
-            const uint64_t previousLeafShift = GetLeafShift(mmr_idx - 1);
-            const uint64_t currentLeafShift = (height == 0) ? 0 : 1ULL << height;
-            m_leafShiftCache.push_back(previousLeafShift + currentLeafShift);
-        }
+        // Add to leaf shift cache
+        const uint64_t previousLeafShift = m_leafShiftCache.empty() ? 0 : m_leafShiftCache.back();
+        const uint64_t currentLeafShift = (height == 0) ? 0 : 1ULL << height;
+        m_leafShiftCache.push_back(previousLeafShift + currentLeafShift);
     }
 }
-- 
2.43.0


From 75ffc7f3fea517ddad4775c8e75d7fa44d72861e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:18 +0000
Subject: [PATCH 050/128] fix: refuse leaf sets that refer to positions beyond
 the MMR

---
 src/PMMR/OutputPMMR.h     | 6 +++++-
 src/PMMR/RangeProofPMMR.h | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/PMMR/OutputPMMR.h b/src/PMMR/OutputPMMR.h
index d567f13..61b1267 100644
--- a/src/PMMR/OutputPMMR.h
+++ b/src/PMMR/OutputPMMR.h
@@ -17,6 +17,7 @@ public:
 		const auto genesisOutput = OutputIdentifier::FromOutput(Global::GetGenesisBlock().GetOutputs().front());
 
 		std::shared_ptr<HashFile> pHashFile = HashFile::Load(txHashSetPath / "output" / "pmmr_hash.bin");
+		std::shared_ptr<PruneList> pPruneList = PruneList::Load(txHashSetPath / "output" / "pmmr_prun.bin");
 
 		if (!FileUtil::Exists(txHashSetPath / "output" / "pmmr_leafset.bin") && FileUtil::Exists(txHashSetPath / "output" / "pmmr_leaf.bin"))
 		{
@@ -25,12 +26,15 @@ public:
 			if (FileUtil::ReadFile(txHashSetPath / "output" / "pmmr_leaf.bin", outputBytes))
 			{
 				outputBitmap = RoaringUtil::Read(outputBytes);
+				if (!outputBitmap.isEmpty() && outputBitmap.maximum() > pHashFile->GetSize() + pPruneList->GetTotalShift())
+				{
+					throw std::runtime_error("Leaf set refers to positions beyond the MMR");
+				}
 			}
 			BitmapFile::Create(txHashSetPath / "output" / "pmmr_leafset.bin", outputBitmap);
 		}
 
 		std::shared_ptr<LeafSet> pLeafSet = LeafSet::Load(txHashSetPath / "output" / "pmmr_leafset.bin");
-		std::shared_ptr<PruneList> pPruneList = PruneList::Load(txHashSetPath / "output" / "pmmr_prun.bin");
 		std::shared_ptr<DataFile<OUTPUT_SIZE>> pDataFile = DataFile<OUTPUT_SIZE>::Load(txHashSetPath / "output" / "pmmr_data.bin");
 
 		auto pOutputPMMR =  std::shared_ptr<OutputPMMR>(new OutputPMMR(pHashFile, pLeafSet, pPruneList, pDataFile));
diff --git a/src/PMMR/RangeProofPMMR.h b/src/PMMR/RangeProofPMMR.h
index 7b06ad3..ae02ee9 100644
--- a/src/PMMR/RangeProofPMMR.h
+++ b/src/PMMR/RangeProofPMMR.h
@@ -15,6 +15,7 @@ public:
 	static std::shared_ptr<RangeProofPMMR> Load(const fs::path& txHashSetPath)
 	{
 		std::shared_ptr<HashFile> pHashFile = HashFile::Load(txHashSetPath / "rangeproof" / "pmmr_hash.bin");
+		std::shared_ptr<PruneList> pPruneList = PruneList::Load(txHashSetPath / "rangeproof" / "pmmr_prun.bin");
 
 		if (!FileUtil::Exists(txHashSetPath / "rangeproof" / "pmmr_leafset.bin") && FileUtil::Exists(txHashSetPath / "rangeproof" / "pmmr_leaf.bin"))
 		{
@@ -23,12 +24,15 @@ public:
 			if (FileUtil::ReadFile(txHashSetPath / "rangeproof" / "pmmr_leaf.bin", outputBytes))
 			{
 				outputBitmap = RoaringUtil::Read(outputBytes);
+				if (!outputBitmap.isEmpty() && outputBitmap.maximum() > pHashFile->GetSize() + pPruneList->GetTotalShift())
+				{
+					throw std::runtime_error("Leaf set refers to positions beyond the MMR");
+				}
 			}
 			BitmapFile::Create(txHashSetPath / "rangeproof" / "pmmr_leafset.bin", outputBitmap);
 		}
 
 		std::shared_ptr<LeafSet> pLeafSet = LeafSet::Load(txHashSetPath / "rangeproof" / "pmmr_leafset.bin");
-		std::shared_ptr<PruneList> pPruneList = PruneList::Load(txHashSetPath / "rangeproof" / "pmmr_prun.bin");
 		std::shared_ptr<DataFile<RANGE_PROOF_SIZE>> pDataFile = DataFile<RANGE_PROOF_SIZE>::Load(txHashSetPath / "rangeproof" / "pmmr_data.bin");
 
 		auto pPMMR = std::shared_ptr<RangeProofPMMR>(new RangeProofPMMR(pHashFile, pLeafSet, pPruneList, pDataFile));
-- 
2.43.0


From 16ef876f435b0f7c579f74dc9ffcb4dab8e1e410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:07 +0000
Subject: [PATCH 051/128] fix: incrementing the largest big integer wrote
 before its first byte

---
 include/Crypto/Models/BigInteger.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Crypto/Models/BigInteger.h b/include/Crypto/Models/BigInteger.h
index 610bd1f..8600b85 100644
--- a/include/Crypto/Models/BigInteger.h
+++ b/include/Crypto/Models/BigInteger.h
@@ -153,7 +153,7 @@ public:
 
 	CBigInteger& operator++()
 	{
-		for (size_t i = NUM_BYTES - 1; i >= 0; i--)
+		for (size_t i = NUM_BYTES; i-- > 0;)
 		{
 			if (m_data[i] == UINT8_MAX) {
 				m_data[i] = 0;
@@ -170,7 +170,7 @@ public:
 	CBigInteger operator++(int)
 	{
 		CBigInteger<NUM_BYTES, ALLOC> current = *this;
-		for (size_t i = NUM_BYTES - 1; i >= 0; i--)
+		for (size_t i = NUM_BYTES; i-- > 0;)
 		{
 			if (m_data[i] == UINT8_MAX) {
 				m_data[i] = 0;
-- 
2.43.0


From 44cd2b79ea80d1b132193ee843b3f942e9a58dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:44 +0000
Subject: [PATCH 052/128] fix: key paths with hardened indices could not be
 read back, and malformed paths were accepted

---
 include/Wallet/KeyChainPath.h | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/include/Wallet/KeyChainPath.h b/include/Wallet/KeyChainPath.h
index 4be5fd7..571d690 100644
--- a/include/Wallet/KeyChainPath.h
+++ b/include/Wallet/KeyChainPath.h
@@ -101,20 +101,31 @@ public:
 
 		std::vector<uint32_t> keyIndices;
 
-		std::string remaining = path.substr(1);
-		while (remaining.size() >= 2)
+		size_t pos = 1;
+		while (pos < path.size())
 		{
-			if (remaining.at(0) != '/')
+			if (path.at(pos) != '/')
 			{
 				throw DESERIALIZATION_EXCEPTION_F("Invalid path: \"{}\"", path);
 			}
 
-			remaining = remaining.substr(1);
+			const size_t begin = ++pos;
+			uint64_t keyIndex = 0;
+			while (pos < path.size() && path.at(pos) >= '0' && path.at(pos) <= '9')
+			{
+				keyIndex = keyIndex * 10 + (uint64_t)(path.at(pos++) - '0');
+				if (keyIndex > UINT32_MAX)
+				{
+					throw DESERIALIZATION_EXCEPTION_F("Invalid path: \"{}\"", path);
+				}
+			}
+
+			if (pos == begin)
+			{
+				throw DESERIALIZATION_EXCEPTION_F("Invalid path: \"{}\"", path);
+			}
 
-			size_t sz;
-			const uint32_t keyIndex = (uint32_t)std::stoi(remaining, &sz);
-			keyIndices.push_back(keyIndex);
-			remaining = remaining.substr(sz);
+			keyIndices.push_back((uint32_t)keyIndex);
 		}
 
 		return KeyChainPath(std::move(keyIndices));
-- 
2.43.0


From ff72947866ac45b737de81feb8f8a9592b1b20de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:00 +0000
Subject: [PATCH 053/128] fix: a seed file with a scrypt parameter of zero
 crashed instead of being refused

---
 src/Crypto/KDF.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Crypto/KDF.cpp b/src/Crypto/KDF.cpp
index 547b60e..fb91f49 100644
--- a/src/Crypto/KDF.cpp
+++ b/src/Crypto/KDF.cpp
@@ -9,6 +9,12 @@
 
 SecretKey KDF::PBKDF(const SecureString& password, const std::vector<uint8_t>& salt, const ScryptParameters& parameters)
 {
+	// The scrypt implementation divides by r and p.
+	if (parameters.r == 0 || parameters.p == 0)
+	{
+		throw CryptoException();
+	}
+
 	SecureVector buffer(64);
 	if (crypto_scrypt((const uint8_t*)password.data(), password.size(), salt.data(), salt.size(), parameters.N, parameters.r, parameters.p, buffer.data(), buffer.size()) == 0)
 	{
-- 
2.43.0


From 68c5d4c9951779c95f6ec6e6237200cce57baef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:52 +0000
Subject: [PATCH 054/128] fix: bech32 texts with another prefix were accepted
 as slatepack addresses

---
 include/Wallet/Models/Slatepack/SlatepackAddress.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/Wallet/Models/Slatepack/SlatepackAddress.h b/include/Wallet/Models/Slatepack/SlatepackAddress.h
index 1cff8b9..190bdc1 100644
--- a/include/Wallet/Models/Slatepack/SlatepackAddress.h
+++ b/include/Wallet/Models/Slatepack/SlatepackAddress.h
@@ -17,8 +17,12 @@ public:
 
     static SlatepackAddress Parse(const std::string& address)
     {
-        std::vector<uint8_t> data = Bech32Address::Parse(address).GetData();
-        ed25519_public_key_t pubkey = ED25519::ToPubKey(data);
+        Bech32Address bech32_address = Bech32Address::Parse(address);
+        if (bech32_address.GetHRC() != HRC) {
+            throw std::exception();
+        }
+
+        ed25519_public_key_t pubkey = ED25519::ToPubKey(bech32_address.GetData());
 
         return SlatepackAddress(pubkey);
     }
-- 
2.43.0


From 6e16ece7095040757ac8caf379e191115d2bfc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:21 +0000
Subject: [PATCH 055/128] fix: keep accepting a trailing separator in key paths

---
 include/Wallet/KeyChainPath.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/Wallet/KeyChainPath.h b/include/Wallet/KeyChainPath.h
index 571d690..31dfed4 100644
--- a/include/Wallet/KeyChainPath.h
+++ b/include/Wallet/KeyChainPath.h
@@ -110,6 +110,11 @@ public:
 			}
 
 			const size_t begin = ++pos;
+			if (pos == path.size())
+			{
+				break; // A trailing separator, as in "m/0/1/", is harmless.
+			}
+
 			uint64_t keyIndex = 0;
 			while (pos < path.size() && path.at(pos) >= '0' && path.at(pos) <= '9')
 			{
-- 
2.43.0


From a7ac78640ce4dc00aa00b81cef161c527d706f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:58 +0000
Subject: [PATCH 056/128] fix: keep accepting slatepack addresses with the test
 network's prefix

---
 include/Wallet/Models/Slatepack/SlatepackAddress.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Wallet/Models/Slatepack/SlatepackAddress.h b/include/Wallet/Models/Slatepack/SlatepackAddress.h
index 190bdc1..7f2b780 100644
--- a/include/Wallet/Models/Slatepack/SlatepackAddress.h
+++ b/include/Wallet/Models/Slatepack/SlatepackAddress.h
@@ -18,7 +18,7 @@ public:
     static SlatepackAddress Parse(const std::string& address)
     {
         Bech32Address bech32_address = Bech32Address::Parse(address);
-        if (bech32_address.GetHRC() != HRC) {
+        if (bech32_address.GetHRC() != HRC && bech32_address.GetHRC() != TESTNET_HRC) {
             throw std::exception();
         }
 
@@ -70,4 +70,5 @@ private:
     ed25519_public_key_t m_pubkey;
 
     inline static const std::string HRC = "grin"; // TODO: "tgrin" for floonet
+    inline static const std::string TESTNET_HRC = "tgrin"; // Accepted on input, since addresses are not tied to a network yet
 };
\ No newline at end of file
-- 
2.43.0


From f1abfefc4a9a89552a6a5dd54011ee8ff53908ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:36 +0000
Subject: [PATCH 057/128] fix: slates read from JSON lost the arguments of
 their kernel features

---
 include/Wallet/Models/Slate/SlateFeatureArgs.h |  2 +-
 src/Wallet/Models/Slate/Slate.cpp              | 15 ++++++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/Wallet/Models/Slate/SlateFeatureArgs.h b/include/Wallet/Models/Slate/SlateFeatureArgs.h
index 9d35bd6..7535906 100644
--- a/include/Wallet/Models/Slate/SlateFeatureArgs.h
+++ b/include/Wallet/Models/Slate/SlateFeatureArgs.h
@@ -18,7 +18,7 @@ struct SlateFeatureArgs
         return json;
     }
 
-    SlateFeatureArgs FromJSON(const Json::Value& json)
+    static SlateFeatureArgs FromJSON(const Json::Value& json)
     {
         SlateFeatureArgs args;
         args.lockHeightOpt = JsonUtil::GetUInt64Opt(json, "lock_hgt");
diff --git a/src/Wallet/Models/Slate/Slate.cpp b/src/Wallet/Models/Slate/Slate.cpp
index 9c9d62c..b418ff0 100644
--- a/src/Wallet/Models/Slate/Slate.cpp
+++ b/src/Wallet/Models/Slate/Slate.cpp
@@ -387,7 +387,20 @@ Slate Slate::FromJSON(const Json::Value& json)
 
 	slate.amount = JsonUtil::GetUInt64Opt(json, "amt").value_or(0);
 	slate.kernelFeatures = (EKernelFeatures)JsonUtil::GetUInt8Opt(json, "feat").value_or(0);
-	// TODO: Feat args
+	if (slate.kernelFeatures != EKernelFeatures::DEFAULT_KERNEL) {
+		SlateFeatureArgs featureArgs;
+		auto feat_args_json_opt = JsonUtil::GetOptionalField(json, "feat_args");
+		if (feat_args_json_opt.has_value()) {
+			featureArgs = SlateFeatureArgs::FromJSON(feat_args_json_opt.value());
+		}
+
+		if (slate.kernelFeatures == EKernelFeatures::HEIGHT_LOCKED && !featureArgs.lockHeightOpt.has_value()) {
+			throw DESERIALIZE_FIELD_EXCEPTION("feat_args");
+		}
+
+		slate.featureArgsOpt = std::make_optional<SlateFeatureArgs>(std::move(featureArgs));
+	}
+
 	slate.ttl = JsonUtil::GetUInt64Opt(json, "ttl").value_or(0);
 
 	std::vector<Json::Value> sigs = JsonUtil::GetRequiredArray(json, "sigs");
-- 
2.43.0


From 510afd55318e7fb29fab88be1a90d75b7aedf032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:36 +0000
Subject: [PATCH 058/128] fix: slates of different block versions or lock
 heights compared as equal

---
 include/Wallet/Models/Slate/Slate.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Wallet/Models/Slate/Slate.h b/include/Wallet/Models/Slate/Slate.h
index 87dc0e9..1f01b2f 100644
--- a/include/Wallet/Models/Slate/Slate.h
+++ b/include/Wallet/Models/Slate/Slate.h
@@ -71,12 +71,13 @@ public:
 		return slateId == rhs.slateId &&
 			stage == rhs.stage &&
 			version == rhs.version &&
-			blockVersion && rhs.blockVersion &&
+			blockVersion == rhs.blockVersion &&
 			amount == rhs.amount &&
 			fee == rhs.fee &&
 			offset == rhs.offset &&
 			numParticipants == rhs.numParticipants &&
 			kernelFeatures == rhs.kernelFeatures &&
+			GetLockHeight() == rhs.GetLockHeight() &&
 			ttl == rhs.ttl &&
 			sigs == rhs.sigs &&
 			commitments == rhs.commitments &&
-- 
2.43.0


From f1300c2390862d6fbb97c0ce6984bf272c3434be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:36 +0000
Subject: [PATCH 059/128] fix: refuse slates in JSON with malformed versions or
 commitments

---
 src/Wallet/Models/Slate/Slate.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/Wallet/Models/Slate/Slate.cpp b/src/Wallet/Models/Slate/Slate.cpp
index b418ff0..2df9c25 100644
--- a/src/Wallet/Models/Slate/Slate.cpp
+++ b/src/Wallet/Models/Slate/Slate.cpp
@@ -372,8 +372,8 @@ Slate Slate::FromJSON(const Json::Value& json)
 	auto featuresOpt = JsonUtil::GetOptionalField(json, "feat");
 
 	Slate slate;
-	slate.version = (uint16_t)std::stoul(versionParts[0]);
-	slate.blockVersion = (uint16_t)std::stoul(versionParts[1]);
+	slate.version = JsonUtil::ConvertToUInt<uint16_t>(versionParts[0]);
+	slate.blockVersion = JsonUtil::ConvertToUInt<uint16_t>(versionParts[1]);
 	slate.slateId = slateIdOpt.value();
 	slate.stage = SlateStage::FromString(JsonUtil::GetRequiredString(json, "sta"));
 	slate.offset = JsonUtil::GetBlindingFactorOpt(json, "off").value_or(BlindingFactor{});
@@ -409,7 +409,11 @@ Slate Slate::FromJSON(const Json::Value& json)
 		slate.sigs.push_back(SlateSignature::FromJSON(sig));
 	}
 
-	std::vector<Json::Value> commitmentsJson = JsonUtil::GetArray(json, "coms");
+	std::vector<Json::Value> commitmentsJson;
+	if (JsonUtil::GetOptionalField(json, "coms").has_value()) {
+		commitmentsJson = JsonUtil::GetRequiredArray(json, "coms");
+	}
+
 	for (const Json::Value& commitmentJson : commitmentsJson)
 	{
 		slate.commitments.push_back(SlateCommitment::FromJSON(commitmentJson));
-- 
2.43.0


From b6525d23420fffba95dec310291d0681744104ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:47 +0000
Subject: [PATCH 060/128] fix: refuse slates with unknown kernel or output
 features

---
 include/Wallet/Models/Slate/SlateCommitment.h |  7 ++++++-
 src/Wallet/Models/Slate/Slate.cpp             | 13 +++++++++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/Wallet/Models/Slate/SlateCommitment.h b/include/Wallet/Models/Slate/SlateCommitment.h
index fad5a32..4c44e5e 100644
--- a/include/Wallet/Models/Slate/SlateCommitment.h
+++ b/include/Wallet/Models/Slate/SlateCommitment.h
@@ -41,7 +41,7 @@ struct SlateCommitment
         const uint8_t hasProof = byteBuffer.ReadU8();
 
         SlateCommitment ret;
-        ret.features = (EOutputFeatures)byteBuffer.ReadU8();
+        ret.features = ConvertFeature(byteBuffer.ReadU8());
         ret.commitment = Commitment::Deserialize(byteBuffer);
 
         if (hasProof > 0) {
@@ -81,6 +81,11 @@ struct SlateCommitment
 private:
     static EOutputFeatures ConvertFeature(const uint64_t value)
     {
+        if (value > 1)
+        {
+            throw DESERIALIZE_FIELD_EXCEPTION("f");
+        }
+
         return value == 1 ? EOutputFeatures::COINBASE_OUTPUT : EOutputFeatures::DEFAULT;
     }
 };
\ No newline at end of file
diff --git a/src/Wallet/Models/Slate/Slate.cpp b/src/Wallet/Models/Slate/Slate.cpp
index 2df9c25..870b894 100644
--- a/src/Wallet/Models/Slate/Slate.cpp
+++ b/src/Wallet/Models/Slate/Slate.cpp
@@ -60,6 +60,15 @@ struct OptionalStructStatus
 	}
 };
 
+static EKernelFeatures ToKernelFeatures(const uint8_t value)
+{
+	if (value > (uint8_t)EKernelFeatures::NO_RECENT_DUPLICATE) {
+		throw DESERIALIZE_FIELD_EXCEPTION("feat");
+	}
+
+	return (EKernelFeatures)value;
+}
+
 std::vector<TransactionInput> Slate::GetInputs() const noexcept
 {
 	std::vector<TransactionInput> inputs;
@@ -262,7 +271,7 @@ Slate Slate::Deserialize(ByteBuffer& byteBuffer)
 	}
 
 	if (fieldStatus.include_feat) {
-		slate.kernelFeatures = (EKernelFeatures)byteBuffer.ReadU8();
+		slate.kernelFeatures = ToKernelFeatures(byteBuffer.ReadU8());
 	}
 
 	if (fieldStatus.include_ttl) {
@@ -386,7 +395,7 @@ Slate Slate::FromJSON(const Json::Value& json)
 	}
 
 	slate.amount = JsonUtil::GetUInt64Opt(json, "amt").value_or(0);
-	slate.kernelFeatures = (EKernelFeatures)JsonUtil::GetUInt8Opt(json, "feat").value_or(0);
+	slate.kernelFeatures = ToKernelFeatures(JsonUtil::GetUInt8Opt(json, "feat").value_or(0));
 	if (slate.kernelFeatures != EKernelFeatures::DEFAULT_KERNEL) {
 		SlateFeatureArgs featureArgs;
 		auto feat_args_json_opt = JsonUtil::GetOptionalField(json, "feat_args");
-- 
2.43.0


From 47121cec754a3a07e15e20e1431b9bef74f2bdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:38 +0000
Subject: [PATCH 061/128] fix: a slate with a malformed partial signature ended
 the process instead of being refused

---
 include/Wallet/Models/Slate/SlateSignature.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/Wallet/Models/Slate/SlateSignature.h b/include/Wallet/Models/Slate/SlateSignature.h
index f59441b..f4bc27a 100644
--- a/include/Wallet/Models/Slate/SlateSignature.h
+++ b/include/Wallet/Models/Slate/SlateSignature.h
@@ -29,7 +29,7 @@ struct SlateSignature
         return excess == rhs.excess && nonce == rhs.nonce && partialOpt == rhs.partialOpt;
     }
 
-    void Serialize(Serializer& serializer) const noexcept
+    void Serialize(Serializer& serializer) const
     {
         serializer.Append<uint8_t>(partialOpt.has_value() ? 1 : 0);
         excess.Serialize(serializer);
@@ -49,6 +49,7 @@ struct SlateSignature
         if (hasSig > 0) {
             Signature signature = Signature::Deserialize(byteBuffer);
             ret.partialOpt = std::make_optional<CompactSignature>(Crypto::ToCompact(signature));
+            Crypto::ParseCompactSignature(ret.partialOpt.value()); // Throws if malformed
         }
 
         return ret;
@@ -75,6 +76,7 @@ struct SlateSignature
         auto sigOpt = JsonUtil::GetBigIntegerOpt<64>(json, "part");
         if (sigOpt.has_value()) {
             sig.partialOpt = std::make_optional<CompactSignature>(sigOpt.value());
+            Crypto::ParseCompactSignature(sig.partialOpt.value()); // Throws if malformed
         }
         return sig;
     }
-- 
2.43.0


From c1c4c3d486d371e404a9d39242f0012cbe29774f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:48 +0000
Subject: [PATCH 062/128] fix: refuse slatepacks with an unknown mode instead
 of reading them as plaintext

---
 include/Wallet/Models/Slatepack/SlatepackMessage.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/Wallet/Models/Slatepack/SlatepackMessage.h b/include/Wallet/Models/Slatepack/SlatepackMessage.h
index 637641b..0252e67 100644
--- a/include/Wallet/Models/Slatepack/SlatepackMessage.h
+++ b/include/Wallet/Models/Slatepack/SlatepackMessage.h
@@ -154,6 +154,9 @@ struct SlatepackMessage
         SlatepackMessage slatepack{ };
         slatepack.m_version = Version::Deserialize(byteBuffer);
         slatepack.m_mode = (EMode)byteBuffer.ReadU8();
+        if (slatepack.m_mode != EMode::PLAINTEXT && slatepack.m_mode != EMode::ENCRYPTED) {
+            throw std::exception();
+        }
 
         uint16_t opt_flags = byteBuffer.ReadU16();
         uint32_t opt_fields_len = byteBuffer.ReadU32();
-- 
2.43.0


From c3592727ae39ee06b78039be10cb445c1dc0f673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:57 +0000
Subject: [PATCH 063/128] fix: slatepacks whose checksum starts with a zero
 byte could not be opened

---
 src/Core/Serialization/Base58.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Core/Serialization/Base58.cpp b/src/Core/Serialization/Base58.cpp
index 1b638c2..63c2f39 100644
--- a/src/Core/Serialization/Base58.cpp
+++ b/src/Core/Serialization/Base58.cpp
@@ -219,12 +219,12 @@ std::string Base58::SimpleEncodeCheck(const std::vector<unsigned char>& vchIn)
 
     vch.insert(vch.end(), vchIn.cbegin(), vchIn.cend());
 
-    return Encode(vch.data(), vch.data() + vch.size(), false);
+    return Encode(vch.data(), vch.data() + vch.size(), true);
 }
 
 std::vector<uint8_t> Base58::SimpleDecodeCheck(const std::string& str)
 {
-    std::vector<uint8_t> decoded = Decode(AsCString(str), false);
+    std::vector<uint8_t> decoded = Decode(AsCString(str), true);
 
     if (decoded.size() < 4) {
         throw std::exception();
-- 
2.43.0


From 808d61745ea7bc94b1fe084bcf217fe81399a802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:09 +0000
Subject: [PATCH 064/128] fix: a very long recipient line in a slatepack
 overflowed the stack

---
 include/Crypto/Age/Header.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/Crypto/Age/Header.h b/include/Crypto/Age/Header.h
index 488f99b..a592afd 100644
--- a/include/Crypto/Age/Header.h
+++ b/include/Crypto/Age/Header.h
@@ -8,7 +8,6 @@
 #include <Core/Exceptions/CryptoException.h>
 #include <Core/Serialization/Base64.h>
 #include <Common/Util/StringUtil.h>
-#include <regex>
 
 namespace age
 {
@@ -83,9 +82,8 @@ namespace age
             for (auto iter = lines.begin() + 1; iter != lines.end(); iter++) {
                 std::string line = *iter;
 
-                std::smatch sm;
-                if (std::regex_match(line, sm, std::regex("-> X25519 ([^-\\s]*)"))) {
-                    std::vector<uint8_t> pubkey_bytes = Base64::DecodeUnpadded(sm[1]);
+                if (StringUtil::StartsWith(line, "-> X25519 ")) {
+                    std::vector<uint8_t> pubkey_bytes = Base64::DecodeUnpadded(line.substr(10));
                     if (pubkey_bytes.size() != 32) {
                         throw std::exception();
                     }
-- 
2.43.0


From 4b8b344e360ab7713d8adccb4ac16d05e8d0c160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:15 +0000
Subject: [PATCH 065/128] fix: verify the MAC of an encrypted slatepack's
 header

---
 include/Crypto/Age/Header.h | 33 ++++++++++++++++++++-------------
 src/Crypto/Age.cpp          |  4 ++--
 2 files changed, 22 insertions(+), 15 deletions(-)

diff --git a/include/Crypto/Age/Header.h b/include/Crypto/Age/Header.h
index a592afd..323cc72 100644
--- a/include/Crypto/Age/Header.h
+++ b/include/Crypto/Age/Header.h
@@ -16,6 +16,9 @@ namespace age
         CBigInteger<32> mac;
         std::vector<RecipientLine> recipients;
 
+        // The encoded header up to and including "---", which is what the MAC covers.
+        std::string encoded_without_mac;
+
         static Header Create(const SecretKey& mac_key, const std::vector<RecipientLine>& recipients)
         {
             std::string encoded_recipients = "";
@@ -31,20 +34,11 @@ namespace age
 
             Hash mac = Hasher::HMAC_SHA256(mac_key.GetVec(), encoded_u8);
 
-            return { mac, recipients };
+            return { mac, recipients, encoded_without_mac };
         }
 
         void VerifyMac(const SecretKey& mac_key) const
         {
-            std::string encoded_recipients = "";
-            for (const RecipientLine& recipient : recipients) {
-                encoded_recipients += recipient.Encode();
-            }
-
-            std::string encoded_without_mac = StringUtil::Format(
-                "age-encryption.org/v1\n{}---",
-                encoded_recipients
-            );
             std::vector<uint8_t> encoded_u8(encoded_without_mac.cbegin(), encoded_without_mac.cend());
 
             Hash actual = Hasher::HMAC_SHA256(mac_key.GetVec(), encoded_u8);
@@ -79,6 +73,15 @@ namespace age
         {
             Header header;
 
+            for (const std::string& line : lines) {
+                if (StringUtil::StartsWith(line, "---")) {
+                    header.encoded_without_mac += "---";
+                    break;
+                }
+
+                header.encoded_without_mac += line + "\n";
+            }
+
             for (auto iter = lines.begin() + 1; iter != lines.end(); iter++) {
                 std::string line = *iter;
 
@@ -104,12 +107,16 @@ namespace age
                     header.recipients.push_back(recipient);
                 }
                 else if (StringUtil::StartsWith(line, "---")) {
-                    std::vector<std::string> parts = StringUtil::Split(line, " ");
-                    if (parts.size() != 2) {
+                    if (!StringUtil::StartsWith(line, "--- ")) {
+                        throw std::exception();
+                    }
+
+                    std::vector<uint8_t> mac_bytes = Base64::DecodeUnpadded(line.substr(4));
+                    if (mac_bytes.size() != 32 || Base64::EncodeUnpadded(mac_bytes) != line.substr(4)) {
                         throw std::exception();
                     }
 
-                    header.mac = CBigInteger<32>(Base64::DecodeUnpadded(parts[1])); // TODO: Verify mac
+                    header.mac = CBigInteger<32>(std::move(mac_bytes));
                     return header;
                 }
             }
diff --git a/src/Crypto/Age.cpp b/src/Crypto/Age.cpp
index 850ef73..636536a 100644
--- a/src/Crypto/Age.cpp
+++ b/src/Crypto/Age.cpp
@@ -111,7 +111,7 @@ std::vector<uint8_t> Age::TryDecrypt(
     const x25519_keypair_t& decrypt_keypair,
     const age::RecipientLine& recipient_line,
     const CBigInteger<16>& file_key_nonce,
-    const age::Header& /*header*/,
+    const age::Header& header,
     const std::vector<uint8_t>& encrypted_payload)
 {
     try
@@ -134,7 +134,7 @@ std::vector<uint8_t> Age::TryDecrypt(
             "header",
             decrypted_file_key
         );
-        //header.VerifyMac(mac_key);
+        header.VerifyMac(mac_key);
 
         SecretKey payload_key = KDF::HKDF(
             std::make_optional(file_key_nonce.GetData()),
-- 
2.43.0


From d2e7edda2c4650d611e0d6ec896fc06ce4e5d20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:48 +0000
Subject: [PATCH 066/128] fix: slatepacks of a new wallet were lost when it was
 next opened

---
 src/Wallet/WalletDB/Sqlite/Tables/SlateTable.cpp   | 8 ++++++++
 src/Wallet/WalletDB/Sqlite/Tables/VersionTable.cpp | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Wallet/WalletDB/Sqlite/Tables/SlateTable.cpp b/src/Wallet/WalletDB/Sqlite/Tables/SlateTable.cpp
index c3c42cc..cf5733c 100644
--- a/src/Wallet/WalletDB/Sqlite/Tables/SlateTable.cpp
+++ b/src/Wallet/WalletDB/Sqlite/Tables/SlateTable.cpp
@@ -21,6 +21,14 @@ void SlateTable::UpdateSchema(SqliteDB& database, const int previousVersion)
 	if (previousVersion < 2) {
 		CreateTable(database);
 	} else if (previousVersion < 3) {
+		// Wallets were created with all the columns of version 3, but recorded as version 2.
+		auto pColumn = database.Query("SELECT name FROM pragma_table_info('slate') WHERE name='armored_slatepack'");
+		const bool up_to_date = pColumn->Step();
+		pColumn->Finalize();
+		if (up_to_date) {
+			return;
+		}
+
 		WALLET_INFO("Migrating Slate Table to new schema");
 
 		// Create "new_outputs" table
diff --git a/src/Wallet/WalletDB/Sqlite/Tables/VersionTable.cpp b/src/Wallet/WalletDB/Sqlite/Tables/VersionTable.cpp
index 8f47ad2..2f425c1 100644
--- a/src/Wallet/WalletDB/Sqlite/Tables/VersionTable.cpp
+++ b/src/Wallet/WalletDB/Sqlite/Tables/VersionTable.cpp
@@ -9,7 +9,7 @@
 void VersionTable::CreateTable(SqliteDB& database)
 {
 	std::string table_creation_cmd = "create table version(schema_version INTEGER PRIMARY KEY);";
-	table_creation_cmd += "insert into version(schema_version) values (2)";
+	table_creation_cmd += StringUtil::Format("insert into version(schema_version) values ({});", LATEST_SCHEMA_VERSION);
 
 	database.Execute(table_creation_cmd);
 }
-- 
2.43.0


From 0697c7704a904e706901f9760bb3e3ed0315c167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:15 +0000
Subject: [PATCH 067/128] fix: a wallet database that could not be read looked
 like an empty one

---
 src/Wallet/WalletDB/Sqlite/SqliteDB.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Wallet/WalletDB/Sqlite/SqliteDB.cpp b/src/Wallet/WalletDB/Sqlite/SqliteDB.cpp
index ae4b270..c8fe7a6 100644
--- a/src/Wallet/WalletDB/Sqlite/SqliteDB.cpp
+++ b/src/Wallet/WalletDB/Sqlite/SqliteDB.cpp
@@ -21,7 +21,13 @@ SqliteDB::Statement::~Statement()
 
 bool SqliteDB::Statement::Step()
 {
-	return sqlite3_step(m_pStatement) == SQLITE_ROW;
+	const int result = sqlite3_step(m_pStatement);
+	if (result != SQLITE_ROW && result != SQLITE_DONE) {
+		WALLET_ERROR_F("Error executing statement: {}", sqlite3_errmsg(m_pDatabase));
+		throw WALLET_STORE_EXCEPTION("Error executing statement.");
+	}
+
+	return result == SQLITE_ROW;
 }
 
 void SqliteDB::Statement::Finalize()
-- 
2.43.0


From ed51155228f4c27601d0e85f02f9710dab50aadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:15 +0000
Subject: [PATCH 068/128] fix: a wallet transaction that could not be committed
 was left open

---
 src/Wallet/WalletDB/Sqlite/SqliteTransaction.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/Wallet/WalletDB/Sqlite/SqliteTransaction.h b/src/Wallet/WalletDB/Sqlite/SqliteTransaction.h
index 83be377..0e91b76 100644
--- a/src/Wallet/WalletDB/Sqlite/SqliteTransaction.h
+++ b/src/Wallet/WalletDB/Sqlite/SqliteTransaction.h
@@ -38,9 +38,9 @@ public:
 			throw WALLET_STORE_EXCEPTION("Tried to commit a closed transaction.");
 		}
 
-		m_open = false;
-
 		m_pDatabase->Execute("COMMIT;");
+
+		m_open = false;
 	}
 
 	void Rollback() noexcept
@@ -52,7 +52,11 @@ public:
 
 		m_open = false;
 
-		m_pDatabase->Execute("ROLLBACK;");
+		try {
+			m_pDatabase->Execute("ROLLBACK;");
+		} catch (std::exception& e) {
+			WALLET_ERROR_F("Failed to rollback transaction: {}", e.what());
+		}
 	}
 
 private:
-- 
2.43.0


From 5fe608e32b95aefc1557e240f9c4f42e0ecf54db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:15 +0000
Subject: [PATCH 069/128] fix: saving a slate twice left the older version in
 the wallet

---
 src/Wallet/WalletDB/Sqlite/Tables/SlateTable.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Wallet/WalletDB/Sqlite/Tables/SlateTable.cpp b/src/Wallet/WalletDB/Sqlite/Tables/SlateTable.cpp
index cf5733c..6480f6f 100644
--- a/src/Wallet/WalletDB/Sqlite/Tables/SlateTable.cpp
+++ b/src/Wallet/WalletDB/Sqlite/Tables/SlateTable.cpp
@@ -74,7 +74,15 @@ void SlateTable::SaveSlate(
 	const Slate& slate,
 	const std::string& armored_slatepack)
 {
-	// TODO: Update if it already exists?
+	// Replace the slate if one was already saved for this stage.
+	std::string delete_slate_cmd = "delete from slate where slate_id=? and stage=?";
+
+	std::vector<SqliteDB::IParameter::UPtr> delete_parameters;
+	delete_parameters.push_back(TextParameter::New(uuids::to_string(slate.slateId)));
+	delete_parameters.push_back(TextParameter::New(slate.stage.ToString()));
+
+	database.Update(delete_slate_cmd, delete_parameters);
+
 	std::string insert_slate_cmd = "insert into slate values(?, ?, ?, ?, ?)";
 
 	CBigInteger<16> iv(CSPRNG::GenerateRandomBytes(16).data());
-- 
2.43.0


From 464c4e45cb8201e2cd5563fc958b55e7b2f7a330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:15 +0000
Subject: [PATCH 070/128] fix: the slatepack listed for a transaction was not
 that of its latest stage

---
 src/Wallet/WalletDB/Sqlite/Tables/SlateTable.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Wallet/WalletDB/Sqlite/Tables/SlateTable.cpp b/src/Wallet/WalletDB/Sqlite/Tables/SlateTable.cpp
index 6480f6f..242d7e3 100644
--- a/src/Wallet/WalletDB/Sqlite/Tables/SlateTable.cpp
+++ b/src/Wallet/WalletDB/Sqlite/Tables/SlateTable.cpp
@@ -202,6 +202,7 @@ std::string SlateTable::LoadArmoredSlatepack(
 		SlateStage stage = SlateStage::FromString(pStatement->GetColumnString(0));
 		if (stage >= highest_stage) {
 			armored_slatepack = pStatement->GetColumnString(1);
+			highest_stage = stage;
 		}
 	}
 
-- 
2.43.0


From 7a7d403bbea2609af6ccc170a88d3d50d175d89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:41 +0000
Subject: [PATCH 071/128] fix: selecting all coins did not check that they
 cover the amount

---
 src/Wallet/SlateBuilder/CoinSelection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Wallet/SlateBuilder/CoinSelection.cpp b/src/Wallet/SlateBuilder/CoinSelection.cpp
index e1e7774..59be1a8 100644
--- a/src/Wallet/SlateBuilder/CoinSelection.cpp
+++ b/src/Wallet/SlateBuilder/CoinSelection.cpp
@@ -105,7 +105,7 @@ std::vector<OutputDataEntity> CoinSelection::SelectUsingAllInputs(
 	}
 
 	const uint64_t fee = FeeUtil::CalculateFee(feeBase, (int64_t)availableCoins.size(), numOutputs, numKernels);
-	if (amount < amount + fee) {
+	if (amountFound >= (amount + fee)) {
 		return availableCoins;
 	}
 
-- 
2.43.0


From 19760dba774ac553cf746b823cd15ff7d4ff2767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:41 +0000
Subject: [PATCH 072/128] fix: amounts and fees near the 64-bit limit wrapped
 around in coin selection

---
 include/Core/Util/FeeUtil.h               |  8 +++++++-
 src/Wallet/SlateBuilder/CoinSelection.cpp | 14 ++++++++++----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/Core/Util/FeeUtil.h b/include/Core/Util/FeeUtil.h
index 0c560fc..1d7c04d 100644
--- a/include/Core/Util/FeeUtil.h
+++ b/include/Core/Util/FeeUtil.h
@@ -1,12 +1,18 @@
 #pragma once
 
 #include <Consensus.h>
+#include <cstdint>
 
 class FeeUtil
 {
 public:
 	static uint64_t CalculateFee(const uint64_t feeBase, const int64_t numInputs, const int64_t numOutputs, const int64_t numKernels)
 	{
-		return feeBase * Consensus::CalculateWeightV5(numInputs, numOutputs, numKernels);
+		const uint64_t weight = Consensus::CalculateWeightV5(numInputs, numOutputs, numKernels);
+		if (weight != 0 && feeBase > (UINT64_MAX / weight)) {
+			return UINT64_MAX; // No amount of coins can pay this fee.
+		}
+
+		return feeBase * weight;
 	}
 };
\ No newline at end of file
diff --git a/src/Wallet/SlateBuilder/CoinSelection.cpp b/src/Wallet/SlateBuilder/CoinSelection.cpp
index 59be1a8..9fb19a4 100644
--- a/src/Wallet/SlateBuilder/CoinSelection.cpp
+++ b/src/Wallet/SlateBuilder/CoinSelection.cpp
@@ -4,6 +4,12 @@
 #include <Wallet/Exceptions/InsufficientFundsException.h>
 #include <Common/Logger.h>
 
+// Checks whether the amount and the fee can be paid, without overflowing.
+static bool IsSufficient(const uint64_t amountFound, const uint64_t amount, const uint64_t fee)
+{
+	return amountFound >= amount && (amountFound - amount) >= fee;
+}
+
 // If strategy is "ALL", spend all available coins to reduce the fee.
 std::vector<OutputDataEntity> CoinSelection::SelectCoinsToSpend(
 	const std::vector<OutputDataEntity>& availableCoins, 
@@ -53,7 +59,7 @@ std::vector<OutputDataEntity> CoinSelection::SelectUsingSmallestInputs(
 		selectedCoins.push_back(coin);
 
 		const uint64_t fee = FeeUtil::CalculateFee(feeBase, (int64_t)selectedCoins.size(), numOutputs, numKernels);
-		if (amountFound >= (amount + fee))
+		if (IsSufficient(amountFound, amount, fee))
 		{
 			return selectedCoins;
 		}
@@ -81,7 +87,7 @@ std::vector<OutputDataEntity> CoinSelection::SelectUsingFewestInputs(
 		selectedCoins.push_back(coin);
 
 		const uint64_t fee = FeeUtil::CalculateFee(feeBase, (int64_t)selectedCoins.size(), numOutputs, numKernels);
-		if (amountFound >= (amount + fee)) {
+		if (IsSufficient(amountFound, amount, fee)) {
 			return selectedCoins;
 		}
 	}
@@ -105,7 +111,7 @@ std::vector<OutputDataEntity> CoinSelection::SelectUsingAllInputs(
 	}
 
 	const uint64_t fee = FeeUtil::CalculateFee(feeBase, (int64_t)availableCoins.size(), numOutputs, numKernels);
-	if (amountFound >= (amount + fee)) {
+	if (IsSufficient(amountFound, amount, fee)) {
 		return availableCoins;
 	}
 
@@ -134,7 +140,7 @@ std::vector<OutputDataEntity> CoinSelection::SelectUsingCustomInputs(
 	}
 
 	const uint64_t fee = FeeUtil::CalculateFee(feeBase, (int64_t)selectedCoins.size(), numOutputs, numKernels);
-	if (amountFound >= (amount + fee))
+	if (IsSufficient(amountFound, amount, fee))
 	{
 		return selectedCoins;
 	}
-- 
2.43.0


From f9be958f32e85bf289114750d854375c7db0c4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:41 +0000
Subject: [PATCH 073/128] fix: no fee was charged for the outputs of a send
 with 255 change outputs

---
 src/Wallet/SlateBuilder/SendSlateBuilder.cpp | 2 +-
 src/Wallet/Wallet.cpp                        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Wallet/SlateBuilder/SendSlateBuilder.cpp b/src/Wallet/SlateBuilder/SendSlateBuilder.cpp
index 31d4408..99591b0 100644
--- a/src/Wallet/SlateBuilder/SendSlateBuilder.cpp
+++ b/src/Wallet/SlateBuilder/SendSlateBuilder.cpp
@@ -32,7 +32,7 @@ Slate SendSlateBuilder::BuildSendSlate(
 	const std::vector<SlatepackAddress>& recipients) const
 {
 	const uint8_t numChangeOutputs = sendEntireBalance ? 0 : maxChangeOutputs;
-	const uint8_t totalNumOutputs = 1 + numChangeOutputs;
+	const uint16_t totalNumOutputs = 1 + numChangeOutputs;
 	const uint64_t numKernels = 1;
 
 	// Select inputs using desired selection strategy.
diff --git a/src/Wallet/Wallet.cpp b/src/Wallet/Wallet.cpp
index 377d213..589a62e 100644
--- a/src/Wallet/Wallet.cpp
+++ b/src/Wallet/Wallet.cpp
@@ -169,7 +169,7 @@ std::optional<TorAddress> Wallet::AddTorListener(const KeyChainPath& path, const
 FeeEstimateDTO Wallet::EstimateFee(const EstimateFeeCriteria& criteria) const
 {
 	// Select inputs using desired selection strategy.
-	const uint8_t totalNumOutputs = criteria.GetNumChangeOutputs() + 1;
+	const uint16_t totalNumOutputs = criteria.GetNumChangeOutputs() + 1;
 	const uint64_t numKernels = 1;
 	std::vector<OutputDataEntity> all_outputs = m_walletDB.Read()->GetOutputs(m_master_seed);
     std::vector<OutputDataEntity> available_coins;
-- 
2.43.0


From 42277e92c1c691f72c7db7af1a9c10949a5c29f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:41 +0000
Subject: [PATCH 074/128] fix: sending the entire balance wrapped around when
 it did not cover the fee

---
 src/Wallet/SlateBuilder/SendSlateBuilder.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Wallet/SlateBuilder/SendSlateBuilder.cpp b/src/Wallet/SlateBuilder/SendSlateBuilder.cpp
index 99591b0..5f4706b 100644
--- a/src/Wallet/SlateBuilder/SendSlateBuilder.cpp
+++ b/src/Wallet/SlateBuilder/SendSlateBuilder.cpp
@@ -66,6 +66,11 @@ Slate SendSlateBuilder::BuildSendSlate(
 		(int64_t)totalNumOutputs,
 		(int64_t)numKernels
 	);
+	if (inputs.empty() || inputTotal < fee) {
+		WALLET_ERROR("Not enough funds.");
+		throw InsufficientFundsException();
+	}
+
 	uint64_t amountToSend = sendEntireBalance ? (inputTotal - fee) : amount;
 	if (numChangeOutputs == 0)
 	{
-- 
2.43.0


From 49a2b7c30b9153b73332bacbcc9d02449677db27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:41 +0000
Subject: [PATCH 075/128] fix: refuse to send with a fee that does not fit in a
 kernel

---
 src/Wallet/SlateBuilder/SendSlateBuilder.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Wallet/SlateBuilder/SendSlateBuilder.cpp b/src/Wallet/SlateBuilder/SendSlateBuilder.cpp
index 5f4706b..f704653 100644
--- a/src/Wallet/SlateBuilder/SendSlateBuilder.cpp
+++ b/src/Wallet/SlateBuilder/SendSlateBuilder.cpp
@@ -78,6 +78,12 @@ Slate SendSlateBuilder::BuildSendSlate(
 		fee = inputTotal - amountToSend;
 	}
 
+	// Only 40 bits are available for the fee
+	if (fee > 0xffffffffffULL) {
+		WALLET_ERROR_F("Fee too large: {}", fee);
+		throw WALLET_EXCEPTION("Fee too large.");
+	}
+
 	return Build(
 		pWallet.GetShared(),
 		masterSeed,
-- 
2.43.0


From 0eba40f2daf98d3ba3fe1f9068061b548ba246c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:41 +0000
Subject: [PATCH 076/128] fix: fee estimates counted on immature outputs

---
 src/Wallet/Wallet.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Wallet/Wallet.cpp b/src/Wallet/Wallet.cpp
index 589a62e..85b9761 100644
--- a/src/Wallet/Wallet.cpp
+++ b/src/Wallet/Wallet.cpp
@@ -172,11 +172,15 @@ FeeEstimateDTO Wallet::EstimateFee(const EstimateFeeCriteria& criteria) const
 	const uint16_t totalNumOutputs = criteria.GetNumChangeOutputs() + 1;
 	const uint64_t numKernels = 1;
 	std::vector<OutputDataEntity> all_outputs = m_walletDB.Read()->GetOutputs(m_master_seed);
+	const uint64_t current_height = m_walletDB.Read()->GetRefreshBlockHeight();
     std::vector<OutputDataEntity> available_coins;
     std::copy_if(
         all_outputs.cbegin(), all_outputs.cend(),
         std::back_inserter(available_coins),
-        [](const OutputDataEntity& output_data) { return output_data.GetStatus() == EOutputStatus::SPENDABLE; }
+        [current_height](const OutputDataEntity& output_data) {
+            return output_data.GetStatus() == EOutputStatus::SPENDABLE
+                && !WalletUtil::IsOutputImmature(output_data.GetFeatures(), output_data.GetBlockHeight().value_or(0), current_height);
+        }
     );
 
 	std::vector<OutputDataEntity> inputs = available_coins;
-- 
2.43.0


From e82bc98b6f2258628c51f76e6da5cf6cb223fd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:53 +0000
Subject: [PATCH 077/128] fix: a slate could be finalized again after being
 finalized or canceled

---
 src/Wallet/SlateBuilder/FinalizeSlateBuilder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Wallet/SlateBuilder/FinalizeSlateBuilder.cpp b/src/Wallet/SlateBuilder/FinalizeSlateBuilder.cpp
index 65e3b6e..d06e45b 100644
--- a/src/Wallet/SlateBuilder/FinalizeSlateBuilder.cpp
+++ b/src/Wallet/SlateBuilder/FinalizeSlateBuilder.cpp
@@ -20,8 +20,8 @@ std::pair<Slate, Transaction> FinalizeSlateBuilder::Finalize(const Slate& rcvSla
 	// Load original send Slate
 	Slate sendSlate = m_pWallet->GetSlate(finalizeSlate.GetId(), ESlateStage::STANDARD_SENT);
 
-	// Load WalletTx
-	WalletTx walletTx = m_pWallet->GetTransactionBySlateId(finalizeSlate.GetId());
+	// Load WalletTx. Only a send that is neither finalized nor canceled can be finalized, since the nonce must not sign twice.
+	WalletTx walletTx = m_pWallet->GetTransactionBySlateId(finalizeSlate.GetId(), EWalletTxType::SENDING_STARTED);
 
 	// Load private context
 	SlateContextEntity slateContext = m_pWallet->GetSlateContext(finalizeSlate.GetId());
-- 
2.43.0


From 14f4a59bbbcbc2011303d4cfd257d498b136b66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:35 +0000
Subject: [PATCH 078/128] fix: a slate could be received twice when it was also
 sent by the wallet or its receipt canceled before

---
 src/Wallet/SlateBuilder/ReceiveSlateBuilder.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/Wallet/SlateBuilder/ReceiveSlateBuilder.cpp b/src/Wallet/SlateBuilder/ReceiveSlateBuilder.cpp
index 88c6502..b5ec32c 100644
--- a/src/Wallet/SlateBuilder/ReceiveSlateBuilder.cpp
+++ b/src/Wallet/SlateBuilder/ReceiveSlateBuilder.cpp
@@ -92,9 +92,14 @@ bool ReceiveSlateBuilder::VerifySlateStatus(
 	const Slate& slate) const
 {
 	// Slate was already received.
-	std::unique_ptr<WalletTx> pWalletTx = pWallet->GetTxBySlateId(masterSeed, slate.GetId());
-	if (pWalletTx != nullptr) {
-		const EWalletTxType status = pWalletTx->GetType();
+	// NOTE: When sending to self, there's more than one transaction for the slate.
+	std::vector<WalletTx> transactions = pWallet->GetDatabase().Read()->GetTransactions(masterSeed);
+	for (const WalletTx& walletTx : transactions) {
+		if (!walletTx.GetSlateId().has_value() || walletTx.GetSlateId().value() != slate.GetId()) {
+			continue;
+		}
+
+		const EWalletTxType status = walletTx.GetType();
 		if (status != EWalletTxType::RECEIVED_CANCELED && status != EWalletTxType::SENDING_STARTED) {
 			WALLET_ERROR_F("Already received slate {}", uuids::to_string(slate.GetId()));
 			return false;
-- 
2.43.0


From 435a5ea16102d8040af65be083a4ca3f96b1c74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:44 +0000
Subject: [PATCH 079/128] fix: a confirmed send without change outputs stayed
 unconfirmed and could be canceled

---
 src/Wallet/WalletRefresher.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/Wallet/WalletRefresher.cpp b/src/Wallet/WalletRefresher.cpp
index fa03b1f..07730af 100644
--- a/src/Wallet/WalletRefresher.cpp
+++ b/src/Wallet/WalletRefresher.cpp
@@ -194,9 +194,11 @@ void WalletRefresher::RefreshTransactions(
     for (WalletTx& walletTx : walletTransactions) {
         const auto& tx = walletTx.GetTransaction();
         if (tx.has_value() && walletTx.GetType() == EWalletTxType::SENDING_FINALIZED) {
+            bool hasOwnOutput = false;
             for (const TransactionOutput& output : tx.value().GetOutputs()) {
                 auto pOutputData = FindOutput(refreshedOutputs, output.GetCommitment());
                 if (pOutputData != nullptr) {
+                    hasOwnOutput = true;
                     if (pOutputData->GetStatus() == EOutputStatus::SPENT) {
                         WALLET_DEBUG_F("Output is spent. Marking transaction as sent: {}", walletTx.GetId());
 
@@ -207,6 +209,24 @@ void WalletRefresher::RefreshTransactions(
                     break;
                 }
             }
+
+            // Without change outputs, the transaction is confirmed once its inputs are spent.
+            if (!hasOwnOutput) {
+                const std::vector<TransactionInput>& inputs = tx.value().GetInputs();
+                const bool spent = std::all_of(
+                    inputs.cbegin(), inputs.cend(),
+                    [this, &refreshedOutputs](const TransactionInput& input) {
+                        auto pInputData = FindOutput(refreshedOutputs, input.GetCommitment());
+                        return pInputData != nullptr && pInputData->GetStatus() == EOutputStatus::SPENT;
+                    }
+                );
+                if (spent) {
+                    WALLET_DEBUG_F("Inputs are spent. Marking transaction as sent: {}", walletTx.GetId());
+
+                    walletTx.SetType(EWalletTxType::SENT);
+                    pBatch->AddTransaction(masterSeed, walletTx);
+                }
+            }
         }
     }
 }
-- 
2.43.0


From 957fe8c3ab674c9bfb0b0ba608f22ed7fecb54b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:41 +0000
Subject: [PATCH 080/128] fix: an output kept the height of its old block after
 a reorg

---
 src/Wallet/WalletRefresher.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/Wallet/WalletRefresher.cpp b/src/Wallet/WalletRefresher.cpp
index 07730af..531e2e4 100644
--- a/src/Wallet/WalletRefresher.cpp
+++ b/src/Wallet/WalletRefresher.cpp
@@ -119,12 +119,13 @@ void WalletRefresher::RefreshOutputs(const SecureVector& masterSeed, Writer<IWal
         auto iter = outputLocations.find(outputData.GetCommitment());
         if (iter != outputLocations.cend()) {
             // Output is on chain, so unless it's being spent, then we can mark it as spendable.
-            if (current_status == EOutputStatus::LOCKED) {
-                continue;
-            }
+            if (current_status == EOutputStatus::LOCKED || current_status == EOutputStatus::SPENDABLE) {
+                // Status is already up-to-date, but a reorg could've moved the output to a different block.
+                if (outputData.GetBlockHeight() != std::make_optional(iter->second.GetBlockHeight())) {
+                    outputData.SetBlockHeight(iter->second.GetBlockHeight());
+                    pBatch->SaveOutput(masterSeed, outputData);
+                }
 
-            // If spendable status, it's already up-to-date.
-            if (current_status == EOutputStatus::SPENDABLE) {
                 continue;
             }
 
-- 
2.43.0


From 5a443887321c76f89bba0c35ddef4fcbf34ed297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:54 +0000
Subject: [PATCH 081/128] fix: an input of a pending send became spendable
 again when it came back after a reorg

---
 src/Wallet/WalletRefresher.cpp | 29 +++++++++++++++++++++++++----
 src/Wallet/WalletRefresher.h   |  3 ++-
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/Wallet/WalletRefresher.cpp b/src/Wallet/WalletRefresher.cpp
index 531e2e4..fdd7e03 100644
--- a/src/Wallet/WalletRefresher.cpp
+++ b/src/Wallet/WalletRefresher.cpp
@@ -7,6 +7,7 @@
 #include <Wallet/NodeClient.h>
 #include <Wallet/WalletDB/WalletDB.h>
 #include <unordered_map>
+#include <unordered_set>
 
 // TODO: Rewrite this && use cache - Shouldn't refresh when block height = same
 // 0. Initial login after upgrade - for every output, find matching WalletTx and update OutputDataEntity TxId. If none found, create new WalletTx.
@@ -64,7 +65,7 @@ std::vector<OutputDataEntity> WalletRefresher::Refresh(const SecureVector& maste
     }
 
     // 3. Refresh status for all wallet outputs
-    RefreshOutputs(masterSeed, pBatch, walletOutputs);
+    RefreshOutputs(masterSeed, pBatch, walletOutputs, walletTransactions);
 
     // 4. For all wallet outputs, update matching WalletTx status.
     RefreshTransactions(masterSeed, pBatch, walletOutputs, walletTransactions);
@@ -101,8 +102,26 @@ std::vector<OutputDataEntity> WalletRefresher::FindNewOutputs(
     return new_outputs;
 }
 
-void WalletRefresher::RefreshOutputs(const SecureVector& masterSeed, Writer<IWalletDB> pBatch, std::vector<OutputDataEntity>& walletOutputs)
+void WalletRefresher::RefreshOutputs(
+    const SecureVector& masterSeed,
+    Writer<IWalletDB> pBatch,
+    std::vector<OutputDataEntity>& walletOutputs,
+    const std::vector<WalletTx>& walletTransactions)
 {
+    // Inputs of sends that are still pending
+    std::unordered_set<Commitment> pendingInputs;
+    for (const WalletTx& walletTx : walletTransactions) {
+        const EWalletTxType type = walletTx.GetType();
+        if (type == EWalletTxType::SENDING_STARTED || type == EWalletTxType::SENDING_FINALIZED) {
+            const auto& tx = walletTx.GetTransaction();
+            if (tx.has_value()) {
+                for (const TransactionInput& input : tx.value().GetInputs()) {
+                    pendingInputs.insert(input.GetCommitment());
+                }
+            }
+        }
+    }
+
     std::vector<Commitment> commitments;
     std::transform(
         walletOutputs.begin(), walletOutputs.end(),
@@ -129,9 +148,11 @@ void WalletRefresher::RefreshOutputs(const SecureVector& masterSeed, Writer<IWal
                 continue;
             }
 
-            WALLET_DEBUG_F("Marking output as spendable: {}", outputData);
+            // An output that's back on chain after a reorg may still be an input of a pending send.
+            const bool pending = pendingInputs.find(outputData.GetCommitment()) != pendingInputs.end();
+            WALLET_DEBUG_F("Marking output as {}: {}", pending ? "locked" : "spendable", outputData);
             outputData.SetBlockHeight(iter->second.GetBlockHeight());
-            outputData.SetStatus(EOutputStatus::SPENDABLE);
+            outputData.SetStatus(pending ? EOutputStatus::LOCKED : EOutputStatus::SPENDABLE);
             pBatch->SaveOutput(masterSeed, outputData);
         } else {
             // NO_CONFIRMATIONS means the output is being received, but hasn't been seen on chain yet.
diff --git a/src/Wallet/WalletRefresher.h b/src/Wallet/WalletRefresher.h
index 6cb8825..2f37a55 100644
--- a/src/Wallet/WalletRefresher.h
+++ b/src/Wallet/WalletRefresher.h
@@ -37,7 +37,8 @@ private:
 	void RefreshOutputs(
 		const SecureVector& masterSeed,
 		Writer<IWalletDB> pBatch,
-		std::vector<OutputDataEntity>& walletOutputs
+		std::vector<OutputDataEntity>& walletOutputs,
+		const std::vector<WalletTx>& walletTransactions
 	);
 
 	void RefreshTransactions(
-- 
2.43.0


From d8d8a3fffb34eb83529f85a438dff1264e0fefe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:11 +0000
Subject: [PATCH 082/128] fix: a session token with a shortened key was read
 out of bounds and a lengthened one accepted

---
 src/Wallet/SessionManager.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Wallet/SessionManager.cpp b/src/Wallet/SessionManager.cpp
index 3aed8df..2168d11 100644
--- a/src/Wallet/SessionManager.cpp
+++ b/src/Wallet/SessionManager.cpp
@@ -207,7 +207,11 @@ SecureVector SessionManager::GetSeed(const SessionToken& token) const
 	if (iter != m_sessionsById.end())
 	{
 		std::shared_ptr<const LoggedInSession> pSession = iter->second;
-		
+		if (token.GetTokenKey().size() != pSession->m_encryptedSeedWithCS.size())
+		{
+			throw SessionTokenException();
+		}
+
 		std::vector<unsigned char> seedWithCS(pSession->m_encryptedSeedWithCS.size());
 		for (size_t i = 0; i < seedWithCS.size(); i++)
 		{
-- 
2.43.0


From 5c698cf5a98d8b67569b47b23c2a17270909b453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:11 +0000
Subject: [PATCH 083/128] fix: a session token with the wrong key could log its
 user out and reach the wallet

---
 src/Wallet/SessionManager.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Wallet/SessionManager.cpp b/src/Wallet/SessionManager.cpp
index 2168d11..420c63f 100644
--- a/src/Wallet/SessionManager.cpp
+++ b/src/Wallet/SessionManager.cpp
@@ -192,6 +192,8 @@ void SessionManager::Logout(const SessionToken& token)
 	auto iter = m_sessionsById.find(token.GetSessionId());
 	if (iter != m_sessionsById.end())
 	{
+		GetSeed(token); // Throws if the token's key is wrong
+
 		std::string username = iter->second->m_wallet.Read()->GetUsername();
 		m_pForeignController->StopListener(iter->second->m_wallet.Read()->GetUsername());
 		if (!m_pForeignController->IsListening(username)) {
@@ -239,6 +241,8 @@ Locked<Wallet> SessionManager::GetWallet(const SessionToken& token) const
 	auto iter = m_sessionsById.find(token.GetSessionId());
 	if (iter != m_sessionsById.end())
 	{
+		GetSeed(token); // Throws if the token's key is wrong
+
 		return iter->second->m_wallet;
 	}
 
@@ -250,6 +254,8 @@ Locked<WalletImpl> SessionManager::GetWalletImpl(const SessionToken& token) cons
 	auto iter = m_sessionsById.find(token.GetSessionId());
 	if (iter != m_sessionsById.end())
 	{
+		GetSeed(token); // Throws if the token's key is wrong
+
 		return iter->second->m_walletImpl;
 	}
 
-- 
2.43.0


From ef7cc695db1f1a31cf0f716d47c22acaa8e2b33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:43 +0000
Subject: [PATCH 084/128] fix: a username could name a path outside its own
 wallet directory

---
 src/Wallet/WalletDB/Sqlite/SqliteStore.cpp | 22 +++++++++++++++++-----
 src/Wallet/WalletDB/Sqlite/SqliteStore.h   |  1 +
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/Wallet/WalletDB/Sqlite/SqliteStore.cpp b/src/Wallet/WalletDB/Sqlite/SqliteStore.cpp
index 33e7162..cf1380c 100644
--- a/src/Wallet/WalletDB/Sqlite/SqliteStore.cpp
+++ b/src/Wallet/WalletDB/Sqlite/SqliteStore.cpp
@@ -21,9 +21,21 @@ std::shared_ptr<SqliteStore> SqliteStore::Open(const Config& config)
 	return std::make_shared<SqliteStore>(SqliteStore(config.GetWalletPath()));
 }
 
+fs::path SqliteStore::GetUserPath(const std::string& username) const
+{
+	// The username names a directory, so it must not lead anywhere but directly into the wallet directory.
+	const fs::path name(StringUtil::ToWide(username));
+	if (name.empty() || name == "." || name == ".." || name.filename() != name || username.find('\0') != std::string::npos) {
+		WALLET_ERROR("Username can't be used as directory name.");
+		throw WALLET_STORE_EXCEPTION("Invalid username.");
+	}
+
+	return m_walletDirectory / name;
+}
+
 fs::path SqliteStore::GetDBFile(const std::string& username) const
 {
-	return m_walletDirectory / StringUtil::ToWide(username) / "wallet.db";
+	return GetUserPath(username) / "wallet.db";
 }
 
 std::vector<GrinStr> SqliteStore::GetAccounts() const
@@ -80,7 +92,7 @@ void SqliteStore::CloseWallet(const std::string& username)
 
 Locked<IWalletDB> SqliteStore::CreateWallet(const std::string& username, const EncryptedSeed& encryptedSeed)
 {
-	const fs::path userDBPath = m_walletDirectory / username;
+	const fs::path userDBPath = GetUserPath(username);
 	const fs::path seedFile = userDBPath / "seed.json";
 	if (FileUtil::Exists(seedFile)) {
 		WALLET_WARNING("Wallet already exists for user: {}", username);
@@ -110,7 +122,7 @@ void SqliteStore::DeleteWallet(const std::string& username)
 		throw WALLET_STORE_EXCEPTION("User still logged in.");
 	}
 
-	const fs::path userDBPath = m_walletDirectory / username;
+	const fs::path userDBPath = GetUserPath(username);
 	if (!FileUtil::Exists(userDBPath)) {
 		WALLET_ERROR_F("No wallet directory found for user: {}", username);
 		throw WALLET_STORE_EXCEPTION("Wallet doesn't exist.");
@@ -124,7 +136,7 @@ void SqliteStore::DeleteWallet(const std::string& username)
 
 void SqliteStore::ChangePassword(const std::string& username, const EncryptedSeed& encryptedSeed)
 {
-	const fs::path userDBPath = m_walletDirectory / username;
+	const fs::path userDBPath = GetUserPath(username);
 	const fs::path seedFile = userDBPath / "seed.json";
 
 	const std::string seedJSON = encryptedSeed.ToJSON().toStyledString();
@@ -176,7 +188,7 @@ EncryptedSeed SqliteStore::LoadWalletSeed(const std::string& username) const
 
 	WALLET_TRACE_F("Loading wallet seed for {}", wideUsername);
 
-	const fs::path seedPath = m_walletDirectory / wideUsername / "seed.json";
+	const fs::path seedPath = GetUserPath(username) / "seed.json";
 	if (!FileUtil::Exists(seedPath)) {
 		WALLET_WARNING_F("Wallet not found for user: {}", wideUsername);
 		throw WALLET_STORE_EXCEPTION("Wallet not found.");
diff --git a/src/Wallet/WalletDB/Sqlite/SqliteStore.h b/src/Wallet/WalletDB/Sqlite/SqliteStore.h
index ace5677..8f65ce3 100644
--- a/src/Wallet/WalletDB/Sqlite/SqliteStore.h
+++ b/src/Wallet/WalletDB/Sqlite/SqliteStore.h
@@ -26,6 +26,7 @@ private:
 	SqliteStore(const fs::path& walletDirectory) : m_walletDirectory(walletDirectory) { }
 
 	SqliteDB::Ptr CreateWalletDB(const std::string& username);
+	fs::path GetUserPath(const std::string& username) const;
 	fs::path GetDBFile(const std::string& username) const;
 
 	const fs::path& m_walletDirectory;
-- 
2.43.0


From e8c1b98542a4b7087e314c21cb868b73f5e8148d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:34 +0000
Subject: [PATCH 085/128] fix: one directory whose name is not UTF-8 hid every
 wallet

---
 src/Common/Util/FileUtil.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Common/Util/FileUtil.cpp b/src/Common/Util/FileUtil.cpp
index 865a17d..e9e28fb 100644
--- a/src/Common/Util/FileUtil.cpp
+++ b/src/Common/Util/FileUtil.cpp
@@ -206,7 +206,7 @@ std::vector<GrinStr> FileUtil::GetSubDirectories(const fs::path& filePath, const
 					// Skip the iteration of current directory pointed by iterator
 					// c++17 fstem API to skip current directory iteration
 					iter.disable_recursion_pending();
-					GrinStr filename = StringUtil::ToUTF8(iter->path().filename().wstring());
+					GrinStr filename = iter->path().filename().u8string();
 					if (includeHidden || !filename.StartsWith("."))
 					{
 						listOfFiles.push_back(filename);
-- 
2.43.0


From df6b59e0efe72e07f7eef27560fe24e22a5ee94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:07 +0000
Subject: [PATCH 086/128] fix: a wallet could be made for a username which
 can't log in

---
 src/Wallet/WalletDB/Sqlite/SqliteStore.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Wallet/WalletDB/Sqlite/SqliteStore.cpp b/src/Wallet/WalletDB/Sqlite/SqliteStore.cpp
index cf1380c..a2f564a 100644
--- a/src/Wallet/WalletDB/Sqlite/SqliteStore.cpp
+++ b/src/Wallet/WalletDB/Sqlite/SqliteStore.cpp
@@ -93,6 +93,11 @@ void SqliteStore::CloseWallet(const std::string& username)
 Locked<IWalletDB> SqliteStore::CreateWallet(const std::string& username, const EncryptedSeed& encryptedSeed)
 {
 	const fs::path userDBPath = GetUserPath(username);
+	if (username.front() == '.') {
+		// Hidden directories aren't listed as accounts, so the user could never log in again.
+		throw WALLET_STORE_EXCEPTION("Username can't start with a period.");
+	}
+
 	const fs::path seedFile = userDBPath / "seed.json";
 	if (FileUtil::Exists(seedFile)) {
 		WALLET_WARNING("Wallet already exists for user: {}", username);
-- 
2.43.0


From ef0cb6b46f1a0c56dd4b746dc86ad5280776b936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:48 +0000
Subject: [PATCH 087/128] fix: a login that failed to refresh the wallet left a
 session nobody could end

---
 src/Wallet/WalletManagerImpl.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/Wallet/WalletManagerImpl.cpp b/src/Wallet/WalletManagerImpl.cpp
index 51b2258..fac5031 100644
--- a/src/Wallet/WalletManagerImpl.cpp
+++ b/src/Wallet/WalletManagerImpl.cpp
@@ -204,7 +204,16 @@ LoginResponse WalletManager::Login(
 		);
 
 		WALLET_INFO_F("Login successful for username: {}", criteria.GetUsername());
-		CheckForOutputs(token, false);
+		try
+		{
+			CheckForOutputs(token, false);
+		}
+		catch (std::exception&)
+		{
+			// The caller never gets the token, so nobody could end this session.
+			m_sessionManager.Write()->Logout(token);
+			throw;
+		}
 
 		auto pWallet = m_sessionManager.Read()->GetWallet(token).Read();
 		return LoginResponse(
-- 
2.43.0


From 0b75c0485fa04729dffb99e52d712cb4b722ab3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:05 +0000
Subject: [PATCH 088/128] fix: API numbers that don't fit were cut down to
 others that do

---
 include/API/Wallet/Owner/Models/CancelTxCriteria.h     | 2 +-
 include/API/Wallet/Owner/Models/CreateWalletCriteria.h | 2 +-
 include/API/Wallet/Owner/Models/EstimateFeeCriteria.h  | 2 +-
 include/API/Wallet/Owner/Models/ListTxsCriteria.h      | 2 +-
 include/API/Wallet/Owner/Models/RepostTxCriteria.h     | 2 +-
 include/API/Wallet/Owner/Models/SendCriteria.h         | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/API/Wallet/Owner/Models/CancelTxCriteria.h b/include/API/Wallet/Owner/Models/CancelTxCriteria.h
index 9472f3f..e7adb04 100644
--- a/include/API/Wallet/Owner/Models/CancelTxCriteria.h
+++ b/include/API/Wallet/Owner/Models/CancelTxCriteria.h
@@ -34,7 +34,7 @@ public:
                 );
             }
 
-            const uint32_t tx_id = (uint32_t)JsonUtil::ConvertToUInt64(txIdJson);
+            const uint32_t tx_id = JsonUtil::ConvertToUInt<uint32_t>(txIdJson);
 
             return CancelTxCriteria(token, tx_id);
         }
diff --git a/include/API/Wallet/Owner/Models/CreateWalletCriteria.h b/include/API/Wallet/Owner/Models/CreateWalletCriteria.h
index 6352332..602dbe0 100644
--- a/include/API/Wallet/Owner/Models/CreateWalletCriteria.h
+++ b/include/API/Wallet/Owner/Models/CreateWalletCriteria.h
@@ -32,7 +32,7 @@ public:
         {
             auto usernameOpt = JsonUtil::GetStringOpt(paramsJson, "username");
             auto passwordOpt = JsonUtil::GetStringOpt(paramsJson, "password");
-            auto numWordsOpt = JsonUtil::GetUInt64Opt(paramsJson, "num_seed_words");
+            auto numWordsOpt = JsonUtil::GetUInt8Opt(paramsJson, "num_seed_words");
             if (usernameOpt.has_value() && passwordOpt.has_value() && numWordsOpt.has_value())
             {
                 return CreateWalletCriteria(
diff --git a/include/API/Wallet/Owner/Models/EstimateFeeCriteria.h b/include/API/Wallet/Owner/Models/EstimateFeeCriteria.h
index c251ed1..1ee0fac 100644
--- a/include/API/Wallet/Owner/Models/EstimateFeeCriteria.h
+++ b/include/API/Wallet/Owner/Models/EstimateFeeCriteria.h
@@ -27,7 +27,7 @@ public:
 		const uint64_t feeBase = JsonUtil::GetRequiredUInt64(json, "fee_base");
 		const Json::Value selectionStrategyJSON = JsonUtil::GetRequiredField(json, "selection_strategy");
 		const SelectionStrategyDTO selectionStrategy = SelectionStrategyDTO::FromJSON(selectionStrategyJSON);
-		uint8_t changeOutputs = (uint8_t)json.get("change_outputs", Json::Value(1)).asUInt();
+		uint8_t changeOutputs = JsonUtil::GetUInt8Opt(json, "change_outputs").value_or(1);
 
 		// No change outputs when sending all
 		if (!amountOpt.has_value()) {
diff --git a/include/API/Wallet/Owner/Models/ListTxsCriteria.h b/include/API/Wallet/Owner/Models/ListTxsCriteria.h
index 1ed9a3c..fa292e8 100644
--- a/include/API/Wallet/Owner/Models/ListTxsCriteria.h
+++ b/include/API/Wallet/Owner/Models/ListTxsCriteria.h
@@ -33,7 +33,7 @@ public:
 		std::transform(
 			ids_json.cbegin(), ids_json.cend(),
 			std::inserter(ids, ids.end()),
-			[](const Json::Value& id_json) { return (uint32_t)JsonUtil::ConvertToUInt64(id_json); }
+			[](const Json::Value& id_json) { return JsonUtil::ConvertToUInt<uint32_t>(id_json); }
 		);
 
 		std::optional<std::chrono::system_clock::time_point> start_range = std::nullopt;
diff --git a/include/API/Wallet/Owner/Models/RepostTxCriteria.h b/include/API/Wallet/Owner/Models/RepostTxCriteria.h
index 839dd35..2a6f836 100644
--- a/include/API/Wallet/Owner/Models/RepostTxCriteria.h
+++ b/include/API/Wallet/Owner/Models/RepostTxCriteria.h
@@ -36,7 +36,7 @@ public:
 				);
 			}
 
-			const uint32_t tx_id = (uint32_t)JsonUtil::ConvertToUInt64(txIdJson);
+			const uint32_t tx_id = JsonUtil::ConvertToUInt<uint32_t>(txIdJson);
 
 			const std::string method = JsonUtil::GetRequiredString(paramsJson, "method");
 
diff --git a/include/API/Wallet/Owner/Models/SendCriteria.h b/include/API/Wallet/Owner/Models/SendCriteria.h
index 948660c..67f7530 100644
--- a/include/API/Wallet/Owner/Models/SendCriteria.h
+++ b/include/API/Wallet/Owner/Models/SendCriteria.h
@@ -57,7 +57,7 @@ public:
 		const SessionToken token = SessionToken::FromBase64(JsonUtil::GetRequiredString(json, "session_token"));
 		std::optional<uint64_t> amountOpt = JsonUtil::GetUInt64Opt(json, "amount");
 		const uint64_t feeBase = JsonUtil::GetRequiredUInt64(json, "fee_base");
-		const uint8_t numOutputs = (uint8_t)json.get("change_outputs", Json::Value(1)).asUInt();
+		const uint8_t numOutputs = JsonUtil::GetUInt8Opt(json, "change_outputs").value_or(1);
 		const Json::Value selectionStrategyJSON = JsonUtil::GetRequiredField(json, "selection_strategy");
 		const SelectionStrategyDTO selectionStrategy = SelectionStrategyDTO::FromJSON(selectionStrategyJSON);
 		const std::optional<std::string> addressStrOpt = JsonUtil::GetStringOpt(json, "address");
-- 
2.43.0


From b09d9d013bb30fdc2c21b65f31a94323b21074a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:36 +0000
Subject: [PATCH 089/128] fix: transaction ids or inputs that weren't an array
 were silently ignored

---
 include/API/Wallet/Owner/Models/ListTxsCriteria.h | 6 +++++-
 include/Wallet/Models/DTOs/SelectionStrategyDTO.h | 7 +++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/API/Wallet/Owner/Models/ListTxsCriteria.h b/include/API/Wallet/Owner/Models/ListTxsCriteria.h
index fa292e8..de60990 100644
--- a/include/API/Wallet/Owner/Models/ListTxsCriteria.h
+++ b/include/API/Wallet/Owner/Models/ListTxsCriteria.h
@@ -29,7 +29,11 @@ public:
 
 
 		std::unordered_set<uint32_t> ids;
-		std::vector<Json::Value> ids_json = JsonUtil::GetArray(json, "ids");
+		std::vector<Json::Value> ids_json;
+		if (JsonUtil::KeyExists(json, "ids"))
+		{
+			ids_json = JsonUtil::GetRequiredArray(json, "ids");
+		}
 		std::transform(
 			ids_json.cbegin(), ids_json.cend(),
 			std::inserter(ids, ids.end()),
diff --git a/include/Wallet/Models/DTOs/SelectionStrategyDTO.h b/include/Wallet/Models/DTOs/SelectionStrategyDTO.h
index 3e535be..fe7f671 100644
--- a/include/Wallet/Models/DTOs/SelectionStrategyDTO.h
+++ b/include/Wallet/Models/DTOs/SelectionStrategyDTO.h
@@ -34,12 +34,11 @@ public:
 		const std::string selectionStrategy = JsonUtil::GetRequiredString(selectionStrategyJSON, "strategy");
 
 		std::set<Commitment> inputs;
-		const std::optional<Json::Value> inputsJSON = JsonUtil::GetOptionalField(selectionStrategyJSON, "inputs");
-		if (inputsJSON.has_value())
+		if (JsonUtil::KeyExists(selectionStrategyJSON, "inputs"))
 		{
-			for (auto iter = inputsJSON.value().begin(); iter != inputsJSON.value().end(); iter++)
+			for (const Json::Value& inputJSON : JsonUtil::GetRequiredArray(selectionStrategyJSON, "inputs"))
 			{
-				inputs.insert(JsonUtil::ConvertToCommitment(*iter));
+				inputs.insert(JsonUtil::ConvertToCommitment(inputJSON));
 			}
 		}
 
-- 
2.43.0


From 9a3ebdba4ac5880ca8d1cd849cef56e2b7faa503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:36 +0000
Subject: [PATCH 090/128] fix: a list_txs range that ends in the far future
 overflowed into the past

---
 include/API/Wallet/Owner/Models/ListTxsCriteria.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/API/Wallet/Owner/Models/ListTxsCriteria.h b/include/API/Wallet/Owner/Models/ListTxsCriteria.h
index de60990..a5f0243 100644
--- a/include/API/Wallet/Owner/Models/ListTxsCriteria.h
+++ b/include/API/Wallet/Owner/Models/ListTxsCriteria.h
@@ -43,14 +43,14 @@ public:
 		std::optional<std::chrono::system_clock::time_point> start_range = std::nullopt;
 		if (json.isMember("start_range_ms"))
 		{
-			auto start = TimeUtil::ToTimePoint(JsonUtil::ConvertToUInt64(json["start_range_ms"]));
+			auto start = ToTimePoint(JsonUtil::ConvertToUInt64(json["start_range_ms"]));
 			start_range = std::make_optional<std::chrono::system_clock::time_point>(std::move(start));
 		}
 
 		std::optional<std::chrono::system_clock::time_point> end_range = std::nullopt;
 		if (json.isMember("end_range_ms"))
 		{
-			auto end = TimeUtil::ToTimePoint(JsonUtil::ConvertToUInt64(json["end_range_ms"]));
+			auto end = ToTimePoint(JsonUtil::ConvertToUInt64(json["end_range_ms"]));
 			end_range = std::make_optional<std::chrono::system_clock::time_point>(std::move(end));
 		}
 
@@ -94,6 +94,13 @@ public:
 	const std::unordered_set<EWalletTxType>& GetStatuses() const noexcept { return m_statuses; }
 
 private:
+	// Times which are too far off to be represented become the latest one that can be.
+	static std::chrono::system_clock::time_point ToTimePoint(const uint64_t millisSinceEpoch)
+	{
+		const uint64_t max = (uint64_t)TimeUtil::ToInt64((std::chrono::system_clock::time_point::max)());
+		return TimeUtil::ToTimePoint((int64_t)(std::min)(millisSinceEpoch, max));
+	}
+
 	SessionToken m_token;
 	std::unordered_set<uint32_t> m_txIds;
 	std::optional<std::chrono::system_clock::time_point> m_startRange;
-- 
2.43.0


From 653b9842b632bfa016db36a64f1d1158838893ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:36 +0000
Subject: [PATCH 091/128] fix: a JSON-RPC response whose result is null
 couldn't be printed

---
 include/Net/Clients/RPC/RPC.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/Net/Clients/RPC/RPC.h b/include/Net/Clients/RPC/RPC.h
index 5b48dbf..812dc2e 100644
--- a/include/Net/Clients/RPC/RPC.h
+++ b/include/Net/Clients/RPC/RPC.h
@@ -153,10 +153,14 @@ public:
 		{
 			json["result"] = m_resultOpt.value();
 		}
-		else
+		else if (m_errorOpt.has_value())
 		{
 			json["error"] = m_errorOpt.value().ToJSON();
 		}
+		else
+		{
+			json["result"] = Json::Value(Json::nullValue);
+		}
 
 		return json;
 	}
-- 
2.43.0


From 2b43966e5e2b27b24a21b56ed7040ed4b458ad95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:36 +0000
Subject: [PATCH 092/128] fix: passwords and seeds in a malformed request were
 written to the log

---
 src/Net/Util/HTTPUtil.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Net/Util/HTTPUtil.cpp b/src/Net/Util/HTTPUtil.cpp
index 6de2c43..5924ea6 100644
--- a/src/Net/Util/HTTPUtil.cpp
+++ b/src/Net/Util/HTTPUtil.cpp
@@ -121,7 +121,7 @@ std::optional<Json::Value> HTTPUtil::GetRequestBody(mg_connection* conn)
 	Json::Value json;
 	if (!JsonUtil::Parse(requestBody, json))
 	{
-		throw DESERIALIZATION_EXCEPTION_F("Failed to parse json: {}", requestBody);
+		throw DESERIALIZATION_EXCEPTION("Failed to parse json");
 	}
 
 	return std::make_optional(json);
-- 
2.43.0


From 36b37756c8bad1e6f6a2bb458bdae8ec4835c7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:36 +0000
Subject: [PATCH 093/128] fix: a request only had to claim a huge length to
 exhaust the node's memory

---
 src/Net/Util/HTTPUtil.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/Net/Util/HTTPUtil.cpp b/src/Net/Util/HTTPUtil.cpp
index 5924ea6..a98a9b0 100644
--- a/src/Net/Util/HTTPUtil.cpp
+++ b/src/Net/Util/HTTPUtil.cpp
@@ -6,6 +6,7 @@
 #include <Common/Compat.h>
 
 #include <civetweb.h>
+#include <algorithm>
 
 // Strips away the base URI and any query strings.
 // Ex: Given "/v1/blocks/<hash>?compact" and baseURI "/v1/blocks/", this would return <hash>.
@@ -110,12 +111,17 @@ std::optional<Json::Value> HTTPUtil::GetRequestBody(mg_connection* conn)
 	}
 
 	std::string requestBody;
-	requestBody.resize(contentLength);
-
-	const int bytesRead = mg_read(conn, requestBody.data(), contentLength);
-	if (bytesRead != contentLength)
+	while (requestBody.size() < (unsigned long long)contentLength)
 	{
-		throw HTTPException();
+		char buffer[8192];
+		const unsigned long long remaining = (unsigned long long)contentLength - requestBody.size();
+		const int bytesRead = mg_read(conn, buffer, (size_t)(std::min)(remaining, (unsigned long long)sizeof(buffer)));
+		if (bytesRead <= 0)
+		{
+			throw HTTPException();
+		}
+
+		requestBody.append(buffer, bytesRead);
 	}
 
 	Json::Value json;
-- 
2.43.0


From 11c805990c9948117a523f4655405f733f6bfed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:36 +0000
Subject: [PATCH 094/128] fix: leftovers of one HTTP response were read as the
 start of the next

---
 include/Net/Clients/Client.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/Net/Clients/Client.h b/include/Net/Clients/Client.h
index 6bf6ec7..d962da8 100644
--- a/include/Net/Clients/Client.h
+++ b/include/Net/Clients/Client.h
@@ -33,6 +33,9 @@ protected:
 			m_socket.close();
 		}
 
+		// Whatever is left over from the previous connection isn't part of this one.
+		m_stringBuffer.clear();
+
 		asio::ip::address ipAddress(asio::ip::address_v4::from_string(address.GetIPAddress().Format()));
 		asio::ip::tcp::endpoint endpoint(ipAddress, address.GetPortNumber());
 
@@ -60,6 +63,9 @@ protected:
 			m_socket.close();
 		}
 
+		// Whatever is left over from the previous connection isn't part of this one.
+		m_stringBuffer.clear();
+
 		asio::io_service ios;
 
 		// Step 3. Creating a query.
-- 
2.43.0


From d23d6ef3ff7a319c9ec9b867303704593247a450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:56 +0000
Subject: [PATCH 095/128] fix: check_version took V65540 for V4 and gave up on
 versions it didn't know

---
 .../Foreign/Clients/CheckVersionClient.h      | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/API/Wallet/Foreign/Clients/CheckVersionClient.h b/include/API/Wallet/Foreign/Clients/CheckVersionClient.h
index af991c9..c691a71 100644
--- a/include/API/Wallet/Foreign/Clients/CheckVersionClient.h
+++ b/include/API/Wallet/Foreign/Clients/CheckVersionClient.h
@@ -39,13 +39,21 @@ public:
 			for (const Json::Value& slateVersion : slateVersionsJSON)
 			{
 				std::string versionStr(slateVersion.asString());
-				if (!versionStr.empty() && versionStr[0] == 'V')
+				if (versionStr.size() < 2 || versionStr.size() > 5 || versionStr[0] != 'V')
 				{
-					uint16_t version = (uint16_t)std::stoul(versionStr.substr(1));
-					if (version > highestVersion && version <= MAX_SLATE_VERSION)
-					{
-						highestVersion = version;
-					}
+					continue;
+				}
+
+				// Versions that aren't understood are skipped. They're not any of the ones supported.
+				if (versionStr.find_first_not_of("0123456789", 1) != std::string::npos)
+				{
+					continue;
+				}
+
+				const unsigned long version = std::stoul(versionStr.substr(1));
+				if (version > highestVersion && version <= MAX_SLATE_VERSION)
+				{
+					highestVersion = (uint16_t)version;
 				}
 			}
 
-- 
2.43.0


From 686cef9aa8248ebf651433402b974653404b1fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:56 +0000
Subject: [PATCH 096/128] fix: a slate version too large for 64 bits wasn't
 reported as an invalid one

---
 include/API/Wallet/Foreign/Models/CheckVersionResponse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/API/Wallet/Foreign/Models/CheckVersionResponse.h b/include/API/Wallet/Foreign/Models/CheckVersionResponse.h
index df02887..38fe2b1 100644
--- a/include/API/Wallet/Foreign/Models/CheckVersionResponse.h
+++ b/include/API/Wallet/Foreign/Models/CheckVersionResponse.h
@@ -44,7 +44,7 @@ public:
             {
                 slateVersions.push_back(std::stoull(slateVersionStr.substr(1)));
             }
-            catch (const std::invalid_argument&)
+            catch (const std::logic_error&) // invalid_argument or out_of_range
             {
                 throw API_EXCEPTION_F(RPC::ErrorCode::INVALID_PARAMS, "Slate version {} is invalid.", slateVersionStr);
             }
-- 
2.43.0


From 056647e0f811a3caebd7ce288bfc488e95d7a2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:56 +0000
Subject: [PATCH 097/128] fix: sending a slate to an unreachable receiver
 dereferenced a null connection

---
 include/API/Wallet/Foreign/Clients/ReceiveTxClient.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/API/Wallet/Foreign/Clients/ReceiveTxClient.h b/include/API/Wallet/Foreign/Clients/ReceiveTxClient.h
index 845982f..9204b96 100644
--- a/include/API/Wallet/Foreign/Clients/ReceiveTxClient.h
+++ b/include/API/Wallet/Foreign/Clients/ReceiveTxClient.h
@@ -21,6 +21,10 @@ public:
 		LOG_INFO_F("REQUEST: {}", receiveTxRequest.ToJSON().toStyledString());
 
 		TorConnectionPtr pTorConnection = pTorProcess->Connect(torAddress);
+		if (pTorConnection == nullptr) {
+			throw RPC_EXCEPTION("Failed to connect to receiver", std::nullopt);
+		}
+
 		RPC::Response receiveTxResponse = pTorConnection->Invoke(receiveTxRequest, "/v2/foreign");
 
 		LOG_INFO_F("RESPONSE: {}", receiveTxResponse.ToString());
-- 
2.43.0


From 6204744d5c3acc074d4990beeb63b81079cdd8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:56 +0000
Subject: [PATCH 098/128] fix: formatted balances dropped the leading zeros of
 the fraction

---
 include/Wallet/Models/DTOs/WalletBalanceDTO.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/Wallet/Models/DTOs/WalletBalanceDTO.h b/include/Wallet/Models/DTOs/WalletBalanceDTO.h
index ad438ce..d633b05 100644
--- a/include/Wallet/Models/DTOs/WalletBalanceDTO.h
+++ b/include/Wallet/Models/DTOs/WalletBalanceDTO.h
@@ -45,7 +45,10 @@ public:
 private:
     static std::string FormatAmount(const uint64_t amount)
     {
-        return std::to_string(amount / 1000000000) + "." + std::to_string(amount % 1000000000);
+        std::string fraction = std::to_string(amount % 1000000000);
+        fraction.insert(0, 9 - fraction.size(), '0');
+
+        return std::to_string(amount / 1000000000) + "." + fraction;
     }
 
     uint64_t m_blockHeight;
-- 
2.43.0


From 0e8eda161f1e7bed4f4844453c49d609e70bdd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:56 +0000
Subject: [PATCH 099/128] fix: the remote node client swapped location and
 method of get_version

---
 src/Server/Node/NodeClients/RPCNodeClient.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Server/Node/NodeClients/RPCNodeClient.h b/src/Server/Node/NodeClients/RPCNodeClient.h
index cdb9ab9..b930daa 100644
--- a/src/Server/Node/NodeClients/RPCNodeClient.h
+++ b/src/Server/Node/NodeClients/RPCNodeClient.h
@@ -22,7 +22,7 @@ public:
 	static INodeClientPtr Create(const std::string& host, const uint16_t port)
 	{
 		auto pConnection = HttpConnection::Connect(host, port);
-		auto response = pConnection->Invoke("get_version", "/v2/foreign");
+		auto response = pConnection->Invoke("/v2/foreign", "get_version");
 		if (!response.GetResult().has_value()) {
 			throw std::exception();
 		}
-- 
2.43.0


From 9f5cd084f7a89212f35a14a834b78c613bc3527e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:56 +0000
Subject: [PATCH 100/128] fix: the remote node client asked for outputs without
 naming any

---
 src/Server/Node/NodeClients/RPCNodeClient.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Server/Node/NodeClients/RPCNodeClient.h b/src/Server/Node/NodeClients/RPCNodeClient.h
index b930daa..e15857c 100644
--- a/src/Server/Node/NodeClients/RPCNodeClient.h
+++ b/src/Server/Node/NodeClients/RPCNodeClient.h
@@ -82,7 +82,7 @@ public:
 		params.append(false);
 		params.append(false);
 
-		auto response = Invoke("get_outputs");
+		auto response = Invoke("get_outputs", params);
 
 		std::map<Commitment, OutputLocation> outputsByCommitment;
 		for (const auto& output : response)
-- 
2.43.0


From 6105ef1d6398e6592f65bea26c2160c61f193408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:56 +0000
Subject: [PATCH 101/128] fix: a transaction pushed for stemming was broadcast
 to all peers at once

---
 src/API/Node/Handlers/PushTransactionHandler.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/API/Node/Handlers/PushTransactionHandler.h b/src/API/Node/Handlers/PushTransactionHandler.h
index 665807b..1cc0e6c 100644
--- a/src/API/Node/Handlers/PushTransactionHandler.h
+++ b/src/API/Node/Handlers/PushTransactionHandler.h
@@ -41,7 +41,10 @@ public:
 		);
 
 		if (status == EBlockChainStatus::SUCCESS) {
-			m_pP2PServer->BroadcastTransaction(pTransaction);
+			// Transactions in the stempool are relayed by Dandelion.
+			if (fluff) {
+				m_pP2PServer->BroadcastTransaction(pTransaction);
+			}
 
 			Json::Value result;
 			result["Ok"] = Json::Value(Json::nullValue);
-- 
2.43.0


From 463ae06c236d1cb724eb689de86e6bdfd610ae19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:10 +0000
Subject: [PATCH 102/128] fix: sending to a mistyped address made a slatepack
 for anyone instead of refusing

---
 src/API/Wallet/Owner/Handlers/SendHandler.h | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/API/Wallet/Owner/Handlers/SendHandler.h b/src/API/Wallet/Owner/Handlers/SendHandler.h
index f3ca8da..7d5d16a 100644
--- a/src/API/Wallet/Owner/Handlers/SendHandler.h
+++ b/src/API/Wallet/Owner/Handlers/SendHandler.h
@@ -66,17 +66,12 @@ public:
 	bool ContainsSecrets() const noexcept final { return false; }
 
 private:
-	std::vector<SlatepackAddress> GetRecipients(const SendCriteria& criteria) const noexcept
+	std::vector<SlatepackAddress> GetRecipients(const SendCriteria& criteria) const
 	{
 		std::vector<SlatepackAddress> recipients;
 
-		if (criteria.GetAddress().has_value()) {
-			try
-			{
-				SlatepackAddress slatepack_address = SlatepackAddress::Parse(criteria.GetAddress().value());
-				recipients.emplace_back(std::move(slatepack_address));
-			}
-			catch (std::exception&) { }
+		if (!criteria.GetAddress().value_or("").empty()) {
+			recipients.push_back(SlatepackAddress::Parse(criteria.GetAddress().value()));
 		}
 	
 		return recipients;
-- 
2.43.0


From 2f727d5e93b699c87ce87b9dce1cf893e1de2b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:12 +0000
Subject: [PATCH 103/128] fix: compact blocks with transactions couldn't be
 shown as JSON

---
 src/Core/Models/CompactBlock.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Core/Models/CompactBlock.cpp b/src/Core/Models/CompactBlock.cpp
index f96291b..8761fc5 100644
--- a/src/Core/Models/CompactBlock.cpp
+++ b/src/Core/Models/CompactBlock.cpp
@@ -79,7 +79,7 @@ Json::Value CompactBlock::ToJSON() const
 	Json::Value inputsNode;
 	for (const ShortId& shortId : GetShortIds())
 	{
-		json.append(shortId.GetId().ToHex());
+		inputsNode.append(shortId.GetId().ToHex());
 	}
 	json["inputs"] = inputsNode;
 
-- 
2.43.0


From 879356afe0342e239faaa032574eb1a01b0d26d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:38 +0000
Subject: [PATCH 104/128] fix: outputs by ids named their commitments in a form
 no request takes

---
 src/Server/Node/API/ChainAPI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Server/Node/API/ChainAPI.cpp b/src/Server/Node/API/ChainAPI.cpp
index bc6fe1b..6cefa0b 100644
--- a/src/Server/Node/API/ChainAPI.cpp
+++ b/src/Server/Node/API/ChainAPI.cpp
@@ -161,7 +161,7 @@ int ChainAPI::GetChainOutputsByIds_Handler(struct mg_connection* conn, void* pNo
 			if (pOutputPosition != nullptr)
 			{
 				Json::Value outputNode;
-				outputNode["commit"] = commitment.Format();
+				outputNode["commit"] = commitment.ToHex();
 				outputNode["height"] = pOutputPosition->GetBlockHeight();
 				outputNode["mmr_index"] = pOutputPosition->GetPosition() + 1;
 
-- 
2.43.0


From d99ec6553735ca8a11fa37d256b4ff6a425755bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:38 +0000
Subject: [PATCH 105/128] fix: asking for the outputs of blocks above the tip
 threw a length_error

---
 src/BlockChain/BlockChainImpl.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/BlockChain/BlockChainImpl.cpp b/src/BlockChain/BlockChainImpl.cpp
index 49c7067..55b7807 100644
--- a/src/BlockChain/BlockChainImpl.cpp
+++ b/src/BlockChain/BlockChainImpl.cpp
@@ -352,6 +352,11 @@ std::vector<BlockWithOutputs> BlockChain::GetOutputsByHeight(const uint64_t star
 	const uint64_t highestHeight = (std::min)(pChainStateReader->GetHeight(EChainType::CONFIRMED), maxHeight);
 
 	std::vector<BlockWithOutputs> blocksWithOutputs;
+	if (startHeight > highestHeight)
+	{
+		return blocksWithOutputs;
+	}
+
 	blocksWithOutputs.reserve(highestHeight - startHeight + 1);
 
 	uint64_t height = startHeight;
-- 
2.43.0


From a3d1319c8a930cab8777fc2ac8841527b0c34ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:38 +0000
Subject: [PATCH 106/128] fix: outputs of a block listed those spent and
 created again by a later block

---
 src/BlockChain/ChainState.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BlockChain/ChainState.cpp b/src/BlockChain/ChainState.cpp
index 0f2dba0..1376e22 100644
--- a/src/BlockChain/ChainState.cpp
+++ b/src/BlockChain/ChainState.cpp
@@ -198,7 +198,8 @@ std::unique_ptr<BlockWithOutputs> ChainState::GetBlockWithOutputs(const uint64_t
 			for (const TransactionOutput& output : outputs)
 			{
 				std::unique_ptr<OutputLocation> pOutputLocation = GetBlockDB()->GetOutputPosition(output.GetCommitment());
-				if (pOutputLocation != nullptr)
+				// An output spent since may have been created again by a later block.
+				if (pOutputLocation != nullptr && pOutputLocation->GetBlockHeight() == height)
 				{
 					outputsFound.emplace_back(OutputDTO{ false, OutputIdentifier::FromOutput(output), *pOutputLocation, output.GetRangeProof() });
 				}
-- 
2.43.0


From e1e8a8282b10369057ae46452634d410d77f7341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:38 +0000
Subject: [PATCH 107/128] fix: a PUT or DELETE of /v1/ ended the node

---
 src/Server/Node/API/ServerAPI.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/Server/Node/API/ServerAPI.cpp b/src/Server/Node/API/ServerAPI.cpp
index 7d11b73..7be938e 100644
--- a/src/Server/Node/API/ServerAPI.cpp
+++ b/src/Server/Node/API/ServerAPI.cpp
@@ -24,7 +24,17 @@
 */
 int ServerAPI::V1_Handler(struct mg_connection* conn, void*)
 {
-	if (HTTPUtil::GetHTTPMethod(conn) == HTTP::EHTTPMethod::GET)
+	bool isGet = false;
+	try
+	{
+		isGet = HTTPUtil::GetHTTPMethod(conn) == HTTP::EHTTPMethod::GET;
+	}
+	catch (const std::exception&)
+	{
+		// Neither GET nor POST
+	}
+
+	if (isGet)
 	{
 		Json::Value json;
 		json.append("GET /v1/blocks/<hash>?compact");
-- 
2.43.0


From c39ed397b6a0e1c66312b2633d5ca8e3ebcd0e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:28 +0000
Subject: [PATCH 108/128] fix: transactions refused by a Rust node were taken
 as posted

---
 src/Server/Node/NodeClients/RPCNodeClient.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Server/Node/NodeClients/RPCNodeClient.h b/src/Server/Node/NodeClients/RPCNodeClient.h
index e15857c..e31addc 100644
--- a/src/Server/Node/NodeClients/RPCNodeClient.h
+++ b/src/Server/Node/NodeClients/RPCNodeClient.h
@@ -134,7 +134,13 @@ public:
 
 		auto response = m_pConnection->Invoke("/v2/foreign", "push_transaction", params);
 
-		return response.GetResult().has_value();
+		if (!response.GetResult().has_value()) {
+			return false;
+		}
+
+		// Rust nodes report a refused transaction as an "Err" result.
+		const Json::Value result = response.GetResult().value();
+		return result.isObject() && result.isMember("Ok");
 	}
 
 private:
-- 
2.43.0


From adbb353be9cdef4e6a6a6c33c3a2ff540a692d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:23 +0000
Subject: [PATCH 109/128] fix: peers with IPv6 addresses couldn't be looked up,
 banned or unbanned

---
 src/Server/Node/API/PeersAPI.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/Server/Node/API/PeersAPI.cpp b/src/Server/Node/API/PeersAPI.cpp
index 78100fe..5adb231 100644
--- a/src/Server/Node/API/PeersAPI.cpp
+++ b/src/Server/Node/API/PeersAPI.cpp
@@ -129,19 +129,16 @@ int PeersAPI::Peer_Handler(struct mg_connection* conn, void* pNodeContext)
 
 std::string PeersAPI::ParseIPAddress(const std::string& request)
 {
-	const std::size_t colonPos = request.find(":");
-	if (colonPos != std::string::npos)
-	{
-		return request.substr(0, colonPos);
-	}
+	const std::string address = request.substr(0, request.find("/"));
 
-	const std::size_t slashPos = request.find("/");
-	if (slashPos != std::string::npos)
+	// a.b.c.d:port - More than one colon means IPv6.
+	const std::size_t colonPos = address.find(":");
+	if (colonPos != std::string::npos && address.find(":", colonPos + 1) == std::string::npos)
 	{
-		return request.substr(0, slashPos);
+		return address.substr(0, colonPos);
 	}
 
-	return request;
+	return address;
 }
 
 std::string PeersAPI::ParseCommand(const std::string& request)
-- 
2.43.0


From 6852370a50a3fc29e4f804b2a0fc2788bcc490fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:58 +0000
Subject: [PATCH 110/128] fix: a resync left the unspent outputs of the old
 tip, so that the blocks were refused again

---
 src/BlockChain/ChainResyncer.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/BlockChain/ChainResyncer.cpp b/src/BlockChain/ChainResyncer.cpp
index fabd226..8daf360 100644
--- a/src/BlockChain/ChainResyncer.cpp
+++ b/src/BlockChain/ChainResyncer.cpp
@@ -1,7 +1,11 @@
 #include "ChainResyncer.h"
 
 #include <Common/Logger.h>
+#include <Consensus.h>
+#include <Core/Global.h>
+#include <Crypto/Crypto.h>
 #include <Database/BlockDb.h>
+#include <PMMR/TxHashSetManager.h>
 
 ChainResyncer::ChainResyncer(const std::shared_ptr<Locked<ChainState>>& pChainState)
 	: m_pChainState(pChainState) { }
@@ -38,6 +42,20 @@ void ChainResyncer::ResyncChain()
 		pHeaderMMR->AddHeader(*pHeader);
 	}
 
+	// Start over with the TxHashSet of the genesis block, which the blocks of the confirmed chain apply to.
+	const FullBlock& genesisBlock = Global::GetGenesisBlock();
+	auto pTxHashSetManager = pLockedState->GetTxHashSetManager();
+	pTxHashSetManager->Close();
+	TxHashSetManager::RemoveFiles(Global::GetConfig());
+	auto pTxHashSet = pTxHashSetManager->Open(genesisBlock.GetHeader());
+	pTxHashSet->SaveOutputPositions(pConfirmedChain, pBlockDB);
+
+	const BlockSums genesisSums(
+		Crypto::AddCommitments({ genesisBlock.GetOutputs().front().GetCommitment() }, { Crypto::CommitTransparent(Consensus::REWARD) }),
+		genesisBlock.GetKernels().front().GetCommitment()
+	);
+	pBlockDB->AddBlockSums(genesisBlock.GetHash(), genesisSums);
+
 	pLockedState->Commit();
 
 	LOG_WARNING("Chain resync initiated!");
-- 
2.43.0


From ccfc951c8a41fe7bdb918f598651b0b6dea20985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:11 +0000
Subject: [PATCH 111/128] fix: orphans on a fork other than the heaviest chain
 of headers were never processed

---
 src/BlockChain/ChainState.cpp            | 13 +++++++++++--
 src/BlockChain/OrphanPool/OrphanPool.cpp | 16 ++++++++++++++++
 src/BlockChain/OrphanPool/OrphanPool.h   |  2 ++
 3 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/BlockChain/ChainState.cpp b/src/BlockChain/ChainState.cpp
index 1376e22..39bdbb5 100644
--- a/src/BlockChain/ChainState.cpp
+++ b/src/BlockChain/ChainState.cpp
@@ -176,11 +176,20 @@ std::shared_ptr<const FullBlock> ChainState::GetNextOrphanBlock() const
 		const Hash hash = pCandidateChain->GetHash(height);
 
 		if (GetBlockDB()->GetBlock(hash) == nullptr) {
-			return m_pOrphanPool->GetOrphanBlock(height, hash);
+			auto pOrphan = m_pOrphanPool->GetOrphanBlock(height, hash);
+			if (pOrphan != nullptr) {
+				return pOrphan;
+			}
+
+			break;
 		}
 	}
 
-	return nullptr;
+	// Blocks of other forks may also be ready, since the block they build on was processed.
+	return m_pOrphanPool->FindOrphanBlock([this](const FullBlock& block) {
+		return GetBlockDB()->GetBlock(block.GetPreviousHash()) != nullptr
+			&& GetBlockDB()->GetBlock(block.GetHash()) == nullptr;
+	});
 }
 
 std::unique_ptr<BlockWithOutputs> ChainState::GetBlockWithOutputs(const uint64_t height) const
diff --git a/src/BlockChain/OrphanPool/OrphanPool.cpp b/src/BlockChain/OrphanPool/OrphanPool.cpp
index 80eedd1..6c33816 100644
--- a/src/BlockChain/OrphanPool/OrphanPool.cpp
+++ b/src/BlockChain/OrphanPool/OrphanPool.cpp
@@ -82,6 +82,22 @@ std::shared_ptr<const FullBlock> OrphanPool::GetNextOrphanBlock(const uint64_t h
 	return std::shared_ptr<const FullBlock>(nullptr);
 }
 
+std::shared_ptr<const FullBlock> OrphanPool::FindOrphanBlock(const std::function<bool(const FullBlock&)>& predicate) const
+{
+	for (const auto& orphans : m_orphansByHeight)
+	{
+		for (const Orphan& orphan : orphans.second)
+		{
+			if (predicate(*orphan.GetBlock()))
+			{
+				return orphan.GetBlock();
+			}
+		}
+	}
+
+	return nullptr;
+}
+
 void OrphanPool::RemoveOrphan(const uint64_t height, const Hash& hash)
 {
 	auto iter = m_orphansByHeight.find(height);
diff --git a/src/BlockChain/OrphanPool/OrphanPool.h b/src/BlockChain/OrphanPool/OrphanPool.h
index 7a7a3e0..beceac9 100644
--- a/src/BlockChain/OrphanPool/OrphanPool.h
+++ b/src/BlockChain/OrphanPool/OrphanPool.h
@@ -4,6 +4,7 @@
 
 #include <Crypto/Models/Hash.h>
 #include <Core/Models/FullBlock.h>
+#include <functional>
 #include <unordered_map>
 #include <caches/Cache.h>
 
@@ -16,6 +17,7 @@ public:
 	void AddOrphanBlock(const FullBlock& block);
 	std::shared_ptr<const FullBlock> GetOrphanBlock(const uint64_t height, const Hash& hash) const;
 	std::shared_ptr<const FullBlock> GetNextOrphanBlock(const uint64_t height, const Hash& previousHash) const;
+	std::shared_ptr<const FullBlock> FindOrphanBlock(const std::function<bool(const FullBlock&)>& predicate) const;
 	void RemoveOrphan(const uint64_t height, const Hash& hash);
 
 	void AddOrphanHeader(BlockHeaderPtr pHeader);
-- 
2.43.0


From 6827099dbf1dfa4f6f2dea090238657aa65555b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:44 +0000
Subject: [PATCH 112/128] fix: an update of the configuration was lost with the
 next one, and at restarts with another configuration file

---
 src/API/Node/Handlers/UpdateConfigHandler.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/API/Node/Handlers/UpdateConfigHandler.h b/src/API/Node/Handlers/UpdateConfigHandler.h
index f687916..e907187 100644
--- a/src/API/Node/Handlers/UpdateConfigHandler.h
+++ b/src/API/Node/Handlers/UpdateConfigHandler.h
@@ -165,12 +165,14 @@ public:
 			config.UpdateBlockedPeers(blockedPeers);
 		}
 		
-		fs::path config_path = config.GetDataDirectory() / "server_config.json";
+		fs::path config_path = Global::GetConfigFilePath();
 		std::ofstream file(config_path, std::ios::out | std::ios::binary | std::ios::ate);
 		if (file.is_open()) {
 			file << config_json;
 			file.close();
 
+			config.GetJSON() = config_json;
+
 			Json::Value result_json;
 			return request.BuildResult(result_json);
 		} else {
-- 
2.43.0


From 8ebb13251e4c89bf42ca3f8cd0456f56314ad2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:44 +0000
Subject: [PATCH 113/128] fix: a refused update of the configuration took
 effect in part

---
 src/API/Node/Handlers/UpdateConfigHandler.h | 25 ++++++++++++---------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/API/Node/Handlers/UpdateConfigHandler.h b/src/API/Node/Handlers/UpdateConfigHandler.h
index e907187..9cba8e6 100644
--- a/src/API/Node/Handlers/UpdateConfigHandler.h
+++ b/src/API/Node/Handlers/UpdateConfigHandler.h
@@ -38,8 +38,6 @@ public:
 
 			Json::Value& p2p_json = config_json["P2P"];
 			p2p_json["MIN_PEERS"] = min_peers.value();
-
-			config.SetMinPeers(min_peers.value());
 		}
 
 		auto max_peers = JsonUtil::GetUInt32Opt(params_json, "max_peers");
@@ -50,8 +48,6 @@ public:
 
 			Json::Value& p2p_json = config_json["P2P"];
 			p2p_json["MAX_PEERS"] = max_peers.value();
-
-			config.SetMaxPeers(max_peers.value());
 		}
 
 		auto min_confirmations = JsonUtil::GetUInt32Opt(params_json, "min_confirmations");
@@ -62,8 +58,6 @@ public:
 
 			Json::Value& wallet_json = config_json["WALLET"];
 			wallet_json["MIN_CONFIRMATIONS"] = min_confirmations.value();
-
-			config.SetMinConfirmations(min_confirmations.value());
 		}
 
 		auto reuse_address = JsonUtil::GetUInt32Opt(params_json, "reuse_address");
@@ -74,10 +68,9 @@ public:
 
 			Json::Value& wallet_json = config_json["WALLET"];
 			wallet_json["REUSE_ADDRESS"] = reuse_address.value();
-
-			config.ShouldReuseAddresses(reuse_address.value()==1);
 		}
 
+		std::optional<std::unordered_set<IPAddress>> preferred_peers;
 		if (JsonUtil::KeyExists(params_json, "preferred_peers"))
 		{
 			auto preferred_peers_json = JsonUtil::GetRequiredArray(params_json, "preferred_peers");
@@ -104,9 +97,10 @@ public:
 			}
 			p2p_json["PREFERRED_PEERS"] = arr;
 
-			config.UpdatePreferredPeers(preferredPeers);
+			preferred_peers = std::move(preferredPeers);
 		}
 		
+		std::optional<std::unordered_set<IPAddress>> allowed_peers;
 		if (JsonUtil::KeyExists(params_json, "allowed_peers"))
 		{
 			auto allowed_peers_json = JsonUtil::GetRequiredArray(params_json, "allowed_peers");
@@ -133,9 +127,10 @@ public:
 			}
 			p2p_json["ALLOWED_PEERS"] = arr;
 
-			config.UpdateAllowedPeers(allowedPeers);
+			allowed_peers = std::move(allowedPeers);
 		}
 		
+		std::optional<std::unordered_set<IPAddress>> blocked_peers;
 		if (JsonUtil::KeyExists(params_json, "blocked_peers"))
 		{
 			auto blocked_peers_json = JsonUtil::GetRequiredArray(params_json, "blocked_peers");
@@ -162,7 +157,7 @@ public:
 			}
 			p2p_json["BLOCKED_PEERS"] = arr;
 
-			config.UpdateBlockedPeers(blockedPeers);
+			blocked_peers = std::move(blockedPeers);
 		}
 		
 		fs::path config_path = Global::GetConfigFilePath();
@@ -171,7 +166,15 @@ public:
 			file << config_json;
 			file.close();
 
+			// Everything was valid and saved, so the changes can take effect.
 			config.GetJSON() = config_json;
+			if (min_peers.has_value()) config.SetMinPeers(min_peers.value());
+			if (max_peers.has_value()) config.SetMaxPeers(max_peers.value());
+			if (min_confirmations.has_value()) config.SetMinConfirmations(min_confirmations.value());
+			if (reuse_address.has_value()) config.ShouldReuseAddresses(reuse_address.value()==1);
+			if (preferred_peers.has_value()) config.UpdatePreferredPeers(preferred_peers.value());
+			if (allowed_peers.has_value()) config.UpdateAllowedPeers(allowed_peers.value());
+			if (blocked_peers.has_value()) config.UpdateBlockedPeers(blocked_peers.value());
 
 			Json::Value result_json;
 			return request.BuildResult(result_json);
-- 
2.43.0


From ec9af512a63471bd70f5c458f29d17f4005c8ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:44 +0000
Subject: [PATCH 114/128] fix: peer counts too high to be read back were saved,
 so that a restart lost the whole configuration

---
 src/API/Node/Handlers/UpdateConfigHandler.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/API/Node/Handlers/UpdateConfigHandler.h b/src/API/Node/Handlers/UpdateConfigHandler.h
index 9cba8e6..c2ea9ba 100644
--- a/src/API/Node/Handlers/UpdateConfigHandler.h
+++ b/src/API/Node/Handlers/UpdateConfigHandler.h
@@ -7,6 +7,7 @@
 #include <API/Wallet/Owner/Models/Errors.h>
 #include <optional>
 #include <fstream>
+#include <limits>
 
 class UpdateConfigHandler : public RPCMethod
 {
@@ -32,6 +33,10 @@ public:
 				return request.BuildError("INVALID_PARAMS", error_message);
 			}
 
+			if (min_peers.value() > (uint32_t)std::numeric_limits<int>::max()) {
+				return request.BuildError("INVALID_PARAMS", "min_peers is too high");
+			}
+
 			if (!config_json.isMember("P2P")) {
 				config_json["P2P"] = Json::Value();
 			}
@@ -42,6 +47,10 @@ public:
 
 		auto max_peers = JsonUtil::GetUInt32Opt(params_json, "max_peers");
 		if (max_peers.has_value()) {
+			if (max_peers.value() > (uint32_t)std::numeric_limits<int>::max()) {
+				return request.BuildError("INVALID_PARAMS", "max_peers is too high");
+			}
+
 			if (!config_json.isMember("P2P")) {
 				config_json["P2P"] = Json::Value();
 			}
-- 
2.43.0


From d75803cd7717465023a36c45dd8bbf5d75adda83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:44 +0000
Subject: [PATCH 115/128] fix: address reuse was turned off until the next
 restart only

---
 src/API/Node/Handlers/UpdateConfigHandler.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/API/Node/Handlers/UpdateConfigHandler.h b/src/API/Node/Handlers/UpdateConfigHandler.h
index c2ea9ba..c25ad5e 100644
--- a/src/API/Node/Handlers/UpdateConfigHandler.h
+++ b/src/API/Node/Handlers/UpdateConfigHandler.h
@@ -76,7 +76,7 @@ public:
 			}
 
 			Json::Value& wallet_json = config_json["WALLET"];
-			wallet_json["REUSE_ADDRESS"] = reuse_address.value();
+			wallet_json["REUSE_ADDRESS"] = reuse_address.value() == 1 ? 1 : 0;
 		}
 
 		std::optional<std::unordered_set<IPAddress>> preferred_peers;
-- 
2.43.0


From a4e1a15811488b618735b98397cb06d5fa75c644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:44 +0000
Subject: [PATCH 116/128] fix: changing the tor bridges ended the node when its
 working directory is on another file system

---
 src/Core/Config/TorConfig.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Core/Config/TorConfig.h b/src/Core/Config/TorConfig.h
index 3284f2e..a987640 100644
--- a/src/Core/Config/TorConfig.h
+++ b/src/Core/Config/TorConfig.h
@@ -212,7 +212,7 @@ private:
 		std::string line;
 		
 		std::ofstream newConfigFile;
-		newConfigFile.open("temp.torrc", std::ofstream::out | std::ofstream::trunc);
+		newConfigFile.open(m_torDataPath / "temp.torrc", std::ofstream::out | std::ofstream::trunc);
 		newConfigFile << "UseBridges 1" << "\n";
 		if (snowflake)
 		{
@@ -248,7 +248,7 @@ private:
 		newConfigFile.close();
 		configFile.close();
 		remove(m_torrcPath);
-		rename("temp.torrc", m_torrcPath);
+		rename(m_torDataPath / "temp.torrc", m_torrcPath);
 		
 		return;
 	}
@@ -259,7 +259,7 @@ private:
 		std::string line;
 
 		std::ofstream newConfigFile;
-		newConfigFile.open("temp.torrc", std::ofstream::out | std::ofstream::trunc);
+		newConfigFile.open(m_torDataPath / "temp.torrc", std::ofstream::out | std::ofstream::trunc);
 
 		while (std::getline(configFile, line))
 		{
@@ -277,7 +277,7 @@ private:
 		newConfigFile.close();
 		configFile.close();
 		remove(m_torrcPath);
-		rename("temp.torrc", m_torrcPath);
+		rename(m_torDataPath / "temp.torrc", m_torrcPath);
 
 		return;
 	}
@@ -288,7 +288,7 @@ private:
 		std::string line;
 		
 		std::ofstream newConfigFile;
-		newConfigFile.open("temp.torrc", std::ofstream::out | std::ofstream::trunc);
+		newConfigFile.open(m_torDataPath / "temp.torrc", std::ofstream::out | std::ofstream::trunc);
 
 		while (std::getline(configFile, line))
 		{
@@ -307,7 +307,7 @@ private:
 		newConfigFile.close();
 		configFile.close();
 		remove(m_torrcPath);
-		rename("temp.torrc", m_torrcPath);
+		rename(m_torDataPath / "temp.torrc", m_torrcPath);
 
 		return;
 	}
-- 
2.43.0


From 6348463dde7b0c0591eab392fa64056ea22d1e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:58 +0000
Subject: [PATCH 117/128] fix: a refused change of the tor bridges turned
 Snowflake off

---
 .../Wallet/Owner/Handlers/UpdateTorConfigHandler.h    | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/API/Wallet/Owner/Handlers/UpdateTorConfigHandler.h b/src/API/Wallet/Owner/Handlers/UpdateTorConfigHandler.h
index 9e7e99d..cad222f 100644
--- a/src/API/Wallet/Owner/Handlers/UpdateTorConfigHandler.h
+++ b/src/API/Wallet/Owner/Handlers/UpdateTorConfigHandler.h
@@ -28,7 +28,12 @@ public:
 
 		const Json::Value& json_params = request.GetParams().value();
 
-		std::vector<Json::Value> torBridges = JsonUtil::GetRequiredArray(json_params, "bridges_list");
+		std::vector<std::string> torBridges;
+		for (const Json::Value& bridge : JsonUtil::GetRequiredArray(json_params, "bridges_list"))
+		{
+			torBridges.push_back(bridge.asString());
+		}
+
 		bool enableSnowflake = JsonUtil::GetRequiredBool(json_params, "enable_snowflake");
 		
 		Config& config = Global::GetConfig();
@@ -48,9 +53,9 @@ public:
 		
 		if(!torBridges.empty())
 		{
-			for (const Json::Value& bridge : torBridges)
+			for (const std::string& bridge : torBridges)
 			{
-				config.AddObfs4TorBridge(bridge.asString());
+				config.AddObfs4TorBridge(bridge);
 			}	
 		}
 		else
-- 
2.43.0


From 70da9593fd408455e6b2cbc5478432243bb68256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:24 +0000
Subject: [PATCH 118/128] fix: refuse a block whose header states other MMR
 sizes than the ones its application yields

---
 src/Core/File/AppendOnlyFile.cpp |  5 +++++
 src/PMMR/TxHashSetImpl.cpp       | 11 +++++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/Core/File/AppendOnlyFile.cpp b/src/Core/File/AppendOnlyFile.cpp
index 6b77226..f8c861c 100644
--- a/src/Core/File/AppendOnlyFile.cpp
+++ b/src/Core/File/AppendOnlyFile.cpp
@@ -77,6 +77,11 @@ uint64_t AppendOnlyFile::GetSize() const noexcept
 
 bool AppendOnlyFile::Read(const uint64_t position, const uint64_t numBytes, std::vector<unsigned char>& data) const
 {
+	if (position > GetSize() || numBytes > GetSize() - position)
+	{
+		return false;
+	}
+
 	// TODO: Handle partial read from m_mmap and m_buffer
 	if (position < m_bufferIndex)
 	{
diff --git a/src/PMMR/TxHashSetImpl.cpp b/src/PMMR/TxHashSetImpl.cpp
index 36048d8..27f0442 100644
--- a/src/PMMR/TxHashSetImpl.cpp
+++ b/src/PMMR/TxHashSetImpl.cpp
@@ -164,6 +164,17 @@ bool TxHashSet::ApplyBlock(std::shared_ptr<IBlockDB> pBlockDB, const FullBlock&
 
 bool TxHashSet::ValidateRoots(const BlockHeader& blockHeader) const
 {
+    if (m_pKernelMMR->GetSize() != blockHeader.GetKernelMMRSize()) {
+        LOG_ERROR_F("Kernel size not matching for header ({})", blockHeader);
+        return false;
+    }
+
+    const uint64_t outputSize = blockHeader.GetOutputMMRSize();
+    if (m_pOutputPMMR->GetSize() != outputSize || m_pRangeProofPMMR->GetSize() != outputSize) {
+        LOG_ERROR_F("Output size not matching for header ({})", blockHeader);
+        return false;
+    }
+
     if (m_pKernelMMR->Root(blockHeader.GetKernelMMRSize()) != blockHeader.GetKernelRoot()) {
         LOG_ERROR_F("Kernel root not matching for header ({})", blockHeader);
         return false;
-- 
2.43.0


From 96912535823014851388b81fd755f83fed2e4cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:55 +0000
Subject: [PATCH 119/128] fix: let block sync start while the chain is shorter
 than the cut-through horizon

---
 src/P2P/Sync/StateSyncer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/P2P/Sync/StateSyncer.cpp b/src/P2P/Sync/StateSyncer.cpp
index 58e4c91..dfe357f 100644
--- a/src/P2P/Sync/StateSyncer.cpp
+++ b/src/P2P/Sync/StateSyncer.cpp
@@ -16,7 +16,7 @@ bool StateSyncer::SyncState(SyncStatus& syncStatus)
 	}
 
 	// If state sync is still in progress, return true to delay block sync.
-	if (syncStatus.GetBlockHeight() < (syncStatus.GetHeaderHeight() - Consensus::CUT_THROUGH_HORIZON))
+	if ((syncStatus.GetBlockHeight() + Consensus::CUT_THROUGH_HORIZON) < syncStatus.GetHeaderHeight())
 	{
 		return true;
 	}
-- 
2.43.0


From dd0b06c6eb324e7e4cd9cef44491b27a43f3980b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:55 +0000
Subject: [PATCH 120/128] fix: do not lock up the network thread when a peer
 sends a malformed message

---
 src/P2P/Connection.cpp | 10 +++++-----
 src/P2P/Connection.h   |  3 ++-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/P2P/Connection.cpp b/src/P2P/Connection.cpp
index 9aa6577..13fa49f 100644
--- a/src/P2P/Connection.cpp
+++ b/src/P2P/Connection.cpp
@@ -20,7 +20,7 @@ void Connection::Connect()
 
 void Connection::Disconnect()
 {
-    std::unique_lock<std::mutex> write_lock(m_mutex);
+    std::unique_lock<std::recursive_mutex> write_lock(m_mutex);
 
     if (!m_terminate) {
         m_terminate = true;
@@ -143,7 +143,7 @@ void Connection::HandleConnected(const asio::error_code& ec)
 
 void Connection::HandleReceivedHeader(const asio::error_code& ec, const size_t bytes_received)
 {
-    std::unique_lock<std::mutex> write_lock(m_mutex);
+    std::unique_lock<std::recursive_mutex> write_lock(m_mutex);
 
     if (!ec && m_pSocket->IsOpen() && bytes_received == 11) {
         assert(m_received.size() == 11);
@@ -175,7 +175,7 @@ void Connection::HandleReceivedHeader(const asio::error_code& ec, const size_t b
 
 void Connection::HandleReceivedBody(MessageHeader msg_header, const asio::error_code& ec, const size_t bytes_received)
 {
-    std::unique_lock<std::mutex> write_lock(m_mutex);
+    std::unique_lock<std::recursive_mutex> write_lock(m_mutex);
 
     if (!ec && m_pSocket->IsOpen() && bytes_received == msg_header.GetLength()) {
         assert(m_received.size() == msg_header.GetLength());
@@ -221,7 +221,7 @@ void Connection::HandleReceivedBody(MessageHeader msg_header, const asio::error_
 
 void Connection::CheckPing()
 {
-    std::unique_lock<std::mutex> write_lock(m_mutex);
+    std::unique_lock<std::recursive_mutex> write_lock(m_mutex);
 
     if (!GetSocket()->IsActive()) {
         return;
@@ -257,7 +257,7 @@ bool Connection::SendSync(const IMessage& message)
 
 bool Connection::ReceiveSync(std::vector<uint8_t>& bytes, const size_t num_bytes)
 {
-    std::unique_lock<std::mutex> write_lock(m_mutex);
+    std::unique_lock<std::recursive_mutex> write_lock(m_mutex);
 
     bytes = m_pSocket->ReceiveSync(num_bytes, false);
     if (bytes.size() != num_bytes) {
diff --git a/src/P2P/Connection.h b/src/P2P/Connection.h
index 142ebf9..3695970 100644
--- a/src/P2P/Connection.h
+++ b/src/P2P/Connection.h
@@ -46,6 +46,7 @@ public:
 		m_pMessageProcessor(pMessageProcessor),
 		m_terminate(false),
 		m_sendingDisabled(false),
+		m_receivingDisabled(false),
 		m_advertisedBlocks(256) { }
 
 	Connection(const Connection&) = delete;
@@ -112,7 +113,7 @@ private:
 	mutable SocketPtr m_pSocket;
 
 	mutable LRUCache<Hash, Hash> m_advertisedBlocks;
-	mutable std::mutex m_mutex;
+	mutable std::recursive_mutex m_mutex;
 };
 
 typedef std::shared_ptr<Connection> ConnectionPtr;
\ No newline at end of file
-- 
2.43.0


From a1cc874af49dc2efded2965061c9054a7bebde65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:55 +0000
Subject: [PATCH 121/128] fix: close the connection of a banned peer

---
 src/P2P/Connection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/P2P/Connection.cpp b/src/P2P/Connection.cpp
index 13fa49f..03f136a 100644
--- a/src/P2P/Connection.cpp
+++ b/src/P2P/Connection.cpp
@@ -273,5 +273,5 @@ void Connection::BanPeer(const EBanReason reason)
 {
     LOG_WARNING_F("Banning peer {} for '{}'.", GetIPAddress(), BanReason::Format(reason));
     GetPeer()->Ban(reason);
-    m_terminate = true;
+    Disconnect();
 }
\ No newline at end of file
-- 
2.43.0


From 1c29e9bb6a28cc13db3e778225fca5eb38bec8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:35 +0000
Subject: [PATCH 122/128] fix: refuse a TxHashSet archive that was not
 requested

---
 src/P2P/Pipeline/TxHashSetPipe.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/P2P/Pipeline/TxHashSetPipe.cpp b/src/P2P/Pipeline/TxHashSetPipe.cpp
index 94c7728..ad72fcb 100644
--- a/src/P2P/Pipeline/TxHashSetPipe.cpp
+++ b/src/P2P/Pipeline/TxHashSetPipe.cpp
@@ -39,8 +39,8 @@ void TxHashSetPipe::ReceiveTxHashSet(const Connection::Ptr& pConnection, const T
 	if (m_pSyncStatus->GetStatus() != ESyncStatus::SYNCING_TXHASHSET)
 	{
 		LOG_WARNING_F("Received TxHashSet from {} when not requested.", *pConnection);
-		// connection.BanPeer(EBanReason::Abusive);
-		// return;
+		pConnection->BanPeer(EBanReason::Abusive);
+		return;
 	}
 
 	const bool processing = m_processing.exchange(true);
-- 
2.43.0


From 83d9547352380f64a1f20966ca175978b5496965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:35 +0000
Subject: [PATCH 123/128] fix: receive TxHashSet archives of 2 GB and more

---
 src/P2P/Pipeline/TxHashSetPipe.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/P2P/Pipeline/TxHashSetPipe.cpp b/src/P2P/Pipeline/TxHashSetPipe.cpp
index ad72fcb..4ffff82 100644
--- a/src/P2P/Pipeline/TxHashSetPipe.cpp
+++ b/src/P2P/Pipeline/TxHashSetPipe.cpp
@@ -94,7 +94,7 @@ void TxHashSetPipe::Thread_ProcessTxHashSet(TxHashSetPipe& pipeline, Connection:
 		size_t bytesReceived = 0;
 		std::vector<uint8_t> buffer(BUFFER_SIZE, 0);
 		while (bytesReceived < zipped_size) {
-			const int bytesToRead = (std::min)((int)(zipped_size - bytesReceived), BUFFER_SIZE);
+			const int bytesToRead = (int)(std::min)(zipped_size - (uint64_t)bytesReceived, (uint64_t)BUFFER_SIZE);
 
 			const bool received = pConnection->ReceiveSync(buffer, bytesToRead);
 			if (!received || !Global::IsRunning()) {
-- 
2.43.0


From dcb7b171383eb2b0fa41cb228d01dfe545103243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:35 +0000
Subject: [PATCH 124/128] fix: send the last part of a TxHashSet archive, and
 keep answering a peer whose request failed

---
 src/P2P/Pipeline/TxHashSetPipe.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/P2P/Pipeline/TxHashSetPipe.cpp b/src/P2P/Pipeline/TxHashSetPipe.cpp
index 4ffff82..ddcecba 100644
--- a/src/P2P/Pipeline/TxHashSetPipe.cpp
+++ b/src/P2P/Pipeline/TxHashSetPipe.cpp
@@ -179,6 +179,7 @@ void TxHashSetPipe::Thread_SendTxHashSet(
 {
 	auto pHeader = pBlockChain->GetBlockHeaderByHash(block_hash);
 	if (pHeader == nullptr) {
+		pConnection->DisableSends(false);
 		return;
 	}
 
@@ -188,6 +189,7 @@ void TxHashSetPipe::Thread_SendTxHashSet(
 		zipFilePath = pBlockChain->SnapshotTxHashSet(pHeader);
 	}
 	catch (std::exception&) {
+		pConnection->DisableSends(false);
 		return;
 	}
 
@@ -197,6 +199,7 @@ void TxHashSetPipe::Thread_SendTxHashSet(
 	std::ifstream file(zipFilePath, std::ios::in | std::ios::ate | std::ios::binary);
 	if (!file.is_open()) {
 		FileUtil::RemoveFile(zipFilePath);
+		pConnection->DisableSends(false);
 		return;
 	}
 
@@ -208,7 +211,7 @@ void TxHashSetPipe::Thread_SendTxHashSet(
 
 		std::vector<uint8_t> buffer(BUFFER_SIZE, 0);
 			
-		while (file.read((char*)buffer.data(), BUFFER_SIZE)) {
+		while (file.read((char*)buffer.data(), BUFFER_SIZE) || file.gcount() > 0) {
 			std::vector<uint8_t> bytesToSend(
 				buffer.cbegin(),
 				buffer.cbegin() + file.gcount()
@@ -223,6 +226,7 @@ void TxHashSetPipe::Thread_SendTxHashSet(
 	}
 	catch (std::exception& e) {
 		LOG_ERROR_F("Exception thrown while sending TxHashSet: {}", e.what());
+		pConnection->Disconnect();
 	}
 
 	file.close();
-- 
2.43.0


From 6f4e2d800732e33b861cb84c68d5362e05898b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:35 +0000
Subject: [PATCH 125/128] fix: keep accepting connections after a blocked peer
 or one that is gone already

---
 src/P2P/Seed/Seeder.cpp | 22 +++++++++++++++++-----
 src/P2P/Seed/Seeder.h   |  1 +
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/P2P/Seed/Seeder.cpp b/src/P2P/Seed/Seeder.cpp
index 5178643..77d2e48 100644
--- a/src/P2P/Seed/Seeder.cpp
+++ b/src/P2P/Seed/Seeder.cpp
@@ -123,8 +123,23 @@ void Seeder::Accept(const asio::error_code& ec)
 {
     std::unique_lock<std::mutex> lock(m_mutex);
     
-    if (ec) return;
-    
+    if (ec == asio::error::operation_aborted) return;
+
+    try {
+        if (!ec) {
+            AcceptConnection();
+        }
+    }
+    catch (const std::exception& e) {
+        LOG_WARNING_F("Failed to accept connection: {}", e.what());
+    }
+
+    m_pSocket = std::make_shared<asio::ip::tcp::socket>(*m_pAsioContext);
+    m_pAcceptor->async_accept(*m_pSocket, std::bind(&Seeder::Accept, this, std::placeholders::_1));
+}
+
+void Seeder::AcceptConnection()
+{
     if (m_connectionManager.GetNumberOfActiveConnections() < Global::GetConfig().GetMaxPeers()) {
         SocketAddress socket_address = SocketAddress::FromEndpoint(m_pSocket->remote_endpoint());
         SocketPtr pSocket(new Socket(SocketAddress::FromEndpoint(m_pSocket->remote_endpoint()), m_pAsioContext, m_pSocket));
@@ -157,9 +172,6 @@ void Seeder::Accept(const asio::error_code& ec)
         asio::error_code ignoreError;
         m_pSocket->close(ignoreError);
     }
-
-    m_pSocket = std::make_shared<asio::ip::tcp::socket>(*m_pAsioContext);
-    m_pAcceptor->async_accept(*m_pSocket, std::bind(&Seeder::Accept, this, std::placeholders::_1));
 }
 
 void Seeder::SeedNewConnection()
diff --git a/src/P2P/Seed/Seeder.h b/src/P2P/Seed/Seeder.h
index 5f67f58..e94b22a 100644
--- a/src/P2P/Seed/Seeder.h
+++ b/src/P2P/Seed/Seeder.h
@@ -49,6 +49,7 @@ private:
 	void StartListener();
 
 	void Accept(const asio::error_code& ec);
+	void AcceptConnection();
 	void SeedNewConnection();
 
 	ConnectionManager& m_connectionManager;
-- 
2.43.0


From 4e37589bf94aba36fa769e0c1d08ad7d29f72d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:35 +0000
Subject: [PATCH 126/128] fix: prune every inactive connection, without holding
 the list while disconnecting

---
 src/P2P/ConnectionManager.cpp | 48 +++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/src/P2P/ConnectionManager.cpp b/src/P2P/ConnectionManager.cpp
index fbee250..e7c6f03 100644
--- a/src/P2P/ConnectionManager.cpp
+++ b/src/P2P/ConnectionManager.cpp
@@ -190,30 +190,40 @@ ConnectionPtr ConnectionManager::GetConnection(const uint64_t connectionId) cons
 
 void ConnectionManager::PruneConnections(const bool bInactiveOnly)
 {
-	auto connectionsWriter = m_connections.Write();
-	std::vector<ConnectionPtr>& connections = *connectionsWriter;
-
-	for (auto iter = connections.begin(); iter < connections.end(); iter++) {
-		ConnectionPtr pConnection = *iter;
-		if (!bInactiveOnly || !pConnection->IsConnectionActive()) {
-			try { 
-				pConnection->Disconnect();
-			}
-			catch (std::exception& e) {
-				LOG_ERROR("Error disconnecting: {}", e.what());
+	std::vector<ConnectionPtr> pruned;
+
+	{
+		auto connectionsWriter = m_connections.Write();
+		std::vector<ConnectionPtr>& connections = *connectionsWriter;
+
+		for (auto iter = connections.begin(); iter != connections.end();) {
+			if (!bInactiveOnly || !(*iter)->IsConnectionActive()) {
+				pruned.push_back(*iter);
+				iter = connections.erase(iter);
+			} else {
+				iter++;
 			}
-			connections.erase(iter);
 		}
+
+		m_numInbound = std::accumulate(
+			connections.begin(), connections.end(), (size_t)0,
+			[](size_t inbound, const ConnectionPtr& pConnection) {
+				return pConnection->GetDirection() == EDirection::INBOUND ? inbound + 1 : inbound;
+			}
+		);
+
+		m_numOutbound = connections.size() - m_numInbound;
 	}
 
-	m_numInbound = std::accumulate(
-		connections.begin(), connections.end(), (size_t)0,
-		[](size_t inbound, const ConnectionPtr& pConnection) {
-			return pConnection->GetDirection() == EDirection::INBOUND ? inbound + 1 : inbound;
+	// Disconnecting waits for messages being processed, which may need the list of connections.
+	for (const ConnectionPtr& pConnection : pruned) {
+		try {
+			pConnection->Disconnect();
 		}
-	);
-
-	m_numOutbound = connections.size() - m_numInbound;
+		catch (std::exception& e) {
+			LOG_ERROR("Error disconnecting: {}", e.what());
+		}
+	}
 }
 
 ConnectionPtr ConnectionManager::GetMostWorkPeer(const std::vector<ConnectionPtr>& connections) const
-- 
2.43.0


From 80d7fd86b16f925fd1bd263f82380430189c3322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:35 +0000
Subject: [PATCH 127/128] fix: keep messages in memory while they are being
 sent, and send them one after another

---
 include/Net/Socket.h |  7 ++++---
 src/Net/Socket.cpp   | 36 ++++++++++++++++++------------------
 2 files changed, 22 insertions(+), 21 deletions(-)

diff --git a/include/Net/Socket.h b/include/Net/Socket.h
index c353af6..8ae791e 100644
--- a/include/Net/Socket.h
+++ b/include/Net/Socket.h
@@ -1,7 +1,6 @@
 #pragma once
 
 #include <Common/Compat.h>
-#include <Common/SharedQueue.h>
 #include <Core/Traits/Printable.h>
 #include <Net/RateCounter.h>
 #include <Net/SocketAddress.h>
@@ -11,7 +10,8 @@
 #include <memory>
 #include <atomic>
 #include <shared_mutex>
-#include <queue>
+#include <mutex>
+#include <deque>
 
 #include <asio.hpp>
 
@@ -79,6 +79,7 @@ public:
 private:
 	bool HasReceivedData();
 	void ThrowSocketException(const asio::error_code& ec);
+	void WriteNext();
 	void HandleSent(const asio::error_code& ec, size_t bytes_transferred);
 
 	std::shared_mutex m_socketMutex;
@@ -93,7 +94,7 @@ private:
 	RateCounter m_rateCounter;
 
 	std::mutex m_writeQueueMutex;
-	SharedQueue<std::vector<uint8_t>> m_writeQueue; // TODO: Use strand instead of queue
+	std::deque<std::shared_ptr<const std::vector<uint8_t>>> m_writeQueue; // TODO: Use strand instead of queue
 
 	asio::error_code m_errorCode;
 	std::atomic_bool m_socketOpen;
diff --git a/src/Net/Socket.cpp b/src/Net/Socket.cpp
index 6db95ea..434458b 100644
--- a/src/Net/Socket.cpp
+++ b/src/Net/Socket.cpp
@@ -183,21 +183,29 @@ bool Socket::SendSync(const std::vector<uint8_t>& message, const bool incrementC
 
 void Socket::SendAsync(const std::vector<uint8_t>& message)
 {
-    bool first_in_queue = m_writeQueue.empty();
-    m_writeQueue.push_back(message);
+    std::unique_lock<std::mutex> queueLock(m_writeQueueMutex);
+    m_writeQueue.push_back(std::make_shared<const std::vector<uint8_t>>(message));
 
-    if (!first_in_queue) {
-        // There is already an async_write in process.
-        // It will send this message when it completes.
-        return;
+    // If there is already an async_write in process, it will send this message when it completes.
+    if (m_writeQueue.size() == 1) {
+        WriteNext();
     }
+}
+
+// Callers must hold m_writeQueueMutex.
+void Socket::WriteNext()
+{
+    std::shared_ptr<const std::vector<uint8_t>> pMessage = m_writeQueue.front();
 
     std::shared_lock<std::shared_mutex> socketLock(m_socketMutex);
     if (m_socketOpen) {
+        // The message must outlive the write.
         asio::async_write(
             *m_pSocket,
-            asio::buffer(message.data(), message.size()),
-            std::bind(&Socket::HandleSent, shared_from_this(), std::placeholders::_1, std::placeholders::_2)
+            asio::buffer(pMessage->data(), pMessage->size()),
+            [pSelf = shared_from_this(), pMessage](const asio::error_code& ec, size_t bytes_transferred) {
+                pSelf->HandleSent(ec, bytes_transferred);
+            }
         );
     }
 }
@@ -206,6 +214,7 @@ void Socket::HandleSent(const asio::error_code& ec, size_t)
 {
     m_rateCounter.AddMessageSent();
 
+    std::unique_lock<std::mutex> queueLock(m_writeQueueMutex);
     if (!m_writeQueue.empty()) {
         m_writeQueue.pop_front();
     }
@@ -213,16 +222,7 @@ void Socket::HandleSent(const asio::error_code& ec, size_t)
     if (ec) {
         LOG_INFO_F("Failed to send message to {}: {}", *this, ec.message());
     } else if (!m_writeQueue.empty()) {
-        std::vector<uint8_t> message = m_writeQueue.front();
-
-        std::shared_lock<std::shared_mutex> socketLock(m_socketMutex);
-        if (m_socketOpen) {
-            asio::async_write(
-                *m_pSocket,
-                asio::buffer(message.data(), message.size()),
-                std::bind(&Socket::HandleSent, shared_from_this(), std::placeholders::_1, std::placeholders::_2)
-            );
-        }
+        WriteNext();
     }
 }
 
-- 
2.43.0


From 9d4f38cfca5ae9e5e445da7bb3718d89f4c590a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:52 +0000
Subject: [PATCH 128/128] fix: refuse the handshake of a peer with another
 genesis block

---
 src/P2P/Seed/HandShake.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/P2P/Seed/HandShake.cpp b/src/P2P/Seed/HandShake.cpp
index 7bc9438..f4eea34 100644
--- a/src/P2P/Seed/HandShake.cpp
+++ b/src/P2P/Seed/HandShake.cpp
@@ -45,6 +45,10 @@ void HandShake::PerformOutboundHandshake(const Socket::Ptr& pSocket, ConnectedPe
     ByteBuffer buffer(pReceived->GetPayload());
     ShakeMessage shakeMessage = ShakeMessage::Deserialize(buffer);
 
+    if (shakeMessage.GetHash() != Global::GetGenesisHash()) {
+        throw PROTOCOL_EXCEPTION("Peer is on a different network");
+    }
+
     uint32_t version = (std::min)(P2P::PROTOCOL_VERSION, shakeMessage.GetVersion());
     connectedPeer.UpdateVersion(version);
     connectedPeer.UpdateCapabilities(shakeMessage.GetCapabilities());
@@ -71,6 +75,10 @@ void HandShake::PerformInboundHandshake(const Socket::Ptr& pSocket, ConnectedPee
         throw PROTOCOL_EXCEPTION("Connected to self");
     }
 
+    if (hand_message.GetHash() != Global::GetGenesisHash()) {
+        throw PROTOCOL_EXCEPTION("Peer is on a different network");
+    }
+
     if (m_connectionManager.IsConnected(connectedPeer.GetIPAddress())) {
         throw PROTOCOL_EXCEPTION("Already connected to peer");
     }
-- 
2.43.0

