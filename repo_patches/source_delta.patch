From ca27f3bf5967a31fa37411f586187542d3c40a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:42 +0000
Subject: [PATCH 001/135] fix: CpuDetect copies eight feature bytes, not
 sixteen, out of the cpuid registers

---
 CEX/CpuDetect.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CEX/CpuDetect.cpp b/CEX/CpuDetect.cpp
index d538032..57862b5 100644
--- a/CEX/CpuDetect.cpp
+++ b/CEX/CpuDetect.cpp
@@ -445,7 +445,7 @@ void CpuDetect::Initialize()
 		m_physCores = (m_hyperThread == true && m_virtCores > 1) ? (m_virtCores / 2) : m_virtCores;
 		m_logicalPerCore = (m_virtCores > m_physCores) ? (m_virtCores / m_physCores) : 1;
 		// f1 ecx, edx
-		std::memcpy(&m_x86CpuFlags[0], &cpuInfo[2], 2 * sizeof(uint64_t));
+		std::memcpy(&m_x86CpuFlags[0], &cpuInfo[2], 2 * sizeof(uint32_t));
 
 		if (m_cpuVendor == CpuVendors::INTEL)
 		{
@@ -457,7 +457,7 @@ void CpuDetect::Initialize()
 			std::memset(cpuInfo.data(), 0, 16);
 			CpuidSublevel(7, 0, cpuInfo);
 			// f7 ebx, ecx
-			std::memcpy(&m_x86CpuFlags[2], &cpuInfo[1], 2 * sizeof(uint64_t));
+			std::memcpy(&m_x86CpuFlags[2], &cpuInfo[1], 2 * sizeof(uint32_t));
 		}
 
 		if (SUBLVL >= 5)
@@ -473,7 +473,7 @@ void CpuDetect::Initialize()
 			std::memset(cpuInfo.data(), 0, 16);
 			Cpuid(0x80000001UL, cpuInfo);
 			// f8..1 ecx, edx
-			std::memcpy(&m_x86CpuFlags[4], &cpuInfo[2], 2 * sizeof(uint64_t));
+			std::memcpy(&m_x86CpuFlags[4], &cpuInfo[2], 2 * sizeof(uint32_t));
 			StoreTopology();
 		}
 	}
-- 
2.43.0


From b42e5f7d95e6700a1c938a07f46f9ffde3d6fa43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:42 +0000
Subject: [PATCH 002/135] fix: keyed BLAKE2 mixes the salt and the
 personalisation into the state

---
 CEX/Blake256.cpp | 11 +++++++----
 CEX/Blake512.cpp | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/CEX/Blake256.cpp b/CEX/Blake256.cpp
index e16a007..03930c6 100644
--- a/CEX/Blake256.cpp
+++ b/CEX/Blake256.cpp
@@ -297,6 +297,7 @@ void Blake256::Initialize(Cipher::ISymmetricKey &MacKey)
 	}
 
 	std::vector<uint32_t> config(CONFIG_SIZE);
+	std::vector<uint32_t> custom(CONFIG_SIZE);
 	size_t i;
 
 	if (MacKey.IV().size() != 0)
@@ -306,8 +307,8 @@ void Blake256::Initialize(Cipher::ISymmetricKey &MacKey)
 			throw CryptoDigestException(Name(), std::string("Initialize"), std::string("Salt has invalid length!"), ErrorCodes::InvalidNonce);
 		}
 
-		config[4] = IntegerTools::LeBytesTo32(MacKey.IV(), 0);
-		config[5] = IntegerTools::LeBytesTo32(MacKey.IV(), 4);
+		custom[4] = IntegerTools::LeBytesTo32(MacKey.IV(), 0);
+		custom[5] = IntegerTools::LeBytesTo32(MacKey.IV(), 4);
 	}
 
 	if (MacKey.Info().size() != 0)
@@ -317,8 +318,8 @@ void Blake256::Initialize(Cipher::ISymmetricKey &MacKey)
 			throw CryptoDigestException(Name(), std::string("Initialize"), std::string("Info has invalid length"), ErrorCodes::InvalidInfo);
 		}
 
-		config[6] = IntegerTools::LeBytesTo32(MacKey.Info(), 0);
-		config[7] = IntegerTools::LeBytesTo32(MacKey.Info(), 4);
+		custom[6] = IntegerTools::LeBytesTo32(MacKey.Info(), 0);
+		custom[7] = IntegerTools::LeBytesTo32(MacKey.Info(), 4);
 	}
 
 	std::vector<uint8_t> mkey(Blake::BLAKE256_RATE_SIZE, 0x00);
@@ -333,6 +334,7 @@ void Blake256::Initialize(Cipher::ISymmetricKey &MacKey)
 			MemoryTools::Copy(mkey, 0, m_msgBuffer, i * Blake::BLAKE256_RATE_SIZE, mkey.size());
 			m_treeParams.NodeOffset() = static_cast<uint8_t>(i);
 			LoadState( m_treeParams, config, m_dgtState[i]);
+			MemoryTools::XOR256(custom, 0, m_dgtState[i].H, 0);
 		}
 		m_msgLength = m_parallelProfile.ParallelMinimumSize();
 		m_treeParams.NodeOffset() = 0;
@@ -342,6 +344,7 @@ void Blake256::Initialize(Cipher::ISymmetricKey &MacKey)
 		MemoryTools::Copy(mkey, 0, m_msgBuffer, 0, mkey.size());
 		m_msgLength = Blake::BLAKE256_RATE_SIZE;
 		LoadState(m_treeParams, config, m_dgtState[0]);
+		MemoryTools::XOR256(custom, 0, m_dgtState[0].H, 0);
 	}
 }
 
diff --git a/CEX/Blake512.cpp b/CEX/Blake512.cpp
index 067c8ef..e7261a0 100644
--- a/CEX/Blake512.cpp
+++ b/CEX/Blake512.cpp
@@ -299,6 +299,7 @@ void Blake512::Initialize(Cipher::ISymmetricKey &MacKey)
 	}
 
 	std::vector<uint64_t> config(CONFIG_SIZE);
+	std::vector<uint64_t> custom(CONFIG_SIZE);
 
 	if (MacKey.IV().size() != 0)
 	{
@@ -307,8 +308,8 @@ void Blake512::Initialize(Cipher::ISymmetricKey &MacKey)
 			throw CryptoDigestException(Name(), std::string("Initialize"), std::string("Salt has invalid length!"), ErrorCodes::InvalidNonce);
 		}
 
-		config[4] = IntegerTools::LeBytesTo64(MacKey.IV(), 0);
-		config[5] = IntegerTools::LeBytesTo64(MacKey.IV(), 8);
+		custom[4] = IntegerTools::LeBytesTo64(MacKey.IV(), 0);
+		custom[5] = IntegerTools::LeBytesTo64(MacKey.IV(), 8);
 	}
 
 	if (MacKey.Info().size() != 0)
@@ -318,8 +319,8 @@ void Blake512::Initialize(Cipher::ISymmetricKey &MacKey)
 			throw CryptoDigestException(Name(), std::string("Initialize"), std::string("Info has invalid length"), ErrorCodes::InvalidInfo);
 		}
 
-		config[6] = IntegerTools::LeBytesTo64(MacKey.Info(), 0);
-		config[7] = IntegerTools::LeBytesTo64(MacKey.Info(), 8);
+		custom[6] = IntegerTools::LeBytesTo64(MacKey.Info(), 0);
+		custom[7] = IntegerTools::LeBytesTo64(MacKey.Info(), 8);
 	}
 
 	std::vector<uint8_t> mkey(Blake::BLAKE512_RATE_SIZE, 0);
@@ -334,6 +335,7 @@ void Blake512::Initialize(Cipher::ISymmetricKey &MacKey)
 			MemoryTools::Copy(mkey, 0, m_msgBuffer, i * Blake::BLAKE512_RATE_SIZE, mkey.size());
 			m_treeParams.NodeOffset() = static_cast<uint8_t>(i);
 			LoadState(m_dgtState[i], m_treeParams, config);
+			MemoryTools::XOR512(custom, 0, m_dgtState[i].H, 0);
 		}
 		m_msgLength = m_parallelProfile.ParallelMinimumSize();
 		m_treeParams.NodeOffset() = 0;
@@ -343,6 +345,7 @@ void Blake512::Initialize(Cipher::ISymmetricKey &MacKey)
 		MemoryTools::Copy(mkey, 0, m_msgBuffer, 0, mkey.size());
 		m_msgLength = Blake::BLAKE512_RATE_SIZE;
 		LoadState(m_dgtState[0], m_treeParams, config);
+		MemoryTools::XOR512(custom, 0, m_dgtState[0].H, 0);
 	}
 }
 
-- 
2.43.0


From 814430f06d8088bcd410636ca7194cb60ea88323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:42 +0000
Subject: [PATCH 003/135] fix: a tree hash keeps its fan-out on machines with
 fewer cores than leaves

---
 CEX/Blake256.cpp  | 12 ++++++++++++
 CEX/Blake512.cpp  | 12 ++++++++++++
 CEX/SHA2256.cpp   | 12 ++++++++++++
 CEX/SHA2512.cpp   | 12 ++++++++++++
 CEX/SHA3256.cpp   | 14 +++++++++++++-
 CEX/SHA3512.cpp   | 14 +++++++++++++-
 CEX/Skein1024.cpp | 12 ++++++++++++
 CEX/Skein256.cpp  | 12 ++++++++++++
 CEX/Skein512.cpp  | 12 ++++++++++++
 9 files changed, 110 insertions(+), 2 deletions(-)

diff --git a/CEX/Blake256.cpp b/CEX/Blake256.cpp
index 03930c6..7d1e428 100644
--- a/CEX/Blake256.cpp
+++ b/CEX/Blake256.cpp
@@ -58,6 +58,12 @@ Blake256::Blake256(bool Parallel)
 		throw CryptoDigestException(DigestConvert::ToName(Digests::Blake256), std::string("Constructor"), std::string("This cpu does not support parallel processing!"), ErrorCodes::InvalidParam);
 	}
 
+	if (m_treeParams.FanOut() > 1)
+	{
+		// the fan-out is part of the function, it can not follow the processor count
+		m_parallelProfile.SetMaxDegree(m_treeParams.FanOut());
+	}
+
 	Reset();
 }
 
@@ -90,6 +96,12 @@ Blake256::Blake256(BlakeParams &Params)
 		m_treeParams = BlakeParams(static_cast<uint8_t>(Blake::BLAKE256_DIGEST_SIZE), 0, 1, 1, 0, 0, 0, 0, Params.DistributionCode());
 	}
 
+	if (m_treeParams.FanOut() > 1)
+	{
+		// the fan-out is part of the function, it can not follow the processor count
+		m_parallelProfile.SetMaxDegree(m_treeParams.FanOut());
+	}
+
 	Reset();
 }
 
diff --git a/CEX/Blake512.cpp b/CEX/Blake512.cpp
index e7261a0..1e7a02f 100644
--- a/CEX/Blake512.cpp
+++ b/CEX/Blake512.cpp
@@ -60,6 +60,12 @@ Blake512::Blake512(bool Parallel)
 		throw CryptoDigestException(DigestConvert::ToName(Digests::Blake512), std::string("Constructor"), std::string("This cpu does not support parallel processing!"), ErrorCodes::InvalidParam);
 	}
 
+	if (m_treeParams.FanOut() > 1)
+	{
+		// the fan-out is part of the function, it can not follow the processor count
+		m_parallelProfile.SetMaxDegree(m_treeParams.FanOut());
+	}
+
 	Reset();
 }
 
@@ -94,6 +100,12 @@ Blake512::Blake512(BlakeParams &Params)
 		m_treeParams = BlakeParams(static_cast<uint8_t>(Blake::BLAKE512_DIGEST_SIZE));
 	}
 
+	if (m_treeParams.FanOut() > 1)
+	{
+		// the fan-out is part of the function, it can not follow the processor count
+		m_parallelProfile.SetMaxDegree(m_treeParams.FanOut());
+	}
+
 	Reset();
 }
 
diff --git a/CEX/SHA2256.cpp b/CEX/SHA2256.cpp
index 024c3da..542f79a 100644
--- a/CEX/SHA2256.cpp
+++ b/CEX/SHA2256.cpp
@@ -59,6 +59,12 @@ SHA2256::SHA2256(bool Parallel)
 		SHA2Params(SHA2::SHA2256_DIGEST_SIZE, static_cast<uint8_t>(SHA2::SHA2256_RATE_SIZE), static_cast<uint8_t>(DEF_PRLDEGREE)) :
 		SHA2Params(SHA2::SHA2256_DIGEST_SIZE, 0UL, 0x00))
 {
+	if (m_parallelProfile.IsParallel())
+	{
+		// the fan-out is part of the function, it can not follow the processor count
+		m_parallelProfile.SetMaxDegree(m_treeParams.FanOut());
+	}
+
 	Reset();
 }
 
@@ -72,6 +78,12 @@ SHA2256::SHA2256(SHA2Params &Params)
 	m_parallelProfile(SHA2::SHA2256_RATE_SIZE, static_cast<bool>(Params.FanOut() > 1), false, STATE_PRECACHED, false, Params.FanOut()),
 	m_treeParams(Params)
 {
+	if (m_parallelProfile.IsParallel())
+	{
+		// the fan-out is part of the function, it can not follow the processor count
+		m_parallelProfile.SetMaxDegree(m_treeParams.FanOut());
+	}
+
 	Reset();
 }
 
diff --git a/CEX/SHA2512.cpp b/CEX/SHA2512.cpp
index e988939..f0b6784 100644
--- a/CEX/SHA2512.cpp
+++ b/CEX/SHA2512.cpp
@@ -62,6 +62,12 @@ SHA2512::SHA2512(bool Parallel)
 	m_treeParams(Parallel ? SHA2Params(SHA2::SHA2512_DIGEST_SIZE, static_cast<uint8_t>(SHA2::SHA2512_RATE_SIZE), static_cast<uint8_t>(DEF_PRLDEGREE)) :
 		SHA2Params(SHA2::SHA2512_DIGEST_SIZE, 0UL, 0x00))
 {
+	if (m_parallelProfile.IsParallel())
+	{
+		// the fan-out is part of the function, it can not follow the processor count
+		m_parallelProfile.SetMaxDegree(m_treeParams.FanOut());
+	}
+
 	Reset();
 }
 
@@ -75,6 +81,12 @@ SHA2512::SHA2512(SHA2Params &Params)
 	m_parallelProfile(SHA2::SHA2512_RATE_SIZE, static_cast<bool>(Params.FanOut() > 1), false, STATE_PRECACHED, false, Params.FanOut()),
 	m_treeParams(Params)
 {
+	if (m_parallelProfile.IsParallel())
+	{
+		// the fan-out is part of the function, it can not follow the processor count
+		m_parallelProfile.SetMaxDegree(m_treeParams.FanOut());
+	}
+
 	Reset();
 }
 
diff --git a/CEX/SHA3256.cpp b/CEX/SHA3256.cpp
index 2ce4ef9..d4eba4f 100644
--- a/CEX/SHA3256.cpp
+++ b/CEX/SHA3256.cpp
@@ -45,9 +45,15 @@ SHA3256::SHA3256(bool Parallel)
 	m_msgLength(0),
 	m_parallelProfile(Keccak::KECCAK256_RATE_SIZE, Parallel, false, STATE_PRECACHED, false, DEF_PRLDEGREE),
 	m_treeParams(Parallel ? 
-		KeccakParams(Keccak::KECCAK256_DIGEST_SIZE, static_cast<uint8_t>(Keccak::KECCAK256_RATE_SIZE), static_cast<uint8_t>(m_parallelProfile.ParallelMaxDegree())) :
+		KeccakParams(Keccak::KECCAK256_DIGEST_SIZE, static_cast<uint8_t>(Keccak::KECCAK256_RATE_SIZE), static_cast<uint8_t>(DEF_PRLDEGREE)) :
 		KeccakParams(Keccak::KECCAK256_DIGEST_SIZE, 0x00, 0x00))
 {
+	if (m_parallelProfile.IsParallel())
+	{
+		// the fan-out is part of the function, it can not follow the processor count
+		m_parallelProfile.SetMaxDegree(m_treeParams.FanOut());
+	}
+
 	Reset();
 }
 
@@ -61,6 +67,12 @@ SHA3256::SHA3256(KeccakParams &Params)
 	m_parallelProfile(Keccak::KECCAK256_RATE_SIZE, static_cast<bool>(Params.FanOut() > 1), false, STATE_PRECACHED, false, Params.FanOut()),
 	m_treeParams(Params)
 {
+	if (m_parallelProfile.IsParallel())
+	{
+		// the fan-out is part of the function, it can not follow the processor count
+		m_parallelProfile.SetMaxDegree(m_treeParams.FanOut());
+	}
+
 	Reset();
 }
 
diff --git a/CEX/SHA3512.cpp b/CEX/SHA3512.cpp
index 430b0eb..a1fe028 100644
--- a/CEX/SHA3512.cpp
+++ b/CEX/SHA3512.cpp
@@ -45,9 +45,15 @@ SHA3512::SHA3512(bool Parallel)
 	m_msgLength(0),
 	m_parallelProfile(Keccak::KECCAK512_RATE_SIZE, Parallel, false, STATE_PRECACHED, false, DEF_PRLDEGREE),
 	m_treeParams(Parallel ? 
-		KeccakParams(Keccak::KECCAK512_DIGEST_SIZE, static_cast<uint8_t>(Keccak::KECCAK512_RATE_SIZE), static_cast<uint8_t>(m_parallelProfile.ParallelMaxDegree())) :
+		KeccakParams(Keccak::KECCAK512_DIGEST_SIZE, static_cast<uint8_t>(Keccak::KECCAK512_RATE_SIZE), static_cast<uint8_t>(DEF_PRLDEGREE)) :
 		KeccakParams(Keccak::KECCAK512_DIGEST_SIZE, 0x00, 0x00))
 {
+	if (m_parallelProfile.IsParallel())
+	{
+		// the fan-out is part of the function, it can not follow the processor count
+		m_parallelProfile.SetMaxDegree(m_treeParams.FanOut());
+	}
+
 	Reset();
 }
 
@@ -61,6 +67,12 @@ SHA3512::SHA3512(KeccakParams &Params)
 	m_parallelProfile(Keccak::KECCAK512_RATE_SIZE, static_cast<bool>(Params.FanOut() > 1), false, STATE_PRECACHED, false, Params.FanOut()),
 	m_treeParams(Params)
 {
+	if (m_parallelProfile.IsParallel())
+	{
+		// the fan-out is part of the function, it can not follow the processor count
+		m_parallelProfile.SetMaxDegree(m_treeParams.FanOut());
+	}
+
 	Reset();
 }
 
diff --git a/CEX/Skein1024.cpp b/CEX/Skein1024.cpp
index 1472efd..be49fb8 100644
--- a/CEX/Skein1024.cpp
+++ b/CEX/Skein1024.cpp
@@ -60,6 +60,12 @@ Skein1024::Skein1024(bool Parallel)
 		SkeinParams(Skein::SKEIN1024_DIGEST_SIZE, static_cast<uint8_t>(Skein::SKEIN1024_RATE_SIZE), static_cast<uint8_t>(DEF_PRLDEGREE)) :
 		SkeinParams(Skein::SKEIN1024_DIGEST_SIZE, 0x00, 0x00))
 {
+	if (m_parallelProfile.IsParallel())
+	{
+		// the fan-out is part of the function, it can not follow the processor count
+		m_parallelProfile.SetMaxDegree(m_treeParams.FanOut());
+	}
+
 	Initialize(m_dgtState, m_treeParams);
 }
 
@@ -73,6 +79,12 @@ Skein1024::Skein1024(SkeinParams &Params)
 	m_parallelProfile(Skein::SKEIN1024_RATE_SIZE, static_cast<bool>(Params.FanOut() > 1), false, STATE_PRECACHED, false, Params.FanOut()),
 	m_treeParams(Params)
 {
+	if (m_parallelProfile.IsParallel())
+	{
+		// the fan-out is part of the function, it can not follow the processor count
+		m_parallelProfile.SetMaxDegree(m_treeParams.FanOut());
+	}
+
 	Initialize(m_dgtState, m_treeParams);
 }
 
diff --git a/CEX/Skein256.cpp b/CEX/Skein256.cpp
index c46e84d..852a5f7 100644
--- a/CEX/Skein256.cpp
+++ b/CEX/Skein256.cpp
@@ -59,6 +59,12 @@ Skein256::Skein256(bool Parallel)
 		SkeinParams(Skein::SKEIN256_DIGEST_SIZE, static_cast<uint8_t>(Skein::SKEIN256_RATE_SIZE), static_cast<uint8_t>(DEF_PRLDEGREE)) :
 		SkeinParams(Skein::SKEIN256_DIGEST_SIZE, 0x00, 0x00))
 {
+	if (m_parallelProfile.IsParallel())
+	{
+		// the fan-out is part of the function, it can not follow the processor count
+		m_parallelProfile.SetMaxDegree(m_treeParams.FanOut());
+	}
+
 	Initialize(m_dgtState, m_treeParams);
 }
 
@@ -72,6 +78,12 @@ Skein256::Skein256(SkeinParams &Params)
 	m_parallelProfile(Skein::SKEIN256_RATE_SIZE, static_cast<bool>(Params.FanOut() > 1), false, STATE_PRECACHED, false, Params.FanOut()),
 	m_treeParams(Params)
 {
+	if (m_parallelProfile.IsParallel())
+	{
+		// the fan-out is part of the function, it can not follow the processor count
+		m_parallelProfile.SetMaxDegree(m_treeParams.FanOut());
+	}
+
 	Initialize(m_dgtState, m_treeParams);
 }
 
diff --git a/CEX/Skein512.cpp b/CEX/Skein512.cpp
index 74ebd39..7e53d02 100644
--- a/CEX/Skein512.cpp
+++ b/CEX/Skein512.cpp
@@ -60,6 +60,12 @@ Skein512::Skein512(bool Parallel)
 		SkeinParams(Skein::SKEIN512_DIGEST_SIZE, static_cast<uint8_t>(Skein::SKEIN512_RATE_SIZE), static_cast<uint8_t>(DEF_PRLDEGREE)) : 
 		SkeinParams(Skein::SKEIN512_DIGEST_SIZE, 0x00, 0x00))
 {
+	if (m_parallelProfile.IsParallel())
+	{
+		// the fan-out is part of the function, it can not follow the processor count
+		m_parallelProfile.SetMaxDegree(m_treeParams.FanOut());
+	}
+
 	Initialize(m_dgtState, m_treeParams);
 }
 
@@ -73,6 +79,12 @@ Skein512::Skein512(SkeinParams &Params)
 	m_parallelProfile(Skein::SKEIN512_RATE_SIZE, static_cast<bool>(Params.FanOut() > 1), false, STATE_PRECACHED, false, Params.FanOut()),
 	m_treeParams(Params)
 {
+	if (m_parallelProfile.IsParallel())
+	{
+		// the fan-out is part of the function, it can not follow the processor count
+		m_parallelProfile.SetMaxDegree(m_treeParams.FanOut());
+	}
+
 	Initialize(m_dgtState, m_treeParams);
 }
 
-- 
2.43.0


From 832550ecf91388977466716b533eec5964ba751e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:42 +0000
Subject: [PATCH 004/135] fix: SHA3 ParallelMaxDegree and the Skein parameter
 constructors size their lanes and buffers to the fan-out

---
 CEX/SHA3256.cpp   | 8 ++++++++
 CEX/SHA3512.cpp   | 8 ++++++++
 CEX/Skein1024.cpp | 2 +-
 CEX/Skein512.cpp  | 2 +-
 4 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/CEX/SHA3256.cpp b/CEX/SHA3256.cpp
index d4eba4f..0a19e9f 100644
--- a/CEX/SHA3256.cpp
+++ b/CEX/SHA3256.cpp
@@ -229,6 +229,14 @@ void SHA3256::ParallelMaxDegree(size_t Degree)
 
 	m_parallelProfile.SetMaxDegree(Degree);
 
+	if (m_parallelProfile.IsParallel())
+	{
+		m_dgtState.clear();
+		m_dgtState.resize(Degree);
+		m_msgBuffer.clear();
+		m_msgBuffer.resize(Degree * Keccak::KECCAK256_RATE_SIZE);
+	}
+
 	Reset();
 }
 
diff --git a/CEX/SHA3512.cpp b/CEX/SHA3512.cpp
index a1fe028..66ccc74 100644
--- a/CEX/SHA3512.cpp
+++ b/CEX/SHA3512.cpp
@@ -229,6 +229,14 @@ void SHA3512::ParallelMaxDegree(size_t Degree)
 
 	m_parallelProfile.SetMaxDegree(Degree);
 
+	if (m_parallelProfile.IsParallel())
+	{
+		m_dgtState.clear();
+		m_dgtState.resize(Degree);
+		m_msgBuffer.clear();
+		m_msgBuffer.resize(Degree * Keccak::KECCAK512_RATE_SIZE);
+	}
+
 	Reset();
 }
 
diff --git a/CEX/Skein1024.cpp b/CEX/Skein1024.cpp
index be49fb8..52b486f 100644
--- a/CEX/Skein1024.cpp
+++ b/CEX/Skein1024.cpp
@@ -74,7 +74,7 @@ Skein1024::Skein1024(SkeinParams &Params)
 	m_dgtState(Params.FanOut() != 0 && Params.FanOut() <= MAX_PRLDEGREE ? 
 		Params.FanOut() :
 		throw CryptoDigestException(DigestConvert::ToName(Digests::Skein1024), std::string("Constructor"), std::string("The FanOut parameter can not be zero or exceed the maximum of 64!"), ErrorCodes::IllegalOperation)),
-	m_msgBuffer(Skein::SKEIN1024_RATE_SIZE),
+	m_msgBuffer(Params.FanOut() * Skein::SKEIN1024_RATE_SIZE),
 	m_msgLength(0),
 	m_parallelProfile(Skein::SKEIN1024_RATE_SIZE, static_cast<bool>(Params.FanOut() > 1), false, STATE_PRECACHED, false, Params.FanOut()),
 	m_treeParams(Params)
diff --git a/CEX/Skein512.cpp b/CEX/Skein512.cpp
index 7e53d02..4552c06 100644
--- a/CEX/Skein512.cpp
+++ b/CEX/Skein512.cpp
@@ -74,7 +74,7 @@ Skein512::Skein512(SkeinParams &Params)
 	m_dgtState(Params.FanOut() != 0 && Params.FanOut() <= MAX_PRLDEGREE ? 
 		Params.FanOut() :
 		throw CryptoDigestException(DigestConvert::ToName(Digests::Skein512), std::string("Constructor"), std::string("The FanOut parameter can not be zero or exceed the maximum of 64!"), ErrorCodes::IllegalOperation)),
-	m_msgBuffer(Skein::SKEIN512_RATE_SIZE),
+	m_msgBuffer(Params.FanOut() * Skein::SKEIN512_RATE_SIZE),
 	m_msgLength(0),
 	m_parallelProfile(Skein::SKEIN512_RATE_SIZE, static_cast<bool>(Params.FanOut() > 1), false, STATE_PRECACHED, false, Params.FanOut()),
 	m_treeParams(Params)
-- 
2.43.0


From fabb50c803967534cac81873c9a712e159d2a58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:42 +0000
Subject: [PATCH 005/135] fix: parallel SHA2 hashes the code of every leaf, and
 pads the leaf it finalizes

---
 CEX/SHA2256.cpp | 4 ++--
 CEX/SHA2512.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/CEX/SHA2256.cpp b/CEX/SHA2256.cpp
index 542f79a..74f9719 100644
--- a/CEX/SHA2256.cpp
+++ b/CEX/SHA2256.cpp
@@ -195,7 +195,7 @@ void SHA2256::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 		// add state blocks as contiguous message input
 		for (i = 0; i < m_dgtState.size(); ++i)
 		{
-			IntegerTools::BeUL256ToBlock(m_dgtState[i].H, 0, m_msgBuffer, i * SHA2::SHA2256_RATE_SIZE);
+			IntegerTools::BeUL256ToBlock(m_dgtState[i].H, 0, m_msgBuffer, i * SHA2::SHA2256_DIGEST_SIZE);
 			m_msgLength += SHA2::SHA2256_DIGEST_SIZE;
 		}
 
@@ -399,7 +399,7 @@ void SHA2256::HashFinal(std::vector<uint8_t> &Input, size_t InOffset, size_t Len
 	if (Length > 56)
 	{
 		Permute(Input, InOffset, State);
-		MemoryTools::Clear(Input, 0, SHA2::SHA2256_RATE_SIZE);
+		MemoryTools::Clear(Input, InOffset, SHA2::SHA2256_RATE_SIZE);
 	}
 
 	// finalize state with counter and last compression
diff --git a/CEX/SHA2512.cpp b/CEX/SHA2512.cpp
index f0b6784..ff05beb 100644
--- a/CEX/SHA2512.cpp
+++ b/CEX/SHA2512.cpp
@@ -198,7 +198,7 @@ void SHA2512::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 		// add state blocks as contiguous message input
 		for (i = 0; i < m_dgtState.size(); ++i)
 		{
-			IntegerTools::BeULL512ToBlock(m_dgtState[i].H, 0, m_msgBuffer, i * SHA2::SHA2512_RATE_SIZE);
+			IntegerTools::BeULL512ToBlock(m_dgtState[i].H, 0, m_msgBuffer, i * SHA2::SHA2512_DIGEST_SIZE);
 			m_msgLength += SHA2::SHA2512_DIGEST_SIZE;
 		}
 
-- 
2.43.0


From a5938b39e29487b7e31d81f2611431d21b7afa48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:42 +0000
Subject: [PATCH 006/135] fix: parallel BLAKE2 processes the whole message
 buffer, counts leaf blocks, and honours the output offset

---
 CEX/Blake256.cpp | 7 +++++--
 CEX/Blake512.cpp | 9 ++++++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/CEX/Blake256.cpp b/CEX/Blake256.cpp
index 7d1e428..119abca 100644
--- a/CEX/Blake256.cpp
+++ b/CEX/Blake256.cpp
@@ -247,7 +247,7 @@ void Blake256::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 
 			IntegerTools::LeIncreaseW(m_dgtState[i].T, m_dgtState[i].T, blen);
 			Permute(m_msgBuffer, i * Blake::BLAKE256_RATE_SIZE, m_dgtState[i]);
-			m_msgLength -= Blake::BLAKE256_RATE_SIZE;
+			m_msgLength -= IntegerTools::Min(m_msgLength, static_cast<size_t>(Blake::BLAKE256_RATE_SIZE));
 
 			IntegerTools::LeUL256ToBlock(m_dgtState[i].H, 0, codes, i * Blake::BLAKE256_DIGEST_SIZE);
 		}
@@ -371,7 +371,7 @@ void Blake256::ParallelMaxDegree(size_t Degree)
 	m_dgtState.clear();
 	m_dgtState.resize(Degree);
 	m_msgBuffer.clear();
-	m_msgBuffer.resize(Degree * Blake::BLAKE256_RATE_SIZE);
+	m_msgBuffer.resize(2UL * Degree * Blake::BLAKE256_RATE_SIZE);
 
 	if (Degree > 1 && m_parallelProfile.ProcessorCount() > 1)
 	{
@@ -468,6 +468,8 @@ void Blake256::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t
 				{
 					IntegerTools::LeIncreaseW(m_dgtState[i].T, m_dgtState[i].T, Blake::BLAKE256_RATE_SIZE);
 					Permute(m_msgBuffer, i * Blake::BLAKE256_RATE_SIZE, m_dgtState[i]);
+					IntegerTools::LeIncreaseW(m_dgtState[i].T, m_dgtState[i].T, Blake::BLAKE256_RATE_SIZE);
+					Permute(m_msgBuffer, (m_msgBuffer.size() / 2) + (i * Blake::BLAKE256_RATE_SIZE), m_dgtState[i]);
 				});
 
 				// loop in the remainder (no buffering)
@@ -595,6 +597,7 @@ void Blake256::ProcessLeaf(const std::vector<uint8_t> &Input, size_t InOffset, s
 {
 	do
 	{
+		IntegerTools::LeIncreaseW(State.T, State.T, Blake::BLAKE256_RATE_SIZE);
 		Permute(Input, InOffset, State);
 		InOffset += m_parallelProfile.ParallelMinimumSize();
 		Length -= m_parallelProfile.ParallelMinimumSize();
diff --git a/CEX/Blake512.cpp b/CEX/Blake512.cpp
index 1e7a02f..5354232 100644
--- a/CEX/Blake512.cpp
+++ b/CEX/Blake512.cpp
@@ -249,7 +249,7 @@ void Blake512::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 
 			IntegerTools::LeIncreaseW(m_dgtState[i].T, m_dgtState[i].T, blen);
 			Permute(m_msgBuffer, i * Blake::BLAKE512_RATE_SIZE, m_dgtState[i]);
-			m_msgLength -= Blake::BLAKE512_RATE_SIZE;
+			m_msgLength -= IntegerTools::Min(m_msgLength, static_cast<size_t>(Blake::BLAKE512_RATE_SIZE));
 			IntegerTools::LeULL512ToBlock(m_dgtState[i].H, 0, codes, i * Blake::BLAKE512_DIGEST_SIZE);
 		}
 
@@ -282,7 +282,7 @@ void Blake512::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 		IntegerTools::LeIncreaseW(m_dgtState[0].T, m_dgtState[0].T, Blake::BLAKE512_RATE_SIZE);
 		Permute(m_msgBuffer, m_msgLength - Blake::BLAKE512_RATE_SIZE, m_dgtState[0]);
 		// output the code
-		IntegerTools::LeULL512ToBlock(m_dgtState[0].H, 0, Output, 0);
+		IntegerTools::LeULL512ToBlock(m_dgtState[0].H, 0, Output, OutOffset);
 	}
 	else
 	{
@@ -372,7 +372,7 @@ void Blake512::ParallelMaxDegree(size_t Degree)
 	m_dgtState.clear();
 	m_dgtState.resize(Degree);
 	m_msgBuffer.clear();
-	m_msgBuffer.resize(Degree * Blake::BLAKE512_RATE_SIZE);
+	m_msgBuffer.resize(2UL * Degree * Blake::BLAKE512_RATE_SIZE);
 
 	if (Degree > 1 && m_parallelProfile.ProcessorCount() > 1)
 	{
@@ -469,6 +469,8 @@ void Blake512::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t
 				{
 					IntegerTools::LeIncreaseW(m_dgtState[i].T, m_dgtState[i].T, Blake::BLAKE512_RATE_SIZE);
 					Permute(m_msgBuffer, i * Blake::BLAKE512_RATE_SIZE, m_dgtState[i]);
+					IntegerTools::LeIncreaseW(m_dgtState[i].T, m_dgtState[i].T, Blake::BLAKE512_RATE_SIZE);
+					Permute(m_msgBuffer, (m_msgBuffer.size() / 2) + (i * Blake::BLAKE512_RATE_SIZE), m_dgtState[i]);
 				});
 
 				// loop in the remainder (no buffering)
@@ -596,6 +598,7 @@ void Blake512::ProcessLeaf(const std::vector<uint8_t> &Input, size_t InOffset, u
 {
 	do
 	{
+		IntegerTools::LeIncreaseW(State.T, State.T, Blake::BLAKE512_RATE_SIZE);
 		Permute(Input, InOffset, State);
 		InOffset += m_parallelProfile.ParallelMinimumSize();
 		Length -= m_parallelProfile.ParallelMinimumSize();
-- 
2.43.0


From 3ebff6b5e60245191d30be466e4894f8d9e9706a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:46 +0000
Subject: [PATCH 007/135] fix: KMAC absorbs a length encoding that overflows
 the rate block

---
 CEX/KMAC.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/CEX/KMAC.cpp b/CEX/KMAC.cpp
index e82c5c1..4ee28c4 100644
--- a/CEX/KMAC.cpp
+++ b/CEX/KMAC.cpp
@@ -162,12 +162,24 @@ size_t KMAC::Finalize(SecureVector<uint8_t> &Output, size_t OutOffset)
 	olen = Output.size() - OutOffset;
 	blen = Keccak::RightEncode(buf, 0, static_cast<uint64_t>(olen) * sizeof(uint64_t));
 
-	for (i = 0; i < blen; i++)
+	for (i = 0; i <= blen; i++)
 	{
-		m_kmacState->Buffer[m_kmacState->Position + i] = buf[i];
+		// the encoded length can run over into the next block
+		if (m_kmacState->Position == m_kmacState->Rate)
+		{
+			Keccak::FastAbsorb(m_kmacState->Buffer, 0, m_kmacState->Rate, m_kmacState->State);
+			Permute(m_kmacState);
+			MemoryTools::Clear(m_kmacState->Buffer, 0, m_kmacState->Buffer.size());
+			m_kmacState->Position = 0;
+		}
+
+		if (i < blen)
+		{
+			m_kmacState->Buffer[m_kmacState->Position] = buf[i];
+			++m_kmacState->Position;
+		}
 	}
 
-	m_kmacState->Position += blen;
 	m_kmacState->Buffer[m_kmacState->Position] = Keccak::KECCAK_KMAC_DOMAIN;
 	m_kmacState->Buffer[m_kmacState->Rate - 1] |= 128;
 
-- 
2.43.0


From fe15425ca16e708567acdef230946eb69594d02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:46 +0000
Subject: [PATCH 008/135] fix: KPA512 tag size

---
 CEX/KPA.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/KPA.cpp b/CEX/KPA.cpp
index 018104f..d7a9943 100644
--- a/CEX/KPA.cpp
+++ b/CEX/KPA.cpp
@@ -117,7 +117,7 @@ KPA::KPA(KpaModes KbaModeType)
 		0,
 		(KbaModeType == KpaModes::KPA128 ? Keccak::KECCAK128_DIGEST_SIZE :
 			KbaModeType == KpaModes::KPA256 ? Keccak::KECCAK256_DIGEST_SIZE :
-			KbaModeType == KpaModes::KPA512)),
+			Keccak::KECCAK512_DIGEST_SIZE)),
 	m_kbaState(KbaModeType != KpaModes::None ? new KpaState(BlockSize(), TagSize(), KbaModeType) :
 		throw CryptoMacException(std::string("KPA"), std::string("Constructor"), std::string("The kmac mode type is not supported!"), ErrorCodes::InvalidParam))
 {
-- 
2.43.0


From cec0f9ba4b78a4cf59b88a7b08653f726d84a7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:46 +0000
Subject: [PATCH 009/135] fix: MacFromName creates KMAC128

---
 CEX/MacFromName.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CEX/MacFromName.cpp b/CEX/MacFromName.cpp
index 383561a..cd0a2f7 100644
--- a/CEX/MacFromName.cpp
+++ b/CEX/MacFromName.cpp
@@ -93,6 +93,11 @@ IMac* MacFromName::GetInstance(Macs MacType)
 				mptr = new HMAC(SHA2Digests::SHA2512);
 				break;
 			}
+			case Macs::KMAC128:
+			{
+				mptr = new KMAC(KmacModes::KMAC128);
+				break;
+			}
 			case Macs::KMAC256:
 			{
 				mptr = new KMAC(KmacModes::KMAC256);
-- 
2.43.0


From a18db55172b1a864ab5be760676491dd14d4617e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:35 +0000
Subject: [PATCH 010/135] fix: HKDF reset keeps ownership and clears the info,
 counts a partial block, and accepts the salt it is given

---
 CEX/HKDF.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/CEX/HKDF.cpp b/CEX/HKDF.cpp
index f367503..2d6b902 100644
--- a/CEX/HKDF.cpp
+++ b/CEX/HKDF.cpp
@@ -33,8 +33,8 @@ public:
 	void Reset()
 	{
 		MemoryTools::Clear(Info, 0, Info.size());
+		Info.clear();
 		MemoryTools::Clear(State, 0, State.size());
-		IsDestroyed = false;
 		IsInitialized = false;
 	}
 };
@@ -125,7 +125,10 @@ void HKDF::Extract(const std::vector<uint8_t> &Key, const std::vector<uint8_t> &
 {
 	if (Salt.size() != 0)
 	{
-		SymmetricKey kps(Salt);
+		// a salt shorter than the minimum hmac key is zero extended, which does not change the code
+		std::vector<uint8_t> tmps(IntegerTools::Max(Salt.size(), m_hkdfGenerator->MinimumKeySize()));
+		MemoryTools::Copy(Salt, 0, tmps, 0, Salt.size());
+		SymmetricKey kps(tmps);
 		m_hkdfGenerator->Initialize(kps);
 	}
 	else
@@ -142,7 +145,10 @@ void HKDF::Extract(const SecureVector<uint8_t> &Key, const SecureVector<uint8_t>
 {
 	if (Salt.size() != 0)
 	{
-		SymmetricKey kps(Salt);
+		// a salt shorter than the minimum hmac key is zero extended, which does not change the code
+		std::vector<uint8_t> tmps(IntegerTools::Max(Salt.size(), m_hkdfGenerator->MinimumKeySize()));
+		MemoryTools::Copy(Salt, 0, tmps, 0, Salt.size());
+		SymmetricKey kps(tmps);
 		m_hkdfGenerator->Initialize(kps);
 	}
 	else
@@ -161,7 +167,7 @@ void HKDF::Generate(std::vector<uint8_t> &Output)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + (Output.size() / m_hkdfGenerator->TagSize()) > MAXGEN_REQUESTS)
+	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + ((Output.size() + m_hkdfGenerator->TagSize() - 1) / m_hkdfGenerator->TagSize()) > MAXGEN_REQUESTS)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("Request exceeds maximum allowed output!"), ErrorCodes::MaxExceeded);
 	}
@@ -175,7 +181,7 @@ void HKDF::Generate(SecureVector<uint8_t> &Output)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + (Output.size() / m_hkdfGenerator->TagSize()) > MAXGEN_REQUESTS)
+	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + ((Output.size() + m_hkdfGenerator->TagSize() - 1) / m_hkdfGenerator->TagSize()) > MAXGEN_REQUESTS)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("Request exceeds maximum allowed output!"), ErrorCodes::MaxExceeded);
 	}
@@ -189,7 +195,7 @@ void HKDF::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Lengt
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + (Length / m_hkdfGenerator->TagSize()) > MAXGEN_REQUESTS)
+	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + ((Length + m_hkdfGenerator->TagSize() - 1) / m_hkdfGenerator->TagSize()) > MAXGEN_REQUESTS)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("Request exceeds maximum allowed output!"), ErrorCodes::MaxExceeded);
 	}
@@ -207,7 +213,7 @@ void HKDF::Generate(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Leng
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + (Length / m_hkdfGenerator->TagSize()) > MAXGEN_REQUESTS)
+	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + ((Length + m_hkdfGenerator->TagSize() - 1) / m_hkdfGenerator->TagSize()) > MAXGEN_REQUESTS)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("Request exceeds maximum allowed output!"), ErrorCodes::MaxExceeded);
 	}
@@ -303,7 +309,7 @@ void HKDF::Expand(std::vector<uint8_t> &Output, size_t OutOffset, size_t Length,
 void HKDF::Expand(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Length, std::unique_ptr<HkdfState> &State, std::unique_ptr<HMAC> &Generator)
 {
 	std::vector<uint8_t> tmps(Length);
-	Expand(tmps, OutOffset, Length, State, Generator);
+	Expand(tmps, 0, Length, State, Generator);
 	SecureMove(tmps, 0, Output, OutOffset, Length);
 }
 
-- 
2.43.0


From 241a602bc4d3b98acecef8c6061a962098a68559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:35 +0000
Subject: [PATCH 011/135] fix: KDF2 reads the salt within bounds, clears its
 state on re-key, and honours the output offset

---
 CEX/KDF2.cpp | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/CEX/KDF2.cpp b/CEX/KDF2.cpp
index adb3217..f52ef2a 100644
--- a/CEX/KDF2.cpp
+++ b/CEX/KDF2.cpp
@@ -42,7 +42,9 @@ public:
 		MemoryTools::Clear(Counter, 0, Counter.size() - sizeof(uint8_t));
 		Counter[Counter.size() - sizeof(uint8_t)] = 1;
 		MemoryTools::Clear(Salt, 0, Salt.size());
+		Salt.clear();
 		MemoryTools::Clear(State, 0, State.size());
+		State.clear();
 		IsInitialized = false;
 	}
 };
@@ -130,7 +132,7 @@ void KDF2::Generate(std::vector<uint8_t> &Output)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (IntegerTools::BeBytesTo32(m_kdf2State->Counter, 0) + (Output.size() / m_kdf2Generator->DigestSize()) > MAXGEN_REQUESTS)
+	if ((IntegerTools::BeBytesTo32(m_kdf2State->Counter, 0) - 1) + ((Output.size() + m_kdf2Generator->DigestSize() - 1) / m_kdf2Generator->DigestSize()) > MAXGEN_REQUESTS)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("Request exceeds maximum allowed output!"), ErrorCodes::MaxExceeded);
 	}
@@ -144,7 +146,7 @@ void KDF2::Generate(SecureVector<uint8_t> &Output)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (IntegerTools::BeBytesTo32(m_kdf2State->Counter, 0) + (Output.size() / m_kdf2Generator->DigestSize()) > MAXGEN_REQUESTS)
+	if ((IntegerTools::BeBytesTo32(m_kdf2State->Counter, 0) - 1) + ((Output.size() + m_kdf2Generator->DigestSize() - 1) / m_kdf2Generator->DigestSize()) > MAXGEN_REQUESTS)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("Request exceeds maximum allowed output!"), ErrorCodes::MaxExceeded);
 	}
@@ -158,7 +160,7 @@ void KDF2::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Lengt
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (IntegerTools::BeBytesTo32(m_kdf2State->Counter, 0) + (Length / m_kdf2Generator->DigestSize()) > MAXGEN_REQUESTS)
+	if ((IntegerTools::BeBytesTo32(m_kdf2State->Counter, 0) - 1) + ((Length + m_kdf2Generator->DigestSize() - 1) / m_kdf2Generator->DigestSize()) > MAXGEN_REQUESTS)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("Request exceeds maximum allowed output!"), ErrorCodes::MaxExceeded);
 	}
@@ -176,7 +178,7 @@ void KDF2::Generate(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Leng
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (IntegerTools::BeBytesTo32(m_kdf2State->Counter, 0) + (Length / m_kdf2Generator->DigestSize()) > MAXGEN_REQUESTS)
+	if ((IntegerTools::BeBytesTo32(m_kdf2State->Counter, 0) - 1) + ((Length + m_kdf2Generator->DigestSize() - 1) / m_kdf2Generator->DigestSize()) > MAXGEN_REQUESTS)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("Request exceeds maximum allowed output!"), ErrorCodes::MaxExceeded);
 	}
@@ -222,7 +224,7 @@ void KDF2::Initialize(ISymmetricKey &Parameters)
 		m_kdf2State->Salt.resize(Parameters.KeySizes().IVSize() + Parameters.KeySizes().InfoSize());
 
 		// add nonce param to salt
-		MemoryTools::Copy(Parameters.IV(), 0, m_kdf2State->Salt, 0, m_kdf2State->Salt.size());
+		MemoryTools::Copy(Parameters.IV(), 0, m_kdf2State->Salt, 0, Parameters.KeySizes().IVSize());
 
 		// add info as extension of salt
 		if (Parameters.KeySizes().InfoSize() > 0)
@@ -246,14 +248,14 @@ void KDF2::Initialize(ISymmetricKey &Parameters)
 			MemoryTools::Copy(Parameters.Key(), 0, m_kdf2State->State, 0, m_kdf2Generator->BlockSize());
 			m_kdf2State->Salt.resize(Parameters.KeySizes().KeySize() - m_kdf2Generator->BlockSize());
 			MemoryTools::Copy(Parameters.Key(), m_kdf2Generator->BlockSize(), m_kdf2State->Salt, 0, m_kdf2State->Salt.size());
+		}
 
-			// add info as extension of salt
-			if (Parameters.KeySizes().InfoSize() > 0)
-			{
-				const size_t SLTLEN = m_kdf2State->Salt.size();
-				m_kdf2State->Salt.resize(SLTLEN + Parameters.KeySizes().InfoSize());
-				MemoryTools::Copy(Parameters.Info(), 0, m_kdf2State->Salt, SLTLEN, Parameters.KeySizes().InfoSize());
-			}
+		// add info as extension of salt
+		if (Parameters.KeySizes().InfoSize() > 0)
+		{
+			const size_t SLTLEN = m_kdf2State->Salt.size();
+			m_kdf2State->Salt.resize(SLTLEN + Parameters.KeySizes().InfoSize());
+			MemoryTools::Copy(Parameters.Info(), 0, m_kdf2State->Salt, SLTLEN, Parameters.KeySizes().InfoSize());
 		}
 	}
 
@@ -301,7 +303,7 @@ void KDF2::Expand(std::vector<uint8_t> &Output, size_t OutOffset, size_t Length,
 void KDF2::Expand(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Length, std::unique_ptr<Kdf2State> &State, std::unique_ptr<IDigest> &Generator)
 {
 	std::vector<uint8_t> tmps(Length);
-	Expand(tmps, OutOffset, Length, State, Generator);
+	Expand(tmps, 0, Length, State, Generator);
 	SecureMove(tmps, 0, Output, OutOffset, Length);
 }
 
-- 
2.43.0


From 9d495ffeb113533630a09fb39bb8b6d742b47b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:35 +0000
Subject: [PATCH 012/135] fix: PBKDF2 reads the salt within bounds, clears its
 state on re-key, and honours the output offset

---
 CEX/PBKDF2.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/CEX/PBKDF2.cpp b/CEX/PBKDF2.cpp
index 3f9c73b..8b34e2a 100644
--- a/CEX/PBKDF2.cpp
+++ b/CEX/PBKDF2.cpp
@@ -46,7 +46,9 @@ public:
 		MemoryTools::Clear(Counter, 0, Counter.size() - sizeof(uint8_t));
 		Counter[Counter.size() - sizeof(uint8_t)] = 1;
 		MemoryTools::Clear(Salt, 0, Salt.size());
+		Salt.clear();
 		MemoryTools::Clear(State, 0, State.size());
+		State.clear();
 		IsInitialized = false;
 	}
 };
@@ -217,9 +219,9 @@ void PBKDF2::Initialize(ISymmetricKey &Parameters)
 		Reset();
 	}
 
-	// add the key to the state
-	m_pbkdf2State->State.resize(Parameters.KeySizes().KeySize());
-	MemoryTools::Copy(Parameters.Key(), 0, m_pbkdf2State->State, 0, m_pbkdf2State->State.size());
+	// add the key to the state; a key shorter than the minimum hmac key is zero extended, which does not change the code
+	m_pbkdf2State->State.resize(IntegerTools::Max(Parameters.KeySizes().KeySize(), m_pbkdf2Generator->MinimumKeySize()));
+	MemoryTools::Copy(Parameters.Key(), 0, m_pbkdf2State->State, 0, Parameters.KeySizes().KeySize());
 
 	if (Parameters.KeySizes().IVSize() + Parameters.KeySizes().InfoSize() != 0)
 	{
@@ -234,7 +236,7 @@ void PBKDF2::Initialize(ISymmetricKey &Parameters)
 		// add the nonce param
 		if (Parameters.KeySizes().IVSize() != 0)
 		{
-			MemoryTools::Copy(Parameters.IV(), 0, m_pbkdf2State->Salt, 0, m_pbkdf2State->Salt.size());
+			MemoryTools::Copy(Parameters.IV(), 0, m_pbkdf2State->Salt, 0, Parameters.KeySizes().IVSize());
 		}
 
 		// add info as extension of salt
@@ -294,7 +296,7 @@ void PBKDF2::Expand(std::vector<uint8_t> &Output, size_t OutOffset, size_t Lengt
 void PBKDF2::Expand(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Length, std::unique_ptr<Pbkdf2State> &State, std::unique_ptr<HMAC> &Generator)
 {
 	std::vector<uint8_t> tmps(Length);
-	Expand(tmps, OutOffset, Length, State, Generator);
+	Expand(tmps, 0, Length, State, Generator);
 	SecureMove(tmps, 0, Output, OutOffset, tmps.size());
 }
 
-- 
2.43.0


From d8972e2277b66e3bbe9ab8ce69cb259c4c69b106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:35 +0000
Subject: [PATCH 013/135] fix: SCBKDF compares its cache size with the memory
 cost

---
 CEX/SCBKDF.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/SCBKDF.cpp b/CEX/SCBKDF.cpp
index a15e6e0..8a57b8f 100644
--- a/CEX/SCBKDF.cpp
+++ b/CEX/SCBKDF.cpp
@@ -211,7 +211,7 @@ void SCBKDF::Expand(std::unique_ptr<ScbkdfState> &State)
 		Keccak::Absorb(State->Cache, 0, State->Cache.size(), State->Rate, State->Domain, State->State);
 
 		// increase the cache size up to memory cost
-		if (State->State.size() < State->MemoryCost * MB1)
+		if (State->Cache.size() + State->Rate <= State->MemoryCost * MB1)
 		{
 			const size_t CLEN = State->Cache.size();
 			State->Cache.resize(CLEN + State->Rate);
-- 
2.43.0


From f141a642c978381bc10e284dac393c1d2cdbe085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:35 +0000
Subject: [PATCH 014/135] fix: Keccak customize absorbs a length encoding that
 straddles the rate block

---
 CEX/Keccak.h | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/CEX/Keccak.h b/CEX/Keccak.h
index 677892d..448903a 100644
--- a/CEX/Keccak.h
+++ b/CEX/Keccak.h
@@ -369,6 +369,8 @@ public:
 	static void Customize(const ArrayU8 &Customization, const ArrayU8 &Name, size_t Rate, ArrayU64x25 &State, PermutationRounds Rounds = PermutationRounds::RX24)
 	{
 		std::array<uint8_t, KECCAK_STATE_BYTE_SIZE> pad = { 0 };
+		std::array<uint8_t, sizeof(uint64_t) + 1> enc = { 0 };
+		size_t elen;
 		size_t i;
 		size_t offset;
 
@@ -391,7 +393,21 @@ public:
 			}
 		}
 
-		offset += LeftEncode(pad, offset, static_cast<uint64_t>(Customization.size()) * 8);
+		// the encoded length can straddle two blocks
+		elen = LeftEncode(enc, 0, static_cast<uint64_t>(Customization.size()) * 8);
+
+		for (i = 0; i < elen; ++i)
+		{
+			if (offset == Rate)
+			{
+				FastAbsorb(pad, 0, Rate, State);
+				Permute(State, Rounds);
+				offset = 0;
+			}
+
+			pad[offset] = enc[i];
+			++offset;
+		}
 
 		if (Customization.size() != 0)
 		{
-- 
2.43.0


From f931de9b6c02e22687f311ea20f3b49b3b33d707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:25 +0000
Subject: [PATCH 015/135] fix: RHX and SHX offer the documented key sizes and
 leave a caller's KDF alone

---
 CEX/RHX.cpp | 14 ++++++++++++++
 CEX/RHX.h   |  1 +
 CEX/SHX.cpp |  9 +++++++++
 CEX/SHX.h   |  1 +
 4 files changed, 25 insertions(+)

diff --git a/CEX/RHX.cpp b/CEX/RHX.cpp
index 81aa40e..f0b0465 100644
--- a/CEX/RHX.cpp
+++ b/CEX/RHX.cpp
@@ -40,6 +40,15 @@ public:
 		Extension(CipherExtension),
 		Destroyed(IsDestroyed)
 	{
+		if (CipherExtension == BlockCipherExtensions::None)
+		{
+			// the 512-bit key is only defined with the extended key schedule
+			LegalKeySizes.pop_back();
+		}
+		else
+		{
+			LegalKeySizes.push_back(SymmetricKeySize(IK1024_SIZE, BLOCK_SIZE, INFO_SIZE));
+		}
 	}
 
 	~RhxState()
@@ -95,6 +104,11 @@ RHX::~RHX()
 			m_kdfGenerator.reset(nullptr);
 		}
 	}
+	else
+	{
+		// the generator instance belongs to the caller
+		m_kdfGenerator.release();
+	}
 }
 
 //~~~Accessors~~~//
diff --git a/CEX/RHX.h b/CEX/RHX.h
index 2056b6c..fa20339 100644
--- a/CEX/RHX.h
+++ b/CEX/RHX.h
@@ -124,6 +124,7 @@ private:
 	static const size_t IK192_SIZE = 24;
 	static const size_t IK256_SIZE = 32;
 	static const size_t IK512_SIZE = 64;
+	static const size_t IK1024_SIZE = 128;
 	static const size_t INFO_SIZE = 32;
 	static const size_t MAX_ROUNDS = 38;
 	static const size_t MIN_ROUNDS = 10;
diff --git a/CEX/SHX.cpp b/CEX/SHX.cpp
index 4cc145f..b41b42d 100644
--- a/CEX/SHX.cpp
+++ b/CEX/SHX.cpp
@@ -40,6 +40,10 @@ public:
 		Extension(CipherExtension),
 		Destroyed(IsDestroyed)
 	{
+		if (CipherExtension != BlockCipherExtensions::None)
+		{
+			LegalKeySizes.push_back(SymmetricKeySize(IK1024_SIZE, BLOCK_SIZE, INFO_SIZE));
+		}
 	}
 
 	~ShxState()
@@ -93,6 +97,11 @@ SHX::~SHX()
 			m_kdfGenerator.reset(nullptr);
 		}
 	}
+	else
+	{
+		// the generator instance belongs to the caller
+		m_kdfGenerator.release();
+	}
 }
 
 //~~~Accessors~~~//
diff --git a/CEX/SHX.h b/CEX/SHX.h
index 34ba3c8..70bdf98 100644
--- a/CEX/SHX.h
+++ b/CEX/SHX.h
@@ -112,6 +112,7 @@ private:
 	static const size_t IK192_SIZE = 24;
 	static const size_t IK256_SIZE = 32;
 	static const size_t IK512_SIZE = 64;
+	static const size_t IK1024_SIZE = 128;
 	static const size_t INFO_SIZE = 32;
 	static const size_t MAX_ROUNDS = 64;
 	static const size_t MIN_ROUNDS = 32;
-- 
2.43.0


From 5b744f3ed4f0e4792155e7ef7720474914b7e483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:20 +0000
Subject: [PATCH 016/135] fix: CFB refuses an IV longer than the block, and
 shifts its register with an overlapping-safe move

---
 CEX/CFB.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/CEX/CFB.cpp b/CEX/CFB.cpp
index ed24c8a..d9c6cdd 100644
--- a/CEX/CFB.cpp
+++ b/CEX/CFB.cpp
@@ -184,9 +184,9 @@ void CFB::EncryptBlock(const std::vector<uint8_t> &Input, size_t InOffset, std::
 
 void CFB::Initialize(bool Encryption, ISymmetricKey &Parameters)
 {
-	if (Parameters.KeySizes().IVSize() < 1)
+	if (Parameters.KeySizes().IVSize() < 1 || Parameters.KeySizes().IVSize() > BLOCK_SIZE)
 	{
-		throw CryptoCipherModeException(Name(), std::string("Initialize"), std::string("Requires a minimum 1 uint8_t of Nonce!"), ErrorCodes::InvalidNonce);
+		throw CryptoCipherModeException(Name(), std::string("Initialize"), std::string("Requires a minimum 1 uint8_t of Nonce, and no more than the block ciphers block-size!"), ErrorCodes::InvalidNonce);
 	}
 	if (!SymmetricKeySize::Contains(LegalKeySizes(), Parameters.KeySizes().KeySize()))
 	{
@@ -244,7 +244,7 @@ void CFB::Decrypt128(const std::vector<uint8_t> &Input, size_t InOffset, std::ve
 	// left shift the register
 	if (m_cfbState->IV.size() - m_cfbState->RegisterSize > 0)
 	{
-		MemoryTools::Copy(m_cfbState->IV, m_cfbState->RegisterSize, m_cfbState->IV, 0, m_cfbState->IV.size() - m_cfbState->RegisterSize);
+		std::memmove(m_cfbState->IV.data(), m_cfbState->IV.data() + m_cfbState->RegisterSize, m_cfbState->IV.size() - m_cfbState->RegisterSize);
 	}
 
 	// copy ciphertext to register
@@ -299,7 +299,7 @@ void CFB::DecryptSegment(const std::vector<uint8_t> &Input, size_t InOffset, std
 		// left shift the register
 		if (Iv.size() - m_cfbState->RegisterSize > 0)
 		{
-			MemoryTools::Copy(Iv, m_cfbState->RegisterSize, Iv, 0, Iv.size() - m_cfbState->RegisterSize);
+			std::memmove(Iv.data(), Iv.data() + m_cfbState->RegisterSize, Iv.size() - m_cfbState->RegisterSize);
 		}
 
 		// copy ciphertext to register
@@ -334,7 +334,7 @@ void CFB::Encrypt128(const std::vector<uint8_t> &Input, size_t InOffset, std::ve
 	// left shift the register
 	if (m_cfbState->IV.size() - m_cfbState->RegisterSize > 0)
 	{
-		MemoryTools::Copy(m_cfbState->IV, m_cfbState->RegisterSize, m_cfbState->IV, 0, m_cfbState->IV.size() - m_cfbState->RegisterSize);
+		std::memmove(m_cfbState->IV.data(), m_cfbState->IV.data() + m_cfbState->RegisterSize, m_cfbState->IV.size() - m_cfbState->RegisterSize);
 	}
 
 	// copy cipher text to the register
-- 
2.43.0


From 713534b5f75ccd2707aa9eb75280a10a9de5bc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:20 +0000
Subject: [PATCH 017/135] fix: CipherModeFromName creates ECB around a cipher
 instance

---
 CEX/CipherModeFromName.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CEX/CipherModeFromName.cpp b/CEX/CipherModeFromName.cpp
index c4be02b..9819326 100644
--- a/CEX/CipherModeFromName.cpp
+++ b/CEX/CipherModeFromName.cpp
@@ -45,6 +45,11 @@ ICipherMode* CipherModeFromName::GetInstance(IBlockCipher* Cipher, CipherModes C
 				mptr = new CFB(Cipher);
 				break;
 			}
+			case CipherModes::ECB:
+			{
+				mptr = new ECB(Cipher);
+				break;
+			}
 			case CipherModes::ICM:
 			{
 				mptr = new ICM(Cipher);
-- 
2.43.0


From 1eb3f3f4340856e707dbaf870428508469bb6a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:08 +0000
Subject: [PATCH 018/135] fix: paddings check the whole pad, and refuse empty
 or out-of-range blocks

---
 CEX/ESP.cpp     | 11 ++++++++---
 CEX/PKCS7.cpp   | 19 ++++++++++++-------
 CEX/X923.cpp    | 19 ++++++++++++-------
 CEX/ZeroOne.cpp |  9 +++++++--
 4 files changed, 39 insertions(+), 19 deletions(-)

diff --git a/CEX/ESP.cpp b/CEX/ESP.cpp
index c51513d..a0a87f2 100644
--- a/CEX/ESP.cpp
+++ b/CEX/ESP.cpp
@@ -27,7 +27,7 @@ const std::string ESP::Name()
 
 void ESP::AddPadding(std::vector<uint8_t> &Input, size_t Offset, size_t Length)
 {
-	if (Length > Input.size())
+	if (Length > Input.size() || Offset >= Length)
 	{
 		throw CryptoPaddingException(Name(), std::string("AddPadding"), std::string("The length is longer than the array!"), ErrorCodes::InvalidSize);
 	}
@@ -46,6 +46,11 @@ void ESP::AddPadding(std::vector<uint8_t> &Input, size_t Offset, size_t Length)
 
 size_t ESP::GetBlockLength(const std::vector<uint8_t> &Input)
 {
+	if (Input.size() == 0)
+	{
+		throw CryptoPaddingException(Name(), std::string("GetBlockLength"), std::string("The array is empty!"), ErrorCodes::InvalidSize);
+	}
+
 	const size_t BLKLEN = Input.size();
 	const size_t FNLPAD = Input[BLKLEN - 1];
 	size_t ctr;
@@ -70,7 +75,7 @@ size_t ESP::GetBlockLength(const std::vector<uint8_t> &Input)
 
 size_t ESP::GetBlockLength(const std::vector<uint8_t> &Input, size_t Offset, size_t Length)
 {
-	if (Length > Input.size())
+	if (Length > Input.size() || Offset >= Length)
 	{
 		throw CryptoPaddingException(Name(), std::string("GetBlockLength"), std::string("The length is longer than the array!"), ErrorCodes::InvalidSize);
 	}
@@ -82,7 +87,7 @@ size_t ESP::GetBlockLength(const std::vector<uint8_t> &Input, size_t Offset, siz
 	size_t pos;
 
 	inp = 0;
-	inp |= IntegerTools::ExpandMask<size_t>(FNLPAD > BLKLEN);
+	inp |= IntegerTools::ExpandMask<size_t>(FNLPAD > BLKLEN - Offset);
 	pos = BLKLEN - FNLPAD;
 	ctr = BLKLEN - 1;
 
diff --git a/CEX/PKCS7.cpp b/CEX/PKCS7.cpp
index e8f8cbb..77b7f33 100644
--- a/CEX/PKCS7.cpp
+++ b/CEX/PKCS7.cpp
@@ -27,7 +27,7 @@ const std::string PKCS7::Name()
 
 void PKCS7::AddPadding(std::vector<uint8_t> &Input, size_t Offset, size_t Length)
 {
-	if (Length > Input.size())
+	if (Length > Input.size() || Offset >= Length)
 	{
 		throw CryptoPaddingException(Name(), std::string("AddPadding"), std::string("The length is longer than the array!"), ErrorCodes::InvalidSize);
 	}
@@ -45,13 +45,18 @@ void PKCS7::AddPadding(std::vector<uint8_t> &Input, size_t Offset, size_t Length
 
 size_t PKCS7::GetBlockLength(const std::vector<uint8_t> &Input)
 {
+	if (Input.size() == 0)
+	{
+		throw CryptoPaddingException(Name(), std::string("GetBlockLength"), std::string("The array is empty!"), ErrorCodes::InvalidSize);
+	}
+
 	const size_t BLKLEN = Input.size();
 	const uint8_t FNLPAD = Input[BLKLEN - 1];
 	size_t ctr;
 	size_t inp;
 	size_t pos;
 
-	ctr = BLKLEN - 2;
+	ctr = BLKLEN - 1;
 	inp = 0;
 	pos = BLKLEN - FNLPAD;
 
@@ -59,8 +64,8 @@ size_t PKCS7::GetBlockLength(const std::vector<uint8_t> &Input)
 
 	while (ctr != 0)
 	{
-		inp |= (~IntegerTools::IsEqual(Input[ctr], FNLPAD)) & IntegerTools::ExpandMask<uint8_t>(ctr >= pos);
 		--ctr;
+		inp |= (~IntegerTools::IsEqual(Input[ctr], FNLPAD)) & IntegerTools::ExpandMask<uint8_t>(ctr >= pos);
 	}
 
 	IntegerTools::ConditionalCopy(inp, &pos, &BLKLEN, &pos, 1);
@@ -70,7 +75,7 @@ size_t PKCS7::GetBlockLength(const std::vector<uint8_t> &Input)
 
 size_t PKCS7::GetBlockLength(const std::vector<uint8_t> &Input, size_t Offset, size_t Length)
 {
-	if (Length > Input.size())
+	if (Length > Input.size() || Offset >= Length)
 	{
 		throw CryptoPaddingException(Name(), std::string("GetBlockLength"), std::string("The length is longer than the array!"), ErrorCodes::InvalidSize);
 	}
@@ -81,16 +86,16 @@ size_t PKCS7::GetBlockLength(const std::vector<uint8_t> &Input, size_t Offset, s
 	size_t inp;
 	size_t pos;
 
-	ctr = BLKLEN - 2;
+	ctr = BLKLEN - 1;
 	inp = 0;
 	pos = BLKLEN - FNLPAD;
 
-	inp |= IntegerTools::ExpandMask<size_t>(FNLPAD > BLKLEN);
+	inp |= IntegerTools::ExpandMask<size_t>(FNLPAD > BLKLEN - Offset);
 
 	while (ctr != Offset)
 	{
-		inp |= (~IntegerTools::IsEqual(Input[ctr], FNLPAD)) & IntegerTools::ExpandMask<uint8_t>(ctr >= pos);
 		--ctr;
+		inp |= (~IntegerTools::IsEqual(Input[ctr], FNLPAD)) & IntegerTools::ExpandMask<uint8_t>(ctr >= pos);
 	}
 
 	IntegerTools::ConditionalCopy(inp, &pos, &BLKLEN, &pos, 1);
diff --git a/CEX/X923.cpp b/CEX/X923.cpp
index 619c5a7..81b0d6f 100644
--- a/CEX/X923.cpp
+++ b/CEX/X923.cpp
@@ -31,7 +31,7 @@ void X923::AddPadding(std::vector<uint8_t> &Input, size_t Offset, size_t Length)
 {
 	size_t i;
 
-	if (Length > Input.size())
+	if (Length > Input.size() || Offset >= Length)
 	{
 		throw CryptoPaddingException(Name(), std::string("AddPadding"), std::string("The length is longer than the array!"), ErrorCodes::InvalidSize);
 	}
@@ -46,6 +46,11 @@ void X923::AddPadding(std::vector<uint8_t> &Input, size_t Offset, size_t Length)
 
 size_t X923::GetBlockLength(const std::vector<uint8_t> &Input)
 {
+	if (Input.size() == 0)
+	{
+		throw CryptoPaddingException(Name(), std::string("GetBlockLength"), std::string("The array is empty!"), ErrorCodes::InvalidSize);
+	}
+
 	const size_t BLKLEN = Input.size();
 	const size_t FNLPAD = Input[BLKLEN - 1];
 	size_t ctr;
@@ -55,12 +60,12 @@ size_t X923::GetBlockLength(const std::vector<uint8_t> &Input)
 	inp = 0;
 	inp |= IntegerTools::ExpandMask<size_t>(FNLPAD > BLKLEN);
 	pos = BLKLEN - FNLPAD;
-	ctr = BLKLEN - 2;
+	ctr = BLKLEN - 1;
 
 	while (ctr != 0)
 	{
-		inp |= (~IntegerTools::IsZero(Input[ctr])) & IntegerTools::ExpandMask<uint8_t>(ctr >= pos);
 		--ctr;
+		inp |= (~IntegerTools::IsZero(Input[ctr])) & IntegerTools::ExpandMask<uint8_t>(ctr >= pos);
 	}
 
 	IntegerTools::ConditionalCopy(inp, &pos, &BLKLEN, &pos, 1);
@@ -70,7 +75,7 @@ size_t X923::GetBlockLength(const std::vector<uint8_t> &Input)
 
 size_t X923::GetBlockLength(const std::vector<uint8_t> &Input, size_t Offset, size_t Length)
 {
-	if (Length > Input.size())
+	if (Length > Input.size() || Offset >= Length)
 	{
 		throw CryptoPaddingException(Name(), std::string("GetBlockLength"), std::string("The length is longer than the array!"), ErrorCodes::InvalidSize);
 	}
@@ -82,14 +87,14 @@ size_t X923::GetBlockLength(const std::vector<uint8_t> &Input, size_t Offset, si
 	size_t pos;
 
 	inp = 0;
-	inp |= IntegerTools::ExpandMask<size_t>(FNLPAD > BLKLEN);
+	inp |= IntegerTools::ExpandMask<size_t>(FNLPAD > BLKLEN - Offset);
 	pos = BLKLEN - FNLPAD;
-	ctr = BLKLEN - 2;
+	ctr = BLKLEN - 1;
 
 	while (ctr != Offset)
 	{
-		inp |= (~IntegerTools::IsZero(Input[ctr])) & IntegerTools::ExpandMask<uint8_t>(ctr >= pos);
 		--ctr;
+		inp |= (~IntegerTools::IsZero(Input[ctr])) & IntegerTools::ExpandMask<uint8_t>(ctr >= pos);
 	}
 
 	IntegerTools::ConditionalCopy(inp, &pos, &BLKLEN, &pos, 1);
diff --git a/CEX/ZeroOne.cpp b/CEX/ZeroOne.cpp
index dcc1d6f..87b0335 100644
--- a/CEX/ZeroOne.cpp
+++ b/CEX/ZeroOne.cpp
@@ -27,7 +27,7 @@ const std::string ZeroOne::Name()
 
 void ZeroOne::AddPadding(std::vector<uint8_t> &Input, size_t Offset, size_t Length)
 {
-	if (Length > Input.size())
+	if (Length > Input.size() || Offset >= Length)
 	{
 		throw CryptoPaddingException(Name(), std::string("AddPadding"), std::string("The length is longer than the array!"), ErrorCodes::InvalidSize);
 	}
@@ -44,6 +44,11 @@ void ZeroOne::AddPadding(std::vector<uint8_t> &Input, size_t Offset, size_t Leng
 
 size_t ZeroOne::GetBlockLength(const std::vector<uint8_t> &Input)
 {
+	if (Input.size() == 0)
+	{
+		throw CryptoPaddingException(Name(), std::string("GetBlockLength"), std::string("The array is empty!"), ErrorCodes::InvalidSize);
+	}
+
 	const size_t BLKSZE = Input.size();
 	size_t ctr = BLKSZE;
 	size_t pos = BLKSZE;
@@ -71,7 +76,7 @@ size_t ZeroOne::GetBlockLength(const std::vector<uint8_t> &Input)
 
 size_t ZeroOne::GetBlockLength(const std::vector<uint8_t> &Input, size_t Offset, size_t Length)
 {
-	if (Length > Input.size())
+	if (Length > Input.size() || Offset >= Length)
 	{
 		throw CryptoPaddingException(Name(), std::string("GetBlockLength"), std::string("The length is longer than the array!"), ErrorCodes::InvalidSize);
 	}
-- 
2.43.0


From da589f436193271d6a01ac236d187b3f82210366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:12 +0000
Subject: [PATCH 019/135] fix: CMAC lists the key sizes its block cipher
 accepts

---
 CEX/CMAC.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/CEX/CMAC.cpp b/CEX/CMAC.cpp
index ceb5d9f..438aed9 100644
--- a/CEX/CMAC.cpp
+++ b/CEX/CMAC.cpp
@@ -52,9 +52,14 @@ CMAC::CMAC(BlockCiphers CipherType)
 		BLOCK_SIZE,
 		Macs::CMAC,
 		(MacConvert::ToName(Macs::CMAC) + std::string("-") + BlockCipherConvert::ToName(CipherType)),
-		std::vector<SymmetricKeySize> {
-			SymmetricKeySize(32, 0, 0),
-			SymmetricKeySize(64, 0, 0)},
+		((CipherType == BlockCiphers::AES || CipherType == BlockCiphers::Serpent) ?
+			std::vector<SymmetricKeySize> {
+				SymmetricKeySize(16, 0, 0),
+				SymmetricKeySize(24, 0, 0),
+				SymmetricKeySize(32, 0, 0)} :
+			std::vector<SymmetricKeySize> {
+				SymmetricKeySize(32, 0, 0),
+				SymmetricKeySize(64, 0, 0)}),
 #if defined(CEX_ENFORCE_LEGALKEY)
 		32,
 		32,
@@ -78,9 +83,14 @@ CMAC::CMAC(IBlockCipher* Cipher)
 		(Cipher != nullptr ? 
 			MacConvert::ToName(Macs::CMAC) + std::string("-") + BlockCipherConvert::ToName(Cipher->Enumeral()) :
 			std::string("")),
-		std::vector<SymmetricKeySize> {
-			SymmetricKeySize(32, 0, 0),
-			SymmetricKeySize(64, 0, 0)},
+		((Cipher != nullptr && (Cipher->Enumeral() == BlockCiphers::AES || Cipher->Enumeral() == BlockCiphers::Serpent)) ?
+			std::vector<SymmetricKeySize> {
+				SymmetricKeySize(16, 0, 0),
+				SymmetricKeySize(24, 0, 0),
+				SymmetricKeySize(32, 0, 0)} :
+			std::vector<SymmetricKeySize> {
+				SymmetricKeySize(32, 0, 0),
+				SymmetricKeySize(64, 0, 0)}),
 #if defined(CEX_ENFORCE_LEGALKEY)
 		32,
 		32,
-- 
2.43.0


From 72724cfaacf1e92da1f3f0d786598c943ff48e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:12 +0000
Subject: [PATCH 020/135] fix: CipherStream processes a single block, always
 pads, keeps to its offsets and does not delete what it was lent

---
 CEX/CipherStream.cpp | 85 +++++++++++++++++++++++++++++++-------------
 CEX/CipherStream.h   |  1 +
 CEX/MacStream.cpp    |  7 ++++
 3 files changed, 69 insertions(+), 24 deletions(-)

diff --git a/CEX/CipherStream.cpp b/CEX/CipherStream.cpp
index 7ff85e7..110a750 100644
--- a/CEX/CipherStream.cpp
+++ b/CEX/CipherStream.cpp
@@ -18,6 +18,7 @@ public:
 
 	bool Destroy;
 	bool Buffered;
+	bool DefaultPadding;
 	bool CounterMode;
 	bool Encryption;
 	bool Initialized;
@@ -26,6 +27,7 @@ public:
 		:
 		Destroy(Destroyed),
 		Buffered(false),
+		DefaultPadding(false),
 		CounterMode(IsCounter),
 		Encryption(false),
 		Initialized(false)
@@ -37,6 +39,7 @@ public:
 	{
 		Destroy = false;
 		Buffered = false;
+		DefaultPadding = false;
 		CounterMode = false;
 		Encryption = false;
 		Initialized = false;
@@ -52,7 +55,7 @@ CipherStream::CipherStream(BlockCiphers CipherType, CipherModes CipherModeType,
 	m_cipherState(new CipherState((CipherModeType == CipherModes::CTR || CipherModeType == CipherModes::ICM), true)),
 	m_cipherEngine(CipherModeType != CipherModes::None && CipherType != BlockCiphers::None ? GetCipherMode(CipherType, CipherModeType) :
 		throw CryptoProcessingException(CLASS_NAME, std::string("Constructor"), std::string("Digest type can not be none!"), ErrorCodes::IllegalOperation)),
-	m_cipherPadding(CipherModeType == CipherModes::CBC || CipherModeType == CipherModes::CFB || CipherModeType == CipherModes::OFB ? GetPaddingMode(PaddingType) : nullptr),
+	m_cipherPadding(CipherModeType == CipherModes::CBC || CipherModeType == CipherModes::CFB || CipherModeType == CipherModes::ECB || CipherModeType == CipherModes::OFB ? GetPaddingMode(PaddingType) : nullptr),
 	m_legalKeySizes(m_cipherEngine->LegalKeySizes())
 {
 }
@@ -62,9 +65,10 @@ CipherStream::CipherStream(ICipherMode* Cipher, IPadding* Padding)
 	m_cipherState(new CipherState(((Cipher != nullptr && (Cipher->Enumeral() == CipherModes::CTR || Cipher->Enumeral() == CipherModes::ICM)) ? true : false), false)),
 	m_cipherEngine(Cipher != nullptr ? Cipher :
 		throw CryptoProcessingException(CLASS_NAME, std::string("Constructor"), std::string("Digest type can not be none!"), ErrorCodes::IllegalOperation)),
-	m_cipherPadding(Padding),
+	m_cipherPadding(Padding != nullptr || m_cipherState->CounterMode ? Padding : GetPaddingMode(PaddingModes::X923)),
 	m_legalKeySizes(m_cipherEngine->LegalKeySizes())
 {
+	m_cipherState->DefaultPadding = (Padding == nullptr);
 }
 
 CipherStream::~CipherStream()
@@ -80,6 +84,17 @@ CipherStream::~CipherStream()
 			m_cipherPadding.reset(nullptr);
 		}
 	}
+	else
+	{
+		if (m_cipherEngine != nullptr)
+		{
+			m_cipherEngine.release();
+		}
+		if (m_cipherPadding != nullptr && !m_cipherState->DefaultPadding)
+		{
+			m_cipherPadding.release();
+		}
+	}
 
 	IntegerTools::Clear(m_legalKeySizes);
 }
@@ -172,9 +187,19 @@ void CipherStream::Write(const std::vector<uint8_t> &Input, size_t InOffset, std
 
 void CipherStream::BlockTransform(const std::vector<uint8_t> &Input, size_t InOffset, std::vector<uint8_t> &Output, size_t OutOffset)
 {
-	const size_t INPLEN = Input.size() - InOffset;
+	const size_t INPLEN = InOffset < Input.size() ? Input.size() - InOffset : 0;
 	size_t plen;
 
+	CheckLength(INPLEN);
+
+	// the final block of a padded transform is allocated here, the output must have room for the others
+	const size_t FIXLEN = m_cipherState->CounterMode ? INPLEN : (INPLEN - (INPLEN % m_cipherEngine->BlockSize())) - (m_cipherState->Encryption ? 0 : m_cipherEngine->BlockSize());
+
+	if (OutOffset > Output.size() || Output.size() - OutOffset < FIXLEN)
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("Write"), std::string("The output array is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	plen = 0;
 
 	if (IsParallel())
@@ -198,7 +223,7 @@ void CipherStream::BlockTransform(const std::vector<uint8_t> &Input, size_t InOf
 	const size_t BLKLEN = m_cipherEngine->BlockSize();
 	const size_t ALNLEN = (m_cipherState->CounterMode || m_cipherState->Encryption) ? (INPLEN / BLKLEN) * BLKLEN : (INPLEN < BLKLEN) ? 0 : ((INPLEN / BLKLEN) * BLKLEN) - BLKLEN;
 
-	if (INPLEN > BLKLEN)
+	if (INPLEN >= BLKLEN)
 	{
 		while (plen != ALNLEN)
 		{
@@ -210,8 +235,8 @@ void CipherStream::BlockTransform(const std::vector<uint8_t> &Input, size_t InOf
 		}
 	}
 
-	// partial
-	if (ALNLEN != INPLEN)
+	// partial; a padding mode always adds padding, so that it can be told from the message
+	if (ALNLEN != INPLEN || (!m_cipherState->CounterMode && m_cipherState->Encryption))
 	{
 		if (m_cipherState->CounterMode)
 		{
@@ -228,15 +253,11 @@ void CipherStream::BlockTransform(const std::vector<uint8_t> &Input, size_t InOf
 			const size_t FNLLEN = INPLEN - ALNLEN;
 			std::vector<uint8_t> inp(BLKLEN);
 			MemoryTools::Copy(Input, InOffset, inp, 0, FNLLEN);
-			if (FNLLEN != BLKLEN)
-			{
-				m_cipherPadding->AddPadding(inp, FNLLEN, inp.size());
-			}
-			plen += BLKLEN;
+			m_cipherPadding->AddPadding(inp, FNLLEN, inp.size());
 
-			if (Output.size() != plen)
+			if (Output.size() != OutOffset + BLKLEN)
 			{
-				Output.resize(plen);
+				Output.resize(OutOffset + BLKLEN);
 			}
 
 			m_cipherEngine->EncryptBlock(inp, 0, Output, OutOffset);
@@ -246,13 +267,13 @@ void CipherStream::BlockTransform(const std::vector<uint8_t> &Input, size_t InOf
 			std::vector<uint8_t> otp(BLKLEN);
 			m_cipherEngine->DecryptBlock(Input, InOffset, otp, 0);
 			const size_t FNLLEN = m_cipherPadding->GetBlockLength(otp);
-			MemoryTools::Copy(otp, 0, Output, OutOffset, FNLLEN);
-			plen += FNLLEN;
 
-			if (Output.size() != plen)
+			if (Output.size() != OutOffset + FNLLEN)
 			{
-				Output.resize(plen);
+				Output.resize(OutOffset + FNLLEN);
 			}
+
+			MemoryTools::Copy(otp, 0, Output, OutOffset, FNLLEN);
 		}
 	}
 
@@ -267,6 +288,7 @@ void CipherStream::BlockTransform(IByteStream* InStream, IByteStream* OutStream)
 	std::vector<uint8_t> inp(0);
 	std::vector<uint8_t> otp(0);
 
+	CheckLength(INPLEN);
 	plen = 0;
 	pread = 0;
 
@@ -295,7 +317,7 @@ void CipherStream::BlockTransform(IByteStream* InStream, IByteStream* OutStream)
 	inp.resize(BLKLEN);
 	otp.resize(BLKLEN);
 
-	if (INPLEN > BLKLEN)
+	if (INPLEN >= BLKLEN)
 	{
 		while (plen != ALNLEN)
 		{
@@ -307,8 +329,8 @@ void CipherStream::BlockTransform(IByteStream* InStream, IByteStream* OutStream)
 		}
 	}
 
-	// partial
-	if (ALNLEN != INPLEN)
+	// partial; a padding mode always adds padding, so that it can be told from the message
+	if (ALNLEN != INPLEN || (!m_cipherState->CounterMode && m_cipherState->Encryption))
 	{
 		if (m_cipherState->CounterMode)
 		{
@@ -323,10 +345,7 @@ void CipherStream::BlockTransform(IByteStream* InStream, IByteStream* OutStream)
 		{
 			const size_t FNLLEN = INPLEN - ALNLEN;
 			pread = InStream->Read(inp, 0, FNLLEN);
-			if (FNLLEN != BLKLEN)
-			{
-				m_cipherPadding->AddPadding(inp, pread, inp.size());
-			}
+			m_cipherPadding->AddPadding(inp, pread, inp.size());
 			m_cipherEngine->EncryptBlock(inp, 0, otp, 0);
 			OutStream->Write(otp, 0, BLKLEN);
 		}
@@ -342,6 +361,24 @@ void CipherStream::BlockTransform(IByteStream* InStream, IByteStream* OutStream)
 	CalculateProgress(INPLEN, OutStream->Position());
 }
 
+void CipherStream::CheckLength(size_t Length)
+{
+	if (!m_cipherState->Initialized)
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("Write"), std::string("The cipher has not been initialized!"), ErrorCodes::NotInitialized);
+	}
+
+	if (Length == 0)
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("Write"), std::string("The input is empty!"), ErrorCodes::InvalidSize);
+	}
+
+	if (!m_cipherState->CounterMode && !m_cipherState->Encryption && Length % m_cipherEngine->BlockSize() != 0)
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("Write"), std::string("The cipher-text is not a multiple of the block size!"), ErrorCodes::InvalidSize);
+	}
+}
+
 void CipherStream::CalculateProgress(size_t Length, size_t Processed)
 {
 	if (Length >= Processed)
diff --git a/CEX/CipherStream.h b/CEX/CipherStream.h
index 8e34bc7..bc7e2b8 100644
--- a/CEX/CipherStream.h
+++ b/CEX/CipherStream.h
@@ -269,6 +269,7 @@ private:
 	void BlockTransform(const std::vector<uint8_t> &Input, size_t InOffset, std::vector<uint8_t> &Output, size_t OutOffset);
 	void BlockTransform(IByteStream* InStream, IByteStream* OutStream);
 	void CalculateProgress(size_t Length, size_t Processed);
+	void CheckLength(size_t Length);
 	static ICipherMode* GetCipherMode(BlockCiphers CipherType, CipherModes CipherModeType);
 	static IPadding* GetPaddingMode(PaddingModes PaddingType);
 };
diff --git a/CEX/MacStream.cpp b/CEX/MacStream.cpp
index 861cbb8..b250d90 100644
--- a/CEX/MacStream.cpp
+++ b/CEX/MacStream.cpp
@@ -61,6 +61,13 @@ MacStream::~MacStream()
 			m_macEngine.reset(nullptr);
 		}
 	}
+	else
+	{
+		if (m_macEngine != nullptr)
+		{
+			m_macEngine.release();
+		}
+	}
 }
 
 //~~~Accessors~~~//
-- 
2.43.0


From 83e2b88a88f5df82eae774d7dcea96006c5abe38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:12 +0000
Subject: [PATCH 021/135] fix: streams read, seek, resize and copy within their
 real bounds

---
 CEX/FileStream.cpp   | 85 ++++++++++++++++++++++++++++++++++----------
 CEX/MemoryStream.cpp | 12 ++++---
 CEX/SecureStream.cpp | 31 ++++++++--------
 3 files changed, 90 insertions(+), 38 deletions(-)

diff --git a/CEX/FileStream.cpp b/CEX/FileStream.cpp
index f6e177a..5c3b229 100644
--- a/CEX/FileStream.cpp
+++ b/CEX/FileStream.cpp
@@ -42,6 +42,22 @@ FileStream::FileStream(const std::string &FileName, FileAccess Access, FileModes
 	{
 		throw CryptoProcessingException(CLASS_NAME, std::string("Constructor"), std::string("The file could not be opened!"), ErrorCodes::UnKnown);
 	}
+
+	if (!m_fileStream.is_open())
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("Constructor"), std::string("The file could not be opened!"), ErrorCodes::UnKnown);
+	}
+
+	if (Mode == FileModes::Truncate || (Access == FileAccess::Write && Mode != FileModes::Append))
+	{
+		// the file was emptied when it was opened
+		m_fileSize = 0;
+	}
+
+	if (Mode == FileModes::AtEnd)
+	{
+		m_filePosition = m_fileSize;
+	}
 }
 
 FileStream::~FileStream()
@@ -131,34 +147,35 @@ void FileStream::CopyTo(IByteStream* Destination)
 
 	if (m_fileSize > CHUNK_SIZE)
 	{
-		const size_t ALNLEN = m_fileSize - (m_fileSize % CHUNK_SIZE);
+		const uint64_t ALNLEN = m_fileSize - (m_fileSize % CHUNK_SIZE);
 		std::vector<uint8_t> buffer(CHUNK_SIZE);
-		m_fileStream.seekg(0, std::ios::beg);
+		uint64_t bteCtr;
 
-		uint32_t bteCtr = 0;
+		bteCtr = 0;
+		m_fileStream.seekg(0, std::ios::beg);
 
-		if (ALNLEN >= CHUNK_SIZE)
+		while (bteCtr != ALNLEN)
 		{
-			while (bteCtr != ALNLEN)
-			{
-				m_fileStream.read(reinterpret_cast<char*>(buffer.data()), CHUNK_SIZE);
-				Destination->Write(buffer, bteCtr, CHUNK_SIZE);
-				bteCtr += CHUNK_SIZE;
-			}
+			m_fileStream.read(reinterpret_cast<char*>(buffer.data()), CHUNK_SIZE);
+			Destination->Write(buffer, 0, CHUNK_SIZE);
+			bteCtr += CHUNK_SIZE;
 		}
 
 		if (ALNLEN != m_fileSize)
 		{
 			m_fileStream.read(reinterpret_cast<char*>(buffer.data()), m_fileSize - ALNLEN);
-			Destination->Write(buffer, ALNLEN, m_fileSize - ALNLEN);
+			Destination->Write(buffer, 0, m_fileSize - ALNLEN);
 		}
 	}
 	else
 	{
 		std::vector<uint8_t> buffer(m_fileSize);
 		m_fileStream.seekg(0, std::ios::beg);
+		m_fileStream.read(reinterpret_cast<char*>(buffer.data()), m_fileSize);
 		Destination->Write(buffer, 0, m_fileSize);
 	}
+
+	m_fileStream.seekg(m_filePosition, std::ios::beg);
 }
 
 void FileStream::Destroy()
@@ -206,14 +223,17 @@ size_t FileStream::Read(std::vector<uint8_t> &Output, size_t Offset, size_t Leng
 {
 	CEXASSERT(m_fileAccess != FileAccess::Write, "File is write only");
 
-	if (Offset + Length > m_fileSize - m_filePosition)
+	const uint64_t RMDLEN = m_filePosition < m_fileSize ? m_fileSize - m_filePosition : 0;
+
+	if (Length > RMDLEN)
 	{
-		Length = m_fileSize - m_filePosition;
+		Length = RMDLEN;
 	}
 
 	if (Length > 0)
 	{
 		// read the data:
+		m_fileStream.seekg(m_filePosition, std::ios::beg);
 		m_fileStream.read(reinterpret_cast<char*>(&Output[Offset]), Length);
 		m_filePosition += Length;
 	}
@@ -227,6 +247,7 @@ uint8_t FileStream::ReadByte()
 	CEXASSERT(m_fileAccess != FileAccess::Write, "File is write only");
 
 	uint8_t data(1);
+	m_fileStream.seekg(m_filePosition, std::ios::beg);
 	m_fileStream.read(reinterpret_cast<char*>(&data), 1);
 	m_filePosition += 1;
 
@@ -247,7 +268,7 @@ void FileStream::Seek(uint64_t Offset, SeekOrigin Origin)
 	}
 	else if (Origin == SeekOrigin::End)
 	{
-		m_fileStream.seekg(Offset, std::ios::end);
+		m_fileStream.seekg(m_fileSize - Offset, std::ios::beg);
 	}
 	else
 	{
@@ -263,32 +284,52 @@ void FileStream::SetLength(uint64_t Length)
 
 	if (Length < m_fileSize)
 	{
+		m_fileStream.flush();
+
 #if defined(CEX_OS_WINDOWS)
 		int32_t handle = 0;
 
 		if (_sopen_s(&handle, m_fileName.c_str(), _O_RDWR | _O_CREAT, _SH_DENYNO, _S_IREAD | _S_IWRITE) == 0)
 		{
 			_chsize(handle, Length);
+			_close(handle);
 		}
 #elif defined(CEX_OS_POSIX)
 		truncate(m_fileName.c_str(), Length);
 #endif
 	}
-	else
+	else if (Length > m_fileSize)
 	{
-		m_fileStream.seekg(Length - 1, std::ios::beg);
+		m_fileStream.seekp(Length - 1, std::ios::beg);
 		m_fileStream.write("", 1);
-		m_fileStream.seekg(0, std::ios::beg);
+		m_fileStream.seekp(m_filePosition, std::ios::beg);
+	}
+	else
+	{
+		// misra
 	}
+
+	m_fileSize = Length;
 }
 
 void FileStream::Write(const std::vector<uint8_t> &Input, size_t Offset, size_t Length)
 {
 	CEXASSERT(m_fileAccess != FileAccess::Read, "File is read only");
 
+	if (Length == 0)
+	{
+		return;
+	}
+
+	if (m_fileMode == FileModes::Append)
+	{
+		m_filePosition = m_fileSize;
+	}
+
+	m_fileStream.seekp(m_filePosition, std::ios::beg);
 	m_fileStream.write(reinterpret_cast<const char*>(&Input[Offset]), Length);
 	m_filePosition += Length;
-	m_fileSize += Length;
+	m_fileSize = m_filePosition > m_fileSize ? m_filePosition : m_fileSize;
 	m_fileWritten += Length;
 
 	if (m_fileWritten >= CHUNK_SIZE)
@@ -302,9 +343,15 @@ void FileStream::WriteByte(uint8_t Value)
 {
 	CEXASSERT(m_fileAccess != FileAccess::Read, "File is read only");
 
+	if (m_fileMode == FileModes::Append)
+	{
+		m_filePosition = m_fileSize;
+	}
+
+	m_fileStream.seekp(m_filePosition, std::ios::beg);
 	m_fileStream.write(reinterpret_cast<char*>(&Value), 1);
 	m_filePosition++;
-	m_fileSize++;
+	m_fileSize = m_filePosition > m_fileSize ? m_filePosition : m_fileSize;
 	m_fileWritten++;
 
 	if (m_fileWritten >= CHUNK_SIZE)
diff --git a/CEX/MemoryStream.cpp b/CEX/MemoryStream.cpp
index 55fd66f..c813fd1 100644
--- a/CEX/MemoryStream.cpp
+++ b/CEX/MemoryStream.cpp
@@ -127,9 +127,11 @@ void MemoryStream::Destroy()
 
 size_t MemoryStream::Read(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 {
-	if (Offset + Length > m_streamData.size() - m_streamPosition)
+	const size_t RMDLEN = m_streamPosition < m_streamData.size() ? m_streamData.size() - m_streamPosition : 0;
+
+	if (Length > RMDLEN)
 	{
-		Length = m_streamData.size() - m_streamPosition;
+		Length = RMDLEN;
 	}
 
 	if (Length > 0)
@@ -176,7 +178,7 @@ void MemoryStream::Seek(uint64_t Offset, SeekOrigin Origin)
 
 void MemoryStream::SetLength(uint64_t Length)
 {
-	m_streamData.reserve(Length);
+	m_streamData.resize(Length);
 }
 
 void MemoryStream::Write(const std::vector<uint8_t> &Input, size_t Offset, size_t Length)
@@ -200,9 +202,9 @@ void MemoryStream::Write(const std::vector<uint8_t> &Input, size_t Offset, size_
 
 void MemoryStream::WriteByte(uint8_t Value)
 {
-	if (m_streamData.size() - m_streamPosition < 1)
+	if (m_streamData.size() < m_streamPosition + 1)
 	{
-		m_streamData.resize(m_streamData.size() + 1);
+		m_streamData.resize(m_streamPosition + 1);
 	}
 
 	MemoryTools::CopyFromValue(Value, m_streamData, m_streamPosition, 1);
diff --git a/CEX/SecureStream.cpp b/CEX/SecureStream.cpp
index bf21f8f..11d010e 100644
--- a/CEX/SecureStream.cpp
+++ b/CEX/SecureStream.cpp
@@ -27,7 +27,7 @@ SecureStream::SecureStream()
 SecureStream::SecureStream(size_t Length, uint64_t KeySalt)
 	:
 	m_isDestroyed(false),
-	m_keySalt(KeySalt),
+	m_keySalt(0),
 	m_streamData(0),
 	m_streamPosition(0)
 {
@@ -43,7 +43,7 @@ SecureStream::SecureStream(size_t Length, uint64_t KeySalt)
 SecureStream::SecureStream(const std::vector<uint8_t> &Data, uint64_t KeySalt)
 	:
 	m_isDestroyed(false),
-	m_keySalt(KeySalt),
+	m_keySalt(0),
 	m_streamData(Data),
 	m_streamPosition(0)
 {
@@ -59,7 +59,7 @@ SecureStream::SecureStream(const std::vector<uint8_t> &Data, uint64_t KeySalt)
 SecureStream::SecureStream(std::vector<uint8_t> &Data, size_t Offset, size_t Length, uint64_t KeySalt)
 	:
 	m_isDestroyed(false),
-	m_keySalt(KeySalt),
+	m_keySalt(0),
 	m_streamData(0),
 	m_streamPosition(0)
 {
@@ -147,9 +147,11 @@ void SecureStream::Destroy()
 
 size_t SecureStream::Read(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 {
-	if (Offset + Length > m_streamData.size() - m_streamPosition)
+	const size_t RMDLEN = m_streamPosition < m_streamData.size() ? m_streamData.size() - m_streamPosition : 0;
+
+	if (Length > RMDLEN)
 	{
-		Length = m_streamData.size() - m_streamPosition;
+		Length = RMDLEN;
 	}
 
 	if (Length > 0)
@@ -201,7 +203,9 @@ void SecureStream::Seek(uint64_t Offset, SeekOrigin Origin)
 
 void SecureStream::SetLength(uint64_t Length)
 {
-	m_streamData.reserve(Length);
+	Transform();
+	m_streamData.resize(Length);
+	Transform();
 }
 
 std::vector<uint8_t> SecureStream::ToArray()
@@ -230,16 +234,14 @@ void SecureStream::Write(const std::vector<uint8_t> &Input, size_t Offset, size_
 
 	len = m_streamPosition + Length;
 
-	if (m_streamData.capacity() - m_streamPosition < Length)
-	{
-		m_streamData.reserve(len);
-	}
+	// extend the stream while it is decrypted
+	Transform();
+
 	if (m_streamData.size() < len)
 	{
 		m_streamData.resize(len);
 	}
 
-	Transform();
 	MemoryTools::Copy(Input, Offset, m_streamData, m_streamPosition, Length);
 	Transform();
 	m_streamPosition += Length;
@@ -247,12 +249,13 @@ void SecureStream::Write(const std::vector<uint8_t> &Input, size_t Offset, size_
 
 void SecureStream::WriteByte(uint8_t Value)
 {
-	if (m_streamData.size() - m_streamPosition < 1)
+	Transform();
+
+	if (m_streamData.size() < m_streamPosition + 1)
 	{
-		m_streamData.resize(m_streamData.size() + 1);
+		m_streamData.resize(m_streamPosition + 1);
 	}
 
-	Transform();
 	MemoryTools::CopyFromValue(Value, m_streamData, m_streamPosition, 1);
 	Transform();
 	m_streamPosition += 1;
-- 
2.43.0


From fc237e4e74c40695396e507dfc171cc96aecf3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:10 +0000
Subject: [PATCH 022/135] fix: GCM re-initialisation kept the length of old
 associated data; a nonce-only one cleared the hash key and accepted a
 repeated nonce

---
 CEX/GCM.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/CEX/GCM.cpp b/CEX/GCM.cpp
index d0ec3e5..f5bbdad 100644
--- a/CEX/GCM.cpp
+++ b/CEX/GCM.cpp
@@ -185,8 +185,9 @@ const size_t GCM::TagSize()
 void GCM::Initialize(bool Encryption, ISymmetricKey &Parameters)
 {
 	MemoryTools::Clear(m_gcmState->AAD, 0, m_gcmState->AAD.size());
-	m_macAuthenticator->Reset();
-	MemoryTools::Clear(m_gcmState->Buffer, 0, m_gcmState->Buffer.size());
+	m_gcmState->AAD.resize(0);
+	// clear the buffer, but keep the hash key for a nonce-only initialization
+	m_macAuthenticator->Clear();
 	m_gcmState->Counter = 0;
 
 	MemoryTools::Clear(m_gcmState->Tag, 0, m_gcmState->Tag.size());
-- 
2.43.0


From d57210a073618ab8abdc35c675d9a895bdfa0631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:23 +0000
Subject: [PATCH 023/135] fix: HBA refused associated data at a non-zero offset

---
 CEX/HBA.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/HBA.cpp b/CEX/HBA.cpp
index 2af782f..9f2f974 100644
--- a/CEX/HBA.cpp
+++ b/CEX/HBA.cpp
@@ -344,7 +344,7 @@ void HBA::SetAssociatedData(const std::vector<uint8_t> &Input, size_t Offset, si
 		throw CryptoCipherModeException(Name(), std::string("SetAssociatedData"), std::string("The cipher has not been initialized!"), ErrorCodes::NotInitialized);
 	}
 
-	if (Length - Offset > Input.size())
+	if (Offset > Input.size() || Length > Input.size() - Offset)
 	{
 		throw CryptoCipherModeException(Name(), std::string("SetAssociatedData"), std::string("The input array is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -368,7 +368,7 @@ void HBA::SetAssociatedData(const SecureVector<uint8_t> &Input, size_t Offset, s
 		throw CryptoCipherModeException(Name(), std::string("SetAssociatedData"), std::string("The cipher has not been initialized!"), ErrorCodes::NotInitialized);
 	}
 
-	if (Length - Offset > Input.size())
+	if (Offset > Input.size() || Length > Input.size() - Offset)
 	{
 		throw CryptoCipherModeException(Name(), std::string("SetAssociatedData"), std::string("The input array is too small!"), ErrorCodes::InvalidSize);
 	}
-- 
2.43.0


From 95a392d0e5158b2b84a50c33c873d4db015d4fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:23 +0000
Subject: [PATCH 024/135] fix: GCM kept bytes of the old counter for a 96-bit
 nonce, and keyed its CTR mode without the cipher tweak it used for the hash
 key

---
 CEX/GCM.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/CEX/GCM.cpp b/CEX/GCM.cpp
index f5bbdad..7344357 100644
--- a/CEX/GCM.cpp
+++ b/CEX/GCM.cpp
@@ -15,6 +15,7 @@ public:
 
 	std::vector<uint8_t> AAD;
 	SecureVector<uint8_t> Buffer;
+	SecureVector<uint8_t> Info;
 	SecureVector<uint8_t> Key;
 	std::vector<uint8_t> Nonce;
 	std::vector<uint8_t> Tag;
@@ -28,6 +29,7 @@ public:
 		:
 		AAD(0),
 		Buffer(0),
+		Info(0),
 		Key(0),
 		Nonce(BLOCK_SIZE, 0x00),
 		Tag(BLOCK_SIZE, 0x00),
@@ -48,6 +50,7 @@ public:
 	{
 		MemoryTools::Clear(AAD, 0, AAD.size());
 		MemoryTools::Clear(Buffer, 0, Buffer.size());
+		MemoryTools::Clear(Info, 0, Info.size());
 		MemoryTools::Clear(Key, 0, Key.size());
 		MemoryTools::Clear(Nonce, 0, Nonce.size());
 		MemoryTools::Clear(Tag, 0, Tag.size());
@@ -190,6 +193,7 @@ void GCM::Initialize(bool Encryption, ISymmetricKey &Parameters)
 	m_macAuthenticator->Clear();
 	m_gcmState->Counter = 0;
 
+	MemoryTools::Clear(m_gcmState->Nonce, 0, m_gcmState->Nonce.size());
 	MemoryTools::Clear(m_gcmState->Tag, 0, m_gcmState->Tag.size());
 
 	if (Parameters.KeySizes().IVSize() < MIN_NONCESIZE)
@@ -244,6 +248,9 @@ void GCM::Initialize(bool Encryption, ISymmetricKey &Parameters)
 		// store the key in a secure-vector
 		m_gcmState->Key.resize(Parameters.KeySizes().KeySize());
 		MemoryTools::Copy(Parameters.SecureKey(), 0, m_gcmState->Key, 0, m_gcmState->Key.size());
+		// store the cipher tweak, the CTR mode is keyed with the same cipher as the hash function
+		m_gcmState->Info.resize(Parameters.KeySizes().InfoSize());
+		MemoryTools::Copy(Parameters.SecureInfo(), 0, m_gcmState->Info, 0, m_gcmState->Info.size());
 	}
 
 	// load the state
@@ -266,7 +273,7 @@ void GCM::Initialize(bool Encryption, ISymmetricKey &Parameters)
 	}
 
 	// initialize the CTR mode
-	SymmetricKey ckp(m_gcmState->Key, SecureLock(m_gcmState->Nonce));
+	SymmetricKey ckp(m_gcmState->Key, SecureLock(m_gcmState->Nonce), m_gcmState->Info);
 	m_cipherMode->Initialize(true, ckp);
 	m_cipherMode->ParallelProfile().Calculate(m_parallelProfile.IsParallel(), m_parallelProfile.ParallelBlockSize(), m_parallelProfile.ParallelMaxDegree());
 
-- 
2.43.0


From 9bac236a0a38a832bc92dc6dc687d0ad93b00c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:13 +0000
Subject: [PATCH 025/135] fix: ChaChaP20 wrote the tail of a parallel message
 without the output offset

---
 CEX/ChaChaP20.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/ChaChaP20.cpp b/CEX/ChaChaP20.cpp
index a89e941..faf0ac4 100644
--- a/CEX/ChaChaP20.cpp
+++ b/CEX/ChaChaP20.cpp
@@ -748,7 +748,7 @@ void ChaChaP20::Process(const std::vector<uint8_t> &Input, size_t InOffset, std:
 		if (RNDLEN < PRCLEN)
 		{
 			const size_t FNLLEN = PRCLEN % RNDLEN;
-			Generate(m_csx256State, m_csx256State->Nonce, Output, RNDLEN, FNLLEN);
+			Generate(m_csx256State, m_csx256State->Nonce, Output, OutOffset + RNDLEN, FNLLEN);
 
 			for (size_t i = 0; i < FNLLEN; ++i)
 			{
-- 
2.43.0


From e5871eb1c878bd636ea5853459f86c1fdc696779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:22 +0000
Subject: [PATCH 026/135] fix: CSX512 wrote the tail of a parallel message
 without the output offset

---
 CEX/CSX512.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/CSX512.cpp b/CEX/CSX512.cpp
index 1b8d477..61d2dc0 100644
--- a/CEX/CSX512.cpp
+++ b/CEX/CSX512.cpp
@@ -686,7 +686,7 @@ void CSX512::Process(const std::vector<uint8_t> &Input, size_t InOffset, std::ve
 		if (RNDLEN < PRCLEN)
 		{
 			const size_t FNLLEN = PRCLEN % RNDLEN;
-			Generate(m_csx512State, Output, RNDLEN, m_csx512State->Nonce, FNLLEN);
+			Generate(m_csx512State, Output, OutOffset + RNDLEN, m_csx512State->Nonce, FNLLEN);
 
 			for (size_t i = 0; i < FNLLEN; ++i)
 			{
-- 
2.43.0


From 7e906c00ad6ebe434e053d0d1fb03fd9ec648aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:22 +0000
Subject: [PATCH 027/135] fix: CSX512 mixed a short info with the info of the
 previous key

---
 CEX/CSX512.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CEX/CSX512.cpp b/CEX/CSX512.cpp
index 61d2dc0..62f875b 100644
--- a/CEX/CSX512.cpp
+++ b/CEX/CSX512.cpp
@@ -337,6 +337,7 @@ void CSX512::Initialize(bool Encryption, ISymmetricKey &Parameters)
 	if (Parameters.KeySizes().InfoSize() != 0)
 	{
 		// custom code
+		MemoryTools::Clear(m_csx512State->Custom, 0, m_csx512State->Custom.size());
 		MemoryTools::Copy(Parameters.SecureInfo(), 0, m_csx512State->Custom, 0, IntegerTools::Min(Parameters.KeySizes().InfoSize(), m_csx512State->Custom.size()));
 	}
 	else
-- 
2.43.0


From 8949b586ba4861aac5637a34235e0a54cab0f9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:22 +0000
Subject: [PATCH 028/135] fix: RCS and RWS kept the length of the previous
 key's info when a key had none

---
 CEX/RCS.cpp | 5 +++++
 CEX/RWS.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/CEX/RCS.cpp b/CEX/RCS.cpp
index 3444fb1..118f5e9 100644
--- a/CEX/RCS.cpp
+++ b/CEX/RCS.cpp
@@ -449,6 +449,11 @@ void RCS::Initialize(bool Encryption, ISymmetricKey &Parameters)
 		// copy the user defined string to the customization parameter
 		MemoryTools::Copy(Parameters.Info(), 0, m_rcsState->Custom, 0, Parameters.KeySizes().InfoSize());
 	}
+	else
+	{
+		// remove the customization string of a previous key
+		m_rcsState->Custom.resize(0);
+	}
 
 	// create the cSHAKE name string
 	std::string tmpn = Name();
diff --git a/CEX/RWS.cpp b/CEX/RWS.cpp
index 1724c09..46eaab9 100644
--- a/CEX/RWS.cpp
+++ b/CEX/RWS.cpp
@@ -414,6 +414,11 @@ void RWS::Initialize(bool Encryption, ISymmetricKey &Parameters)
 		// copy the user defined string to the customization parameter
 		MemoryTools::Copy(Parameters.Info(), 0, m_rwsState->Custom, 0, Parameters.KeySizes().InfoSize());
 	}
+	else
+	{
+		// remove the customization string of a previous key
+		m_rwsState->Custom.resize(0);
+	}
 
 	// create the cSHAKE name string
 	std::string tmpn = Name();
-- 
2.43.0


From a55fa08b3153aa30218d611d5219cb273152214d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:22 +0000
Subject: [PATCH 029/135] fix: RCS and RWS threads carried the counter past the
 16 bytes the sequential path counts in

---
 CEX/RCS.cpp | 2 +-
 CEX/RWS.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/RCS.cpp b/CEX/RCS.cpp
index 118f5e9..de52e17 100644
--- a/CEX/RCS.cpp
+++ b/CEX/RCS.cpp
@@ -838,7 +838,7 @@ void RCS::ProcessParallel(const std::vector<uint8_t> &Input, size_t InOffset, st
 		// thread level counter
 		std::vector<uint8_t> thdc(BLOCK_SIZE);
 		// offset counter by chunk size / block size  
-		IntegerTools::LeIncrease8(m_rcsState->Nonce, thdc, static_cast<uint32_t>(CTRLEN * i));
+		IntegerTools::LeIncrease8(m_rcsState->Nonce, thdc, 0, 16, static_cast<uint32_t>(CTRLEN * i));
 		const size_t STMPOS = i * CNKLEN;
 		// generate random at output offset
 		this->Generate(Output, OutOffset + STMPOS, CNKLEN, thdc);
diff --git a/CEX/RWS.cpp b/CEX/RWS.cpp
index 46eaab9..ce583b3 100644
--- a/CEX/RWS.cpp
+++ b/CEX/RWS.cpp
@@ -770,7 +770,7 @@ void RWS::ProcessParallel(const std::vector<uint8_t> &Input, size_t InOffset, st
 		// thread level counter
 		std::vector<uint8_t> thdc(BLOCK_SIZE);
 		// offset counter by chunk size / block size  
-		IntegerTools::LeIncrease8(m_rwsState->Nonce, thdc, static_cast<uint32_t>(CTRLEN * i));
+		IntegerTools::LeIncrease8(m_rwsState->Nonce, thdc, 0, 16, static_cast<uint32_t>(CTRLEN * i));
 		const size_t STMPOS = i * CNKLEN;
 		// generate random at output offset
 		this->Generate(Output, OutOffset + STMPOS, CNKLEN, thdc);
-- 
2.43.0


From 0324655c392d2f6ec0cfdbc0a78458efcb654540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:22 +0000
Subject: [PATCH 030/135] fix: LeIncrease8 and BeIncrease8 lost the carry out
 of a 0xFF byte

---
 CEX/IntegerTools.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/CEX/IntegerTools.h b/CEX/IntegerTools.h
index 425d719..d188df5 100644
--- a/CEX/IntegerTools.h
+++ b/CEX/IntegerTools.h
@@ -1022,7 +1022,7 @@ public:
 			odst = Output[lctr];
 			osrc = ((MAXPOS - lctr) < cinc.size()) ? cinc[MAXPOS - lctr] : 0x00;
 			ndst = odst + osrc + carry;
-			carry = ndst < odst ? 1 : 0;
+			carry = (ndst < odst || (carry != 0 && ndst == odst)) ? 1 : 0;
 			Output[lctr] = ndst;
 		}
 	}
@@ -1071,7 +1071,7 @@ public:
 			odst = Output[lctr];
 			osrc = ((MAXPOS - lctr) < cinc.size()) ? cinc[MAXPOS - lctr] : 0x00;
 			ndst = static_cast<uint8_t>(odst + osrc + carry);
-			carry = ndst < odst ? 1 : 0;
+			carry = (ndst < odst || (carry != 0 && ndst == odst)) ? 1 : 0;
 			Output[lctr] = ndst;
 		}
 	}
@@ -1119,7 +1119,7 @@ public:
 			odst = Output[lctr];
 			osrc = ((MAXPOS - lctr) < cinc.size()) ? cinc[MAXPOS - lctr] : 0x00;
 			ndst = static_cast<uint8_t>(odst + osrc + carry);
-			carry = ndst < odst ? 1 : 0;
+			carry = (ndst < odst || (carry != 0 && ndst == odst)) ? 1 : 0;
 			Output[lctr] = ndst;
 		}
 	}
@@ -1168,7 +1168,7 @@ public:
 			odst = Output[lctr];
 			osrc = ((MAXPOS - lctr) < cinc.size()) ? cinc[MAXPOS - lctr] : 0x00;
 			ndst = static_cast<uint8_t>(odst + osrc + carry);
-			carry = ndst < odst ? 1 : 0;
+			carry = (ndst < odst || (carry != 0 && ndst == odst)) ? 1 : 0;
 			Output[lctr] = ndst;
 		}
 	}
@@ -1960,7 +1960,7 @@ public:
 			odst = Output[lctr];
 			osrc = (lctr < cinc.size() ? cinc[lctr] : 0x00);
 			ndst = static_cast<uint8_t>(odst + osrc + carry);
-			carry = ndst < odst ? 1 : 0;
+			carry = (ndst < odst || (carry != 0 && ndst == odst)) ? 1 : 0;
 			Output[lctr] = ndst;
 			++lctr;
 		}
@@ -2008,7 +2008,7 @@ public:
 			odst = Output[lctr];
 			osrc = (lctr < cinc.size() ? cinc[lctr] : 0x00);
 			ndst = static_cast<uint8_t>(odst + osrc + carry);
-			carry = ndst < odst ? 1 : 0;
+			carry = (ndst < odst || (carry != 0 && ndst == odst)) ? 1 : 0;
 			Output[lctr] = ndst;
 			++lctr;
 		}
@@ -2054,7 +2054,7 @@ public:
 			odst = Output[lctr];
 			osrc = ((lctr - OutOffset < cinc.size()) ? cinc[lctr - OutOffset] : 0x00);
 			ndst = odst + osrc + carry;
-			carry = ndst < odst ? 1 : 0;
+			carry = (ndst < odst || (carry != 0 && ndst == odst)) ? 1 : 0;
 			Output[lctr] = ndst;
 			++lctr;
 		}
@@ -2101,7 +2101,7 @@ public:
 			odst = Output[lctr];
 			osrc = ((lctr - OutOffset < cinc.size()) ? cinc[lctr - OutOffset] : 0x00);
 			ndst = odst + osrc + carry;
-			carry = ndst < odst ? 1 : 0;
+			carry = (ndst < odst || (carry != 0 && ndst == odst)) ? 1 : 0;
 			Output[lctr] = ndst;
 			++lctr;
 		}
-- 
2.43.0


From abda1e20450b99956684c5345ca531f03afa6c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:22 +0000
Subject: [PATCH 031/135] fix: StreamCipherFromName returned ChaCha for CSX512

---
 CEX/StreamCipherFromName.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/StreamCipherFromName.cpp b/CEX/StreamCipherFromName.cpp
index 89c56b5..8112572 100644
--- a/CEX/StreamCipherFromName.cpp
+++ b/CEX/StreamCipherFromName.cpp
@@ -42,12 +42,12 @@ IStreamCipher* StreamCipherFromName::GetInstance(StreamCiphers StreamCipherType)
 			}
 			case StreamCiphers::CSX512:
 			{
-				cptr = new ChaChaP20(false);
+				cptr = new CSX512(false);
 				break;
 			}
 			case StreamCiphers::CSXR80K512:
 			{
-				cptr = new ChaChaP20(true);
+				cptr = new CSX512(true);
 				break;
 			}
 			case StreamCiphers::RCS:
-- 
2.43.0


From 31eeb080607a826a604e02c3b3e5ae62721777f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:22 +0000
Subject: [PATCH 032/135] fix: TSX512 and TSX1024 read past an info shorter
 than the tweak

---
 CEX/TSX1024.cpp | 8 +++++---
 CEX/TSX512.cpp  | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/CEX/TSX1024.cpp b/CEX/TSX1024.cpp
index 757b156..51f17b0 100644
--- a/CEX/TSX1024.cpp
+++ b/CEX/TSX1024.cpp
@@ -227,9 +227,11 @@ void TSX1024::Initialize(bool Encryption, ISymmetricKey &Parameters)
 
 	if (Parameters.KeySizes().InfoSize() != 0)
 	{
-		// custom code
-		m_tsx1024State->Tweak[0] = IntegerTools::LeBytesTo64(Parameters.Info(), 0);
-		m_tsx1024State->Tweak[1] = IntegerTools::LeBytesTo64(Parameters.Info(), 8);
+		// custom code, padded with zeros to the tweak size
+		std::vector<uint8_t> code(Parameters.Info());
+		code.resize(INFO_SIZE, 0x00);
+		m_tsx1024State->Tweak[0] = IntegerTools::LeBytesTo64(code, 0);
+		m_tsx1024State->Tweak[1] = IntegerTools::LeBytesTo64(code, 8);
 	}
 	else
 	{
diff --git a/CEX/TSX512.cpp b/CEX/TSX512.cpp
index 5ea5385..a669eb4 100644
--- a/CEX/TSX512.cpp
+++ b/CEX/TSX512.cpp
@@ -227,9 +227,11 @@ void TSX512::Initialize(bool Encryption, ISymmetricKey &Parameters)
 
 	if (Parameters.KeySizes().InfoSize() != 0)
 	{
-		// custom code
-		m_tsx512State->Tweak[0] = IntegerTools::LeBytesTo64(Parameters.Info(), 0);
-		m_tsx512State->Tweak[1] = IntegerTools::LeBytesTo64(Parameters.Info(), 8);
+		// custom code, padded with zeros to the tweak size
+		std::vector<uint8_t> code(Parameters.Info());
+		code.resize(INFO_SIZE, 0x00);
+		m_tsx512State->Tweak[0] = IntegerTools::LeBytesTo64(code, 0);
+		m_tsx512State->Tweak[1] = IntegerTools::LeBytesTo64(code, 8);
 	}
 	else
 	{
-- 
2.43.0


From db94910031d221422035bf62fdf82babc50157b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:22 +0000
Subject: [PATCH 033/135] fix: TSX1024 wrote its tag past the end of an output
 it had accepted

---
 CEX/TSX1024.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/TSX1024.cpp b/CEX/TSX1024.cpp
index 51f17b0..bc9d4f3 100644
--- a/CEX/TSX1024.cpp
+++ b/CEX/TSX1024.cpp
@@ -356,7 +356,7 @@ void TSX1024::Transform(const std::vector<uint8_t> &Input, size_t InOffset, std:
 	{
 		if (IsAuthenticator() == true)
 		{
-			if (Output.size() < Length + OutOffset + m_macAuthenticator->TagSize())
+			if (Output.size() < Length + OutOffset + TagSize())
 			{
 				throw CryptoSymmetricException(Name(), std::string("Transform"), std::string("The vector is not int64_t enough to add the MAC code!"), ErrorCodes::InvalidSize);
 			}
-- 
2.43.0


From 6635d499dc23acf711461b6b64e57b49d2f63081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:19 +0000
Subject: [PATCH 034/135] fix: serialised states of the stream ciphers were
 refused when valid, or read past their end when damaged

---
 CEX/CSX512.cpp    | 42 ++++++++++++++++++++++++++++++++++++-
 CEX/CSX512.h      |  1 -
 CEX/ChaChaP20.cpp | 42 ++++++++++++++++++++++++++++++++++++-
 CEX/ChaChaP20.h   |  1 -
 CEX/RCS.cpp       | 53 ++++++++++++++++++++++++++++++++++++++++++++++-
 CEX/RCS.h         |  1 -
 CEX/RWS.cpp       | 53 ++++++++++++++++++++++++++++++++++++++++++++++-
 CEX/RWS.h         |  1 -
 8 files changed, 186 insertions(+), 8 deletions(-)

diff --git a/CEX/CSX512.cpp b/CEX/CSX512.cpp
index 62f875b..515c2e2 100644
--- a/CEX/CSX512.cpp
+++ b/CEX/CSX512.cpp
@@ -105,6 +105,46 @@ public:
 		MemoryTools::CopyToObject(SecureState, soff, &IsInitialized, sizeof(bool));
 	}
 
+	static bool IsValid(const SecureVector<uint8_t> &SecureState)
+	{
+		// test the length of every field, and the values that the cipher depends on
+		std::array<size_t, 3> slen = { 0 };
+		size_t i;
+		size_t soff;
+		uint16_t vlen;
+
+		soff = 14 * sizeof(uint64_t);
+
+		for (i = 0; i < slen.size(); ++i)
+		{
+			if (SecureState.size() < soff + sizeof(uint16_t))
+			{
+				return false;
+			}
+
+			MemoryTools::CopyToObject(SecureState, soff, &vlen, sizeof(uint16_t));
+			slen[i] = vlen;
+			soff += sizeof(uint16_t) + vlen;
+		}
+
+		if (SecureState.size() != soff + (2 * sizeof(uint64_t)) + sizeof(uint64_t) + (3 * sizeof(bool)))
+		{
+			return false;
+		}
+
+		for (i = 0; i < 3; ++i)
+		{
+			if (SecureState[SecureState.size() - 3 + i] > 1)
+			{
+				return false;
+			}
+		}
+
+		// an initialized state; an authenticated one contains the mac key, and the space of the tag
+		return SecureState[SecureState.size() - 1] == 1 &&
+			(SecureState[SecureState.size() - 3] == 0 || (slen[1] != 0 && slen[2] == 64));
+	}
+
 	void Reset()
 	{
 		MemoryTools::Clear(Nonce, 0, Nonce.size() * sizeof(uint64_t));
@@ -179,7 +219,7 @@ CSX512::CSX512(bool Authenticate)
 
 CSX512::CSX512(SecureVector<uint8_t> &State)
 	:
-	m_csx512State(State.size() >= STATE_THRESHOLD ? new CSX512State(State) :
+	m_csx512State(CSX512State::IsValid(State) == true ? new CSX512State(State) :
 		throw CryptoSymmetricException(std::string("CSX512"), std::string("Constructor"), std::string("The State array is invalid!"), ErrorCodes::InvalidKey)),
 	m_macAuthenticator(m_csx512State->IsAuthenticated == false ?
 		nullptr :
diff --git a/CEX/CSX512.h b/CEX/CSX512.h
index 1604bd0..94d5a81 100644
--- a/CEX/CSX512.h
+++ b/CEX/CSX512.h
@@ -137,7 +137,6 @@ private:
 #endif
 	static const std::vector<uint8_t> SIGMA_INFO;
 	static const size_t STATE_PRECACHED = 2048;
-	static const size_t STATE_THRESHOLD = 243;
 	static const size_t STATE_SIZE = 14;
 	static const size_t TAG_SIZE = 64;
 
diff --git a/CEX/ChaChaP20.cpp b/CEX/ChaChaP20.cpp
index faf0ac4..de90d96 100644
--- a/CEX/ChaChaP20.cpp
+++ b/CEX/ChaChaP20.cpp
@@ -115,6 +115,46 @@ public:
 		MemoryTools::CopyToObject(SecureState, soff, &IsInitialized, sizeof(bool));
 	}
 
+	static bool IsValid(const SecureVector<uint8_t> &SecureState)
+	{
+		// test the length of every field, and the values that the cipher depends on
+		std::array<size_t, 3> slen = { 0 };
+		size_t i;
+		size_t soff;
+		uint16_t vlen;
+
+		soff = 14 * sizeof(uint32_t);
+
+		for (i = 0; i < slen.size(); ++i)
+		{
+			if (SecureState.size() < soff + sizeof(uint16_t))
+			{
+				return false;
+			}
+
+			MemoryTools::CopyToObject(SecureState, soff, &vlen, sizeof(uint16_t));
+			slen[i] = vlen;
+			soff += sizeof(uint16_t) + vlen;
+		}
+
+		if (SecureState.size() != soff + (2 * sizeof(uint32_t)) + sizeof(uint64_t) + (3 * sizeof(bool)))
+		{
+			return false;
+		}
+
+		for (i = 0; i < 3; ++i)
+		{
+			if (SecureState[SecureState.size() - 3 + i] > 1)
+			{
+				return false;
+			}
+		}
+
+		// an initialized state; an authenticated one contains the mac key, and the space of the tag
+		return SecureState[SecureState.size() - 1] == 1 &&
+			(SecureState[SecureState.size() - 3] == 0 || (slen[1] != 0 && slen[2] == 32));
+	}
+
 	void Reset()
 	{
 		MemoryTools::Clear(Custom, 0, Custom.size());
@@ -186,7 +226,7 @@ ChaChaP20::ChaChaP20(bool Authenticate)
 
 ChaChaP20::ChaChaP20(SecureVector<uint8_t> &State)
 	:
-	m_csx256State(State.size() >= STATE_THRESHOLD ? new CSX256State(State) :
+	m_csx256State(CSX256State::IsValid(State) == true ? new CSX256State(State) :
 		throw CryptoSymmetricException(std::string("ChaChaP20"), std::string("Constructor"), std::string("The State array is invalid!"), ErrorCodes::InvalidKey)),
 	m_macAuthenticator(m_csx256State->IsAuthenticated == false ?
 		nullptr :
diff --git a/CEX/ChaChaP20.h b/CEX/ChaChaP20.h
index 2069422..8ac6aa9 100644
--- a/CEX/ChaChaP20.h
+++ b/CEX/ChaChaP20.h
@@ -136,7 +136,6 @@ private:
 	static const size_t NONCE_SIZE = 2;
 	static const size_t ROUND_COUNT = 20;
 	static const size_t STATE_PRECACHED = 2048;
-	static const size_t STATE_THRESHOLD = 155;
 	static const std::vector<uint8_t> SIGMA_INFO;
 	static const size_t STATE_SIZE = 14;
 	static const size_t TAG_SIZE = 32;
diff --git a/CEX/RCS.cpp b/CEX/RCS.cpp
index de52e17..2ae93b1 100644
--- a/CEX/RCS.cpp
+++ b/CEX/RCS.cpp
@@ -169,6 +169,57 @@ public:
 		MemoryTools::CopyToObject(SecureState, soff, &IsInitialized, sizeof(bool));
 	}
 
+	static bool IsValid(const SecureVector<uint8_t> &SecureState)
+	{
+		// test the length of every field, and the values that the cipher depends on
+		std::array<size_t, 6> slen = { 0 };
+		size_t i;
+		size_t soff;
+		uint16_t vlen;
+
+		soff = 0;
+
+		for (i = 0; i < slen.size(); ++i)
+		{
+			if (SecureState.size() < soff + sizeof(uint16_t))
+			{
+				return false;
+			}
+
+			MemoryTools::CopyToObject(SecureState, soff, &vlen, sizeof(uint16_t));
+			slen[i] = vlen;
+			soff += sizeof(uint16_t) + vlen;
+		}
+
+		const size_t FLGOFF = soff + sizeof(uint64_t) + sizeof(uint32_t) + sizeof(KmacModes) + sizeof(ShakeModes);
+
+		if (SecureState.size() < FLGOFF + (3 * sizeof(bool)))
+		{
+			return false;
+		}
+
+		for (i = 0; i < 3; ++i)
+		{
+			if (SecureState[FLGOFF + i] > 1)
+			{
+				return false;
+			}
+		}
+
+		uint32_t rnds;
+
+		MemoryTools::CopyToObject(SecureState, soff + sizeof(uint64_t), &rnds, sizeof(uint32_t));
+
+		const KmacModes KMODE = static_cast<KmacModes>(SecureState[soff + sizeof(uint64_t) + sizeof(uint32_t)]);
+		const size_t TAGLEN = (KMODE == KmacModes::KMAC512) ? 64 : (KMODE == KmacModes::KMAC256) ? 32 : 0;
+
+		// an initialized state, with the round-keys and the nonce of the cipher; an authenticated one contains the mac key, and the space of the tag
+		return SecureState[FLGOFF + 2] == 1 &&
+			rnds != 0 && slen[0] == (static_cast<size_t>(rnds) + 1) * BLOCK_SIZE && slen[5] == BLOCK_SIZE &&
+			((SecureState[FLGOFF] == 0 && KMODE == KmacModes::None) ||
+			(SecureState[FLGOFF] == 1 && TAGLEN != 0 && slen[2] != 0 && slen[3] == TAGLEN));
+	}
+
 	void Reset()
 	{
 #if defined(CEX_HAS_AVX)
@@ -270,7 +321,7 @@ RCS::RCS(bool Authenticate)
 
 RCS::RCS(SecureVector<uint8_t> &State)
 	:
-	m_rcsState(State.size() > STATE_THRESHOLD ? new RcsState(State) :
+	m_rcsState(RcsState::IsValid(State) == true ? new RcsState(State) :
 		throw CryptoSymmetricException(std::string("RCS"), std::string("Constructor"), std::string("The State array is invalid!"), ErrorCodes::InvalidKey)),
 	m_macAuthenticator(m_rcsState->Authenticator == KmacModes::None ? 
 		nullptr :
diff --git a/CEX/RCS.h b/CEX/RCS.h
index 25ffce6..65cd0f1 100644
--- a/CEX/RCS.h
+++ b/CEX/RCS.h
@@ -144,7 +144,6 @@ private:
 	static const size_t RK512_COUNT = 30;
 	static const size_t RK1024_COUNT = 38;
 	static const size_t STATE_PRECACHED = 2048;
-	static const size_t STATE_THRESHOLD = 343;
 	static const uint8_t UPDATE_PREFIX = 0x80;
 
 #if defined(CEX_HAS_AVX)
diff --git a/CEX/RWS.cpp b/CEX/RWS.cpp
index ce583b3..daa5b37 100644
--- a/CEX/RWS.cpp
+++ b/CEX/RWS.cpp
@@ -136,6 +136,57 @@ public:
 		MemoryTools::CopyToObject(SecureState, soff, &IsInitialized, sizeof(bool));
 	}
 
+	static bool IsValid(const SecureVector<uint8_t> &SecureState)
+	{
+		// test the length of every field, and the values that the cipher depends on
+		std::array<size_t, 6> slen = { 0 };
+		size_t i;
+		size_t soff;
+		uint16_t vlen;
+
+		soff = 0;
+
+		for (i = 0; i < slen.size(); ++i)
+		{
+			if (SecureState.size() < soff + sizeof(uint16_t))
+			{
+				return false;
+			}
+
+			MemoryTools::CopyToObject(SecureState, soff, &vlen, sizeof(uint16_t));
+			slen[i] = vlen;
+			soff += sizeof(uint16_t) + vlen;
+		}
+
+		const size_t FLGOFF = soff + sizeof(uint64_t) + sizeof(uint32_t) + sizeof(KmacModes) + sizeof(ShakeModes);
+
+		if (SecureState.size() < FLGOFF + (3 * sizeof(bool)))
+		{
+			return false;
+		}
+
+		for (i = 0; i < 3; ++i)
+		{
+			if (SecureState[FLGOFF + i] > 1)
+			{
+				return false;
+			}
+		}
+
+		uint32_t rnds;
+
+		MemoryTools::CopyToObject(SecureState, soff + sizeof(uint64_t), &rnds, sizeof(uint32_t));
+
+		const KmacModes KMODE = static_cast<KmacModes>(SecureState[soff + sizeof(uint64_t) + sizeof(uint32_t)]);
+		const size_t TAGLEN = (KMODE == KmacModes::KMAC512) ? 64 : (KMODE == KmacModes::KMAC256) ? 32 : (KMODE == KmacModes::KMAC128) ? 16 : 0;
+
+		// an initialized state, with the round-keys and the nonce of the cipher; an authenticated one contains the mac key, and the space of the tag
+		return SecureState[FLGOFF + 2] == 1 &&
+			rnds != 0 && slen[0] == (static_cast<size_t>(rnds) + 1) * BLOCK_SIZE && slen[5] == BLOCK_SIZE &&
+			((SecureState[FLGOFF] == 0 && KMODE == KmacModes::None) ||
+			(SecureState[FLGOFF] == 1 && TAGLEN != 0 && slen[2] != 0 && slen[3] == TAGLEN));
+	}
+
 	void Reset()
 	{
 		MemoryTools::Clear(RoundKeys, 0, RoundKeys.size() * sizeof(uint32_t));
@@ -228,7 +279,7 @@ RWS::RWS(bool Authenticate)
 
 RWS::RWS(SecureVector<uint8_t> &State)
 	:
-	m_rwsState(State.size() > STATE_THRESHOLD ? new RwsState(State) : 
+	m_rwsState(RwsState::IsValid(State) == true ? new RwsState(State) : 
 		throw CryptoSymmetricException(std::string("RWS"), std::string("Constructor"), std::string("The State array is invalid!"), ErrorCodes::InvalidKey)),
 	m_macAuthenticator(m_rwsState->Authenticator == KmacModes::None ?
 		nullptr :
diff --git a/CEX/RWS.h b/CEX/RWS.h
index 384bd54..495257e 100644
--- a/CEX/RWS.h
+++ b/CEX/RWS.h
@@ -143,7 +143,6 @@ private:
 	static const size_t RK256_COUNT = 40;
 	static const size_t RK512_COUNT = 80;
 	static const size_t STATE_PRECACHED = 2048;
-	static const size_t STATE_THRESHOLD = 838;
 	static const uint8_t UPDATE_PREFIX = 0x80;
 
 	class RwsState;
-- 
2.43.0


From fe5ccec9e5b255063c00bb1fae315e1f13c4e417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:27 +0000
Subject: [PATCH 035/135] fix: TSX512 and TSX1024 called themselves TSX256, and
 TSXR96K512 had no name

---
 CEX/SymmetricCiphers.cpp | 3 +++
 CEX/TSX1024.cpp          | 2 +-
 CEX/TSX512.cpp           | 2 +-
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/CEX/SymmetricCiphers.cpp b/CEX/SymmetricCiphers.cpp
index ad9e278..1fa4996 100644
--- a/CEX/SymmetricCiphers.cpp
+++ b/CEX/SymmetricCiphers.cpp
@@ -83,6 +83,9 @@ std::string SymmetricCipherConvert::ToName(SymmetricCiphers Enumeral)
 		case SymmetricCiphers::TSX512:
 			name = std::string("TSX512");
 			break;
+		case SymmetricCiphers::TSXR96K512:
+			name = std::string("TSXR96K512");
+			break;
 		case SymmetricCiphers::TSX1024:
 			name = std::string("TSX1024");
 			break;
diff --git a/CEX/TSX1024.cpp b/CEX/TSX1024.cpp
index bc9d4f3..43ad68c 100644
--- a/CEX/TSX1024.cpp
+++ b/CEX/TSX1024.cpp
@@ -107,7 +107,7 @@ const StreamCiphers TSX1024::Enumeral()
 	auth = IsAuthenticator() ? 
 		StreamAuthenticators::KMAC512 : 
 		StreamAuthenticators::None;
-	tmpn = Enumeration::StreamCipherConvert::FromDescription(StreamCiphers::TSX256, auth);
+	tmpn = Enumeration::StreamCipherConvert::FromDescription(StreamCiphers::TSX1024, auth);
 
 	return tmpn;
 }
diff --git a/CEX/TSX512.cpp b/CEX/TSX512.cpp
index a669eb4..452afc6 100644
--- a/CEX/TSX512.cpp
+++ b/CEX/TSX512.cpp
@@ -107,7 +107,7 @@ const StreamCiphers TSX512::Enumeral()
 	auth = IsAuthenticator() ? 
 		StreamAuthenticators::KMAC512 : 
 		StreamAuthenticators::None;
-	tmpn = Enumeration::StreamCipherConvert::FromDescription(StreamCiphers::TSX256, auth);
+	tmpn = Enumeration::StreamCipherConvert::FromDescription(StreamCiphers::TSX512, auth);
 
 	return tmpn;
 }
-- 
2.43.0


From 61f206c2031770655632ab2eef25ee8eb866622f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:55 +0000
Subject: [PATCH 036/135] fix: the domain key of the asymmetric ciphers took
 its name string from two different temporaries

---
 CEX/ECDH.cpp     | 3 ++-
 CEX/Kyber.cpp    | 3 ++-
 CEX/McEliece.cpp | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/CEX/ECDH.cpp b/CEX/ECDH.cpp
index f7e573f..8053593 100644
--- a/CEX/ECDH.cpp
+++ b/CEX/ECDH.cpp
@@ -215,7 +215,8 @@ AsymmetricKeyPair* ECDH::Generate(std::vector<uint8_t> &Seed)
 
 void ECDH::CXOF(const std::vector<uint8_t> &Domain, const std::vector<uint8_t> &Key, std::vector<uint8_t> &Secret, size_t Rate)
 {
-	std::vector<uint8_t> tmpn(Name().begin(), Name().end());
+	const std::string NAME = Name();
+	std::vector<uint8_t> tmpn(NAME.begin(), NAME.end());
 	Keccak::CXOFP1600(Key, Domain, tmpn, Secret, 0, Secret.size(), Rate);
 }
 
diff --git a/CEX/Kyber.cpp b/CEX/Kyber.cpp
index 1a46250..0cf70d9 100644
--- a/CEX/Kyber.cpp
+++ b/CEX/Kyber.cpp
@@ -443,7 +443,8 @@ void Kyber::Initialize(AsymmetricKey* Key)
 
 void Kyber::CXOF(const std::vector<uint8_t> &Domain, const std::vector<uint8_t> &Key, std::vector<uint8_t> &Secret, size_t Rate)
 {
-	std::vector<uint8_t> tmpn(Name().begin(), Name().end());
+	const std::string NAME = Name();
+	std::vector<uint8_t> tmpn(NAME.begin(), NAME.end());
 	Keccak::CXOFP1600(Key, Domain, tmpn, Secret, 0, Secret.size(), Rate);
 }
 
diff --git a/CEX/McEliece.cpp b/CEX/McEliece.cpp
index 91d9b2f..969cd30 100644
--- a/CEX/McEliece.cpp
+++ b/CEX/McEliece.cpp
@@ -466,7 +466,8 @@ void McEliece::Initialize(AsymmetricKey* Key)
 
 void McEliece::CXOF(const std::vector<uint8_t> &Domain, const std::vector<uint8_t> &Key, std::vector<uint8_t> &Secret, size_t Rate)
 {
-	std::vector<uint8_t> tmpn(Name().begin(), Name().end());
+	const std::string NAME = Name();
+	std::vector<uint8_t> tmpn(NAME.begin(), NAME.end());
 	Keccak::CXOFP1600(Key, Domain, tmpn, Secret, 0, Secret.size(), Rate);
 }
 
-- 
2.43.0


From e135abb804fcb57f0c1a2743b3bf16090e2b9d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:39 +0000
Subject: [PATCH 037/135] fix: the vectorized Kyber samplers loaded unaligned
 memory as aligned and read past their buffers

---
 CEX/KyberBase.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/CEX/KyberBase.cpp b/CEX/KyberBase.cpp
index bf8a7d7..7c2a334 100644
--- a/CEX/KyberBase.cpp
+++ b/CEX/KyberBase.cpp
@@ -189,12 +189,14 @@ void KyberBase::PolyToMsg(std::vector<uint8_t> &Msg, const Poly &A)
 
 void KyberBase::PolyGetNoiseEta1(Poly &R, const std::vector<uint8_t> &Seed, size_t SOffset, uint8_t Nonce, uint32_t Eta1)
 {
-    std::vector<uint8_t> buf(Eta1 * KYBER_N / 4);
+    const size_t NSELEN = Eta1 * KYBER_N / 4;
+    // the last 256-bit load of the vectorized sampler extends 8 bytes past the noise
+    std::vector<uint8_t> buf(NSELEN + sizeof(uint64_t));
     std::vector<uint8_t> extkey(KYBER_SYMBYTES + 1);
 
     MemoryTools::Copy(Seed, SOffset, extkey, 0, KYBER_SYMBYTES);
     extkey[KYBER_SYMBYTES] = Nonce;
-    Keccak::XOFP1600(extkey, 0, extkey.size(), buf, 0, buf.size(), Keccak::KECCAK256_RATE_SIZE);
+    Keccak::XOFP1600(extkey, 0, extkey.size(), buf, 0, NSELEN, Keccak::KECCAK256_RATE_SIZE);
 
     PolyCbdEta1(R, buf, Eta1);
 }
@@ -494,7 +496,7 @@ void KyberBase::Cbd2(Poly &R, const std::vector<uint8_t> &Buf)
 
     for (size_t i = 0; i < R.coeffs.size() / 64; ++i)
     {
-        f0 = _mm256_load_si256(reinterpret_cast<const __m256i*>(&pbuf[32 * i]));
+        f0 = _mm256_loadu_si256(reinterpret_cast<const __m256i*>(&pbuf[32 * i]));
 
         f1 = _mm256_srli_epi16(f0, 1);
         f0 = _mm256_and_si256(mask55, f0);
@@ -700,7 +702,11 @@ void KyberBase::PolyDecompressAvx2P160(Poly &R, const std::vector<uint8_t> &A, s
         128, 16, 512, 64, 8, 256, 32, 1024);
     __m256i f;
     int16_t* pr = R.coeffs.data();
-    const uint8_t* pa = A.data() + AOffset;
+    // the last 128-bit load extends 6 bytes past the compressed polynomial
+    std::array<uint8_t, 166> tmpa = { 0 };
+    const uint8_t* pa = tmpa.data();
+
+    MemoryTools::Copy(A, AOffset, tmpa, 0, 160);
 
     for (size_t i = 0; i < R.coeffs.size() / 16; ++i)
     {
@@ -730,7 +736,7 @@ void KyberBase::PolyFromMsg(Poly &R, const std::vector<uint8_t> &Msg)
     int16_t* pr = R.coeffs.data();
     const uint8_t* pm = Msg.data();
 
-    f = _mm256_load_si256(reinterpret_cast<const __m256i*>(pm));
+    f = _mm256_loadu_si256(reinterpret_cast<const __m256i*>(pm));
     g3 = _mm256_shuffle_epi32(f, 0);
     g3 = _mm256_sllv_epi32(g3, shift);
     g3 = _mm256_shuffle_epi8(g3, idx);
@@ -1203,7 +1209,8 @@ void KyberBase::GenMatrix(std::vector<PolyVec> &A, const std::vector<uint8_t> &S
 
     for (i = 0; i < VLEN; ++i)
     {
-        buf[i].resize(GEN_MATRIX_NBLOCKS * Keccak::KECCAK128_RATE_SIZE + 2, 0x00);
+        // the last 256-bit load of the vectorized sampler extends 8 bytes past the squeezed blocks
+        buf[i].resize(GEN_MATRIX_NBLOCKS * Keccak::KECCAK128_RATE_SIZE + 8, 0x00);
         extseed[i].resize(KYBER_SYMBYTES + 2, 0x00);
 
         if (i < K)
-- 
2.43.0


From 87f2bb7b6e4d304ea6262d90fcbd7ff9613de5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:57 +0000
Subject: [PATCH 038/135] fix: copying between an object and an array scaled
 the byte offset by the size of the object

---
 CEX/MemoryTools.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/CEX/MemoryTools.h b/CEX/MemoryTools.h
index c4656f4..34d0c40 100644
--- a/CEX/MemoryTools.h
+++ b/CEX/MemoryTools.h
@@ -495,6 +495,8 @@ public:
 	inline static void CopyFromObject(const Object* Input, Array &Output, size_t OutOffset, size_t Length)
 	{
 		const size_t ELMLEN = sizeof(Array::value_type);
+		// the offset into the object is in bytes, whatever the type of the object
+		const uint8_t* pobj = reinterpret_cast<const uint8_t*>(Input);
 		size_t pctr;
 
 		CEXASSERT((Output.size() - OutOffset) * ELMLEN >= Length, "Length is larger than output size");
@@ -519,11 +521,11 @@ public:
 				while (pctr != ALNLEN)
 				{
 #	if defined(CEX_HAS_AVX512)
-					COPY512FROMOBJECT(Input + pctr, Output, OutOffset + pctr);
+					COPY512FROMOBJECT(pobj + (pctr * ELMLEN), Output, OutOffset + pctr);
 #	elif defined(CEX_HAS_AVX2)
-					COPY256FROMOBJECT(Input + pctr, Output, OutOffset + pctr);
+					COPY256FROMOBJECT(pobj + (pctr * ELMLEN), Output, OutOffset + pctr);
 #	elif defined(CEX_HAS_AVX)
-					COPY128FROMOBJECT(Input + pctr, Output, OutOffset + pctr);
+					COPY128FROMOBJECT(pobj + (pctr * ELMLEN), Output, OutOffset + pctr);
 #	endif
 					pctr += SMDBLK;
 				}
@@ -532,7 +534,7 @@ public:
 
 			if (pctr * ELMLEN != Length)
 			{
-				std::memcpy(&Output[OutOffset + pctr], Input + pctr, Length - (pctr * ELMLEN));
+				std::memcpy(&Output[OutOffset + pctr], pobj + (pctr * ELMLEN), Length - (pctr * ELMLEN));
 			}
 		}
 	}
@@ -552,6 +554,8 @@ public:
 	inline static void CopyToObject(const Array &Input, size_t InOffset, Object* Output, size_t Length)
 	{
 		const size_t ELMLEN = sizeof(Array::value_type);
+		// the offset into the object is in bytes, whatever the type of the object
+		uint8_t* pobj = reinterpret_cast<uint8_t*>(Output);
 		size_t pctr;
 
 		CEXASSERT((Input.size() - InOffset) * ELMLEN >= Length, "Length is larger than output size");
@@ -576,11 +580,11 @@ public:
 				while (pctr != ALNLEN)
 				{
 #	if defined(CEX_HAS_AVX512)
-					COPY512TOOBJECT(Input, InOffset + pctr, Output + pctr);
+					COPY512TOOBJECT(Input, InOffset + pctr, pobj + (pctr * ELMLEN));
 #	elif defined(CEX_HAS_AVX2)
-					COPY256TOOBJECT(Input, InOffset + pctr, Output + pctr);
+					COPY256TOOBJECT(Input, InOffset + pctr, pobj + (pctr * ELMLEN));
 #	elif defined(CEX_HAS_AVX)
-					COPY128TOOBJECT(Input, InOffset + pctr, Output + pctr);
+					COPY128TOOBJECT(Input, InOffset + pctr, pobj + (pctr * ELMLEN));
 #	endif
 					pctr += SMDBLK;
 				}
@@ -589,7 +593,7 @@ public:
 
 			if (pctr * ELMLEN != Length)
 			{
-				std::memcpy(Output + pctr, &Input[InOffset + pctr], Length - (pctr * ELMLEN));
+				std::memcpy(pobj + (pctr * ELMLEN), &Input[InOffset + pctr], Length - (pctr * ELMLEN));
 			}
 		}
 	}
-- 
2.43.0


From 6205690dbefece5ddee4c80c5652d4298963cff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:49 +0000
Subject: [PATCH 039/135] fix: ranged Generate of CSR, HCR and ACP wrote the
 size of the whole output into a buffer of the requested length

---
 CEX/ACP.cpp | 2 +-
 CEX/CSR.cpp | 2 +-
 CEX/HCR.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/CEX/ACP.cpp b/CEX/ACP.cpp
index f7a6a96..92b3f7d 100644
--- a/CEX/ACP.cpp
+++ b/CEX/ACP.cpp
@@ -83,7 +83,7 @@ void ACP::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 
 	SecureVector<uint8_t> tmp(Length);
 
-	Generate(tmp, 0, Output.size(), m_rngGenerator);
+	Generate(tmp, 0, Length, m_rngGenerator);
 	SecureMove(tmp, 0, Output, Offset, tmp.size());
 }
 
diff --git a/CEX/CSR.cpp b/CEX/CSR.cpp
index 4386154..66854fa 100644
--- a/CEX/CSR.cpp
+++ b/CEX/CSR.cpp
@@ -88,7 +88,7 @@ void CSR::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 
 	SecureVector<uint8_t> tmp(Length);
 
-	Generate(tmp, 0, Output.size(), m_rngGenerator);
+	Generate(tmp, 0, Length, m_rngGenerator);
 	SecureMove(tmp, 0, Output, Offset, tmp.size());
 }
 
diff --git a/CEX/HCR.cpp b/CEX/HCR.cpp
index 16375ba..c80a3f7 100644
--- a/CEX/HCR.cpp
+++ b/CEX/HCR.cpp
@@ -91,7 +91,7 @@ void HCR::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 
 	SecureVector<uint8_t> tmp(Length);
 
-	Generate(tmp, 0, Output.size(), m_rngGenerator);
+	Generate(tmp, 0, Length, m_rngGenerator);
 	SecureMove(tmp, 0, Output, Offset, tmp.size());
 }
 
-- 
2.43.0


From 38d2434931c337d7a49179fd2198e2ab3b0688a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:31 +0000
Subject: [PATCH 040/135] fix: McEliece key generation never ended after a
 random permutation with equal entries

---
 CEX/MPKCN4608T96.cpp  | 4 ++--
 CEX/MPKCN6688T128.cpp | 4 ++--
 CEX/MPKCN6960T119.cpp | 4 ++--
 CEX/MPKCN8192T128.cpp | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/CEX/MPKCN4608T96.cpp b/CEX/MPKCN4608T96.cpp
index 91cc38e..08d7ddd 100644
--- a/CEX/MPKCN4608T96.cpp
+++ b/CEX/MPKCN4608T96.cpp
@@ -460,9 +460,9 @@ int32_t MPKCN4608T96::PkGen(uint8_t* Pk, const uint8_t* Sk, const uint32_t* Perm
 				{
 					MemoryTools::CopyRaw((uint8_t*)mat[i] + MCELIECE_N4608T96_PK_NROWS / 8, (uint8_t*)Pk + i * MCELIECE_N4608T96_PK_ROW_BYTES, MCELIECE_N4608T96_PK_ROW_BYTES);
 				}
-			}
 
-			res = 0;
+				res = 0;
+			}
 		}
 
 		for (i = 0; i < MCELIECE_N4608T96_PK_NROWS; ++i)
diff --git a/CEX/MPKCN6688T128.cpp b/CEX/MPKCN6688T128.cpp
index a01201b..cccadcc 100644
--- a/CEX/MPKCN6688T128.cpp
+++ b/CEX/MPKCN6688T128.cpp
@@ -460,9 +460,9 @@ int32_t MPKCN6688T128::PkGen(uint8_t* Pk, const uint8_t* Sk, const uint32_t* Per
 				{
 					MemoryTools::CopyRaw((uint8_t*)mat[i] + MCELIECE_N6688T128_PK_NROWS / 8, (uint8_t*)Pk + i * MCELIECE_N6688T128_PK_ROW_BYTES, MCELIECE_N6688T128_PK_ROW_BYTES);
 				}
-			}
 
-			res = 0;
+				res = 0;
+			}
 		}
 
 		for (i = 0; i < MCELIECE_N6688T128_PK_NROWS; ++i)
diff --git a/CEX/MPKCN6960T119.cpp b/CEX/MPKCN6960T119.cpp
index 64abac5..0a01ee5 100644
--- a/CEX/MPKCN6960T119.cpp
+++ b/CEX/MPKCN6960T119.cpp
@@ -513,9 +513,9 @@ int32_t MPKCN6960T119::PkGen(uint8_t* Pk, const uint8_t* Sk, const uint32_t* Per
 					*pk_ptr = (mat[i][j] >> tail);
 					++pk_ptr;
 				}
-			}
 
-			res = 0;
+				res = 0;
+			}
 		}
 
 		for (i = 0; i < MCELIECE_N6960T119_PK_NROWS; ++i)
diff --git a/CEX/MPKCN8192T128.cpp b/CEX/MPKCN8192T128.cpp
index 8d82b09..9c72ddc 100644
--- a/CEX/MPKCN8192T128.cpp
+++ b/CEX/MPKCN8192T128.cpp
@@ -435,9 +435,9 @@ int32_t MPKCN8192T128::PkGen(uint8_t* Pk, const uint8_t* Sk, const uint32_t* Per
 				{
 					MemoryTools::CopyRaw((uint8_t*)mat[i] + MCELIECE_N8192T128_PK_NROWS / 8, (uint8_t*)Pk + i * MCELIECE_N8192T128_PK_ROW_BYTES, MCELIECE_N8192T128_PK_ROW_BYTES);
 				}
-			}
 
-			res = 0;
+				res = 0;
+			}
 		}
 
 		for (i = 0; i < MCELIECE_N8192T128_PK_NROWS; ++i)
-- 
2.43.0


From 8b7f5ef46fa4e087e85ff0e41e5a0ce617143ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:29 +0000
Subject: [PATCH 041/135] fix: key encapsulation accepted ciphertexts and keys
 of the wrong size, and McEliece-6960 some altered ciphertexts

---
 CEX/ECDH.cpp          |  5 +++++
 CEX/Kyber.cpp         | 39 +++++++++++++++++++++++++++++++++++++++
 CEX/MPKCN6960T119.cpp |  2 +-
 CEX/McEliece.cpp      | 41 ++++++++++++++++++++++++++++++++++++++++-
 4 files changed, 85 insertions(+), 2 deletions(-)

diff --git a/CEX/ECDH.cpp b/CEX/ECDH.cpp
index 8053593..e5b65c8 100644
--- a/CEX/ECDH.cpp
+++ b/CEX/ECDH.cpp
@@ -162,6 +162,11 @@ bool ECDH::KeyExchange(AsymmetricKey* PublicKey, AsymmetricKey* PrivateKey, std:
 	std::vector<uint8_t> sec(EC25519::EC25519_SECRET_SIZE);
 	bool res;
 
+	if (PublicKey->Polynomial().size() != EC25519::EC25519_PUBLICKEY_SIZE || PrivateKey->Polynomial().size() < EC25519::EC25519_SEED_SIZE)
+	{
+		throw CryptoAsymmetricException(Name(), std::string("KeyExchange"), std::string("The key size is invalid!"), ErrorCodes::InvalidKey);
+	}
+
 	res = ECDHBase::Ed25519KeyExchange(sec, PublicKey->Polynomial(), PrivateKey->Polynomial());
 
 	if (res == true)
diff --git a/CEX/Kyber.cpp b/CEX/Kyber.cpp
index 0cf70d9..820ebe7 100644
--- a/CEX/Kyber.cpp
+++ b/CEX/Kyber.cpp
@@ -13,6 +13,35 @@ using Tools::IntegerTools;
 using Digest::Keccak;
 using Enumeration::KyberParameterConvert;
 
+static size_t KyberKeySize(KyberParameters Parameters, bool PublicKey)
+{
+	// the size of a key of a parameter set; zero if there is no such set
+
+	switch (Parameters)
+	{
+		case KyberParameters::KYBERS1P1632:
+		{
+			return PublicKey ? KyberBase::Params1632::KYBER_PUBLICKEY_SIZE : KyberBase::Params1632::KYBER_PRIVATEKEY_SIZE;
+		}
+		case KyberParameters::KYBERS3P2400:
+		{
+			return PublicKey ? KyberBase::Params2400::KYBER_PUBLICKEY_SIZE : KyberBase::Params2400::KYBER_PRIVATEKEY_SIZE;
+		}
+		case KyberParameters::KYBERS5P3168:
+		{
+			return PublicKey ? KyberBase::Params3168::KYBER_PUBLICKEY_SIZE : KyberBase::Params3168::KYBER_PRIVATEKEY_SIZE;
+		}
+		case KyberParameters::KYBERS6P3936:
+		{
+			return PublicKey ? KyberBase::Params3936::KYBER_PUBLICKEY_SIZE : KyberBase::Params3936::KYBER_PRIVATEKEY_SIZE;
+		}
+		default:
+		{
+			return 0;
+		}
+	}
+}
+
 class Kyber::KyberState
 {
 public:
@@ -258,6 +287,11 @@ bool Kyber::Decapsulate(const std::vector<uint8_t> &CipherText, std::vector<uint
 	std::vector<uint8_t> sec(SECRET_SIZE, 0x00);
 	bool res;
 
+	if (CipherText.size() != CipherTextSize())
+	{
+		return false;
+	}
+
 	switch (m_kyberState->Parameters)
 	{
 		case KyberParameters::KYBERS1P1632:
@@ -425,6 +459,11 @@ void Kyber::Initialize(AsymmetricKey* Key)
 		throw CryptoAsymmetricException(Name(), std::string("Initialize"), std::string("The key is invalid!"), ErrorCodes::InvalidKey);
 	}
 
+	if (Key->Polynomial().size() == 0 || Key->Polynomial().size() != KyberKeySize(static_cast<KyberParameters>(Key->Parameters()), Key->KeyClass() == AsymmetricKeyTypes::CipherPublicKey))
+	{
+		throw CryptoAsymmetricException(Name(), std::string("Initialize"), std::string("The key size does not match the parameters!"), ErrorCodes::InvalidKey);
+	}
+
 	if (Key->KeyClass() == AsymmetricKeyTypes::CipherPublicKey)
 	{
 		m_publicKey = Key;
diff --git a/CEX/MPKCN6960T119.cpp b/CEX/MPKCN6960T119.cpp
index 0a01ee5..5688c4d 100644
--- a/CEX/MPKCN6960T119.cpp
+++ b/CEX/MPKCN6960T119.cpp
@@ -669,7 +669,7 @@ bool MPKCN6960T119::Decapsulate(const std::vector<uint8_t> &PrivateKey, const st
 		SharedSecret[i] |= mask;
 	}
 
-	return ((ret_decrypt + ret_confirm + padding_ok) == 0);
+	return ((ret_decrypt | ret_confirm | padding_ok) == 0);
 }
 
 bool MPKCN6960T119::Encapsulate(const std::vector<uint8_t> &PublicKey, std::vector<uint8_t> &CipherText, std::vector<uint8_t> &SharedSecret, std::unique_ptr<IPrng> &Rng)
diff --git a/CEX/McEliece.cpp b/CEX/McEliece.cpp
index 969cd30..631a626 100644
--- a/CEX/McEliece.cpp
+++ b/CEX/McEliece.cpp
@@ -15,6 +15,35 @@ using Tools::IntegerTools;
 using Digest::Keccak;
 using Enumeration::McElieceParameterConvert;
 
+static size_t McElieceKeySize(McElieceParameters Parameters, bool PublicKey)
+{
+	// the size of a key of a parameter set; zero if there is no such set
+
+	switch (Parameters)
+	{
+		case McElieceParameters::MPKCS3N4608T96:
+		{
+			return PublicKey ? MPKCN4608T96::PUBLICKEY_SIZE : MPKCN4608T96::PRIVATEKEY_SIZE;
+		}
+		case McElieceParameters::MPKCS3N6960T119:
+		{
+			return PublicKey ? MPKCN6960T119::PUBLICKEY_SIZE : MPKCN6960T119::PRIVATEKEY_SIZE;
+		}
+		case McElieceParameters::MPKCS4N6688T128:
+		{
+			return PublicKey ? MPKCN6688T128::PUBLICKEY_SIZE : MPKCN6688T128::PRIVATEKEY_SIZE;
+		}
+		case McElieceParameters::MPKCS5N8192T128:
+		{
+			return PublicKey ? MPKCN8192T128::PUBLICKEY_SIZE : MPKCN8192T128::PRIVATEKEY_SIZE;
+		}
+		default:
+		{
+			return 0;
+		}
+	}
+}
+
 class McEliece::MpkcState
 {
 public:
@@ -262,7 +291,12 @@ bool McEliece::Decapsulate(const std::vector<uint8_t> &CipherText, std::vector<u
 
 	std::vector<uint8_t> sec(SECRET_SIZE, 0x00);
 	bool res;
-	
+
+	if (CipherText.size() != CipherTextSize())
+	{
+		return false;
+	}
+
 	switch (m_mpkcState->Parameters)
 	{
 		case McElieceParameters::MPKCS3N4608T96:
@@ -448,6 +482,11 @@ void McEliece::Initialize(AsymmetricKey* Key)
 		throw CryptoAsymmetricException(Name(), std::string("Initialize"), std::string("The key is invalid!"), ErrorCodes::InvalidKey);
 	}
 
+	if (Key->Polynomial().size() == 0 || Key->Polynomial().size() != McElieceKeySize(static_cast<McElieceParameters>(Key->Parameters()), Key->KeyClass() == AsymmetricKeyTypes::CipherPublicKey))
+	{
+		throw CryptoAsymmetricException(Name(), std::string("Initialize"), std::string("The key size does not match the parameters!"), ErrorCodes::InvalidKey);
+	}
+
 	if (Key->KeyClass() == AsymmetricKeyTypes::CipherPublicKey)
 	{
 		m_publicKey = Key;
-- 
2.43.0


From ffd92dcd4630dce46d747f155ec851a8206da909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:12 +0000
Subject: [PATCH 042/135] fix: reduce Ed25519 scalars with a signed carry

---
 CEX/EC25519.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/EC25519.cpp b/CEX/EC25519.cpp
index f9c93cf..82e4fee 100644
--- a/CEX/EC25519.cpp
+++ b/CEX/EC25519.cpp
@@ -6067,7 +6067,7 @@ void EC25519::Sc25519Reduce(std::vector<uint8_t> &S)
 	carry = (s8 + (1LL << 20)) >> 21;
 	s9 += carry;
 	s8 -= carry * (1ULL << 21);
-	carry = (s10 + (1ULL << 20)) >> 21;
+	carry = (s10 + (1LL << 20)) >> 21;
 	s11 += carry;
 	s10 -= carry * (1ULL << 21);
 	carry = (s12 + (1LL << 20)) >> 21;
-- 
2.43.0


From df32bc16e9b65e159d3afadea7109c1a3b6ffa02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:12 +0000
Subject: [PATCH 043/135] fix: mask the SPHINCS+ leaf index to 32 bits on every
 data model

---
 CEX/SPXBase.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/SPXBase.h b/CEX/SPXBase.h
index be32fae..518f0a3 100644
--- a/CEX/SPXBase.h
+++ b/CEX/SPXBase.h
@@ -433,7 +433,7 @@ private:
 		Tree = BytesToUll(buf, FORSMSG, TREEBYTES);
 		Tree &= (~0ULL) >> (64 - TREEBITS);
 		LeafIndex = BytesToUll(buf, FORSMSG + TREEBYTES, LEAFBYTES);
-		LeafIndex &= (~0UL) >> (32 - LEAFBITS);
+		LeafIndex &= (~0U) >> (32 - LEAFBITS);
 	}
 
 	template<typename T>
-- 
2.43.0


From 42428488573c85c49bf683d230562df461f92213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:12 +0000
Subject: [PATCH 044/135] fix: advance the XMSS key with every signature and
 check keys and signature sizes

---
 CEX/AsymmetricKey.cpp | 10 ++++++++
 CEX/AsymmetricKey.h   |  9 +++++++
 CEX/XMSS.cpp          | 25 +++++++++++++++++-
 CEX/XmssCore.cpp      | 60 +++++++++++++++++++++++++++++++++++--------
 CEX/XmssCore.h        |  6 +++--
 5 files changed, 97 insertions(+), 13 deletions(-)

diff --git a/CEX/AsymmetricKey.cpp b/CEX/AsymmetricKey.cpp
index 4bf5a0c..d654846 100644
--- a/CEX/AsymmetricKey.cpp
+++ b/CEX/AsymmetricKey.cpp
@@ -129,6 +129,16 @@ void AsymmetricKey::Reset()
 	m_keyState->Reset();
 }
 
+void AsymmetricKey::Update(const std::vector<uint8_t> &Polynomial)
+{
+	if (Polynomial.size() != m_keyState->Polynomial.size())
+	{
+		throw CryptoAsymmetricException(CLASS_NAME, std::string("Update"), std::string("The polynomial size can not change!"), Enumeration::ErrorCodes::InvalidParam);
+	}
+
+	MemoryTools::Copy(Polynomial, 0, m_keyState->Polynomial, 0, Polynomial.size());
+}
+
 //~~~Static Functions~~~//
 
 AsymmetricKey* AsymmetricKey::DeSerialize(SecureVector<uint8_t> &KeyStream)
diff --git a/CEX/AsymmetricKey.h b/CEX/AsymmetricKey.h
index 4dbc263..1ab4ec2 100644
--- a/CEX/AsymmetricKey.h
+++ b/CEX/AsymmetricKey.h
@@ -109,6 +109,15 @@ public:
 	/// </summary>
 	void Reset() override;
 
+	/// <summary>
+	/// Replace the polynomial with an updated copy; used by stateful signature schemes to advance the private key
+	/// </summary>
+	/// 
+	/// <param name="Polynomial">The updated polynomial; must be the same size as the existing polynomial</param>
+	///
+	/// <exception cref="CryptoAsymmetricException">Thrown if the size of the polynomial has changed</exception>
+	void Update(const std::vector<uint8_t> &Polynomial);
+
 	//~~~Static Functions~~~//
 
 	/// <summary>
diff --git a/CEX/XMSS.cpp b/CEX/XMSS.cpp
index 5c0b00a..91bc0d4 100644
--- a/CEX/XMSS.cpp
+++ b/CEX/XMSS.cpp
@@ -253,6 +253,18 @@ const void XMSS::Initialize(AsymmetricKey* Key)
 		throw CryptoAsymmetricException(Name(), std::string("Initialize"), std::string("The key type is invalid!"), ErrorCodes::InvalidKey);
 	}
 
+	if (XMSSUtils::ToOid(static_cast<XmssParameters>(Key->Parameters())) == 0)
+	{
+		throw CryptoAsymmetricException(Name(), std::string("Initialize"), std::string("The key parameter set is invalid!"), ErrorCodes::InvalidKey);
+	}
+
+	if (Key->SecurePolynomial().size() != (Key->KeyClass() == AsymmetricKeyTypes::SignaturePublicKey ?
+		XMSSCore::GetPublicKeySize(static_cast<XmssParameters>(Key->Parameters())) :
+		XMSSCore::GetPrivateKeySize(static_cast<XmssParameters>(Key->Parameters()))))
+	{
+		throw CryptoAsymmetricException(Name(), std::string("Initialize"), std::string("The key size is invalid!"), ErrorCodes::InvalidKey);
+	}
+
 	if (Key->KeyClass() == AsymmetricKeyTypes::SignaturePublicKey)
 	{
 		m_publicKey = Key;
@@ -288,7 +300,18 @@ size_t XMSS::Sign(const std::vector<uint8_t> &Message, std::vector<uint8_t> &Sig
 
 	size_t slen;
 
-	slen = XMSSCore::Sign(Signature, Message, m_privateKey->Polynomial(), m_xmssState->Parameters);
+	std::vector<uint8_t> sk = m_privateKey->Polynomial();
+
+	if (XMSSCore::IsExhausted(sk, m_xmssState->Parameters))
+	{
+		Tools::MemoryTools::Clear(sk, 0, sk.size());
+		throw CryptoAsymmetricException(Name(), std::string("Sign"), std::string("The one-time keys of the private key have all been used!"), ErrorCodes::IllegalOperation);
+	}
+
+	// the one-time key index in the private key is advanced with every signature
+	slen = XMSSCore::Sign(Signature, Message, sk, m_xmssState->Parameters);
+	m_privateKey->Update(sk);
+	Tools::MemoryTools::Clear(sk, 0, sk.size());
 
 	return slen;
 }
diff --git a/CEX/XmssCore.cpp b/CEX/XmssCore.cpp
index 585456d..8c6ec44 100644
--- a/CEX/XmssCore.cpp
+++ b/CEX/XmssCore.cpp
@@ -649,7 +649,7 @@ void XMSSCore::UllToBytes(std::vector<uint8_t> &Output, size_t Offset, size_t Le
 	while (i != 0);
 }
 
-uint64_t XMSSCore::BytesToUll(const std::vector<uint8_t> &Input, size_t Length)
+uint64_t XMSSCore::BytesToUll(const std::vector<uint8_t> &Input, size_t Offset, size_t Length)
 {
 	uint64_t res;
 	size_t i;
@@ -658,7 +658,7 @@ uint64_t XMSSCore::BytesToUll(const std::vector<uint8_t> &Input, size_t Length)
 
 	for (i = 0; i < Length; ++i)
 	{
-		res |= (static_cast<uint64_t>(Input[i])) << (8 * (Length - 1 - i));
+		res |= (static_cast<uint64_t>(Input[Offset + i])) << (8 * (Length - 1 - i));
 	}
 
 	return res;
@@ -1109,7 +1109,7 @@ int32_t XMSSCore::XmssMtCoreSignOpen(const XmssParams &Params, std::vector<uint8
 
 	MsgLength = SigLength - Params.SignatureSize;
 	// convert the index bytes from the signature to an integer
-	idx = BytesToUll(Signature, Params.IndexSize);
+	idx = BytesToUll(Signature, 0, Params.IndexSize);
 	// put the message all the way at the end of the m buffer, so that we can
 	// prepend the required other inputs for the hash function
 	MemoryTools::Copy(Signature, Params.SignatureSize, Message, Params.SignatureSize, MsgLength);
@@ -1319,7 +1319,7 @@ int32_t XMSSCore::XmssMtCoreSign(const XmssParams &Params, std::vector<uint8_t>
 	SigLength = Params.SignatureSize + MsgLength;
 
 	// read and use the current index from the secret key
-	idx = BytesToUll(Signature, Params.IndexSize);
+	idx = BytesToUll(SecretKey, skoft, Params.IndexSize);
 	MemoryTools::Copy(SecretKey, skoft, Signature, 0, Params.IndexSize);
 
 	// Note: the secret key can be updated here
@@ -1451,27 +1451,61 @@ void XMSSCore::Generate(std::vector<uint8_t> &PublicKey, std::vector<uint8_t> &P
 	}
 }
 
-size_t XMSSCore::Sign(std::vector<uint8_t> &Signature, const std::vector<uint8_t> &Message, const std::vector<uint8_t> &PrivateKey, XmssParameters Parameters)
+bool XMSSCore::IsExhausted(const std::vector<uint8_t> &PrivateKey, XmssParameters Parameters)
+{
+	XmssParams params;
+	uint64_t idx;
+	uint32_t oid;
+	bool res;
+
+	res = false;
+	oid = XMSSUtils::ToOid(Parameters);
+
+	// a key that contains a different oid can not sign
+	if (BytesToUll(PrivateKey, 0, XMSS_OID_LEN) == oid)
+	{
+		if (XMSSUtils::IsXMSS(Parameters))
+		{
+			XmssParseOid(params, oid);
+		}
+		else
+		{
+			XmssMtParseOid(params, oid);
+		}
+
+		// the last index is not used, its successor may not fit in the index bytes of the key
+		idx = BytesToUll(PrivateKey, XMSS_OID_LEN, params.IndexSize);
+		res = (idx >= (1ULL << params.FullHeight) - 1ULL);
+	}
+
+	return res;
+}
+
+size_t XMSSCore::Sign(std::vector<uint8_t> &Signature, const std::vector<uint8_t> &Message, std::vector<uint8_t> &PrivateKey, XmssParameters Parameters)
 {
 	size_t smlen(0);
 	uint32_t oid;
 
 	oid = XMSSUtils::ToOid(Parameters);
-	std::vector<uint8_t> sk2 = PrivateKey;
 
-	if (XMSSUtils::IsXMSS(Parameters))
+	if (BytesToUll(PrivateKey, 0, XMSS_OID_LEN) != oid)
+	{
+		// the key was not created with this parameter set, or has been altered
+		Signature.clear();
+	}
+	else if (XMSSUtils::IsXMSS(Parameters))
 	{
 		XmssParams params;
 		XmssParseOid(params, oid);
 		Signature.resize(params.SignatureSize + Message.size());
-		XmssSign(sk2, Signature, smlen, Message, Message.size());
+		XmssSign(PrivateKey, Signature, smlen, Message, Message.size());
 	}
 	else
 	{
 		XmssParams params;
 		XmssMtParseOid(params, oid);
 		Signature.resize(params.SignatureSize + Message.size());
-		XmssMtSign(sk2, Signature, smlen, Message, Message.size());
+		XmssMtSign(PrivateKey, Signature, smlen, Message, Message.size());
 	}
 
 	return smlen;
@@ -1488,7 +1522,13 @@ bool XMSSCore::Verify(std::vector<uint8_t> &Message, const std::vector<uint8_t>
 	res = 0;
 	oid = XMSSUtils::ToOid(Parameters);
 
-	if (XMSSUtils::IsXMSS(Parameters))
+	if (Signature.size() < GetSignatureSize(Parameters) || BytesToUll(PublicKey, 0, XMSS_OID_LEN) != oid)
+	{
+		// the signature is too short, or the key was not created with this parameter set
+		Message.clear();
+		res = -1;
+	}
+	else if (XMSSUtils::IsXMSS(Parameters))
 	{
 		XmssParams params;
 		XmssParseOid(params, oid);
diff --git a/CEX/XmssCore.h b/CEX/XmssCore.h
index 888e6d1..d6691ac 100644
--- a/CEX/XmssCore.h
+++ b/CEX/XmssCore.h
@@ -102,7 +102,7 @@ private:
 
 	static void UllToBytes(std::vector<uint8_t> &Output, size_t Offset, size_t Length, uint64_t Input);
 
-	static uint64_t BytesToUll(const std::vector<uint8_t> &Input, size_t Length);
+	static uint64_t BytesToUll(const std::vector<uint8_t> &Input, size_t Offset, size_t Length);
 
 	// wots.c //
 
@@ -180,7 +180,9 @@ public:
 
 	static void Generate(std::vector<uint8_t> &PublicKey, std::vector<uint8_t> &PrivateKey, std::unique_ptr<Prng::IPrng> &Rng, XmssParameters Parameters);
 
-	static size_t Sign(std::vector<uint8_t> &Signature, const std::vector<uint8_t> &Message, const std::vector<uint8_t> &PrivateKey, XmssParameters Parameters);
+	static bool IsExhausted(const std::vector<uint8_t> &PrivateKey, XmssParameters Parameters);
+
+	static size_t Sign(std::vector<uint8_t> &Signature, const std::vector<uint8_t> &Message, std::vector<uint8_t> &PrivateKey, XmssParameters Parameters);
 
 	static bool Verify(std::vector<uint8_t> &Message, const std::vector<uint8_t> &Signature, const std::vector<uint8_t> &PublicKey, XmssParameters Parameters);
 };
-- 
2.43.0


From 96c4e8a8b93b003944a5277ba0f74c3b604e98bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:12 +0000
Subject: [PATCH 045/135] fix: give ECDSAParameters.h an include guard of its
 own

---
 CEX/ECDSAParameters.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/ECDSAParameters.h b/CEX/ECDSAParameters.h
index 9dd02ec..a517c6f 100644
--- a/CEX/ECDSAParameters.h
+++ b/CEX/ECDSAParameters.h
@@ -1,5 +1,5 @@
-#ifndef CEX_ECDHPARAMETERS_H
-#define CEX_ECDHPARAMETERS_H
+#ifndef CEX_ECDSAPARAMETERS_H
+#define CEX_ECDSAPARAMETERS_H
 
 #include "CexDomain.h"
 #include "AsymmetricParameters.h"
-- 
2.43.0


From f6313d15c22c9be54ecf838e9ca84b94765388f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:12 +0000
Subject: [PATCH 046/135] fix: check ECDSA keys and signature sizes on loading
 and verifying

---
 CEX/ECDSA.cpp | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/CEX/ECDSA.cpp b/CEX/ECDSA.cpp
index 3af96b7..1bb2a26 100644
--- a/CEX/ECDSA.cpp
+++ b/CEX/ECDSA.cpp
@@ -105,7 +105,7 @@ ECDSA::~ECDSA()
 
 const AsymmetricPrimitives ECDSA::Enumeral()
 {
-	return AsymmetricPrimitives::SphincsPlus;
+	return AsymmetricPrimitives::ECDSA;
 }
 
 const bool ECDSA::IsInitialized()
@@ -192,6 +192,27 @@ const void ECDSA::Initialize(AsymmetricKey* Key)
 		throw CryptoAsymmetricException(Name(), std::string("Initialize"), std::string("The key type is invalid!"), ErrorCodes::InvalidKey);
 	}
 
+	if (static_cast<ECDSAParameters>(Key->Parameters()) != ECDSAParameters::ECDSAS1P25519K &&
+		static_cast<ECDSAParameters>(Key->Parameters()) != ECDSAParameters::ECDSAS2P25519S)
+	{
+		// invalid parameter set
+		throw CryptoAsymmetricException(Name(), std::string("Initialize"), std::string("The key parameter set is invalid!"), ErrorCodes::InvalidKey);
+	}
+
+	if (Key->SecurePolynomial().size() != (Key->KeyClass() == AsymmetricKeyTypes::SignaturePublicKey ? PublicKeySize() : PrivateKeySize()))
+	{
+		// invalid key size
+		throw CryptoAsymmetricException(Name(), std::string("Initialize"), std::string("The key size is invalid!"), ErrorCodes::InvalidKey);
+	}
+
+	if (static_cast<ECDSAParameters>(Key->Parameters()) != m_ecdsaState->Parameters)
+	{
+		// the message digest belongs to the parameter set of the key
+		m_rndDigest.reset(Helper::DigestFromName::GetInstance(static_cast<ECDSAParameters>(Key->Parameters()) == ECDSAParameters::ECDSAS1P25519K ?
+			Enumeration::Digests::SHA3512 :
+			Enumeration::Digests::SHA2512));
+	}
+
 	if (Key->KeyClass() == AsymmetricKeyTypes::SignaturePublicKey)
 	{
 		m_publicKey = Key;
@@ -230,6 +251,7 @@ size_t ECDSA::Sign(const std::vector<uint8_t> &Message, std::vector<uint8_t> &Si
 
 	switch (m_ecdsaState->Parameters)
 	{
+		case ECDSAParameters::ECDSAS1P25519K:
 		case ECDSAParameters::ECDSAS2P25519S:
 		{
 			Signature.resize(SignatureSize() + Message.size());
@@ -262,7 +284,16 @@ bool ECDSA::Verify(const std::vector<uint8_t> &Signature, std::vector<uint8_t> &
 		throw CryptoAsymmetricException(Name(), std::string("Sign"), std::string("The signature scheme is not initialized for verification!"), ErrorCodes::NotInitialized);
 	}
 
-	res = ECDSABase::Verify(Message, Signature, m_publicKey->Polynomial(), m_rndDigest);
+	if (Signature.size() < SignatureSize())
+	{
+		// too short to contain a signature
+		Tools::MemoryTools::Clear(Message, 0, Message.size());
+		res = false;
+	}
+	else
+	{
+		res = ECDSABase::Verify(Message, Signature, m_publicKey->Polynomial(), m_rndDigest);
+	}
 
 	return res;
 }
-- 
2.43.0


From b5e893c20ca364de9f452ed480f87f49b78cdd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:12 +0000
Subject: [PATCH 047/135] fix: check Dilithium keys and signature sizes on
 loading and verifying

---
 CEX/Dilithium.cpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/CEX/Dilithium.cpp b/CEX/Dilithium.cpp
index c99e577..3224e0f 100644
--- a/CEX/Dilithium.cpp
+++ b/CEX/Dilithium.cpp
@@ -89,7 +89,7 @@ Dilithium::~Dilithium()
 
 const AsymmetricPrimitives Dilithium::Enumeral()
 {
-	return AsymmetricPrimitives::SphincsPlus;
+	return AsymmetricPrimitives::Dilithium;
 }
 
 const bool Dilithium::IsInitialized()
@@ -262,6 +262,23 @@ const void Dilithium::Initialize(AsymmetricKey* Key)
 		throw CryptoAsymmetricException(Name(), std::string("Initialize"), std::string("The key type is invalid!"), ErrorCodes::InvalidKey);
 	}
 
+	const DilithiumParameters OLDPRM = m_dilithiumState->Parameters;
+	const DilithiumParameters KEYPRM = static_cast<DilithiumParameters>(Key->Parameters());
+
+	if (KEYPRM != DilithiumParameters::DLTMS1P2544 && KEYPRM != DilithiumParameters::DLTMS3P4016 && KEYPRM != DilithiumParameters::DLTMS5P4880)
+	{
+		throw CryptoAsymmetricException(Name(), std::string("Initialize"), std::string("The key parameter set is invalid!"), ErrorCodes::InvalidKey);
+	}
+
+	// the key must have the size used by its parameter set
+	m_dilithiumState->Parameters = KEYPRM;
+
+	if (Key->SecurePolynomial().size() != (Key->KeyClass() == AsymmetricKeyTypes::SignaturePublicKey ? PublicKeySize() : PrivateKeySize()))
+	{
+		m_dilithiumState->Parameters = OLDPRM;
+		throw CryptoAsymmetricException(Name(), std::string("Initialize"), std::string("The key size is invalid!"), ErrorCodes::InvalidKey);
+	}
+
 	if (Key->KeyClass() == AsymmetricKeyTypes::SignaturePublicKey)
 	{
 		m_publicKey = Key;
@@ -341,6 +358,13 @@ bool Dilithium::Verify(const std::vector<uint8_t> &Signature, std::vector<uint8_
 		throw CryptoAsymmetricException(Name(), std::string("Sign"), std::string("The signature scheme is not initialized for verification!"), ErrorCodes::NotInitialized);
 	}
 
+	if (Signature.size() < SignatureSize())
+	{
+		// too short to contain a signature
+		Message.clear();
+		return false;
+	}
+
 	switch (m_dilithiumState->Parameters)
 	{
 		case DilithiumParameters::DLTMS1P2544:
-- 
2.43.0


From a7629219dc6757d62c261c278cd21cb33738bd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:12 +0000
Subject: [PATCH 048/135] fix: check SPHINCS+ keys and signature sizes on
 loading and verifying

---
 CEX/SphincsPlus.cpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/CEX/SphincsPlus.cpp b/CEX/SphincsPlus.cpp
index a77a0aa..3aaee57 100644
--- a/CEX/SphincsPlus.cpp
+++ b/CEX/SphincsPlus.cpp
@@ -103,7 +103,7 @@ const std::string SphincsPlus::Name()
 {
 	std::string ret;
 
-	ret = AsymmetricPrimitiveConvert::ToName(AsymmetricPrimitives::Dilithium) + std::string("") + 
+	ret = AsymmetricPrimitiveConvert::ToName(AsymmetricPrimitives::SphincsPlus) + std::string("") + 
 		SphincsPlusParameterConvert::ToName(m_sphincsState->Parameters);
 
 	return ret;
@@ -288,6 +288,23 @@ const void SphincsPlus::Initialize(AsymmetricKey* Key)
 		throw CryptoAsymmetricException(Name(), std::string("Initialize"), std::string("The key type is invalid!"), ErrorCodes::InvalidKey);
 	}
 
+	const SphincsPlusParameters OLDPRM = m_sphincsState->Parameters;
+	const SphincsPlusParameters KEYPRM = static_cast<SphincsPlusParameters>(Key->Parameters());
+
+	if (KEYPRM != SphincsPlusParameters::SPXPS1S128SHAKE && KEYPRM != SphincsPlusParameters::SPXPS3S192SHAKE && KEYPRM != SphincsPlusParameters::SPXPS5S256SHAKE && KEYPRM != SphincsPlusParameters::SPXPS6S512SHAKE)
+	{
+		throw CryptoAsymmetricException(Name(), std::string("Initialize"), std::string("The key parameter set is invalid!"), ErrorCodes::InvalidKey);
+	}
+
+	// the key must have the size used by its parameter set
+	m_sphincsState->Parameters = KEYPRM;
+
+	if (Key->SecurePolynomial().size() != (Key->KeyClass() == AsymmetricKeyTypes::SignaturePublicKey ? PublicKeySize() : PrivateKeySize()))
+	{
+		m_sphincsState->Parameters = OLDPRM;
+		throw CryptoAsymmetricException(Name(), std::string("Initialize"), std::string("The key size is invalid!"), ErrorCodes::InvalidKey);
+	}
+
 	if (Key->KeyClass() == AsymmetricKeyTypes::SignaturePublicKey)
 	{
 		m_publicKey = Key;
@@ -373,6 +390,13 @@ bool SphincsPlus::Verify(const std::vector<uint8_t> &Signature, std::vector<uint
 
 	bool res;
 
+	if (Signature.size() < SignatureSize())
+	{
+		// too short to contain a signature
+		Message.clear();
+		return false;
+	}
+
 	switch (m_sphincsState->Parameters)
 	{
 		case SphincsPlusParameters::SPXPS1S128SHAKE:
-- 
2.43.0


From 71ab0ca042a9301f3874f679b3bb21f7ab269a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:24 +0000
Subject: [PATCH 049/135] fix: compare curve points with every entry of the
 small-order lists

---
 CEX/EC25519.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/CEX/EC25519.cpp b/CEX/EC25519.cpp
index 82e4fee..c08f71b 100644
--- a/CEX/EC25519.cpp
+++ b/CEX/EC25519.cpp
@@ -4920,20 +4920,20 @@ int32_t EC25519::Ge25519HasSmallOrder(const std::vector<uint8_t> &S)
 
 	for (j = 0; j < 31; ++j)
 	{
-		for (i = 0; i < sizeof(blocklist) / sizeof(blocklist[0]); ++i)
+		for (i = 0; i < blocklist.size(); ++i)
 		{
 			c[i] |= S[j] ^ blocklist[i][j];
 		}
 	}
 
-	for (i = 0; i < sizeof(blocklist) / sizeof(blocklist[0]); ++i)
+	for (i = 0; i < blocklist.size(); ++i)
 	{
 		c[i] |= (S[j] & 0x7f) ^ blocklist[i][j];
 	}
 
 	k = 0;
 
-	for (i = 0; i < sizeof(blocklist) / sizeof(blocklist[0]); ++i)
+	for (i = 0; i < blocklist.size(); ++i)
 	{
 		k |= (c[i] - 1);
 	}
@@ -5433,20 +5433,20 @@ int32_t EC25519::Ed25519SmallOrder(const std::vector<uint8_t> &S)
 
 	for (j = 0; j < 31; ++j)
 	{
-		for (i = 0; i < sizeof(blocklist) / sizeof(blocklist[0]); ++i)
+		for (i = 0; i < blocklist.size(); ++i)
 		{
 			c[i] |= S[j] ^ blocklist[i][j];
 		}
 	}
 
-	for (i = 0; i < sizeof(blocklist) / sizeof(blocklist[0]); ++i)
+	for (i = 0; i < blocklist.size(); ++i)
 	{
 		c[i] |= (S[j] & 0x7f) ^ blocklist[i][j];
 	}
 
 	k = 0;
 
-	for (i = 0; i < sizeof(blocklist) / sizeof(blocklist[0]); ++i)
+	for (i = 0; i < blocklist.size(); ++i)
 	{
 		k |= (c[i] - 1);
 	}
-- 
2.43.0


From 6ddec7f0f98eb7d12fbdd17c14fb34df31db25d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:24 +0000
Subject: [PATCH 050/135] fix: check the norm of z in the AVX2 Dilithium
 verification

---
 CEX/DLTMBase.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/CEX/DLTMBase.h b/CEX/DLTMBase.h
index eef6486..c1df48c 100644
--- a/CEX/DLTMBase.h
+++ b/CEX/DLTMBase.h
@@ -669,17 +669,24 @@ public:
 			DLTMPolyMath::PolyChallenge(cp, Signature, T::DILITHIUM_TAU);
 			DLTMPolyMath::PolyNtt(cp);
 
-			// unpack z; shortness follows from unpacking
+			// unpack z, and check that it is short
 			for (i = 0; i < T::DILITHIUM_L; ++i)
 			{
 				DLTMPolyMath::PolyZUnpack(z[i], Signature, DILITHIUM_SEED_SIZE + i * T::DILITHIUM_POLYZ_PACKED_SIZE, T::DILITHIUM_GAMMA1);
+
+				if (DLTMPolyMath::PolyChkNorm(z[i], T::DILITHIUM_GAMMA1 - T::DILITHIUM_BETA) != 0)
+				{
+					res = false;
+					break;
+				}
+
 				DLTMPolyMath::PolyNtt(z[i]);
 			}
 		}
 		
         pos = 0;
 
-        for (i = 0; i < T::DILITHIUM_K; ++i)
+        for (i = 0; i < T::DILITHIUM_K && res == true; ++i)
         {
             // expand matrix row
 			DLTMPolyMath::PolyVecMatrixExpandRow(mat, PublicKey, T::DILITHIUM_K, T::DILITHIUM_L, i);
-- 
2.43.0


From 217dd71479b64b69f9f60161ee7ff1bf42a4f4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:19 +0000
Subject: [PATCH 051/135] fix: parallel BCG offsets its counters like the
 sequential generator

---
 CEX/BCG.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/BCG.cpp b/CEX/BCG.cpp
index ec9824b..db394a5 100644
--- a/CEX/BCG.cpp
+++ b/CEX/BCG.cpp
@@ -557,7 +557,7 @@ void BCG::Process(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Length
 			// thread level counter
 			SecureVector<uint8_t> thdCtr(BLOCK_SIZE);
 			// offset counter by chunk size / block size  
-			IntegerTools::BeIncrease8(m_bcgState->Nonce, thdCtr, static_cast<uint32_t>(CTRLEN * i));
+			IntegerTools::LeIncrease8(m_bcgState->Nonce, thdCtr, 0, 16, static_cast<uint32_t>(CTRLEN * i));
 			// generate random at output offset
 			this->Transform(Output, OutOffset + (i * CNKLEN), CNKLEN, thdCtr);
 			// store last counter
-- 
2.43.0


From db3f1b7587b61141214e7bed026c0696856a2e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:57 +0000
Subject: [PATCH 052/135] fix: BCG destroys only the provider it created, and
 destroys it after a re-initialisation too

---
 CEX/BCG.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/CEX/BCG.cpp b/CEX/BCG.cpp
index db394a5..0b060ff 100644
--- a/CEX/BCG.cpp
+++ b/CEX/BCG.cpp
@@ -81,7 +81,6 @@ public:
 		Counter = 0;
 		KeySize = 0;
 		Rounds = 0;
-		IsDestroyed = false;
 		IsInitialized = false;
 	}
 };
@@ -123,7 +122,7 @@ BCG::BCG(IProvider* Provider, bool Parallel)
 	m_bcgProvider(Provider != nullptr ? 
 		Provider :
 		throw CryptoGeneratorException(DrbgConvert::ToName(Drbgs::BCG), std::string("Constructor"), std::string("The provider can not be null!"), ErrorCodes::IllegalOperation)),
-	m_bcgState(new BcgState(DEF_RESEED, true, Parallel)),
+	m_bcgState(new BcgState(DEF_RESEED, false, Parallel)),
 	m_parallelProfile(BLOCK_SIZE, true, RESERVE_CACHE, false)
 {
 }
-- 
2.43.0


From 66a7ce1e02eef0a85d4a013151439c7eb80294e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:57 +0000
Subject: [PATCH 053/135] fix: BCG counts each reseed once and starts the count
 again when it is initialised

---
 CEX/BCG.cpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/CEX/BCG.cpp b/CEX/BCG.cpp
index 0b060ff..ace925f 100644
--- a/CEX/BCG.cpp
+++ b/CEX/BCG.cpp
@@ -80,6 +80,7 @@ public:
 
 		Counter = 0;
 		KeySize = 0;
+		Reseed = 0;
 		Rounds = 0;
 		IsInitialized = false;
 	}
@@ -216,20 +217,11 @@ void BCG::Generate(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Lengt
 		// generator must be re-seeded
 		if (m_bcgState->Counter >= ReseedThreshold() || CyclicReseed() == true)
 		{
-			// increment the reseed count
-			++m_bcgState->Reseed;
-
-			// if re-seeded more than legal maximum, throw an exception
-			if (m_bcgState->Reseed > MaxReseedCount())
-			{
-				throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The maximum reseed requests can not be exceeded, re-initialize the generator!"), ErrorCodes::MaxExceeded);
-			}
-
 			// the next unused block of output is key material
 			SecureVector<uint8_t> tmpk(GEN_STRENGTH / 8);
 			// fill the key with pseudo-random
 			Process(tmpk, 0, tmpk.size());
-			// re-initialize the generator
+			// re-initialize the generator, this also counts the reseed
 			Update(tmpk);
 			// reset the reseed counter
 			m_bcgState->Counter = 0;
@@ -372,7 +364,10 @@ void BCG::Update(const SecureVector<uint8_t> &Key)
 
 	// reinitialize the generator with the nonce and distribution codes preserved
 	SymmetricKey kp(tmpk, m_bcgState->Nonce, m_bcgState->Custom);
+	// the reseed count continues, it starts again only when the user initializes the generator
+	const size_t RSDCNT = m_bcgState->Reseed;
 	Initialize(kp);
+	m_bcgState->Reseed = RSDCNT;
 	// reset the reseed counter
 	m_bcgState->Counter = 0;
 }
-- 
2.43.0


From 28545c51e4d5df46ba46d9ad9b12ea2ba19f2a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:16 +0000
Subject: [PATCH 054/135] fix: CSG with a provider instance uses the rate of
 its mode

---
 CEX/CSG.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/CEX/CSG.cpp b/CEX/CSG.cpp
index be56a73..3b018e6 100644
--- a/CEX/CSG.cpp
+++ b/CEX/CSG.cpp
@@ -134,27 +134,27 @@ CSG::CSG(ShakeModes ShakeModeType, IProvider* Provider, bool Parallel)
 			SymmetricKeySize(
 				(ShakeModeType == ShakeModes::SHAKE128 ? Keccak::KECCAK128_DIGEST_SIZE :
 					ShakeModeType == ShakeModes::SHAKE256 ? Keccak::KECCAK256_DIGEST_SIZE :
-					ShakeModeType == ShakeModes::SHAKE512),
+					Keccak::KECCAK512_DIGEST_SIZE),
 				0,
 				0),
 			SymmetricKeySize(
 				(ShakeModeType == ShakeModes::SHAKE128 ? Keccak::KECCAK128_DIGEST_SIZE :
 					ShakeModeType == ShakeModes::SHAKE256 ? Keccak::KECCAK256_DIGEST_SIZE :
-					ShakeModeType == ShakeModes::SHAKE512),
+					Keccak::KECCAK512_DIGEST_SIZE),
 				0,
 				(ShakeModeType == ShakeModes::SHAKE128 ? Keccak::KECCAK128_DIGEST_SIZE :
 					ShakeModeType == ShakeModes::SHAKE256 ? Keccak::KECCAK256_DIGEST_SIZE :
-					ShakeModeType == ShakeModes::SHAKE512)),
+					Keccak::KECCAK512_DIGEST_SIZE)),
 			SymmetricKeySize(
 				(ShakeModeType == ShakeModes::SHAKE128 ? Keccak::KECCAK128_DIGEST_SIZE :
 					ShakeModeType == ShakeModes::SHAKE256 ? Keccak::KECCAK256_DIGEST_SIZE :
-					ShakeModeType == ShakeModes::SHAKE512),
+					Keccak::KECCAK512_DIGEST_SIZE),
 				(ShakeModeType == ShakeModes::SHAKE128 ? Keccak::KECCAK128_DIGEST_SIZE :
 					ShakeModeType == ShakeModes::SHAKE256 ? Keccak::KECCAK256_DIGEST_SIZE :
-					ShakeModeType == ShakeModes::SHAKE512),
+					Keccak::KECCAK512_DIGEST_SIZE),
 				(ShakeModeType == ShakeModes::SHAKE128 ? Keccak::KECCAK128_DIGEST_SIZE :
 					ShakeModeType == ShakeModes::SHAKE256 ? Keccak::KECCAK256_DIGEST_SIZE :
-					ShakeModeType == ShakeModes::SHAKE512))},
+					Keccak::KECCAK512_DIGEST_SIZE))},
 		MAX_OUTPUT,
 		MAX_REQUEST,
 		MAX_THRESHOLD),
@@ -164,7 +164,8 @@ CSG::CSG(ShakeModes ShakeModeType, IProvider* Provider, bool Parallel)
 			ShakeModeType,
 			((ShakeModeType == ShakeModes::SHAKE128) ? Keccak::KECCAK128_RATE_SIZE :
 				(ShakeModeType == ShakeModes::SHAKE256) ? Keccak::KECCAK256_RATE_SIZE :
-				(ShakeModeType == ShakeModes::SHAKE512)), 
+				(ShakeModeType == ShakeModes::SHAKE512) ? Keccak::KECCAK512_RATE_SIZE :
+				Keccak::KECCAK1024_RATE_SIZE), 
 			DEF_RESEED, 
 			false))
 {
-- 
2.43.0


From 7a7c6b26e127d129a69c739d055c23dd0547d22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:16 +0000
Subject: [PATCH 055/135] fix: CSG absorbs a length encoding that straddles the
 rate block

---
 CEX/CSG.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/CEX/CSG.cpp b/CEX/CSG.cpp
index 3b018e6..ac2a8a2 100644
--- a/CEX/CSG.cpp
+++ b/CEX/CSG.cpp
@@ -423,6 +423,8 @@ void CSG::Absorb(const SecureVector<uint8_t> &Input, size_t InOffset, size_t Len
 void CSG::Customize(const SecureVector<uint8_t> &Customization, const SecureVector<uint8_t> &Information, std::unique_ptr<CsgState> &State)
 {
 	std::array<uint8_t, BUFFER_SIZE> pad = { 0 };
+	std::array<uint8_t, sizeof(uint64_t) + 1> enc = { 0 };
+	size_t elen;
 	size_t i;
 	size_t offset;
 
@@ -448,7 +450,21 @@ void CSG::Customize(const SecureVector<uint8_t> &Customization, const SecureVect
 		}
 	}
 
-	offset += Keccak::LeftEncode(pad, offset, static_cast<uint64_t>(Customization.size()) * 8);
+	// the encoded length can straddle two blocks
+	elen = Keccak::LeftEncode(enc, 0, static_cast<uint64_t>(Customization.size()) * 8);
+
+	for (i = 0; i < elen; ++i)
+	{
+		if (offset == State->Rate)
+		{
+			Keccak::FastAbsorb(pad, 0, State->Rate, State->State[State->Index]);
+			Permute(State);
+			offset = 0;
+		}
+
+		pad[offset] = enc[i];
+		++offset;
+	}
 
 	if (Customization.size() != 0)
 	{
-- 
2.43.0


From e56b71516a3c5e253fce17ab6f3870bf92beee6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:16 +0000
Subject: [PATCH 056/135] fix: HCG with a digest instance accepts SHA2-512,
 rejects other digests and has the name of HCG

---
 CEX/HCG.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/CEX/HCG.cpp b/CEX/HCG.cpp
index 9e11f7f..8127ad3 100644
--- a/CEX/HCG.cpp
+++ b/CEX/HCG.cpp
@@ -106,7 +106,7 @@ HCG::HCG(IDigest* Digest, IProvider* Provider)
 	:
 	DrbgBase(
 		Drbgs::HCG,
-		(Digest != nullptr ? DrbgConvert::ToName(Drbgs::BCG) + std::string("-") + DigestConvert::ToName(Digest->Enumeral()) :
+		(Digest != nullptr ? DrbgConvert::ToName(Drbgs::HCG) + std::string("-") + DigestConvert::ToName(Digest->Enumeral()) :
 			throw CryptoGeneratorException(DrbgConvert::ToName(Drbgs::HCG), std::string("Constructor"), std::string("The digest can not be null!"), ErrorCodes::IllegalOperation)),
 		Digest != nullptr ? 
 			(Digest->Enumeral() == Digests::SHA2256 ?
@@ -122,7 +122,7 @@ HCG::HCG(IDigest* Digest, IProvider* Provider)
 		MAX_OUTPUT,
 		MAX_REQUEST,
 		MAX_THRESHOLD),
-	m_hcgGenerator(Digest != nullptr && (Digest->Enumeral() == Digests::SHA2256 || Digest->Enumeral() != Digests::SHA2512) ? 
+	m_hcgGenerator(Digest != nullptr && (Digest->Enumeral() == Digests::SHA2256 || Digest->Enumeral() == Digests::SHA2512) ? 
 		new HMAC(Digest) :
 		throw CryptoGeneratorException(DrbgConvert::ToName(Drbgs::HCG), std::string("Constructor"), std::string("The digest type is not supported!"), ErrorCodes::IllegalOperation)),
 	m_hcgProvider(Provider),
@@ -146,9 +146,10 @@ HCG::~HCG()
 	}
 	else
 	{
+		// the HMAC belongs to this class, and leaves a digest instance with its owner
 		if (m_hcgGenerator != nullptr)
 		{
-			m_hcgGenerator.release();
+			m_hcgGenerator.reset(nullptr);
 		}
 
 		if (m_hcgProvider != nullptr)
-- 
2.43.0


From 53f83841f2451e92064ad21b150f3166775b01a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:36 +0000
Subject: [PATCH 057/135] fix: HMAC leaves a digest instance with its owner,
 and HKDF and PBKDF2 destroy their HMAC

---
 CEX/HKDF.cpp   | 2 +-
 CEX/HMAC.cpp   | 2 +-
 CEX/PBKDF2.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/CEX/HKDF.cpp b/CEX/HKDF.cpp
index 2d6b902..8c55626 100644
--- a/CEX/HKDF.cpp
+++ b/CEX/HKDF.cpp
@@ -83,7 +83,7 @@ HKDF::HKDF(IDigest* Digest)
 			std::vector<SymmetricKeySize>(0))),
 	m_hkdfGenerator((Digest != nullptr && (Digest->Enumeral() == Digests::SHA2256 || Digest->Enumeral() == Digests::SHA2512)) ? new HMAC(Digest) :
 		throw CryptoKdfException(std::string("HKDF"), std::string("Constructor"), std::string("The digest instance is not supported!"), ErrorCodes::IllegalOperation)),
-	m_hkdfState(new HkdfState(m_hkdfGenerator->TagSize() + sizeof(uint8_t), 0, false))
+	m_hkdfState(new HkdfState(m_hkdfGenerator->TagSize() + sizeof(uint8_t), 0, true))
 {
 }
 
diff --git a/CEX/HMAC.cpp b/CEX/HMAC.cpp
index ae456cc..d4a7010 100644
--- a/CEX/HMAC.cpp
+++ b/CEX/HMAC.cpp
@@ -117,7 +117,7 @@ HMAC::HMAC(IDigest* Digest)
 		(Digest != nullptr ? Digest->DigestSize() : 0)),
 	m_hmacGenerator(Digest != nullptr ? Digest :
 		throw CryptoMacException(std::string("HMAC"), std::string("Constructor"), std::string("The digest can not be null!"), ErrorCodes::IllegalOperation)),
-	m_hmacState(new HmacState(m_hmacGenerator->BlockSize(), m_hmacGenerator->DigestSize(), true))
+	m_hmacState(new HmacState(m_hmacGenerator->BlockSize(), m_hmacGenerator->DigestSize(), false))
 {
 }
 
diff --git a/CEX/PBKDF2.cpp b/CEX/PBKDF2.cpp
index 8b34e2a..70df81f 100644
--- a/CEX/PBKDF2.cpp
+++ b/CEX/PBKDF2.cpp
@@ -98,7 +98,7 @@ PBKDF2::PBKDF2(IDigest* Digest, uint32_t Iterations)
 			std::vector<SymmetricKeySize>(0))),
 	m_pbkdf2Generator((Digest != nullptr && (Digest->Enumeral() == Digests::SHA2256 || Digest->Enumeral() == Digests::SHA2512)) ? new HMAC(Digest) :
 		throw CryptoKdfException(std::string("PBKDF2"), std::string("Constructor"), std::string("The digest instance is not supported!"), ErrorCodes::IllegalOperation)),
-	m_pbkdf2State(new Pbkdf2State(0, 0, Iterations, false))
+	m_pbkdf2State(new Pbkdf2State(0, 0, Iterations, true))
 {
 }
 
-- 
2.43.0


From 5b90c247a0544878ce75613f2cf32ae4f2e8e101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:40 +0000
Subject: [PATCH 058/135] fix: the prngs return the bytes left in their buffer
 before they fill it again

---
 CEX/BCR.cpp          | 3 +++
 CEX/CSR.cpp          | 3 +++
 CEX/HCR.cpp          | 3 +++
 CEX/SecureRandom.cpp | 4 ++++
 4 files changed, 13 insertions(+)

diff --git a/CEX/BCR.cpp b/CEX/BCR.cpp
index 6fe0564..16c7d14 100644
--- a/CEX/BCR.cpp
+++ b/CEX/BCR.cpp
@@ -133,6 +133,7 @@ void BCR::Reset()
 
 	// fill the buffer
 	m_rngGenerator->Generate(m_bcrState->Buffer, 0, m_bcrState->Buffer.size());
+	m_bcrState->Position = 0;
 }
 
 //~~~Private Functions~~~//
@@ -148,6 +149,8 @@ void BCR::Generate(SecureVector<uint8_t> &Output, size_t Offset, size_t Length,
 			if (BUFLEN > 0)
 			{
 				SecureMove(m_bcrState->Buffer, m_bcrState->Position, Output, Offset, BUFLEN);
+				Length -= BUFLEN;
+				Offset += BUFLEN;
 			}
 
 			while (Length >= m_bcrState->Buffer.size())
diff --git a/CEX/CSR.cpp b/CEX/CSR.cpp
index 66854fa..4538756 100644
--- a/CEX/CSR.cpp
+++ b/CEX/CSR.cpp
@@ -133,6 +133,7 @@ void CSR::Reset()
 
 	// fill the buffer
 	m_rngGenerator->Generate(m_csrState->Buffer, 0, m_csrState->Buffer.size());
+	m_csrState->Position = 0;
 }
 
 //~~~Private Functions~~~//
@@ -148,6 +149,8 @@ void CSR::Generate(SecureVector<uint8_t> &Output, size_t Offset, size_t Length,
 			if (BUFLEN > 0)
 			{
 				SecureMove(m_csrState->Buffer, m_csrState->Position, Output, Offset, BUFLEN);
+				Length -= BUFLEN;
+				Offset += BUFLEN;
 			}
 
 			while (Length >= m_csrState->Buffer.size())
diff --git a/CEX/HCR.cpp b/CEX/HCR.cpp
index c80a3f7..b029ff6 100644
--- a/CEX/HCR.cpp
+++ b/CEX/HCR.cpp
@@ -135,6 +135,7 @@ void HCR::Reset()
 
 	// fill the buffer
 	m_rngGenerator->Generate(m_hcrState->Buffer, 0, m_hcrState->Buffer.size());
+	m_hcrState->Position = 0;
 }
 
 //~~~Private Functions~~~//
@@ -150,6 +151,8 @@ void HCR::Generate(SecureVector<uint8_t> &Output, size_t Offset, size_t Length,
 			if (BUFLEN > 0)
 			{
 				SecureMove(m_hcrState->Buffer, m_hcrState->Position, Output, Offset, BUFLEN);
+				Length -= BUFLEN;
+				Offset += BUFLEN;
 			}
 
 			while (Length >= m_hcrState->Buffer.size())
diff --git a/CEX/SecureRandom.cpp b/CEX/SecureRandom.cpp
index 6c0e03c..eca0741 100644
--- a/CEX/SecureRandom.cpp
+++ b/CEX/SecureRandom.cpp
@@ -135,6 +135,8 @@ void SecureRandom::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t
 			if (BUFLEN > 0)
 			{
 				SecureMove(m_scrState->Buffer, m_scrState->Position, Output, Offset, BUFLEN);
+				Length -= BUFLEN;
+				Offset += BUFLEN;
 			}
 
 			while (Length >= m_scrState->Buffer.size())
@@ -168,6 +170,8 @@ void SecureRandom::Generate(SecureVector<uint8_t> &Output, size_t Offset, size_t
 			if (BUFLEN > 0)
 			{
 				SecureCopy(m_scrState->Buffer, m_scrState->Position, Output, Offset, BUFLEN);
+				Length -= BUFLEN;
+				Offset += BUFLEN;
 			}
 
 			while (Length >= m_scrState->Buffer.size())
-- 
2.43.0


From 34e9b71cbe4936bffe9fbeeeb5e7c72bf54a3ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:40 +0000
Subject: [PATCH 059/135] fix: HCR reseeds from the provider it was given

---
 CEX/HCR.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/HCR.cpp b/CEX/HCR.cpp
index b029ff6..ec6e3ea 100644
--- a/CEX/HCR.cpp
+++ b/CEX/HCR.cpp
@@ -52,7 +52,7 @@ HCR::HCR(SHA2Digests DigestType, Providers ProviderType)
 	m_hcrState(DigestType != SHA2Digests::None && ProviderType != Providers::None ? 
 		new HcrState(DigestType, ProviderType) : 
 		throw CryptoRandomException(PrngConvert::ToName(Prngs::HCR), std::string("Constructor"), std::string("Digest and Provider types can not be none!"), ErrorCodes::IllegalOperation)),
-	m_rngGenerator(new HCG(static_cast<SHA2Digests>(DigestType)))
+	m_rngGenerator(new HCG(DigestType, ProviderType))
 {
 	Reset();
 }
-- 
2.43.0


From 542660821fb5f9de9045d348b97868a06af6d8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:40 +0000
Subject: [PATCH 060/135] fix: PrngFromName makes HCR with SHA2-512 for HCRS512

---
 CEX/PrngFromName.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/PrngFromName.cpp b/CEX/PrngFromName.cpp
index 41c0cba..567eafa 100644
--- a/CEX/PrngFromName.cpp
+++ b/CEX/PrngFromName.cpp
@@ -48,7 +48,7 @@ IPrng* PrngFromName::GetInstance(Prngs PrngType, Providers ProviderType)
 			}
 			case Prngs::HCRS512:
 			{
-				rptr = new HCR(SHA2Digests::SHA2256, ProviderType);
+				rptr = new HCR(SHA2Digests::SHA2512, ProviderType);
 				break;
 			}
 			default:
-- 
2.43.0


From 789d1a8b732aa98d43e9fa1001e2d250aa4ff18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:40 +0000
Subject: [PATCH 061/135] fix: bounded draws of SecureRandom are uniform and
 cover ranges up to the whole type

---
 CEX/SecureRandom.cpp | 141 +++++++++----------------------------------
 1 file changed, 27 insertions(+), 114 deletions(-)

diff --git a/CEX/SecureRandom.cpp b/CEX/SecureRandom.cpp
index eca0741..77ea706 100644
--- a/CEX/SecureRandom.cpp
+++ b/CEX/SecureRandom.cpp
@@ -243,18 +243,8 @@ int16_t SecureRandom::NextInt16(int16_t Maximum)
 		throw CryptoRandomException(Name(), std::string("NextInt16"), std::string("Maximum can not be zero!"), ErrorCodes::IllegalOperation);
 	}
 
-	const int16_t SMPMAX = static_cast<int16_t>(std::numeric_limits<int16_t>::max() - (std::numeric_limits<int16_t>::max() % Maximum));
-	int16_t x;
-	int16_t ret;
-
-	do
-	{
-		x = NextInt16();
-		ret = x % Maximum;
-	} 
-	while (x >= SMPMAX || ret < 0);
-
-	return ret;
+	// an unsigned sample is not biased by the negative half of the range
+	return static_cast<int16_t>(NextUInt16(static_cast<uint16_t>(Maximum)));
 }
 
 int16_t SecureRandom::NextInt16(int16_t Maximum, int16_t Minimum)
@@ -268,19 +258,10 @@ int16_t SecureRandom::NextInt16(int16_t Maximum, int16_t Minimum)
 		throw CryptoRandomException(Name(), std::string("NextInt16"), std::string("Maximum can not be less than Minimum!"), ErrorCodes::IllegalOperation);
 	}
 
-	const int16_t SMPTHR = (Maximum - Minimum + 1);
-	const int16_t SMPMAX = static_cast<int16_t>(std::numeric_limits<int16_t>::max() - (std::numeric_limits<int16_t>::max() % SMPTHR));
-	int16_t x;
-	int16_t ret;
-
-	do
-	{
-		x = NextInt16();
-		ret = x % SMPTHR;
-	}
-	while (x >= SMPMAX || ret < 0);
-
-	return Minimum + ret;
+	const uint16_t SMPRNG = static_cast<uint16_t>(static_cast<uint16_t>(Maximum) - static_cast<uint16_t>(Minimum));
+	const uint16_t x = (SMPRNG == std::numeric_limits<uint16_t>::max()) ? NextUInt16() : NextUInt16(static_cast<uint16_t>(SMPRNG + 1));
+
+	return static_cast<int16_t>(static_cast<uint16_t>(Minimum) + x);
 }
 
 uint16_t SecureRandom::NextUInt16()
@@ -323,19 +304,9 @@ uint16_t SecureRandom::NextUInt16(uint16_t Maximum, uint16_t Minimum)
 		throw CryptoRandomException(Name(), std::string("NextUInt16"), std::string("Maximum can not be less than Minimum!"), ErrorCodes::IllegalOperation);
 	}
 
-	const uint16_t SMPTHR = (Maximum - Minimum + 1);
-	const uint16_t SMPMAX = static_cast<uint16_t>(std::numeric_limits<uint16_t>::max() - (std::numeric_limits<uint16_t>::max() % SMPTHR));
-	uint16_t x;
-	uint16_t ret;
-
-	do
-	{
-		x = NextUInt16();
-		ret = x % SMPTHR;
-	} 
-	while (x >= SMPMAX);
-
-	return Minimum + ret;
+	const uint16_t SMPRNG = static_cast<uint16_t>(Maximum - Minimum);
+
+	return static_cast<uint16_t>(Minimum + ((SMPRNG == std::numeric_limits<uint16_t>::max()) ? NextUInt16() : NextUInt16(static_cast<uint16_t>(SMPRNG + 1))));
 }
 
 int32_t SecureRandom::NextInt32()
@@ -353,18 +324,8 @@ int32_t SecureRandom::NextInt32(int32_t Maximum)
 		throw CryptoRandomException(Name(), std::string("NextInt32"), std::string("Maximum can not be zero!"), ErrorCodes::IllegalOperation);
 	}
 
-	const int32_t SMPMAX = static_cast<int32_t>(std::numeric_limits<int32_t>::max() - (std::numeric_limits<int32_t>::max() % Maximum));
-	int32_t x;
-	int32_t ret;
-
-	do
-	{
-		x = NextInt32();
-		ret = x % Maximum;
-	} 
-	while (x >= SMPMAX || ret < 0);
-
-	return ret;
+	// an unsigned sample is not biased by the negative half of the range
+	return static_cast<int32_t>(NextUInt32(static_cast<uint32_t>(Maximum)));
 }
 
 int32_t SecureRandom::NextInt32(int32_t Maximum, int32_t Minimum)
@@ -378,19 +339,10 @@ int32_t SecureRandom::NextInt32(int32_t Maximum, int32_t Minimum)
 		throw CryptoRandomException(Name(), std::string("NextInt32"), std::string("Maximum can not be less than Minimum!"), ErrorCodes::IllegalOperation);
 	}
 
-	const int32_t SMPTHR = (Maximum - Minimum + 1);
-	const int32_t SMPMAX = static_cast<int32_t>(std::numeric_limits<int32_t>::max() - (std::numeric_limits<int32_t>::max() % SMPTHR));
-	int32_t x;
-	int32_t ret;
-
-	do
-	{
-		x = NextInt32();
-		ret = x % SMPTHR;
-	} 
-	while (x >= SMPMAX || ret < 0);
-
-	return Minimum + ret;
+	const uint32_t SMPRNG = static_cast<uint32_t>(static_cast<uint32_t>(Maximum) - static_cast<uint32_t>(Minimum));
+	const uint32_t x = (SMPRNG == std::numeric_limits<uint32_t>::max()) ? NextUInt32() : NextUInt32(static_cast<uint32_t>(SMPRNG + 1));
+
+	return static_cast<int32_t>(static_cast<uint32_t>(Minimum) + x);
 }
 
 uint32_t SecureRandom::NextUInt32()
@@ -433,19 +385,9 @@ uint32_t SecureRandom::NextUInt32(uint32_t Maximum, uint32_t Minimum)
 		throw CryptoRandomException(Name(), std::string("NextUInt32"), std::string("Maximum can not be less than Minimum!"), ErrorCodes::IllegalOperation);
 	}
 
-	const uint32_t SMPTHR = (Maximum - Minimum + 1);
-	const uint32_t SMPMAX = static_cast<uint32_t>(std::numeric_limits<uint32_t>::max() - (std::numeric_limits<uint32_t>::max() % SMPTHR));
-	uint32_t x;
-	uint32_t ret;
-
-	do
-	{
-		x = NextUInt32();
-		ret = x % SMPTHR;
-	}
-	while (x >= SMPMAX);
-
-	return Minimum + ret;
+	const uint32_t SMPRNG = static_cast<uint32_t>(Maximum - Minimum);
+
+	return static_cast<uint32_t>(Minimum + ((SMPRNG == std::numeric_limits<uint32_t>::max()) ? NextUInt32() : NextUInt32(static_cast<uint32_t>(SMPRNG + 1))));
 }
 
 int64_t SecureRandom::NextInt64()
@@ -463,18 +405,8 @@ int64_t SecureRandom::NextInt64(int64_t Maximum)
 		throw CryptoRandomException(Name(), std::string("NextInt64"), std::string("Maximum can not be zero!"), ErrorCodes::IllegalOperation);
 	}
 
-	const int64_t SMPMAX = static_cast<int64_t>(std::numeric_limits<int64_t>::max() - (std::numeric_limits<int64_t>::max() % Maximum));
-	int64_t x;
-	int64_t ret;
-
-	do
-	{
-		x = NextInt64();
-		ret = x % Maximum;
-	} 
-	while (x >= SMPMAX || ret < 0);
-
-	return ret;
+	// an unsigned sample is not biased by the negative half of the range
+	return static_cast<int64_t>(NextUInt64(static_cast<uint64_t>(Maximum)));
 }
 
 int64_t SecureRandom::NextInt64(int64_t Maximum, int64_t Minimum)
@@ -488,19 +420,10 @@ int64_t SecureRandom::NextInt64(int64_t Maximum, int64_t Minimum)
 		throw CryptoRandomException(Name(), std::string("NextInt64"), std::string("Maximum can not be less than Minimum!"), ErrorCodes::IllegalOperation);
 	}
 
-	const int64_t SMPTHR = (Maximum - Minimum + 1);
-	const int64_t SMPMAX = static_cast<int64_t>(std::numeric_limits<int64_t>::max() - (std::numeric_limits<int64_t>::max() % SMPTHR));
-	int64_t x;
-	int64_t ret;
-
-	do
-	{
-		x = NextInt64();
-		ret = x % SMPTHR;
-	}
-	while (x >= SMPMAX || ret < 0);
-
-	return Minimum + ret;
+	const uint64_t SMPRNG = static_cast<uint64_t>(static_cast<uint64_t>(Maximum) - static_cast<uint64_t>(Minimum));
+	const uint64_t x = (SMPRNG == std::numeric_limits<uint64_t>::max()) ? NextUInt64() : NextUInt64(static_cast<uint64_t>(SMPRNG + 1));
+
+	return static_cast<int64_t>(static_cast<uint64_t>(Minimum) + x);
 }
 
 uint64_t SecureRandom::NextUInt64()
@@ -543,19 +466,9 @@ uint64_t SecureRandom::NextUInt64(uint64_t Maximum, uint64_t Minimum)
 		throw CryptoRandomException(Name(), std::string("NextUInt64"), std::string("Maximum can not be less than Minimum!"), ErrorCodes::IllegalOperation);
 	}
 
-	const uint64_t SMPTHR = (Maximum - Minimum + 1);
-	const uint64_t SMPMAX = (std::numeric_limits<uint64_t>::max() - (std::numeric_limits<uint64_t>::max() % SMPTHR));
-	uint64_t x;
-	uint64_t ret;
-
-	do
-	{
-		x = NextUInt64();
-		ret = x % SMPTHR;
-	} 
-	while (x >= SMPMAX);
-
-	return Minimum + ret;
+	const uint64_t SMPRNG = static_cast<uint64_t>(Maximum - Minimum);
+
+	return static_cast<uint64_t>(Minimum + ((SMPRNG == std::numeric_limits<uint64_t>::max()) ? NextUInt64() : NextUInt64(static_cast<uint64_t>(SMPRNG + 1))));
 }
 
 NAMESPACE_PRNGEND
-- 
2.43.0


From d3636217763daa80b36aea029d35788ac809e99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:40 +0000
Subject: [PATCH 062/135] fix: SecureRandom checks the range of a request

---
 CEX/SecureRandom.cpp | 64 +++++++++++++++++++++++++-------------------
 1 file changed, 37 insertions(+), 27 deletions(-)

diff --git a/CEX/SecureRandom.cpp b/CEX/SecureRandom.cpp
index 77ea706..346973e 100644
--- a/CEX/SecureRandom.cpp
+++ b/CEX/SecureRandom.cpp
@@ -126,6 +126,11 @@ std::vector<uint8_t> SecureRandom::Generate(size_t Length)
 
 void SecureRandom::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 {
+	if (Offset > Output.size() || Output.size() - Offset < Length)
+	{
+		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	const size_t BUFLEN = m_scrState->Buffer.size() - m_scrState->Position;
 
 	if (Length != 0)
@@ -161,6 +166,11 @@ void SecureRandom::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t
 
 void SecureRandom::Generate(SecureVector<uint8_t> &Output, size_t Offset, size_t Length)
 {
+	if (Offset > Output.size() || Output.size() - Offset < Length)
+	{
+		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	const size_t BUFLEN = m_scrState->Buffer.size() - m_scrState->Position;
 
 	if (Length != 0)
@@ -243,8 +253,8 @@ int16_t SecureRandom::NextInt16(int16_t Maximum)
 		throw CryptoRandomException(Name(), std::string("NextInt16"), std::string("Maximum can not be zero!"), ErrorCodes::IllegalOperation);
 	}
 
-	// an unsigned sample is not biased by the negative half of the range
-	return static_cast<int16_t>(NextUInt16(static_cast<uint16_t>(Maximum)));
+	// an unsigned sample is not biased by the negative half of the range
+	return static_cast<int16_t>(NextUInt16(static_cast<uint16_t>(Maximum)));
 }
 
 int16_t SecureRandom::NextInt16(int16_t Maximum, int16_t Minimum)
@@ -258,10 +268,10 @@ int16_t SecureRandom::NextInt16(int16_t Maximum, int16_t Minimum)
 		throw CryptoRandomException(Name(), std::string("NextInt16"), std::string("Maximum can not be less than Minimum!"), ErrorCodes::IllegalOperation);
 	}
 
-	const uint16_t SMPRNG = static_cast<uint16_t>(static_cast<uint16_t>(Maximum) - static_cast<uint16_t>(Minimum));
-	const uint16_t x = (SMPRNG == std::numeric_limits<uint16_t>::max()) ? NextUInt16() : NextUInt16(static_cast<uint16_t>(SMPRNG + 1));
-
-	return static_cast<int16_t>(static_cast<uint16_t>(Minimum) + x);
+	const uint16_t SMPRNG = static_cast<uint16_t>(static_cast<uint16_t>(Maximum) - static_cast<uint16_t>(Minimum));
+	const uint16_t x = (SMPRNG == std::numeric_limits<uint16_t>::max()) ? NextUInt16() : NextUInt16(static_cast<uint16_t>(SMPRNG + 1));
+
+	return static_cast<int16_t>(static_cast<uint16_t>(Minimum) + x);
 }
 
 uint16_t SecureRandom::NextUInt16()
@@ -304,9 +314,9 @@ uint16_t SecureRandom::NextUInt16(uint16_t Maximum, uint16_t Minimum)
 		throw CryptoRandomException(Name(), std::string("NextUInt16"), std::string("Maximum can not be less than Minimum!"), ErrorCodes::IllegalOperation);
 	}
 
-	const uint16_t SMPRNG = static_cast<uint16_t>(Maximum - Minimum);
-
-	return static_cast<uint16_t>(Minimum + ((SMPRNG == std::numeric_limits<uint16_t>::max()) ? NextUInt16() : NextUInt16(static_cast<uint16_t>(SMPRNG + 1))));
+	const uint16_t SMPRNG = static_cast<uint16_t>(Maximum - Minimum);
+
+	return static_cast<uint16_t>(Minimum + ((SMPRNG == std::numeric_limits<uint16_t>::max()) ? NextUInt16() : NextUInt16(static_cast<uint16_t>(SMPRNG + 1))));
 }
 
 int32_t SecureRandom::NextInt32()
@@ -324,8 +334,8 @@ int32_t SecureRandom::NextInt32(int32_t Maximum)
 		throw CryptoRandomException(Name(), std::string("NextInt32"), std::string("Maximum can not be zero!"), ErrorCodes::IllegalOperation);
 	}
 
-	// an unsigned sample is not biased by the negative half of the range
-	return static_cast<int32_t>(NextUInt32(static_cast<uint32_t>(Maximum)));
+	// an unsigned sample is not biased by the negative half of the range
+	return static_cast<int32_t>(NextUInt32(static_cast<uint32_t>(Maximum)));
 }
 
 int32_t SecureRandom::NextInt32(int32_t Maximum, int32_t Minimum)
@@ -339,10 +349,10 @@ int32_t SecureRandom::NextInt32(int32_t Maximum, int32_t Minimum)
 		throw CryptoRandomException(Name(), std::string("NextInt32"), std::string("Maximum can not be less than Minimum!"), ErrorCodes::IllegalOperation);
 	}
 
-	const uint32_t SMPRNG = static_cast<uint32_t>(static_cast<uint32_t>(Maximum) - static_cast<uint32_t>(Minimum));
-	const uint32_t x = (SMPRNG == std::numeric_limits<uint32_t>::max()) ? NextUInt32() : NextUInt32(static_cast<uint32_t>(SMPRNG + 1));
-
-	return static_cast<int32_t>(static_cast<uint32_t>(Minimum) + x);
+	const uint32_t SMPRNG = static_cast<uint32_t>(static_cast<uint32_t>(Maximum) - static_cast<uint32_t>(Minimum));
+	const uint32_t x = (SMPRNG == std::numeric_limits<uint32_t>::max()) ? NextUInt32() : NextUInt32(static_cast<uint32_t>(SMPRNG + 1));
+
+	return static_cast<int32_t>(static_cast<uint32_t>(Minimum) + x);
 }
 
 uint32_t SecureRandom::NextUInt32()
@@ -385,9 +395,9 @@ uint32_t SecureRandom::NextUInt32(uint32_t Maximum, uint32_t Minimum)
 		throw CryptoRandomException(Name(), std::string("NextUInt32"), std::string("Maximum can not be less than Minimum!"), ErrorCodes::IllegalOperation);
 	}
 
-	const uint32_t SMPRNG = static_cast<uint32_t>(Maximum - Minimum);
-
-	return static_cast<uint32_t>(Minimum + ((SMPRNG == std::numeric_limits<uint32_t>::max()) ? NextUInt32() : NextUInt32(static_cast<uint32_t>(SMPRNG + 1))));
+	const uint32_t SMPRNG = static_cast<uint32_t>(Maximum - Minimum);
+
+	return static_cast<uint32_t>(Minimum + ((SMPRNG == std::numeric_limits<uint32_t>::max()) ? NextUInt32() : NextUInt32(static_cast<uint32_t>(SMPRNG + 1))));
 }
 
 int64_t SecureRandom::NextInt64()
@@ -405,8 +415,8 @@ int64_t SecureRandom::NextInt64(int64_t Maximum)
 		throw CryptoRandomException(Name(), std::string("NextInt64"), std::string("Maximum can not be zero!"), ErrorCodes::IllegalOperation);
 	}
 
-	// an unsigned sample is not biased by the negative half of the range
-	return static_cast<int64_t>(NextUInt64(static_cast<uint64_t>(Maximum)));
+	// an unsigned sample is not biased by the negative half of the range
+	return static_cast<int64_t>(NextUInt64(static_cast<uint64_t>(Maximum)));
 }
 
 int64_t SecureRandom::NextInt64(int64_t Maximum, int64_t Minimum)
@@ -420,10 +430,10 @@ int64_t SecureRandom::NextInt64(int64_t Maximum, int64_t Minimum)
 		throw CryptoRandomException(Name(), std::string("NextInt64"), std::string("Maximum can not be less than Minimum!"), ErrorCodes::IllegalOperation);
 	}
 
-	const uint64_t SMPRNG = static_cast<uint64_t>(static_cast<uint64_t>(Maximum) - static_cast<uint64_t>(Minimum));
-	const uint64_t x = (SMPRNG == std::numeric_limits<uint64_t>::max()) ? NextUInt64() : NextUInt64(static_cast<uint64_t>(SMPRNG + 1));
-
-	return static_cast<int64_t>(static_cast<uint64_t>(Minimum) + x);
+	const uint64_t SMPRNG = static_cast<uint64_t>(static_cast<uint64_t>(Maximum) - static_cast<uint64_t>(Minimum));
+	const uint64_t x = (SMPRNG == std::numeric_limits<uint64_t>::max()) ? NextUInt64() : NextUInt64(static_cast<uint64_t>(SMPRNG + 1));
+
+	return static_cast<int64_t>(static_cast<uint64_t>(Minimum) + x);
 }
 
 uint64_t SecureRandom::NextUInt64()
@@ -466,9 +476,9 @@ uint64_t SecureRandom::NextUInt64(uint64_t Maximum, uint64_t Minimum)
 		throw CryptoRandomException(Name(), std::string("NextUInt64"), std::string("Maximum can not be less than Minimum!"), ErrorCodes::IllegalOperation);
 	}
 
-	const uint64_t SMPRNG = static_cast<uint64_t>(Maximum - Minimum);
-
-	return static_cast<uint64_t>(Minimum + ((SMPRNG == std::numeric_limits<uint64_t>::max()) ? NextUInt64() : NextUInt64(static_cast<uint64_t>(SMPRNG + 1))));
+	const uint64_t SMPRNG = static_cast<uint64_t>(Maximum - Minimum);
+
+	return static_cast<uint64_t>(Minimum + ((SMPRNG == std::numeric_limits<uint64_t>::max()) ? NextUInt64() : NextUInt64(static_cast<uint64_t>(SMPRNG + 1))));
 }
 
 NAMESPACE_PRNGEND
-- 
2.43.0


From 50cb6cd22e479a564082b87745c7c1b8f5ab18b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:36 +0000
Subject: [PATCH 063/135] fix: refuse a range that starts past the end of the
 buffer

---
 CEX/ACP.cpp       | 4 ++--
 CEX/BCG.cpp       | 4 ++--
 CEX/BCR.cpp       | 4 ++--
 CEX/Blake256.cpp  | 2 +-
 CEX/Blake512.cpp  | 2 +-
 CEX/CJP.cpp       | 4 ++--
 CEX/CMAC.cpp      | 4 ++--
 CEX/CSG.cpp       | 4 ++--
 CEX/CSP.cpp       | 4 ++--
 CEX/CSR.cpp       | 4 ++--
 CEX/ECP.cpp       | 2 +-
 CEX/GMAC.cpp      | 4 ++--
 CEX/HBA.cpp       | 4 ++--
 CEX/HCG.cpp       | 4 ++--
 CEX/HCR.cpp       | 4 ++--
 CEX/HKDF.cpp      | 4 ++--
 CEX/HMAC.cpp      | 4 ++--
 CEX/KDF2.cpp      | 4 ++--
 CEX/KMAC.cpp      | 4 ++--
 CEX/KPA.cpp       | 4 ++--
 CEX/PBKDF2.cpp    | 4 ++--
 CEX/Poly1305.cpp  | 4 ++--
 CEX/RDP.cpp       | 4 ++--
 CEX/SCBKDF.cpp    | 4 ++--
 CEX/SHA2256.cpp   | 2 +-
 CEX/SHA2512.cpp   | 2 +-
 CEX/SHA3256.cpp   | 2 +-
 CEX/SHA3512.cpp   | 2 +-
 CEX/SHAKE.cpp     | 4 ++--
 CEX/Skein1024.cpp | 2 +-
 CEX/Skein256.cpp  | 2 +-
 CEX/Skein512.cpp  | 2 +-
 32 files changed, 54 insertions(+), 54 deletions(-)

diff --git a/CEX/ACP.cpp b/CEX/ACP.cpp
index 92b3f7d..92ac3ed 100644
--- a/CEX/ACP.cpp
+++ b/CEX/ACP.cpp
@@ -72,7 +72,7 @@ void ACP::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The random provider is not available!"), ErrorCodes::NotFound);
 	}
-	if ((Output.size() - Offset) < Length)
+	if (Offset > Output.size() || (Output.size() - Offset) < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -107,7 +107,7 @@ void ACP::Generate(SecureVector<uint8_t> &Output, size_t Offset, size_t Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The random provider is not available!"), ErrorCodes::NotFound);
 	}
-	if ((Output.size() - Offset) < Length)
+	if (Offset > Output.size() || (Output.size() - Offset) < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/BCG.cpp b/CEX/BCG.cpp
index ace925f..52ca4de 100644
--- a/CEX/BCG.cpp
+++ b/CEX/BCG.cpp
@@ -198,7 +198,7 @@ void BCG::Generate(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Lengt
 	{
 		throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The generator must be initialized before use!"), ErrorCodes::NotInitialized);
 	}
-	if ((Output.size() - OutOffset) < Length)
+	if (OutOffset > Output.size() || (Output.size() - OutOffset) < Length)
 	{
 		throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -235,7 +235,7 @@ void BCG::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Length
 	{
 		throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The generator must be initialized before use!"), ErrorCodes::NotInitialized);
 	}
-	if ((Output.size() - OutOffset) < Length)
+	if (OutOffset > Output.size() || (Output.size() - OutOffset) < Length)
 	{
 		throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/BCR.cpp b/CEX/BCR.cpp
index 16c7d14..d85084d 100644
--- a/CEX/BCR.cpp
+++ b/CEX/BCR.cpp
@@ -80,7 +80,7 @@ void BCR::Generate(std::vector<uint8_t> &Output)
 
 void BCR::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 {
-	if ((Output.size() - Offset) < Length)
+	if (Offset > Output.size() || (Output.size() - Offset) < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -98,7 +98,7 @@ void BCR::Generate(SecureVector<uint8_t> &Output)
 
 void BCR::Generate(SecureVector<uint8_t> &Output, size_t Offset, size_t Length)
 {
-	if ((Output.size() - Offset) < Length)
+	if (Offset > Output.size() || (Output.size() - Offset) < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/Blake256.cpp b/CEX/Blake256.cpp
index 119abca..d9d3377 100644
--- a/CEX/Blake256.cpp
+++ b/CEX/Blake256.cpp
@@ -175,7 +175,7 @@ void Blake256::Compute(const std::vector<uint8_t> &Input, std::vector<uint8_t> &
 
 void Blake256::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 {
-	if (Output.size() - OutOffset < Blake::BLAKE256_DIGEST_SIZE)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Blake::BLAKE256_DIGEST_SIZE)
 	{
 		throw CryptoDigestException(Name(), std::string("Finalize"), std::string("The output vector is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/Blake512.cpp b/CEX/Blake512.cpp
index 5354232..c4143c4 100644
--- a/CEX/Blake512.cpp
+++ b/CEX/Blake512.cpp
@@ -179,7 +179,7 @@ void Blake512::Compute(const std::vector<uint8_t> &Input, std::vector<uint8_t> &
 
 void Blake512::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 {
-	if (Output.size() - OutOffset < Blake::BLAKE512_DIGEST_SIZE)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Blake::BLAKE512_DIGEST_SIZE)
 	{
 		throw CryptoDigestException(Name(), std::string("Finalize"), std::string("The output vector is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/CJP.cpp b/CEX/CJP.cpp
index 79235a3..e88c81e 100644
--- a/CEX/CJP.cpp
+++ b/CEX/CJP.cpp
@@ -132,7 +132,7 @@ void CJP::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The random provider is not available!"), ErrorCodes::NotFound);
 	}
-	if ((Output.size() - Offset) < Length)
+	if (Offset > Output.size() || (Output.size() - Offset) < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -164,7 +164,7 @@ void CJP::Generate(SecureVector<uint8_t> &Output, size_t Offset, size_t Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The random provider is not available!"), ErrorCodes::NotFound);
 	}
-	if ((Output.size() - Offset) < Length)
+	if (Offset > Output.size() || (Output.size() - Offset) < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/CMAC.cpp b/CEX/CMAC.cpp
index 438aed9..d90bb8b 100644
--- a/CEX/CMAC.cpp
+++ b/CEX/CMAC.cpp
@@ -165,7 +165,7 @@ size_t CMAC::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 	{
 		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The MAC has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if ((Output.size() - OutOffset) < TagSize())
+	if (OutOffset > Output.size() || (Output.size() - OutOffset) < TagSize())
 	{
 		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
@@ -259,7 +259,7 @@ void CMAC::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t Len
 	{
 		throw CryptoMacException(Name(), std::string("Update"), std::string("The MAC has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if ((Input.size() - InOffset) < Length)
+	if (InOffset > Input.size() || (Input.size() - InOffset) < Length)
 	{
 		throw CryptoMacException(Name(), std::string("Update"), std::string("The Input buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/CSG.cpp b/CEX/CSG.cpp
index ac2a8a2..6cbe9c0 100644
--- a/CEX/CSG.cpp
+++ b/CEX/CSG.cpp
@@ -256,7 +256,7 @@ void CSG::Generate(SecureVector<uint8_t> &Output)
 
 void CSG::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Length)
 {
-	if ((Output.size() - OutOffset) < Length)
+	if (OutOffset > Output.size() || (Output.size() - OutOffset) < Length)
 	{
 		throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -272,7 +272,7 @@ void CSG::Generate(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Lengt
 	{
 		throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The generator must be initialized before use!"), ErrorCodes::NotInitialized);
 	}
-	if ((Output.size() - OutOffset) < Length)
+	if (OutOffset > Output.size() || (Output.size() - OutOffset) < Length)
 	{
 		throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/CSP.cpp b/CEX/CSP.cpp
index 00ef398..547e1e5 100644
--- a/CEX/CSP.cpp
+++ b/CEX/CSP.cpp
@@ -81,7 +81,7 @@ void CSP::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The random provider is not available!"), ErrorCodes::NotFound);
 	}
-	if ((Output.size() - Offset) < Length)
+	if (Offset > Output.size() || (Output.size() - Offset) < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -113,7 +113,7 @@ void CSP::Generate(SecureVector<uint8_t> &Output, size_t Offset, size_t Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The random provider is not available!"), ErrorCodes::NotFound);
 	}
-	if ((Output.size() - Offset) < Length)
+	if (Offset > Output.size() || (Output.size() - Offset) < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/CSR.cpp b/CEX/CSR.cpp
index 4538756..a8cf5c8 100644
--- a/CEX/CSR.cpp
+++ b/CEX/CSR.cpp
@@ -81,7 +81,7 @@ void CSR::Generate(std::vector<uint8_t> &Output)
 
 void CSR::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 {
-	if ((Output.size() - Offset) < Length)
+	if (Offset > Output.size() || (Output.size() - Offset) < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -99,7 +99,7 @@ void CSR::Generate(SecureVector<uint8_t> &Output)
 
 void CSR::Generate(SecureVector<uint8_t> &Output, size_t Offset, size_t Length)
 {
-	if ((Output.size() - Offset) < Length)
+	if (Offset > Output.size() || (Output.size() - Offset) < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/ECP.cpp b/CEX/ECP.cpp
index ad990af..efe6c3b 100644
--- a/CEX/ECP.cpp
+++ b/CEX/ECP.cpp
@@ -70,7 +70,7 @@ void ECP::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The random provider is not available!"), ErrorCodes::NotFound);
 	}
-	if ((Output.size() - Offset) < Length)
+	if (Offset > Output.size() || (Output.size() - Offset) < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/GMAC.cpp b/CEX/GMAC.cpp
index 5f8b7ee..5978115 100644
--- a/CEX/GMAC.cpp
+++ b/CEX/GMAC.cpp
@@ -171,7 +171,7 @@ size_t GMAC::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 	{
 		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The MAC has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if ((Output.size() - OutOffset) < TagSize())
+	if (OutOffset > Output.size() || (Output.size() - OutOffset) < TagSize())
 	{
 		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
@@ -280,7 +280,7 @@ void GMAC::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t Len
 	{
 		throw CryptoMacException(Name(), std::string("Update"), std::string("The MAC has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if ((Input.size() - InOffset) < Length)
+	if (InOffset > Input.size() || (Input.size() - InOffset) < Length)
 	{
 		throw CryptoMacException(Name(), std::string("Update"), std::string("The Input buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/HBA.cpp b/CEX/HBA.cpp
index 9f2f974..fa71d92 100644
--- a/CEX/HBA.cpp
+++ b/CEX/HBA.cpp
@@ -397,7 +397,7 @@ void HBA::Transform(const std::vector<uint8_t> &Input, size_t InOffset, std::vec
 
 	if (IsEncryption() == true)
 	{
-		if (Output.size() - OutOffset < Length + TagSize())
+		if (OutOffset > Output.size() || Output.size() - OutOffset < Length + TagSize())
 		{
 			throw CryptoCipherModeException(Name(), std::string("Transform"), std::string("The output array is too small!"), ErrorCodes::InvalidSize);
 		}
@@ -414,7 +414,7 @@ void HBA::Transform(const std::vector<uint8_t> &Input, size_t InOffset, std::vec
 	}
 	else
 	{
-		if (Output.size() - OutOffset < Length)
+		if (OutOffset > Output.size() || Output.size() - OutOffset < Length)
 		{
 			throw CryptoCipherModeException(Name(), std::string("Transform"), std::string("The output array is too small!"), ErrorCodes::InvalidSize);
 		}
diff --git a/CEX/HCG.cpp b/CEX/HCG.cpp
index 8127ad3..cf1b234 100644
--- a/CEX/HCG.cpp
+++ b/CEX/HCG.cpp
@@ -199,7 +199,7 @@ void HCG::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Length
 	{
 		throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The generator must be initialized before use!"), ErrorCodes::NotInitialized);
 	}
-	if ((Output.size() - OutOffset) < Length)
+	if (OutOffset > Output.size() || (Output.size() - OutOffset) < Length)
 	{
 		throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -236,7 +236,7 @@ void HCG::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Length
 
 void HCG::Generate(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Length)
 {
-	if ((Output.size() - OutOffset) < Length)
+	if (OutOffset > Output.size() || (Output.size() - OutOffset) < Length)
 	{
 		throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/HCR.cpp b/CEX/HCR.cpp
index ec6e3ea..ed54298 100644
--- a/CEX/HCR.cpp
+++ b/CEX/HCR.cpp
@@ -84,7 +84,7 @@ void HCR::Generate(std::vector<uint8_t> &Output)
 
 void HCR::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 {
-	if ((Output.size() - Offset) < Length)
+	if (Offset > Output.size() || (Output.size() - Offset) < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -102,7 +102,7 @@ void HCR::Generate(SecureVector<uint8_t> &Output)
 
 void HCR::Generate(SecureVector<uint8_t> &Output, size_t Offset, size_t Length)
 {
-	if ((Output.size() - Offset) < Length)
+	if (Offset > Output.size() || (Output.size() - Offset) < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/HKDF.cpp b/CEX/HKDF.cpp
index 8c55626..d1bcebb 100644
--- a/CEX/HKDF.cpp
+++ b/CEX/HKDF.cpp
@@ -199,7 +199,7 @@ void HKDF::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Lengt
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("Request exceeds maximum allowed output!"), ErrorCodes::MaxExceeded);
 	}
-	if (Output.size() - OutOffset < Length)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Length)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
@@ -217,7 +217,7 @@ void HKDF::Generate(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Leng
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("Request exceeds maximum allowed output!"), ErrorCodes::MaxExceeded);
 	}
-	if (Output.size() - OutOffset < Length)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Length)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/HMAC.cpp b/CEX/HMAC.cpp
index d4a7010..9177624 100644
--- a/CEX/HMAC.cpp
+++ b/CEX/HMAC.cpp
@@ -173,7 +173,7 @@ size_t HMAC::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 	{
 		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The MAC has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if ((Output.size() - OutOffset) < TagSize())
+	if (OutOffset > Output.size() || (Output.size() - OutOffset) < TagSize())
 	{
 		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
@@ -257,7 +257,7 @@ void HMAC::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t Len
 	{
 		throw CryptoMacException(Name(), std::string("Update"), std::string("The MAC has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if ((Input.size() - InOffset) < Length)
+	if (InOffset > Input.size() || (Input.size() - InOffset) < Length)
 	{
 		throw CryptoMacException(Name(), std::string("Update"), std::string("The Input buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/KDF2.cpp b/CEX/KDF2.cpp
index f52ef2a..b8c30a6 100644
--- a/CEX/KDF2.cpp
+++ b/CEX/KDF2.cpp
@@ -164,7 +164,7 @@ void KDF2::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Lengt
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("Request exceeds maximum allowed output!"), ErrorCodes::MaxExceeded);
 	}
-	if (Output.size() - OutOffset < Length)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Length)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
@@ -182,7 +182,7 @@ void KDF2::Generate(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Leng
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("Request exceeds maximum allowed output!"), ErrorCodes::MaxExceeded);
 	}
-	if (Output.size() - OutOffset < Length)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Length)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/KMAC.cpp b/CEX/KMAC.cpp
index 4ee28c4..b31a4f0 100644
--- a/CEX/KMAC.cpp
+++ b/CEX/KMAC.cpp
@@ -150,7 +150,7 @@ size_t KMAC::Finalize(SecureVector<uint8_t> &Output, size_t OutOffset)
 	{
 		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The MAC has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if ((Output.size() - OutOffset) < TagSize())
+	if (OutOffset > Output.size() || (Output.size() - OutOffset) < TagSize())
 	{
 		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
@@ -244,7 +244,7 @@ void KMAC::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t Len
 	{
 		throw CryptoMacException(Name(), std::string("Update"), std::string("The MAC has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if ((Input.size() - InOffset) < Length)
+	if (InOffset > Input.size() || (Input.size() - InOffset) < Length)
 	{
 		throw CryptoMacException(Name(), std::string("Update"), std::string("The Input buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/KPA.cpp b/CEX/KPA.cpp
index d7a9943..79f86de 100644
--- a/CEX/KPA.cpp
+++ b/CEX/KPA.cpp
@@ -181,7 +181,7 @@ KPA::KPA(KpaModes KbaModeType)
 		{
 			throw CryptoMacException(Name(), std::string("Finalize"), std::string("The MAC has not been initialized!"), ErrorCodes::NotInitialized);
 		}
-		if ((Output.size() - OutOffset) < TagSize())
+		if (OutOffset > Output.size() || (Output.size() - OutOffset) < TagSize())
 		{
 			throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 		}
@@ -463,7 +463,7 @@ KPA::KPA(KpaModes KbaModeType)
 		{
 			throw CryptoMacException(Name(), std::string("Update"), std::string("The MAC has not been initialized!"), ErrorCodes::NotInitialized);
 		}
-		if ((Input.size() - InOffset) < Length)
+		if (InOffset > Input.size() || (Input.size() - InOffset) < Length)
 		{
 			throw CryptoMacException(Name(), std::string("Update"), std::string("The Input buffer is too int16_t!"), ErrorCodes::InvalidSize);
 		}
diff --git a/CEX/PBKDF2.cpp b/CEX/PBKDF2.cpp
index 70df81f..9e2dc1b 100644
--- a/CEX/PBKDF2.cpp
+++ b/CEX/PBKDF2.cpp
@@ -170,7 +170,7 @@ void PBKDF2::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Len
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (Output.size() - OutOffset < Length)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Length)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
@@ -188,7 +188,7 @@ void PBKDF2::Generate(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Le
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (Output.size() - OutOffset < Length)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Length)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/Poly1305.cpp b/CEX/Poly1305.cpp
index 1d5f692..68977c2 100644
--- a/CEX/Poly1305.cpp
+++ b/CEX/Poly1305.cpp
@@ -103,7 +103,7 @@ size_t Poly1305::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 	{
 		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The MAC has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if ((Output.size() - OutOffset) < TagSize())
+	if (OutOffset > Output.size() || (Output.size() - OutOffset) < TagSize())
 	{
 		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
@@ -233,7 +233,7 @@ void Poly1305::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t
 	{
 		throw CryptoMacException(Name(), std::string("Update"), std::string("The MAC has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if ((Input.size() - InOffset) < Length)
+	if (InOffset > Input.size() || (Input.size() - InOffset) < Length)
 	{
 		throw CryptoMacException(Name(), std::string("Update"), std::string("The Input buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/RDP.cpp b/CEX/RDP.cpp
index 3871d95..37dc211 100644
--- a/CEX/RDP.cpp
+++ b/CEX/RDP.cpp
@@ -63,7 +63,7 @@ void RDP::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The seed providers maximum output is 64MB per request!"), ErrorCodes::IllegalOperation);
 	}
-	if ((Output.size() - Offset) < Length)
+	if (Offset > Output.size() || (Output.size() - Offset) < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -103,7 +103,7 @@ void RDP::Generate(SecureVector<uint8_t> &Output, size_t Offset, size_t Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The seed providers maximum output is 64MB per request!"), ErrorCodes::IllegalOperation);
 	}
-	if ((Output.size() - Offset) < Length)
+	if (Offset > Output.size() || (Output.size() - Offset) < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/SCBKDF.cpp b/CEX/SCBKDF.cpp
index 8a57b8f..82975d2 100644
--- a/CEX/SCBKDF.cpp
+++ b/CEX/SCBKDF.cpp
@@ -131,7 +131,7 @@ void SCBKDF::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Len
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (Output.size() - OutOffset < Length)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Length)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
@@ -146,7 +146,7 @@ void SCBKDF::Generate(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Le
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (Output.size() - OutOffset < Length)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Length)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/SHA2256.cpp b/CEX/SHA2256.cpp
index 74f9719..bcb63a7 100644
--- a/CEX/SHA2256.cpp
+++ b/CEX/SHA2256.cpp
@@ -157,7 +157,7 @@ void SHA2256::Compute(const std::vector<uint8_t> &Input, std::vector<uint8_t> &O
 
 void SHA2256::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 {
-	if (Output.size() - OutOffset < SHA2::SHA2256_DIGEST_SIZE)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < SHA2::SHA2256_DIGEST_SIZE)
 	{
 		throw CryptoDigestException(Name(), std::string("Finalize"), std::string("The output vector is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/SHA2512.cpp b/CEX/SHA2512.cpp
index ff05beb..9d5ba9c 100644
--- a/CEX/SHA2512.cpp
+++ b/CEX/SHA2512.cpp
@@ -160,7 +160,7 @@ void SHA2512::Compute(const std::vector<uint8_t> &Input, std::vector<uint8_t> &O
 
 void SHA2512::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 {
-	if (Output.size() - OutOffset < SHA2::SHA2512_DIGEST_SIZE)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < SHA2::SHA2512_DIGEST_SIZE)
 	{
 		throw CryptoDigestException(Name(), std::string("Finalize"), std::string("The output vector is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/SHA3256.cpp b/CEX/SHA3256.cpp
index 0a19e9f..251e11b 100644
--- a/CEX/SHA3256.cpp
+++ b/CEX/SHA3256.cpp
@@ -144,7 +144,7 @@ void SHA3256::Compute(const std::vector<uint8_t> &Input, std::vector<uint8_t> &O
 
 void SHA3256::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 {
-	if (Output.size() - OutOffset < Keccak::KECCAK256_DIGEST_SIZE)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Keccak::KECCAK256_DIGEST_SIZE)
 	{
 		throw CryptoDigestException(Name(), std::string("Finalize"), std::string("The output vector is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/SHA3512.cpp b/CEX/SHA3512.cpp
index 66ccc74..502b372 100644
--- a/CEX/SHA3512.cpp
+++ b/CEX/SHA3512.cpp
@@ -144,7 +144,7 @@ void SHA3512::Compute(const std::vector<uint8_t> &Input, std::vector<uint8_t> &O
 
 void SHA3512::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 {
-	if (Output.size() - OutOffset < Keccak::KECCAK512_DIGEST_SIZE)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Keccak::KECCAK512_DIGEST_SIZE)
 	{
 		throw CryptoDigestException(Name(), std::string("Finalize"), std::string("The output vector is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/SHAKE.cpp b/CEX/SHAKE.cpp
index 0cc36ea..144af57 100644
--- a/CEX/SHAKE.cpp
+++ b/CEX/SHAKE.cpp
@@ -130,7 +130,7 @@ void SHAKE::Generate(SecureVector<uint8_t> &Output)
 
 void SHAKE::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Length)
 {
-	if (Output.size() - OutOffset < Length)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Length)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
@@ -147,7 +147,7 @@ void SHAKE::Generate(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Len
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (Output.size() - OutOffset < Length)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Length)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/Skein1024.cpp b/CEX/Skein1024.cpp
index 52b486f..02f997c 100644
--- a/CEX/Skein1024.cpp
+++ b/CEX/Skein1024.cpp
@@ -158,7 +158,7 @@ void Skein1024::Compute(const std::vector<uint8_t> &Input, std::vector<uint8_t>
 
 void Skein1024::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 {
-	if (Output.size() - OutOffset < Skein::SKEIN1024_DIGEST_SIZE)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Skein::SKEIN1024_DIGEST_SIZE)
 	{
 		throw CryptoDigestException(Name(), std::string("Finalize"), std::string("The output vector is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/Skein256.cpp b/CEX/Skein256.cpp
index 852a5f7..ea4c04d 100644
--- a/CEX/Skein256.cpp
+++ b/CEX/Skein256.cpp
@@ -157,7 +157,7 @@ void Skein256::Compute(const std::vector<uint8_t> &Input, std::vector<uint8_t> &
 
 void Skein256::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 {
-	if (Output.size() - OutOffset < Skein::SKEIN256_DIGEST_SIZE)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Skein::SKEIN256_DIGEST_SIZE)
 	{
 		throw CryptoDigestException(Name(), std::string("Finalize"), std::string("The output vector is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/Skein512.cpp b/CEX/Skein512.cpp
index 4552c06..4e11c12 100644
--- a/CEX/Skein512.cpp
+++ b/CEX/Skein512.cpp
@@ -158,7 +158,7 @@ void Skein512::Compute(const std::vector<uint8_t> &Input, std::vector<uint8_t> &
 
 void Skein512::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 {
-	if (Output.size() - OutOffset < Skein::SKEIN512_DIGEST_SIZE)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Skein::SKEIN512_DIGEST_SIZE)
 	{
 		throw CryptoDigestException(Name(), std::string("Finalize"), std::string("The output vector is too small!"), ErrorCodes::InvalidSize);
 	}
-- 
2.43.0


From ce41580ce75c38227897b9c6b8c474fb3ecea2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:37 +0000
Subject: [PATCH 064/135] fix: ECP generates the requested length of a ranged
 request

---
 CEX/ECP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/ECP.cpp b/CEX/ECP.cpp
index efe6c3b..ec0a1ad 100644
--- a/CEX/ECP.cpp
+++ b/CEX/ECP.cpp
@@ -81,7 +81,7 @@ void ECP::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 
 	SecureVector<uint8_t> tmp(Length);
 
-	Generate(tmp, 0, Output.size(), m_rngGenerator);
+	Generate(tmp, 0, Length, m_rngGenerator);
 	SecureMove(tmp, 0, Output, Offset, tmp.size());
 }
 
-- 
2.43.0


From b456ba1fdbadbc36b5c163f4b3277fa701c7cadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:51 +0000
Subject: [PATCH 065/135] fix: CSP reports a null provider handle

---
 CEX/CSP.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/CSP.cpp b/CEX/CSP.cpp
index 547e1e5..ee65a5e 100644
--- a/CEX/CSP.cpp
+++ b/CEX/CSP.cpp
@@ -133,9 +133,9 @@ void CSP::Generate(uint8_t* Output, size_t Length)
 
 	if (Length != 0)
 	{
-		HCRYPTPROV hprov;
+		HCRYPTPROV hprov = 0;
 
-		if (!CryptAcquireContextW(&hprov, 0, 0, PROV_RSA_FULL, (CRYPT_VERIFYCONTEXT | CRYPT_SILENT)))
+		if (!CryptAcquireContextW(&hprov, 0, 0, PROV_RSA_FULL, (CRYPT_VERIFYCONTEXT | CRYPT_SILENT)) || !hprov)
 		{
 			throw CryptoRandomException(ProviderConvert::ToName(Providers::CSP), std::string("Generate"), std::string("Random provider is not available!"), ErrorCodes::NotFound);
 		}
-- 
2.43.0


From 9ce828bad39e3aa70afc488d29737b162e410db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:51 +0000
Subject: [PATCH 066/135] fix: CJP checks the timer before it primes its state

---
 CEX/CJP.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/CEX/CJP.cpp b/CEX/CJP.cpp
index e88c81e..4820561 100644
--- a/CEX/CJP.cpp
+++ b/CEX/CJP.cpp
@@ -398,6 +398,12 @@ std::unique_ptr<CJP::JitterState> CJP::Prime()
 		state->MemoryState.resize(state->MemoryTotalSize, 0);
 	}
 
+	// a timer that does not advance can not be measured
+	if (!TimerCheck(state))
+	{
+		throw CryptoRandomException(std::string("CJP"), std::string("Prime"), std::string("The timer evaluation check has failed!"), ErrorCodes::NotSupported);
+	}
+
 	// fill the state with non-zero values
 	Generate(state);
 
-- 
2.43.0


From 699e9eb4694b5de06e17aef41a9d90ecf51059c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:14 +0000
Subject: [PATCH 067/135] fix: CpuDetect: terminate the serial number string

---
 CEX/CpuDetect.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/CpuDetect.cpp b/CEX/CpuDetect.cpp
index 57862b5..f713ff5 100644
--- a/CEX/CpuDetect.cpp
+++ b/CEX/CpuDetect.cpp
@@ -587,7 +587,7 @@ void CpuDetect::StoreSerialNumber()
 	std::array<uint32_t, 4> cpuInfo = { 0 };
 	Cpuid(0x00000003, cpuInfo);
 
-	std::array<char, 8> prcId = { 0 };
+	std::array<char, 9> prcId = { 0 };
 	std::memset(prcId.data(), 0, sizeof(prcId));
 	std::memcpy(&prcId[0], &cpuInfo[3], 4);
 	std::memcpy(&prcId[4], &cpuInfo[2], 4);
-- 
2.43.0


From 6359068ee25ee04c6631efb2ae2fdc119f8904b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:14 +0000
Subject: [PATCH 068/135] fix: ArrayTools: a wide string has Length characters

---
 CEX/ArrayTools.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/ArrayTools.h b/CEX/ArrayTools.h
index a1f1698..983b326 100644
--- a/CEX/ArrayTools.h
+++ b/CEX/ArrayTools.h
@@ -303,7 +303,7 @@ public:
 		}
 		else
 		{
-			std::wstring tmp(reinterpret_cast<wchar_t*>(Input), Length * 2);
+			std::wstring tmp(reinterpret_cast<wchar_t*>(Input), Length);
 			ret.assign(tmp.begin(), tmp.end());
 		}
 
-- 
2.43.0


From 707e0b3e586e762de4fce1d0fede512d29359fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:53 +0000
Subject: [PATCH 069/135] fix: SymmetricKey: check the sizes of a serialized
 key

---
 CEX/SymmetricKey.cpp       | 15 +++++++++++++++
 CEX/SymmetricSecureKey.cpp | 15 +++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/CEX/SymmetricKey.cpp b/CEX/SymmetricKey.cpp
index d5eea77..7387b9f 100644
--- a/CEX/SymmetricKey.cpp
+++ b/CEX/SymmetricKey.cpp
@@ -216,10 +216,20 @@ SymmetricKey* SymmetricKey::DeSerialize(SecureVector<uint8_t> &KeyStream)
 	uint16_t nlen;
 	uint16_t ilen;
 
+	if (KeyStream.size() < 6)
+	{
+		throw CryptoSymmetricException(std::string("SymmetricKey"), std::string("DeSerialize"), std::string("The key stream is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	klen = IntegerTools::LeBytesTo16(KeyStream, 0);
 	nlen = IntegerTools::LeBytesTo16(KeyStream, 2);
 	ilen = IntegerTools::LeBytesTo16(KeyStream, 4);
 
+	if (KeyStream.size() < static_cast<size_t>(6) + klen + nlen + ilen)
+	{
+		throw CryptoSymmetricException(std::string("SymmetricKey"), std::string("DeSerialize"), std::string("The key stream is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	if (klen > 0)
 	{
 		key.resize(klen);
@@ -247,6 +257,11 @@ SecureVector<uint8_t> SymmetricKey::Serialize(SymmetricKey &KeyParams)
 	uint16_t ilen;
 	uint16_t tlen;
 
+	if (KeyParams.KeySizes().KeySize() > UINT16_MAX || KeyParams.KeySizes().IVSize() > UINT16_MAX || KeyParams.KeySizes().InfoSize() > UINT16_MAX)
+	{
+		throw CryptoSymmetricException(std::string("SymmetricKey"), std::string("Serialize"), std::string("The key is too large to be serialized!"), ErrorCodes::InvalidSize);
+	}
+
 	klen = static_cast<uint16_t>(KeyParams.Key().size());
 	nlen = static_cast<uint16_t>(KeyParams.IV().size());
 	ilen = static_cast<uint16_t>(KeyParams.Info().size());
diff --git a/CEX/SymmetricSecureKey.cpp b/CEX/SymmetricSecureKey.cpp
index 199154b..38db317 100644
--- a/CEX/SymmetricSecureKey.cpp
+++ b/CEX/SymmetricSecureKey.cpp
@@ -414,10 +414,20 @@ SymmetricKey* SymmetricSecureKey::DeSerialize(SecureVector<uint8_t> &KeyStream)
 	uint16_t nlen;
 	uint16_t ilen;
 
+	if (KeyStream.size() < 6)
+	{
+		throw CryptoSymmetricException(std::string("SymmetricSecureKey"), std::string("DeSerialize"), std::string("The key stream is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	klen = IntegerTools::LeBytesTo16(KeyStream, 0);
 	nlen = IntegerTools::LeBytesTo16(KeyStream, 2);
 	ilen = IntegerTools::LeBytesTo16(KeyStream, 4);
 
+	if (KeyStream.size() < static_cast<size_t>(6) + klen + nlen + ilen)
+	{
+		throw CryptoSymmetricException(std::string("SymmetricSecureKey"), std::string("DeSerialize"), std::string("The key stream is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	if (klen > 0)
 	{
 		key.resize(klen);
@@ -445,6 +455,11 @@ SecureVector<uint8_t> SymmetricSecureKey::Serialize(SymmetricSecureKey &KeyParam
 	uint16_t ilen;
 	uint16_t tlen;
 
+	if (KeyParams.KeySizes().KeySize() > UINT16_MAX || KeyParams.KeySizes().IVSize() > UINT16_MAX || KeyParams.KeySizes().InfoSize() > UINT16_MAX)
+	{
+		throw CryptoSymmetricException(std::string("SymmetricSecureKey"), std::string("Serialize"), std::string("The key is too large to be serialized!"), ErrorCodes::InvalidSize);
+	}
+
 	klen = static_cast<uint16_t>(KeyParams.Key().size());
 	nlen = static_cast<uint16_t>(KeyParams.IV().size());
 	ilen = static_cast<uint16_t>(KeyParams.Info().size());
-- 
2.43.0


From 8415875744904f0f7a2df3f03916cd00b5f5d1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:53 +0000
Subject: [PATCH 070/135] fix: AsymmetricKey: check the size of a serialized
 key

---
 CEX/AsymmetricKey.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CEX/AsymmetricKey.cpp b/CEX/AsymmetricKey.cpp
index d654846..69ae4bf 100644
--- a/CEX/AsymmetricKey.cpp
+++ b/CEX/AsymmetricKey.cpp
@@ -143,6 +143,11 @@ void AsymmetricKey::Update(const std::vector<uint8_t> &Polynomial)
 
 AsymmetricKey* AsymmetricKey::DeSerialize(SecureVector<uint8_t> &KeyStream)
 {
+	if (KeyStream.size() < 4)
+	{
+		throw CryptoAsymmetricException(CLASS_NAME, std::string("DeSerialize"), std::string("The key stream is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	AsymmetricKey* tmpk = new AsymmetricKey(SecureVector<uint8_t>(KeyStream.begin() + 3, KeyStream.end()), 
 		static_cast<AsymmetricPrimitives>(KeyStream[2]),
 		static_cast<AsymmetricKeyTypes>(KeyStream[0]),
-- 
2.43.0


From 862ae4c7e2d7e783c3881d5b69f95a47e7d613f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:12 +0000
Subject: [PATCH 071/135] fix: sealed keys: release the cipher, allow reading a
 key that was reset

---
 CEX/AsymmetricSecureKey.cpp | 10 ++++++++--
 CEX/SymmetricSecureKey.cpp  | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/CEX/AsymmetricSecureKey.cpp b/CEX/AsymmetricSecureKey.cpp
index 32cf35c..ad76535 100644
--- a/CEX/AsymmetricSecureKey.cpp
+++ b/CEX/AsymmetricSecureKey.cpp
@@ -197,7 +197,7 @@ SecureVector<uint8_t> AsymmetricSecureKey::Serialize(AsymmetricSecureKey &KeyPar
 
 void AsymmetricSecureKey::Encipher(std::unique_ptr<AsymmetricSecureKeyState> &State)
 {
-	IStreamCipher* cpr = GetStreamCipher(State->Policy);
+	std::unique_ptr<IStreamCipher> cpr(GetStreamCipher(State->Policy));
 	SymmetricKeySize ksc = cpr->LegalKeySizes()[0];
 	SecureVector<uint8_t> seed(ksc.KeySize() + ksc.IVSize());
 	std::vector<uint8_t> tmpt(0);
@@ -228,7 +228,13 @@ void AsymmetricSecureKey::Encipher(std::unique_ptr<AsymmetricSecureKeyState> &St
 
 void AsymmetricSecureKey::Extract(std::unique_ptr<AsymmetricSecureKeyState> &State, SecureVector<uint8_t> &Output, size_t Length)
 {
-	IStreamCipher* cpr = GetStreamCipher(State->Policy);
+	if (State->Polynomial.size() == 0)
+	{
+		// the key has been reset
+		return;
+	}
+
+	std::unique_ptr<IStreamCipher> cpr(GetStreamCipher(State->Policy));
 	const size_t CPTSZE = cpr->IsAuthenticator() ? State->Polynomial.size() - cpr->TagSize() : State->Polynomial.size();
 	SymmetricKeySize ksc = cpr->LegalKeySizes()[0];
 	SecureVector<uint8_t> seed(ksc.KeySize() + ksc.IVSize());
diff --git a/CEX/SymmetricSecureKey.cpp b/CEX/SymmetricSecureKey.cpp
index 38db317..9744f3d 100644
--- a/CEX/SymmetricSecureKey.cpp
+++ b/CEX/SymmetricSecureKey.cpp
@@ -489,7 +489,7 @@ SecureVector<uint8_t> SymmetricSecureKey::Serialize(SymmetricSecureKey &KeyParam
 
 void SymmetricSecureKey::Encipher(std::unique_ptr<SecureKeyState> &State)
 {
-	IStreamCipher* cpr = GetStreamCipher(State->Policy);
+	std::unique_ptr<IStreamCipher> cpr(GetStreamCipher(State->Policy));
 	SymmetricKeySize ksc = cpr->LegalKeySizes()[0];
 	SecureVector<uint8_t> seed(ksc.KeySize() + ksc.IVSize());
 	std::vector<uint8_t> tmpt(0);
@@ -520,7 +520,13 @@ void SymmetricSecureKey::Encipher(std::unique_ptr<SecureKeyState> &State)
 
 void SymmetricSecureKey::Extract(std::unique_ptr<SecureKeyState> &State, size_t StateOffset, SecureVector<uint8_t> &Output, size_t Length)
 {
-	IStreamCipher* cpr = GetStreamCipher(State->Policy);
+	if (State->State.size() == 0)
+	{
+		// the key has been reset
+		return;
+	}
+
+	std::unique_ptr<IStreamCipher> cpr(GetStreamCipher(State->Policy));
 	const size_t CPTSZE = cpr->IsAuthenticator() ? State->State.size() - cpr->TagSize() : State->State.size();
 	SymmetricKeySize ksc = cpr->LegalKeySizes()[0];
 	SecureVector<uint8_t> seed(ksc.KeySize() + ksc.IVSize());
-- 
2.43.0


From eb9f1e305797fd60eb44d46c83420d340ee64e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:12 +0000
Subject: [PATCH 072/135] fix: SymmetricSecureKey: clone a key that has no salt

---
 CEX/SymmetricSecureKey.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/CEX/SymmetricSecureKey.cpp b/CEX/SymmetricSecureKey.cpp
index 9744f3d..8a5ad03 100644
--- a/CEX/SymmetricSecureKey.cpp
+++ b/CEX/SymmetricSecureKey.cpp
@@ -395,6 +395,12 @@ const SecureVector<uint8_t> SymmetricSecureKey::SecureIV()
 
 SymmetricSecureKey* SymmetricSecureKey::Clone()
 {
+	if (m_secureState->Salt.size() == 0)
+	{
+		// a key without a salt has the default policy
+		return new SymmetricSecureKey(Key(), IV(), Info());
+	}
+
 	return new SymmetricSecureKey(Key(), IV(), Info(), m_secureState->Policy, SecureUnlock(m_secureState->Salt));
 }
 
-- 
2.43.0


From 8561182727ba46a30d8c8267d2874a84a700080f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:27 +0000
Subject: [PATCH 073/135] fix: AsymmetricSecureKey: the tag is not a part of
 the key

---
 CEX/AsymmetricSecureKey.cpp | 28 ++++++++++++++++++++++++----
 CEX/AsymmetricSecureKey.h   |  1 +
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/CEX/AsymmetricSecureKey.cpp b/CEX/AsymmetricSecureKey.cpp
index ad76535..c38e2ce 100644
--- a/CEX/AsymmetricSecureKey.cpp
+++ b/CEX/AsymmetricSecureKey.cpp
@@ -132,12 +132,12 @@ const AsymmetricParameters AsymmetricSecureKey::Parameters()
 
 const std::vector<uint8_t> AsymmetricSecureKey::Polynomial()
 {
-	SecureVector<uint8_t> tmps(m_secureState->Polynomial.size());
+	SecureVector<uint8_t> tmps(PolynomialSize(m_secureState));
 
 	// if the state policy has been set to authenticated mode, this will throw on authentication failure
 	try
 	{
-		Extract(m_secureState, tmps, m_secureState->Polynomial.size());
+		Extract(m_secureState, tmps, tmps.size());
 	}
 	catch (CryptoAuthenticationFailure &ex)
 	{
@@ -149,7 +149,7 @@ const std::vector<uint8_t> AsymmetricSecureKey::Polynomial()
 
 const void AsymmetricSecureKey::SecurePolynomial(SecureVector<uint8_t> &Output)
 {
-	if (Output.size() < m_secureState->Polynomial.size())
+	if (Output.size() < PolynomialSize(m_secureState))
 	{
 		throw CryptoAsymmetricException(CLASS_NAME, std::string("SecurePolynomial"), std::string("The output vector is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -157,7 +157,7 @@ const void AsymmetricSecureKey::SecurePolynomial(SecureVector<uint8_t> &Output)
 	// if the state policy has been set to authenticated mode, this will throw on authentication failure
 	try
 	{
-		Extract(m_secureState, Output, m_secureState->Polynomial.size());
+		Extract(m_secureState, Output, PolynomialSize(m_secureState));
 	}
 	catch (CryptoAuthenticationFailure &ex)
 	{
@@ -306,6 +306,26 @@ IStreamCipher* AsymmetricSecureKey::GetStreamCipher(SecurityPolicy Policy)
 	return cpr;
 }
 
+size_t AsymmetricSecureKey::PolynomialSize(std::unique_ptr<AsymmetricSecureKeyState> &State)
+{
+	size_t plen;
+
+	plen = State->Polynomial.size();
+
+	if (plen != 0)
+	{
+		std::unique_ptr<IStreamCipher> cpr(GetStreamCipher(State->Policy));
+
+		if (cpr->IsAuthenticator())
+		{
+			// the authentication tag is stored behind the encrypted key
+			plen -= cpr->TagSize();
+		}
+	}
+
+	return plen;
+}
+
 void AsymmetricSecureKey::GetSystemKey(SecurityPolicy Policy, const SecureVector<uint8_t> &Salt, SecureVector<uint8_t> &Output)
 {
 	std::vector<uint8_t> cust(0);
diff --git a/CEX/AsymmetricSecureKey.h b/CEX/AsymmetricSecureKey.h
index 5fe8d57..4b90d39 100644
--- a/CEX/AsymmetricSecureKey.h
+++ b/CEX/AsymmetricSecureKey.h
@@ -146,6 +146,7 @@ public:
 	static void Encipher(std::unique_ptr<AsymmetricSecureKeyState> &State);
 	static void Extract(std::unique_ptr<AsymmetricSecureKeyState> &State, SecureVector<uint8_t> &Output, size_t Length);
 	static IStreamCipher* GetStreamCipher(SecurityPolicy Policy);
+	static size_t PolynomialSize(std::unique_ptr<AsymmetricSecureKeyState> &State);
 	static void GetSystemKey(SecurityPolicy Policy, const SecureVector<uint8_t> &Salt, SecureVector<uint8_t> &Output);
 };
 
-- 
2.43.0


From 0a59377488899607d9c88b8447d4d694562c5a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:27 +0000
Subject: [PATCH 074/135] fix: SymmetricKeyGenerator: release the provider

---
 CEX/SymmetricKeyGenerator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/SymmetricKeyGenerator.cpp b/CEX/SymmetricKeyGenerator.cpp
index 38c0f53..6d7d5f3 100644
--- a/CEX/SymmetricKeyGenerator.cpp
+++ b/CEX/SymmetricKeyGenerator.cpp
@@ -188,7 +188,7 @@ void SymmetricKeyGenerator::Generate(Providers Provider, SecurityPolicy Policy,
 	}
 
 	// instantiate the provider and create the seed
-	Provider::IProvider* pvd = Helper::ProviderFromName::GetInstance(Provider);
+	std::unique_ptr<Provider::IProvider> pvd(Helper::ProviderFromName::GetInstance(Provider));
 	SecureVector<uint8_t> tmpk(klen);
 	pvd->Generate(tmpk);
 
-- 
2.43.0


From d5878ab43cbf958614780d839208ce359fa4e653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:41 +0000
Subject: [PATCH 075/135] fix: SymmetricKeyGenerator: a key without nonce can
 have an info

---
 CEX/SymmetricKeyGenerator.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/CEX/SymmetricKeyGenerator.cpp b/CEX/SymmetricKeyGenerator.cpp
index 6d7d5f3..c72fbde 100644
--- a/CEX/SymmetricKeyGenerator.cpp
+++ b/CEX/SymmetricKeyGenerator.cpp
@@ -69,6 +69,16 @@ SymmetricKey* SymmetricKeyGenerator::GetSymmetricKey(SymmetricKeySize KeySize)
 			pkey = new SymmetricKey(tmpk, tmpn);
 		}
 	}
+	else if (KeySize.InfoSize() != 0)
+	{
+		SecureVector<uint8_t> tmpk(KeySize.KeySize());
+		SecureVector<uint8_t> tmpi(KeySize.InfoSize());
+
+		Generate(m_providerType, m_securityPolicy, tmpk, 0, tmpk.size());
+		Generate(m_providerType, m_securityPolicy, tmpi, 0, tmpi.size());
+
+		pkey = new SymmetricKey(tmpk, SecureVector<uint8_t>(0), tmpi);
+	}
 	else
 	{
 		SecureVector<uint8_t> tmpk(KeySize.KeySize());
@@ -115,6 +125,16 @@ SymmetricSecureKey* SymmetricKeyGenerator::GetSecureKey(SymmetricKeySize KeySize
 			pkey = new SymmetricSecureKey(tmpk, tmpn);
 		}
 	}
+	else if (KeySize.InfoSize() != 0)
+	{
+		SecureVector<uint8_t> tmpk(KeySize.KeySize());
+		SecureVector<uint8_t> tmpi(KeySize.InfoSize());
+
+		Generate(m_providerType, m_securityPolicy, tmpk, 0, tmpk.size());
+		Generate(m_providerType, m_securityPolicy, tmpi, 0, tmpi.size());
+
+		pkey = new SymmetricSecureKey(tmpk, SecureVector<uint8_t>(0), tmpi);
+	}
 	else
 	{
 		SecureVector<uint8_t> tmpk(KeySize.KeySize());
-- 
2.43.0


From 8e8d0714f9cbcf04e2767442faf14b37b54ced97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:32 +0000
Subject: [PATCH 076/135] fix: sealed keys: erase the plain key after sealing

---
 CEX/AsymmetricSecureKey.cpp | 8 +++++++-
 CEX/SymmetricSecureKey.cpp  | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/CEX/AsymmetricSecureKey.cpp b/CEX/AsymmetricSecureKey.cpp
index c38e2ce..a51df49 100644
--- a/CEX/AsymmetricSecureKey.cpp
+++ b/CEX/AsymmetricSecureKey.cpp
@@ -222,6 +222,10 @@ void AsymmetricSecureKey::Encipher(std::unique_ptr<AsymmetricSecureKeyState> &St
 	// transform the temp state
 	cpr->Initialize(true, kpc);
 	cpr->Transform(tmpt, 0, cpt, 0, tmpt.size());
+	// erase the plain-text and the system key
+	MemoryTools::Clear(tmpt, 0, tmpt.size());
+	MemoryTools::Clear(tmpk, 0, tmpk.size());
+	MemoryTools::Clear(tmpn, 0, tmpn.size());
 	// copy the encrypted cipher-text to secure state and erase buffer
 	State->Polynomial = SecureLockClear(cpt);
 }
@@ -256,8 +260,10 @@ void AsymmetricSecureKey::Extract(std::unique_ptr<AsymmetricSecureKeyState> &Sta
 	MemoryTools::Clear(cpt, 0, cpt.size());
 	// copy the decrypted key to output
 	MemoryTools::Copy(tmpt, 0, Output, 0, Length);
-	// erase the temp state
+	// erase the temp state and the system key
 	MemoryTools::Clear(tmpt, 0, tmpt.size());
+	MemoryTools::Clear(tmpk, 0, tmpk.size());
+	MemoryTools::Clear(tmpn, 0, tmpn.size());
 }
 
 IStreamCipher* AsymmetricSecureKey::GetStreamCipher(SecurityPolicy Policy)
diff --git a/CEX/SymmetricSecureKey.cpp b/CEX/SymmetricSecureKey.cpp
index 8a5ad03..a2b9864 100644
--- a/CEX/SymmetricSecureKey.cpp
+++ b/CEX/SymmetricSecureKey.cpp
@@ -520,6 +520,10 @@ void SymmetricSecureKey::Encipher(std::unique_ptr<SecureKeyState> &State)
 	// transform the temp state
 	cpr->Initialize(true, kpc);
 	cpr->Transform(tmpt, 0, cpt, 0, tmpt.size());
+	// erase the plain-text and the system key
+	MemoryTools::Clear(tmpt, 0, tmpt.size());
+	MemoryTools::Clear(tmpk, 0, tmpk.size());
+	MemoryTools::Clear(tmpn, 0, tmpn.size());
 	// copy the encrypted cipher-text to secure state and erase buffer
 	State->State = SecureLockClear(cpt);
 }
@@ -554,8 +558,10 @@ void SymmetricSecureKey::Extract(std::unique_ptr<SecureKeyState> &State, size_t
 	MemoryTools::Clear(cpt, 0, cpt.size());
 	// copy the decrypted key to output
 	MemoryTools::Copy(tmpt, StateOffset, Output, 0, Length);
-	// erase the temp state
+	// erase the temp state and the system key
 	MemoryTools::Clear(tmpt, 0, tmpt.size());
+	MemoryTools::Clear(tmpk, 0, tmpk.size());
+	MemoryTools::Clear(tmpn, 0, tmpn.size());
 }
 
 IStreamCipher* SymmetricSecureKey::GetStreamCipher(SecurityPolicy Policy)
-- 
2.43.0


From 1764731b5de584fa26edc0a7ef1ee5e62aab5f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:27 +0000
Subject: [PATCH 077/135] fix: process every byte of the tail in MemoryTools
 AND and OR

---
 CEX/MemoryTools.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/CEX/MemoryTools.h b/CEX/MemoryTools.h
index 34d0c40..13da360 100644
--- a/CEX/MemoryTools.h
+++ b/CEX/MemoryTools.h
@@ -170,7 +170,6 @@ public:
 
 		if (Length != 0)
 		{
-			const size_t ELMLEN = sizeof(ArrayA::value_type);
 			pctr = 0;
 
 #if defined(CEX_HAS_AVX) || defined(CEX_HAS_AVX2) || defined(CEX_HAS_AVX512)
@@ -199,9 +198,12 @@ public:
 				}
 			}
 #endif
-			for (i = 0; i < Length - (pctr * ELMLEN); ++i)
+			const uint8_t* pinp = reinterpret_cast<const uint8_t*>(Input.data()) + (InOffset * INPLEN);
+			uint8_t* potp = reinterpret_cast<uint8_t*>(Output.data()) + (OutOffset * OTPLEN);
+
+			for (i = pctr; i < Length; ++i)
 			{
-				Output[OutOffset + pctr] &= Input[InOffset + pctr];
+				potp[i] &= pinp[i];
 			}
 		}
 	}
@@ -1104,7 +1106,6 @@ public:
 	{
 		const size_t INPLEN = sizeof(ArrayA::value_type);
 		const size_t OTPLEN = sizeof(ArrayB::value_type);
-		const size_t ELMLEN = sizeof(ArrayA::value_type);
 		size_t i;
 		size_t pctr;
 
@@ -1143,9 +1144,12 @@ public:
 				}
 			}
 #endif
-			for (i = 0; i < Length - (pctr * ELMLEN); ++i)
+			const uint8_t* pinp = reinterpret_cast<const uint8_t*>(Input.data()) + (InOffset * INPLEN);
+			uint8_t* potp = reinterpret_cast<uint8_t*>(Output.data()) + (OutOffset * OTPLEN);
+
+			for (i = pctr; i < Length; ++i)
 			{
-				Output[OutOffset + pctr] |= Input[InOffset + pctr];
+				potp[i] |= pinp[i];
 			}
 		}
 	}
-- 
2.43.0


From 5448bd1fa3c3b4a09cc6426e3f864102b4ce0daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:27 +0000
Subject: [PATCH 078/135] fix: BlockToBe overwrites the output words

---
 CEX/IntegerTools.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CEX/IntegerTools.h b/CEX/IntegerTools.h
index d188df5..002dc2f 100644
--- a/CEX/IntegerTools.h
+++ b/CEX/IntegerTools.h
@@ -506,6 +506,8 @@ public:
 
 		for (i = 0; i < Length / VARLEN; ++i)
 		{
+			Output[OutOffset + i] = 0;
+
 			for (j = VARLEN; j > 0; --j)
 			{
 				Output[OutOffset + i] |= static_cast<typename ArrayB::value_type>(Input[InOffset + (i * VARLEN) + (VARLEN - j)]) << (8 * (j - 1));
@@ -1213,6 +1215,8 @@ public:
 
 		for (i = 0; i < Length / VARLEN; ++i)
 		{
+			Output[OutOffset + i] = 0;
+
 			for (j = 0; j < VARLEN; ++j)
 			{
 				Output[OutOffset + i] |= static_cast<ArrayB::value_type>(Input[InOffset + (i * VARLEN) + j]) << (8 * j);
-- 
2.43.0


From 5f979bf1eb6e6b0bc6ce79494949ed6d0fe23d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:27 +0000
Subject: [PATCH 079/135] fix: CMax and CMin compare the values

---
 CEX/IntegerTools.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/CEX/IntegerTools.h b/CEX/IntegerTools.h
index 002dc2f..b7c3874 100644
--- a/CEX/IntegerTools.h
+++ b/CEX/IntegerTools.h
@@ -2190,7 +2190,7 @@ public:
 	template<typename T>
 	inline static T CMax(T A, T B)
 	{
-		return Select<T>(ExpandTopBit<T>(A), A, B);
+		return Select<T>(IsLess<T>(B, A), A, B);
 	}
 
 	/// <summary>
@@ -2251,8 +2251,7 @@ public:
 	template<typename T>
 	inline static T CMin(T A, T B)
 	{
-		// TODO: test this..
-		return Select<T>(ExpandTopBit<T>(B), B, A);
+		return Select<T>(IsLess<T>(A, B), A, B);
 	}
 
 	/// <summary>
-- 
2.43.0


From 804990a491872bfd60f3a353112092b5d4c9478b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:27 +0000
Subject: [PATCH 080/135] fix: convert 64-bit and 8-bit integers from and to
 strings

---
 CEX/IntegerTools.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CEX/IntegerTools.h b/CEX/IntegerTools.h
index b7c3874..cd24d8a 100644
--- a/CEX/IntegerTools.h
+++ b/CEX/IntegerTools.h
@@ -213,7 +213,7 @@ public:
 		T num;
 
 		sval = Input.substr(Offset, Length);
-		num = static_cast<T>(strtol(sval.c_str(), NULL, 10));
+		num = static_cast<T>((std::is_signed<T>::value) ? static_cast<uint64_t>(strtoll(sval.c_str(), NULL, 10)) : strtoull(sval.c_str(), NULL, 10));
 
 		return num;
 	}
@@ -366,7 +366,7 @@ public:
 	{
 		std::stringstream ss;
 		ss << std::hex << std::uppercase;
-		ss << Value;
+		ss << +Value;
 
 		return ss.str();
 	}
@@ -389,7 +389,7 @@ public:
 		T num;
 
 		nhex = Input.substr(Offset, INTLEN);
-		num = static_cast<T>(strtol(nhex.c_str(), NULL, 16));
+		num = static_cast<T>(strtoull(nhex.c_str(), NULL, 16));
 
 		return num;
 	}
-- 
2.43.0


From 97953d75638f25c8c5a3cd34527ff4a2b835a3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:27 +0000
Subject: [PATCH 081/135] fix: ArrayTools Contains looks for the value

---
 CEX/ArrayTools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/ArrayTools.cpp b/CEX/ArrayTools.cpp
index 66c5d08..b54d950 100644
--- a/CEX/ArrayTools.cpp
+++ b/CEX/ArrayTools.cpp
@@ -15,7 +15,7 @@ bool ArrayTools::Contains(const char* Container, size_t Length, char Value)
 	{
 		x = Container + i;
 
-		if (*x != Value)
+		if (*x == Value)
 		{
 			ret = true;
 		}
-- 
2.43.0


From 1b2b15efa320d63bec078a71c08575efb9078ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:27 +0000
Subject: [PATCH 082/135] fix: ArrayTools RandomShuffle and AppendVector

---
 CEX/ArrayTools.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CEX/ArrayTools.h b/CEX/ArrayTools.h
index 983b326..63a5405 100644
--- a/CEX/ArrayTools.h
+++ b/CEX/ArrayTools.h
@@ -141,7 +141,7 @@ public:
 		Output.resize(INPLEN + OTPLEN);
 		MemoryTools::Copy(Input, 0, Output, OTPLEN, INPLEN);
 
-		return 0;
+		return INPLEN;
 	}
 
 	/// <summary>
@@ -178,11 +178,11 @@ public:
 	static void RandomShuffle(Array &Output)
 	{
 		Prng::SecureRandom rnd;
-		const size_t CEIL = Output.size() - 1;
 
-		for (size_t i = 0; i != CEIL; ++i)
+		for (size_t i = 0; i + 1 < Output.size(); ++i)
 		{
-			uint32_t pos = rnd.NextUInt32(0, CEIL);
+			// choose one of the elements that have not been placed yet
+			const size_t pos = rnd.NextUInt32(static_cast<uint32_t>(Output.size() - 1), static_cast<uint32_t>(i));
 
 			if (i != pos)
 			{
-- 
2.43.0


From 9f3e435c16736bd9d518a7bbc9e68e731950d988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:28 +0000
Subject: [PATCH 083/135] fix: DiffMask covers integers wider than a byte

---
 CEX/IntegerTools.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/CEX/IntegerTools.h b/CEX/IntegerTools.h
index cd24d8a..a7de16b 100644
--- a/CEX/IntegerTools.h
+++ b/CEX/IntegerTools.h
@@ -2339,9 +2339,8 @@ public:
 	template<typename T>
 	inline static int32_t DiffMask(const std::vector<T> &A, const std::vector<T> &B, size_t Length)
 	{
-		// 
 		size_t i;
-		uint16_t diff;
+		uint64_t diff;
 
 		diff = 0;
 
@@ -2350,7 +2349,7 @@ public:
 			diff |= A[i] ^ B[i];
 		}
 
-		return (1 & ((diff - 1) >> 8)) - 1;
+		return static_cast<int32_t>(ExpandMask<uint64_t>(diff));
 	}
 
 	/// <summary>
-- 
2.43.0


From 66a039808fa6fa6d99957bfae5d68e8c7fb3d08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:06 +0000
Subject: [PATCH 084/135] fix: SIMD integer increment and decrement operators
 change the integer

---
 CEX/UInt128.h  | 20 ++++++++++++++++----
 CEX/UInt256.h  | 20 ++++++++++++++++----
 CEX/ULong256.h | 10 ++++++++--
 3 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/CEX/UInt128.h b/CEX/UInt128.h
index ad304f4..7a31d6c 100644
--- a/CEX/UInt128.h
+++ b/CEX/UInt128.h
@@ -437,7 +437,9 @@ public:
 	/// </summary>
 	inline UInt128 operator ++ ()
 	{
-		return UInt128(xmm) + UInt128::ONE();
+		*this += UInt128::ONE();
+
+		return *this;
 	}
 
 	/// <summary>
@@ -445,7 +447,11 @@ public:
 	/// </summary>
 	inline UInt128 operator ++ (int32_t)
 	{
-		return UInt128(xmm) + UInt128::ONE();
+		const UInt128 TMPX(xmm);
+
+		*this += UInt128::ONE();
+
+		return TMPX;
 	}
 
 	/// <summary>
@@ -473,7 +479,9 @@ public:
 	/// </summary>
 	inline UInt128 operator -- ()
 	{
-		return UInt128(xmm) - UInt128::ONE();
+		*this -= UInt128::ONE();
+
+		return *this;
 	}
 
 	/// <summary>
@@ -481,7 +489,11 @@ public:
 	/// </summary>
 	inline UInt128 operator -- (int32_t)
 	{
-		return UInt128(xmm) - UInt128::ONE();
+		const UInt128 TMPX(xmm);
+
+		*this -= UInt128::ONE();
+
+		return TMPX;
 	}
 
 	/// <summary>
diff --git a/CEX/UInt256.h b/CEX/UInt256.h
index b09e7d8..b145902 100644
--- a/CEX/UInt256.h
+++ b/CEX/UInt256.h
@@ -446,7 +446,9 @@ public:
 	/// </summary>
 	inline UInt256 operator ++ ()
 	{
-		return UInt256(ymm) + UInt256::ONE();
+		*this += UInt256::ONE();
+
+		return *this;
 	}
 
 	/// <summary>
@@ -454,7 +456,11 @@ public:
 	/// </summary>
 	inline UInt256 operator ++ (int32_t)
 	{
-		return UInt256(ymm) + UInt256::ONE();
+		const UInt256 TMPX(ymm);
+
+		*this += UInt256::ONE();
+
+		return TMPX;
 	}
 
 	/// <summary>
@@ -482,7 +488,9 @@ public:
 	/// </summary>
 	inline UInt256 operator -- ()
 	{
-		return UInt256(ymm) - UInt256::ONE();
+		*this -= UInt256::ONE();
+
+		return *this;
 	}
 
 	/// <summary>
@@ -490,7 +498,11 @@ public:
 	/// </summary>
 	inline UInt256 operator -- (int32_t)
 	{
-		return UInt256(ymm) - UInt256::ONE();
+		const UInt256 TMPX(ymm);
+
+		*this -= UInt256::ONE();
+
+		return TMPX;
 	}
 
 	/// <summary>
diff --git a/CEX/ULong256.h b/CEX/ULong256.h
index 45818bf..581596a 100644
--- a/CEX/ULong256.h
+++ b/CEX/ULong256.h
@@ -355,7 +355,9 @@ public:
 	/// </summary>
 	inline ULong256 operator ++ ()
 	{
-		return ULong256(ymm) + ULong256::ONE();
+		*this += ULong256::ONE();
+
+		return *this;
 	}
 
 	/// <summary>
@@ -363,7 +365,11 @@ public:
 	/// </summary>
 	inline ULong256 operator ++ (int32_t)
 	{
-		return ULong256(ymm) + ULong256::ONE();
+		const ULong256 TMPX(ymm);
+
+		*this += ULong256::ONE();
+
+		return TMPX;
 	}
 
 	/// <summary>
-- 
2.43.0


From caeecc58db7224551976e444e3e2cb257167f507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:06 +0000
Subject: [PATCH 085/135] fix: compare the SIMD integers as unsigned

---
 CEX/UInt128.h  | 6 ++++--
 CEX/UInt256.h  | 6 ++++--
 CEX/ULong256.h | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/CEX/UInt128.h b/CEX/UInt128.h
index 7a31d6c..af46038 100644
--- a/CEX/UInt128.h
+++ b/CEX/UInt128.h
@@ -657,7 +657,9 @@ public:
 	/// <param name="X">The values to compare</param>
 	inline UInt128 operator > (UInt128 const &X) const
 	{
-		return UInt128(_mm_cmpgt_epi32(xmm, X.xmm));
+		const auto SIGN = _mm_set1_epi32(static_cast<int32_t>(0x80000000UL));
+
+		return UInt128(_mm_cmpgt_epi32(_mm_xor_si128(xmm, SIGN), _mm_xor_si128(X.xmm, SIGN)));
 	}
 
 	/// <summary>
@@ -667,7 +669,7 @@ public:
 	/// <param name="X">The values to compare</param>
 	inline UInt128 operator < (UInt128 const &X) const
 	{
-		return UInt128(_mm_cmplt_epi32(xmm, X.xmm));
+		return X > *this;
 	}
 
 	/// <summary>
diff --git a/CEX/UInt256.h b/CEX/UInt256.h
index b145902..21ae96d 100644
--- a/CEX/UInt256.h
+++ b/CEX/UInt256.h
@@ -720,7 +720,9 @@ public:
 	/// <param name="X">The values to compare</param>
 	inline UInt256 operator > (UInt256 const &X) const
 	{
-		return UInt256(_mm256_cmpgt_epi32(ymm, X.ymm));
+		const auto SIGN = _mm256_set1_epi32(static_cast<int32_t>(0x80000000UL));
+
+		return UInt256(_mm256_cmpgt_epi32(_mm256_xor_si256(ymm, SIGN), _mm256_xor_si256(X.ymm, SIGN)));
 	}
 
 	/// <summary>
@@ -730,7 +732,7 @@ public:
 	/// <param name="X">The values to compare</param>
 	inline UInt256 operator < (UInt256 const &X) const
 	{
-		return UInt256(_mm256_cmpgt_epi32(X.ymm, ymm));
+		return X > *this;
 	}
 
 	/// <summary>
diff --git a/CEX/ULong256.h b/CEX/ULong256.h
index 581596a..8305b00 100644
--- a/CEX/ULong256.h
+++ b/CEX/ULong256.h
@@ -612,7 +612,9 @@ public:
 	/// <param name="X">The values to compare</param>
 	inline ULong256 operator > (ULong256 const &X) const
 	{
-		return ULong256(_mm256_cmpgt_epi64(ymm, X.ymm));
+		const auto SIGN = _mm256_set1_epi64x(static_cast<int64_t>(0x8000000000000000ULL));
+
+		return ULong256(_mm256_cmpgt_epi64(_mm256_xor_si256(ymm, SIGN), _mm256_xor_si256(X.ymm, SIGN)));
 	}
 
 	/// <summary>
@@ -622,7 +624,7 @@ public:
 	/// <param name="X">The values to compare</param>
 	inline ULong256 operator < (ULong256 const &X) const
 	{
-		return ULong256(_mm256_cmpgt_epi64(X.ymm, ymm));
+		return X > *this;
 	}
 
 	/// <summary>
-- 
2.43.0


From ab6434571ea77596c1c1fb5cba59c420a9e3ff90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:06 +0000
Subject: [PATCH 086/135] fix: ULong256 multiplies 64-bit integers

---
 CEX/ULong256.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/CEX/ULong256.h b/CEX/ULong256.h
index 8305b00..661cc39 100644
--- a/CEX/ULong256.h
+++ b/CEX/ULong256.h
@@ -403,9 +403,7 @@ public:
 #if defined (__AVX512DQ__) && defined (__AVX512VL__)
 		ymm = _mm256_mullo_epi64(ymm, X.ymm);
 #else
-		__m256i tmp1 = _mm256_mul_epu32(ymm, X.ymm);
-		__m256i tmp2 = _mm256_mul_epu32(_mm256_srli_si256(ymm, 4), _mm256_srli_si256(X.ymm, 4));
-		ymm = _mm256_unpacklo_epi32(_mm256_shuffle_epi32(tmp1, _MM_SHUFFLE(0, 0, 2, 0)), _mm256_shuffle_epi32(tmp2, _MM_SHUFFLE(0, 0, 2, 0)));
+		ymm = (ULong256(ymm) * X).ymm;
 #endif
 	}
 
@@ -419,9 +417,12 @@ public:
 #if defined (__AVX512DQ__) && defined (__AVX512VL__)
 		return ULong256(_mm256_mullo_epi64(ymm, X.ymm));
 #else
-		__m256i tmp1 = _mm256_mul_epu32(ymm, X.ymm);
-		__m256i tmp2 = _mm256_mul_epu32(_mm256_srli_si256(ymm, 4), _mm256_srli_si256(X.ymm, 4));
-		return ULong256(_mm256_unpacklo_epi32(_mm256_shuffle_epi32(tmp1, _MM_SHUFFLE(0, 0, 2, 0)), _mm256_shuffle_epi32(tmp2, _MM_SHUFFLE(0, 0, 2, 0))));
+		// the low product, and the sum of the cross products in the high half
+		const __m256i LOWP = _mm256_mul_epu32(ymm, X.ymm);
+		const __m256i CRSA = _mm256_mul_epu32(_mm256_srli_epi64(ymm, 32), X.ymm);
+		const __m256i CRSB = _mm256_mul_epu32(ymm, _mm256_srli_epi64(X.ymm, 32));
+
+		return ULong256(_mm256_add_epi64(LOWP, _mm256_slli_epi64(_mm256_add_epi64(CRSA, CRSB), 32)));
 #endif
 	}
 
-- 
2.43.0


From 1e32da73bd41be361ce97903b6c5e780b84270d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:06 +0000
Subject: [PATCH 087/135] fix: ULong256 Swap reverses the bytes of 64-bit
 integers

---
 CEX/ULong256.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CEX/ULong256.h b/CEX/ULong256.h
index 661cc39..4bf5411 100644
--- a/CEX/ULong256.h
+++ b/CEX/ULong256.h
@@ -305,8 +305,8 @@ public:
 	{
 		__m256i tmpX = ymm;
 
-		tmpX = _mm256_shufflehi_epi16(tmpX, _MM_SHUFFLE(2, 3, 0, 1));
-		tmpX = _mm256_shufflelo_epi16(tmpX, _MM_SHUFFLE(2, 3, 0, 1));
+		tmpX = _mm256_shufflehi_epi16(tmpX, _MM_SHUFFLE(0, 1, 2, 3));
+		tmpX = _mm256_shufflelo_epi16(tmpX, _MM_SHUFFLE(0, 1, 2, 3));
 
 		return ULong256(_mm256_or_si256(_mm256_srli_epi16(tmpX, 8), _mm256_slli_epi16(tmpX, 8)));
 	}
@@ -322,8 +322,8 @@ public:
 	{
 		__m256i tmpX = X.ymm;
 
-		tmpX = _mm256_shufflehi_epi16(tmpX, _MM_SHUFFLE(2, 3, 0, 1));
-		tmpX = _mm256_shufflelo_epi16(tmpX, _MM_SHUFFLE(2, 3, 0, 1));
+		tmpX = _mm256_shufflehi_epi16(tmpX, _MM_SHUFFLE(0, 1, 2, 3));
+		tmpX = _mm256_shufflelo_epi16(tmpX, _MM_SHUFFLE(0, 1, 2, 3));
 
 		return ULong256(_mm256_or_si256(_mm256_srli_epi16(tmpX, 8), _mm256_slli_epi16(tmpX, 8)));
 	}
-- 
2.43.0


From b0da2aadc8365cc664a9fb3fcb53595a67bd3f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:06 +0000
Subject: [PATCH 088/135] fix: input offset of the fourth lane in the wide
 SHA2-256 permutations

---
 CEX/SHA2.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/SHA2.h b/CEX/SHA2.h
index 580b4e5..1c7f3c5 100644
--- a/CEX/SHA2.h
+++ b/CEX/SHA2.h
@@ -863,7 +863,7 @@ public:
 				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t))),
 				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 64),
 				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 128),
-				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 196),
+				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 192),
 				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 256),
 				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 320),
 				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 384),
@@ -953,7 +953,7 @@ public:
 				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t))),
 				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 64),
 				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 128),
-				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 196),
+				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 192),
 				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 256),
 				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 320),
 				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 384),
-- 
2.43.0


From 4c7320624ad95c5df8c73d2c4838cc3331f50f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:18 +0000
Subject: [PATCH 089/135] fix: shift count of the SIMD integer ShiftRA and
 ShiftRL

---
 CEX/UInt128.h | 4 ++--
 CEX/UInt256.h | 4 ++--
 CEX/UInt512.h | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/CEX/UInt128.h b/CEX/UInt128.h
index af46038..1f14789 100644
--- a/CEX/UInt128.h
+++ b/CEX/UInt128.h
@@ -323,7 +323,7 @@ public:
 	inline static UInt128 ShiftRA(const UInt128 &Value, const int32_t Shift)
 	{
 		CEXASSERT(Shift <= 32, "Shift size is too large");
-		return UInt128(_mm_sra_epi32(Value, _mm_set1_epi32(Shift)));
+		return UInt128(_mm_sra_epi32(Value, _mm_cvtsi32_si128(Shift)));
 	}
 
 	/// <summary>
@@ -337,7 +337,7 @@ public:
 	inline static UInt128 ShiftRL(const UInt128 &Value, const int32_t Shift)
 	{
 		CEXASSERT(Shift <= 32, "Shift size is too large");
-		return UInt128(_mm_srl_epi32(Value, _mm_set1_epi32(Shift)));
+		return UInt128(_mm_srl_epi32(Value, _mm_cvtsi32_si128(Shift)));
 	}
 
 	/// <summary>
diff --git a/CEX/UInt256.h b/CEX/UInt256.h
index 21ae96d..de4e212 100644
--- a/CEX/UInt256.h
+++ b/CEX/UInt256.h
@@ -342,7 +342,7 @@ public:
 	inline static UInt256 ShiftRA(const UInt256 &Value, const int32_t Shift)
 	{
 		CEXASSERT(Shift <= 32, "Shift size is too large");
-		return UInt256(_mm256_sra_epi32(Value, _mm_set1_epi32(Shift)));
+		return UInt256(_mm256_sra_epi32(Value, _mm_cvtsi32_si128(Shift)));
 	}
 
 	/// <summary>
@@ -356,7 +356,7 @@ public:
 	inline static UInt256 ShiftRL(const UInt256 &Value, const int32_t Shift)
 	{
 		CEXASSERT(Shift <= 32, "Shift size is too large");
-		return UInt256(_mm256_srl_epi32(Value, _mm_set1_epi32(Shift)));
+		return UInt256(_mm256_srl_epi32(Value, _mm_cvtsi32_si128(Shift)));
 	}
 
 	/// <summary>
diff --git a/CEX/UInt512.h b/CEX/UInt512.h
index d1b4434..f690267 100644
--- a/CEX/UInt512.h
+++ b/CEX/UInt512.h
@@ -353,7 +353,7 @@ public:
 	inline static UInt512 ShiftRA(const UInt512 &Value, const int32_t Shift)
 	{
 		CEXASSERT(Shift <= 32, "Shift size is too large");
-		return UInt512(_mm512_sra_epi32(Value, _mm_set1_epi32(Shift)));
+		return UInt512(_mm512_sra_epi32(Value, _mm_cvtsi32_si128(Shift)));
 	}
 
 	/// <summary>
@@ -367,7 +367,7 @@ public:
 	inline static UInt512 ShiftRL(const UInt512 &Value, const int32_t Shift)
 	{
 		CEXASSERT(Shift <= 32, "Shift size is too large");
-		return UInt512(_mm512_srl_epi32(Value, _mm_set1_epi32(Shift)));
+		return UInt512(_mm512_srl_epi32(Value, _mm_cvtsi32_si128(Shift)));
 	}
 
 	/// <summary>
-- 
2.43.0


From 5b9818117561572d39cc2f729fc8e61c6e8bd554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:18 +0000
Subject: [PATCH 090/135] fix: padding of the last block in Keccak MACP1600

---
 CEX/Keccak.h | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/CEX/Keccak.h b/CEX/Keccak.h
index 448903a..1a0b386 100644
--- a/CEX/Keccak.h
+++ b/CEX/Keccak.h
@@ -627,17 +627,33 @@ public:
 			Offset += Rate;
 		}
 
+		MemoryTools::Clear(pad, 0, pad.size());
+
 		if (Length != 0)
 		{
 			MemoryTools::Copy(Message, Offset, pad, 0, Length);
-			MemoryTools::Clear(pad, Length, pad.size() - Length);
 		}
 
-		// add the remaining message bytes to the state and finalize
-		blen = RightEncode(pad, Length, static_cast<uint64_t>(Output.size()) * sizeof(uint64_t));
+		// add the remaining message bytes to the state and finalize;
+		// the encoded length and the domain code can straddle two blocks
+		std::array<uint8_t, sizeof(uint64_t) + 2> enc = { 0 };
+		blen = RightEncode(enc, 0, static_cast<uint64_t>(Output.size()) * sizeof(uint64_t));
+		enc[blen] = KECCAK_KMAC_DOMAIN;
+
+		for (i = 0; i <= blen; ++i)
+		{
+			if (Length == Rate)
+			{
+				FastAbsorb(pad, 0, Rate, state);
+				Permute(state, Rounds);
+				MemoryTools::Clear(pad, 0, pad.size());
+				Length = 0;
+			}
+
+			pad[Length] = enc[i];
+			++Length;
+		}
 
-		Length += blen;
-		pad[Length] = KECCAK_KMAC_DOMAIN;
 		pad[Rate - 1] |= 128;
 		FastAbsorb(pad, 0, Rate, state);
 
-- 
2.43.0


From e90fcae828bec6989e72989521fa9b1fb182f5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:18 +0000
Subject: [PATCH 091/135] fix: clear the partial word in Keccak Incremental

---
 CEX/Keccak.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CEX/Keccak.h b/CEX/Keccak.h
index 1a0b386..44f51e3 100644
--- a/CEX/Keccak.h
+++ b/CEX/Keccak.h
@@ -309,6 +309,8 @@ public:
 
 		if (InLength > 0)
 		{
+			t.fill(0x00);
+
 			for (i = 0; i < InLength; ++i)
 			{
 				t[i] = Input[InOffset + i];
-- 
2.43.0


From cedc982360bbee703df16faf0c76f2660c0c7966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:18 +0000
Subject: [PATCH 092/135] fix: squeeze with the requested rounds in Keccak
 Finalize and XOFR48P1600

---
 CEX/Keccak.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CEX/Keccak.h b/CEX/Keccak.h
index 44f51e3..4d4e81e 100644
--- a/CEX/Keccak.h
+++ b/CEX/Keccak.h
@@ -516,7 +516,7 @@ public:
 
 		while (Length >= Rate)
 		{
-			Squeeze(State, pad, 0, 1, Rate);
+			Squeeze(State, pad, 0, 1, Rate, Rounds);
 			MemoryTools::Copy(pad, 0, Output, Offset, Rate);
 			Offset += Rate;
 			Length -= Rate;
@@ -524,7 +524,7 @@ public:
 
 		if (Length > 0)
 		{
-			Squeeze(State, pad, 0, 1, Rate);
+			Squeeze(State, pad, 0, 1, Rate, Rounds);
 			MemoryTools::Copy(pad, 0, Output, Offset, Length);
 		}
 	}
@@ -8607,7 +8607,7 @@ public:
 #endif
 
 		blkcnt = OutLength / Rate;
-		SqueezeR48(state, Output, OutOffset, blkcnt, Rate);
+		Squeeze(state, Output, OutOffset, blkcnt, Rate, PermutationRounds::RX48);
 		OutOffset += blkcnt * Rate;
 		OutLength -= blkcnt * Rate;
 
-- 
2.43.0


From 3aef52d10d487237e712c5be9914acb738b88c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:25 +0000
Subject: [PATCH 093/135] fix: MAC codes finalized into a secure vector that is
 too small are refused

---
 CEX/CMAC.cpp     | 5 +++++
 CEX/GMAC.cpp     | 5 +++++
 CEX/HMAC.cpp     | 5 +++++
 CEX/Poly1305.cpp | 5 +++++
 4 files changed, 20 insertions(+)

diff --git a/CEX/CMAC.cpp b/CEX/CMAC.cpp
index d90bb8b..99b8ecc 100644
--- a/CEX/CMAC.cpp
+++ b/CEX/CMAC.cpp
@@ -189,6 +189,11 @@ size_t CMAC::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 
 size_t CMAC::Finalize(SecureVector<uint8_t> &Output, size_t OutOffset)
 {
+	if (OutOffset > Output.size() || (Output.size() - OutOffset) < TagSize())
+	{
+		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	std::vector<uint8_t> tag(TagSize());
 
 	Finalize(tag, 0);
diff --git a/CEX/GMAC.cpp b/CEX/GMAC.cpp
index 5978115..48e9cbb 100644
--- a/CEX/GMAC.cpp
+++ b/CEX/GMAC.cpp
@@ -186,6 +186,11 @@ size_t GMAC::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 
 size_t GMAC::Finalize(SecureVector<uint8_t> &Output, size_t OutOffset)
 {
+	if (OutOffset > Output.size() || (Output.size() - OutOffset) < TagSize())
+	{
+		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	std::vector<uint8_t> tag(TagSize());
 
 	Finalize(tag, 0);
diff --git a/CEX/HMAC.cpp b/CEX/HMAC.cpp
index 9177624..a233976 100644
--- a/CEX/HMAC.cpp
+++ b/CEX/HMAC.cpp
@@ -189,6 +189,11 @@ size_t HMAC::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 
 size_t HMAC::Finalize(SecureVector<uint8_t> &Output, size_t OutOffset)
 {
+	if (OutOffset > Output.size() || (Output.size() - OutOffset) < TagSize())
+	{
+		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	std::vector<uint8_t> tag(TagSize());
 
 	Finalize(tag, 0);
diff --git a/CEX/Poly1305.cpp b/CEX/Poly1305.cpp
index 68977c2..cde7467 100644
--- a/CEX/Poly1305.cpp
+++ b/CEX/Poly1305.cpp
@@ -184,6 +184,11 @@ size_t Poly1305::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 
 size_t Poly1305::Finalize(SecureVector<uint8_t> &Output, size_t OutOffset)
 {
+	if (OutOffset > Output.size() || (Output.size() - OutOffset) < TagSize())
+	{
+		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	std::vector<uint8_t> tag(TagSize());
 
 	Finalize(tag, 0);
-- 
2.43.0


From c89ea20bc36abecdaefe908d1c103f1cad2ecff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:32 +0000
Subject: [PATCH 094/135] fix: KPA writes a code finalized into a secure vector
 at the given offset

---
 CEX/KPA.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/KPA.cpp b/CEX/KPA.cpp
index 79f86de..b704f8f 100644
--- a/CEX/KPA.cpp
+++ b/CEX/KPA.cpp
@@ -202,8 +202,8 @@ KPA::KPA(KpaModes KbaModeType)
 		size_t outlen;
 		size_t outoft;
 
-		outlen = Output.size();
-		outoft = 0;
+		outlen = Output.size() - OutOffset;
+		outoft = OutOffset;
 
 		// clear unused buffer
 		if (m_kbaState->Position != 0)
-- 
2.43.0


From b30637ce242744d29a431dda3d2425971d46058e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:11 +0000
Subject: [PATCH 095/135] fix: KMAC and KPA codes finalized into a vector that
 is too small are refused

---
 CEX/KMAC.cpp | 5 +++++
 CEX/KPA.cpp  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/CEX/KMAC.cpp b/CEX/KMAC.cpp
index b31a4f0..7a6ff08 100644
--- a/CEX/KMAC.cpp
+++ b/CEX/KMAC.cpp
@@ -131,6 +131,11 @@ void KMAC::Compute(const std::vector<uint8_t> &Input, std::vector<uint8_t> &Outp
 
 size_t KMAC::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 {
+	if (OutOffset > Output.size() || (Output.size() - OutOffset) < TagSize())
+	{
+		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	SecureVector<uint8_t> tmph(Output.size() - OutOffset);
 
 	Finalize(tmph, 0);
diff --git a/CEX/KPA.cpp b/CEX/KPA.cpp
index b704f8f..e1ad9ec 100644
--- a/CEX/KPA.cpp
+++ b/CEX/KPA.cpp
@@ -167,6 +167,11 @@ KPA::KPA(KpaModes KbaModeType)
 
 	size_t KPA::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 	{
+		if (OutOffset > Output.size() || (Output.size() - OutOffset) < TagSize())
+		{
+			throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too small!"), ErrorCodes::InvalidSize);
+		}
+
 		SecureVector<uint8_t> tmph(Output.size() - OutOffset);
 
 		Finalize(tmph, 0);
-- 
2.43.0


From b3dbcc49cbb587bafc7e436c2c41f0718419b77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:11 +0000
Subject: [PATCH 096/135] fix: KPA binds the length of the code, not of the
 whole output, into the code

---
 CEX/KPA.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/KPA.cpp b/CEX/KPA.cpp
index e1ad9ec..84b4982 100644
--- a/CEX/KPA.cpp
+++ b/CEX/KPA.cpp
@@ -239,7 +239,7 @@ KPA::KPA(KpaModes KbaModeType)
 		MemoryTools::Clear(m_kbaState->Buffer, 0, m_kbaState->Buffer.size());
 
 		// add total processed bytes and output length to padding string
-		bitlen = Keccak::RightEncode(prcb, 0, 8ULL * Output.size());
+		bitlen = Keccak::RightEncode(prcb, 0, 8ULL * outlen);
 		bitlen += Keccak::RightEncode(prcb, bitlen, 8ULL * m_kbaState->Processed);
 		// copy to buffer
 		MemoryTools::Copy(prcb, 0, m_kbaState->Buffer, 0, bitlen);
-- 
2.43.0


From 9dff942d4298d4b10791c23c06abf5666090df5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:11 +0000
Subject: [PATCH 097/135] fix: TSX ciphers refuse to return a tag when there is
 none

---
 CEX/TSX1024.cpp | 10 ++++++++++
 CEX/TSX256.cpp  | 10 ++++++++++
 CEX/TSX512.cpp  | 10 ++++++++++
 3 files changed, 30 insertions(+)

diff --git a/CEX/TSX1024.cpp b/CEX/TSX1024.cpp
index 43ad68c..07b33a7 100644
--- a/CEX/TSX1024.cpp
+++ b/CEX/TSX1024.cpp
@@ -173,11 +173,21 @@ ParallelOptions &TSX1024::ParallelProfile()
 
 const std::vector<uint8_t> TSX1024::Tag()
 {
+	if (m_tsx1024State->MacTag.size() == 0 || IsAuthenticator() == false)
+	{
+		throw CryptoSymmetricException(Name(), std::string("Tag"), std::string("The cipher is not configured for authentication or has not been initialized!"), ErrorCodes::NotInitialized);
+	}
+
 	return SecureUnlock(m_tsx1024State->MacTag);
 }
 
 const void TSX1024::Tag(SecureVector<uint8_t> &Output)
 {
+	if (m_tsx1024State->MacTag.size() == 0 || IsAuthenticator() == false)
+	{
+		throw CryptoSymmetricException(Name(), std::string("Tag"), std::string("The cipher is not configured for authentication or has not been initialized!"), ErrorCodes::NotInitialized);
+	}
+
 	SecureCopy(m_tsx1024State->MacTag, 0, Output, 0, m_tsx1024State->MacTag.size());
 }
 
diff --git a/CEX/TSX256.cpp b/CEX/TSX256.cpp
index b6b8171..b28a98d 100644
--- a/CEX/TSX256.cpp
+++ b/CEX/TSX256.cpp
@@ -174,11 +174,21 @@ ParallelOptions &TSX256::ParallelProfile()
 
 const std::vector<uint8_t> TSX256::Tag()
 {
+	if (m_tsx256State->MacTag.size() == 0 || IsAuthenticator() == false)
+	{
+		throw CryptoSymmetricException(Name(), std::string("Tag"), std::string("The cipher is not configured for authentication or has not been initialized!"), ErrorCodes::NotInitialized);
+	}
+
 	return SecureUnlock(m_tsx256State->MacTag);
 }
 
 const void TSX256::Tag(SecureVector<uint8_t> &Output)
 {
+	if (m_tsx256State->MacTag.size() == 0 || IsAuthenticator() == false)
+	{
+		throw CryptoSymmetricException(Name(), std::string("Tag"), std::string("The cipher is not configured for authentication or has not been initialized!"), ErrorCodes::NotInitialized);
+	}
+
 	SecureCopy(m_tsx256State->MacTag, 0, Output, 0, m_tsx256State->MacTag.size());
 }
 
diff --git a/CEX/TSX512.cpp b/CEX/TSX512.cpp
index 452afc6..83b446b 100644
--- a/CEX/TSX512.cpp
+++ b/CEX/TSX512.cpp
@@ -173,11 +173,21 @@ ParallelOptions &TSX512::ParallelProfile()
 
 const std::vector<uint8_t> TSX512::Tag()
 {
+	if (m_tsx512State->MacTag.size() == 0 || IsAuthenticator() == false)
+	{
+		throw CryptoSymmetricException(Name(), std::string("Tag"), std::string("The cipher is not configured for authentication or has not been initialized!"), ErrorCodes::NotInitialized);
+	}
+
 	return SecureUnlock(m_tsx512State->MacTag);
 }
 
 const void TSX512::Tag(SecureVector<uint8_t> &Output)
 {
+	if (m_tsx512State->MacTag.size() == 0 || IsAuthenticator() == false)
+	{
+		throw CryptoSymmetricException(Name(), std::string("Tag"), std::string("The cipher is not configured for authentication or has not been initialized!"), ErrorCodes::NotInitialized);
+	}
+
 	SecureCopy(m_tsx512State->MacTag, 0, Output, 0, m_tsx512State->MacTag.size());
 }
 
-- 
2.43.0


From 33e00c0322076cf16770b4bc07ff4478712bcd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:02 +0000
Subject: [PATCH 098/135] fix: OFB refuses to start without a nonce

---
 CEX/OFB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/OFB.cpp b/CEX/OFB.cpp
index 792bd38..2f72ea2 100644
--- a/CEX/OFB.cpp
+++ b/CEX/OFB.cpp
@@ -184,7 +184,7 @@ void OFB::EncryptBlock(const std::vector<uint8_t> &Input, size_t InOffset, std::
 
 void OFB::Initialize(bool Encryption, ISymmetricKey &Parameters)
 {
-	if (!SymmetricKeySize::Contains(LegalKeySizes(), Parameters.KeySizes().KeySize(), Parameters.KeySizes().IVSize()))
+	if (Parameters.KeySizes().IVSize() != BLOCK_SIZE || !SymmetricKeySize::Contains(LegalKeySizes(), Parameters.KeySizes().KeySize(), Parameters.KeySizes().IVSize()))
 	{
 		throw CryptoCipherModeException(Name(), std::string("Initialize"), std::string("Requires a legal key-size, and the nonce must equal in size to the block ciphers block-size!"), ErrorCodes::InvalidKey);
 	}
-- 
2.43.0


From 08461daa012f84ad242340cee6cd0820afd2c69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:23 +0000
Subject: [PATCH 099/135] fix: HBA leaves the authenticator alone when an
 output is too small

---
 CEX/HBA.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/CEX/HBA.cpp b/CEX/HBA.cpp
index fa71d92..c9e7863 100644
--- a/CEX/HBA.cpp
+++ b/CEX/HBA.cpp
@@ -392,9 +392,6 @@ void HBA::Transform(const std::vector<uint8_t> &Input, size_t InOffset, std::vec
 		throw CryptoCipherModeException(Name(), std::string("Transform"), std::string("The cipher mode has not been initialized!"), ErrorCodes::NotInitialized);
 	}
 
-	// add the starting position of the nonce to the mac
-	m_macAuthenticator->Update(m_cipherMode->Nonce(), 0, m_cipherMode->Nonce().size());
-
 	if (IsEncryption() == true)
 	{
 		if (OutOffset > Output.size() || Output.size() - OutOffset < Length + TagSize())
@@ -402,6 +399,8 @@ void HBA::Transform(const std::vector<uint8_t> &Input, size_t InOffset, std::vec
 			throw CryptoCipherModeException(Name(), std::string("Transform"), std::string("The output array is too small!"), ErrorCodes::InvalidSize);
 		}
 
+		// add the starting position of the nonce to the mac
+		m_macAuthenticator->Update(m_cipherMode->Nonce(), 0, m_cipherMode->Nonce().size());
 		// encrypt the plain-text
 		m_cipherMode->Transform(Input, InOffset, Output, OutOffset, Length);
 		// update the MAC with the cipher-text
@@ -419,6 +418,8 @@ void HBA::Transform(const std::vector<uint8_t> &Input, size_t InOffset, std::vec
 			throw CryptoCipherModeException(Name(), std::string("Transform"), std::string("The output array is too small!"), ErrorCodes::InvalidSize);
 		}
 
+		// add the starting position of the nonce to the mac
+		m_macAuthenticator->Update(m_cipherMode->Nonce(), 0, m_cipherMode->Nonce().size());
 		// update the MAC with the input cipher-text
 		m_macAuthenticator->Update(Input, InOffset, Length);
 		// update the mac counter
-- 
2.43.0


From d70fcb46c7dc262a7b34f963de761bd1f4bf4df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:23 +0000
Subject: [PATCH 100/135] fix: CSX512 refuses an info string that is too long

---
 CEX/CSX512.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CEX/CSX512.cpp b/CEX/CSX512.cpp
index 515c2e2..00a66cf 100644
--- a/CEX/CSX512.cpp
+++ b/CEX/CSX512.cpp
@@ -354,6 +354,10 @@ void CSX512::Initialize(bool Encryption, ISymmetricKey &Parameters)
 		throw CryptoSymmetricException(Name(), std::string("Initialize"), std::string("Invalid nonce size; an 16-uint8_t nonce is required with CSX512!"), ErrorCodes::InvalidNonce);
 	}
 
+	if (Parameters.KeySizes().InfoSize() > INFO_SIZE)
+	{
+		throw CryptoSymmetricException(Name(), std::string("Initialize"), std::string("Invalid info size; info can not be longer than 48 bytes!"), ErrorCodes::InvalidInfo);
+	}
 	if (m_parallelProfile.IsParallel())
 	{
 		if (m_parallelProfile.ParallelBlockSize() < m_parallelProfile.ParallelMinimumSize() || m_parallelProfile.ParallelBlockSize() > m_parallelProfile.ParallelMaximumSize())
-- 
2.43.0


From 3e4fc046839f2a416d1ea0141c5d856fbf39e06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:46 +0000
Subject: [PATCH 101/135] fix: KPA Finalize returns the size of the code

---
 CEX/KPA.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/KPA.cpp b/CEX/KPA.cpp
index 84b4982..5244569 100644
--- a/CEX/KPA.cpp
+++ b/CEX/KPA.cpp
@@ -273,7 +273,7 @@ KPA::KPA(KpaModes KbaModeType)
 		m_kbaState->Position = 0;
 		m_kbaState->Processed = 0;
 
-		return Output.size();
+		return Output.size() - OutOffset;
 	}
 
 	void KPA::Initialize(ISymmetricKey &Parameters)
-- 
2.43.0


From a5f93e4d1760904f5d577a969436a4f633e4ada7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:55 +0000
Subject: [PATCH 102/135] fix: the KYBERS1P1632 and SPXPS6S512SHAKE parameter
 sets have names

---
 CEX/AsymmetricParameters.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/CEX/AsymmetricParameters.cpp b/CEX/AsymmetricParameters.cpp
index 265801a..5bd3c22 100644
--- a/CEX/AsymmetricParameters.cpp
+++ b/CEX/AsymmetricParameters.cpp
@@ -29,6 +29,9 @@ std::string AsymmetricTransformConvert::ToName(AsymmetricParameters Enumeral)
 	case AsymmetricParameters::ECDSAS2P25519S:
 		name = std::string("ECDSAS2P25519S");
 		break;
+	case AsymmetricParameters::KYBERS1P1632:
+		name = std::string("KYBERS1P1632");
+		break;
 	case AsymmetricParameters::KYBERS3P2400:
 		name = std::string("KYBERS3P2400");
 		break;
@@ -59,6 +62,9 @@ std::string AsymmetricTransformConvert::ToName(AsymmetricParameters Enumeral)
 	case AsymmetricParameters::SPXPS5S256SHAKE:
 		name = std::string("SPXPS5S256SHAKE");
 		break;
+	case AsymmetricParameters::SPXPS6S512SHAKE:
+		name = std::string("SPXPS6S512SHAKE");
+		break;
 	case AsymmetricParameters::XMSSSHA2256H10:
 		name = std::string("XMSSSHA2256H10");
 		break;
@@ -231,6 +237,10 @@ AsymmetricParameters AsymmetricTransformConvert::FromName(std::string &Name)
 	{
 		tname = AsymmetricParameters::ECDSAS2P25519S;
 	}
+	else if (Name == std::string("KYBERS1P1632"))
+	{
+		tname = AsymmetricParameters::KYBERS1P1632;
+	}
 	else if (Name == std::string("KYBERS3P2400"))
 	{
 		tname = AsymmetricParameters::KYBERS3P2400;
@@ -271,6 +281,10 @@ AsymmetricParameters AsymmetricTransformConvert::FromName(std::string &Name)
 	{
 		tname = AsymmetricParameters::SPXPS5S256SHAKE;
 	}
+	else if (Name == std::string("SPXPS6S512SHAKE"))
+	{
+		tname = AsymmetricParameters::SPXPS6S512SHAKE;
+	}
 	else if (Name == std::string("XMSSSHA2256H10"))
 	{
 		tname = AsymmetricParameters::XMSSSHA2256H16;
-- 
2.43.0


From 0f440c3d67e0abed7c1511e0cc23dbc678c7bae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:55 +0000
Subject: [PATCH 103/135] fix: the name XMSSSHA2256H10 stands for that
 parameter set

---
 CEX/AsymmetricParameters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/AsymmetricParameters.cpp b/CEX/AsymmetricParameters.cpp
index 5bd3c22..a28bd9f 100644
--- a/CEX/AsymmetricParameters.cpp
+++ b/CEX/AsymmetricParameters.cpp
@@ -287,7 +287,7 @@ AsymmetricParameters AsymmetricTransformConvert::FromName(std::string &Name)
 	}
 	else if (Name == std::string("XMSSSHA2256H10"))
 	{
-		tname = AsymmetricParameters::XMSSSHA2256H16;
+		tname = AsymmetricParameters::XMSSSHA2256H10;
 	}
 	else if (Name == std::string("XMSSSHA2256H16"))
 	{
-- 
2.43.0


From eb2e94b068c30783995e0de9fbd24d34279c9116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:55 +0000
Subject: [PATCH 104/135] fix: AES is found by its name

---
 CEX/SymmetricCiphers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/SymmetricCiphers.cpp b/CEX/SymmetricCiphers.cpp
index 1fa4996..3abc3ef 100644
--- a/CEX/SymmetricCiphers.cpp
+++ b/CEX/SymmetricCiphers.cpp
@@ -104,7 +104,7 @@ SymmetricCiphers SymmetricCipherConvert::FromName(std::string &Name)
 {
 	SymmetricCiphers tname;
 
-	if (Name == std::string("Rijndael"))
+	if (Name == std::string("AES") || Name == std::string("Rijndael"))
 	{
 		tname = SymmetricCiphers::AES;
 	}
-- 
2.43.0


From 2dc8b0a6f91d7cbd68fd8cf8253ce16778276941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:55 +0000
Subject: [PATCH 105/135] fix: the SHAKE and HKDS key derivation functions have
 names

---
 CEX/Kdfs.cpp | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/CEX/Kdfs.cpp b/CEX/Kdfs.cpp
index 4f8b3c7..f670ea2 100644
--- a/CEX/Kdfs.cpp
+++ b/CEX/Kdfs.cpp
@@ -38,6 +38,24 @@ std::string KdfConvert::ToName(Kdfs Enumeral)
 		case Kdfs::SCBKDF1024:
 			name = std::string("SCBKDF1024");
 			break;
+		case Kdfs::SHAKE128:
+			name = std::string("SHAKE128");
+			break;
+		case Kdfs::SHAKE256:
+			name = std::string("SHAKE256");
+			break;
+		case Kdfs::SHAKE512:
+			name = std::string("SHAKE512");
+			break;
+		case Kdfs::HKDS128:
+			name = std::string("HKDS128");
+			break;
+		case Kdfs::HKDS256:
+			name = std::string("HKDS256");
+			break;
+		case Kdfs::HKDS512:
+			name = std::string("HKDS512");
+			break;
 		default:
 			name = std::string("None");
 			break;
@@ -90,6 +108,30 @@ Kdfs KdfConvert::FromName(std::string &Name)
 	{
 		tname = Kdfs::SCBKDF1024;
 	}
+	else if (Name == std::string("SHAKE128"))
+	{
+		tname = Kdfs::SHAKE128;
+	}
+	else if (Name == std::string("SHAKE256"))
+	{
+		tname = Kdfs::SHAKE256;
+	}
+	else if (Name == std::string("SHAKE512"))
+	{
+		tname = Kdfs::SHAKE512;
+	}
+	else if (Name == std::string("HKDS128"))
+	{
+		tname = Kdfs::HKDS128;
+	}
+	else if (Name == std::string("HKDS256"))
+	{
+		tname = Kdfs::HKDS256;
+	}
+	else if (Name == std::string("HKDS512"))
+	{
+		tname = Kdfs::HKDS512;
+	}
 	else
 	{
 		tname = Kdfs::None;
-- 
2.43.0


From 16f8eb3ebf5ed12d772296885ac32e9bcf02a8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:55 +0000
Subject: [PATCH 106/135] fix: CryptoKmsException has a name

---
 CEX/ExceptionTypes.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/CEX/ExceptionTypes.cpp b/CEX/ExceptionTypes.cpp
index 086dca2..c925318 100644
--- a/CEX/ExceptionTypes.cpp
+++ b/CEX/ExceptionTypes.cpp
@@ -29,6 +29,9 @@ std::string ExceptionTypeConvert::ToName(ExceptionTypes Enumeral)
 	case ExceptionTypes::CryptoKdfException:
 		name = std::string("CryptoKdfException");
 		break;
+	case ExceptionTypes::CryptoKmsException:
+		name = std::string("CryptoKmsException");
+		break;
 	case ExceptionTypes::CryptoMacException:
 		name = std::string("CryptoMacException");
 		break;
@@ -84,6 +87,10 @@ ExceptionTypes ExceptionTypeConvert::FromName(std::string &Name)
 	{
 		tname = ExceptionTypes::CryptoKdfException;
 	}
+	else if (Name == std::string("CryptoKmsException"))
+	{
+		tname = ExceptionTypes::CryptoKmsException;
+	}
 	else if (Name == std::string("CryptoMacException"))
 	{
 		tname = ExceptionTypes::CryptoMacException;
-- 
2.43.0


From 05ea4d0c06bf601fcec046a3b28a969d82b5448a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:45 +0000
Subject: [PATCH 107/135] fix: ZeroOne reports its enumeration

---
 CEX/ZeroOne.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/ZeroOne.cpp b/CEX/ZeroOne.cpp
index 87b0335..d88e92d 100644
--- a/CEX/ZeroOne.cpp
+++ b/CEX/ZeroOne.cpp
@@ -17,7 +17,7 @@ ZeroOne::~ZeroOne()
 
 const PaddingModes ZeroOne::Enumeral() 
 { 
-	return PaddingModes::None; 
+	return PaddingModes::ZeroOne; 
 }
 
 const std::string ZeroOne::Name() 
-- 
2.43.0


From 3c28f95025899892ea6048768bb0cff3e9a61fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:45 +0000
Subject: [PATCH 108/135] fix: DrbgFromName refuses digests the generator does
 not support

---
 CEX/DrbgFromName.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/CEX/DrbgFromName.cpp b/CEX/DrbgFromName.cpp
index 123321a..989e9c5 100644
--- a/CEX/DrbgFromName.cpp
+++ b/CEX/DrbgFromName.cpp
@@ -83,11 +83,21 @@ IDrbg* DrbgFromName::GetInstance(Drbgs DrbgType, Digests DigestType, Providers P
 			}
 			case Drbgs::CSG:
 			{
+				if (DigestType != Digests::SHAKE128 && DigestType != Digests::SHAKE256 && DigestType != Digests::SHAKE512)
+				{
+					throw CryptoException(CLASS_NAME, std::string("GetInstance"), std::string("The digest type is not supported by the drbg!"), ErrorCodes::InvalidParam);
+				}
+
 				dptr = new CSG(static_cast<Enumeration::ShakeModes>(DigestType), ProviderType);
 				break;
 			}
 			case Drbgs::HCG:
 			{
+				if (DigestType != Digests::SHA2256 && DigestType != Digests::SHA2512)
+				{
+					throw CryptoException(CLASS_NAME, std::string("GetInstance"), std::string("The digest type is not supported by the drbg!"), ErrorCodes::InvalidParam);
+				}
+
 				dptr = new HCG(static_cast<Enumeration::SHA2Digests>(DigestType), ProviderType);
 				break;
 			}
-- 
2.43.0


From 81f6baa9f4215fc102cb87f839080c31ad7485a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:45 +0000
Subject: [PATCH 109/135] fix: ECDSA and XMSSMT signers are created by name

---
 CEX/AsymmetricSignerFromName.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/CEX/AsymmetricSignerFromName.cpp b/CEX/AsymmetricSignerFromName.cpp
index 4d36bdf..047d590 100644
--- a/CEX/AsymmetricSignerFromName.cpp
+++ b/CEX/AsymmetricSignerFromName.cpp
@@ -1,5 +1,6 @@
 #include "AsymmetricSignerFromName.h"
 #include "Dilithium.h"
+#include "ECDSA.h"
 #include "SphincsPlus.h"
 #include "XMSS.h"
 
@@ -25,12 +26,18 @@ IAsymmetricSigner* AsymmetricSignerFromName::GetInstance(AsymmetricSigners Signe
 				mptr = new DLTM::Dilithium(static_cast<Enumeration::DilithiumParameters>(Parameters)); 
 				break;
 			}
+			case AsymmetricSigners::ECDSA:
+			{
+				mptr = new ECDSA::ECDSA(static_cast<Enumeration::ECDSAParameters>(Parameters));
+				break;
+			}
 			case AsymmetricSigners::SphincsPlus:
 			{
 				mptr = new SPXP::SphincsPlus(static_cast<Enumeration::SphincsPlusParameters>(Parameters)); 
 				break;
 			}
 			case AsymmetricSigners::XMSS:
+			case AsymmetricSigners::XMSSMT:
 			{
 				mptr = new XMSS::XMSS(static_cast<Enumeration::XmssParameters>(Parameters)); 
 				break;
-- 
2.43.0


From 7e9df207c7a39e195a79fb0b93e0849f81692d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:36 +0000
Subject: [PATCH 110/135] fix: SphincsPlus refuses parameter sets of other
 schemes

---
 CEX/SphincsPlus.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/CEX/SphincsPlus.cpp b/CEX/SphincsPlus.cpp
index 3aaee57..b82c4b8 100644
--- a/CEX/SphincsPlus.cpp
+++ b/CEX/SphincsPlus.cpp
@@ -38,7 +38,11 @@ public:
 
 SphincsPlus::SphincsPlus(SphincsPlusParameters Parameters, Prngs PrngType)
 	:
-	m_sphincsState(new SphincsState(Parameters != SphincsPlusParameters::None ? Parameters :
+	m_sphincsState(new SphincsState(Parameters == SphincsPlusParameters::SPXPS1S128SHAKE || 
+		Parameters == SphincsPlusParameters::SPXPS3S192SHAKE || 
+		Parameters == SphincsPlusParameters::SPXPS5S256SHAKE || 
+		Parameters == SphincsPlusParameters::SPXPS6S512SHAKE ?
+		Parameters :
 		throw CryptoAsymmetricException(AsymmetricPrimitiveConvert::ToName(AsymmetricPrimitives::SphincsPlus), std::string("Constructor"), std::string("The Kyber parameter set is invalid!"), ErrorCodes::InvalidParam),
 		true)),
 	m_privateKey(nullptr),
@@ -50,7 +54,11 @@ SphincsPlus::SphincsPlus(SphincsPlusParameters Parameters, Prngs PrngType)
 
 SphincsPlus::SphincsPlus(SphincsPlusParameters Parameters, IPrng* Rng)
 	:
-	m_sphincsState(new SphincsState(Parameters != SphincsPlusParameters::None ? Parameters :
+	m_sphincsState(new SphincsState(Parameters == SphincsPlusParameters::SPXPS1S128SHAKE || 
+		Parameters == SphincsPlusParameters::SPXPS3S192SHAKE || 
+		Parameters == SphincsPlusParameters::SPXPS5S256SHAKE || 
+		Parameters == SphincsPlusParameters::SPXPS6S512SHAKE ?
+		Parameters :
 		throw CryptoAsymmetricException(AsymmetricPrimitiveConvert::ToName(AsymmetricPrimitives::SphincsPlus), std::string("Constructor"), std::string("The Kyber parameter set is invalid!"), ErrorCodes::InvalidParam),
 		false)),
 	m_privateKey(nullptr),
-- 
2.43.0


From e4788a4cf353c23558c00b3a87ebab6dd44539ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:25 +0000
Subject: [PATCH 111/135] fix: CSP no longer writes an unused global from its
 destructor

---
 CEX/CSP.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/CEX/CSP.cpp b/CEX/CSP.cpp
index ee65a5e..9010067 100644
--- a/CEX/CSP.cpp
+++ b/CEX/CSP.cpp
@@ -24,7 +24,6 @@ using Tools::MemoryTools;
 
 #if defined(CEX_OS_WINDOWS)
 #	pragma comment(lib, "crypt32.lib")
-	HCRYPTPROV m_hProvider = 0;
 #elif defined (CEX_OS_POSIX)
 #	if !defined(O_NOCTTY)
 #		define O_NOCTTY 0
@@ -53,10 +52,6 @@ CSP::~CSP()
 	{
 		m_pvdSelfTest.reset(nullptr);
 	}
-
-#if defined(CEX_OS_WINDOWS)
-	m_hProvider = 0;
-#endif
 }
 
 //~~~Public Functions~~~//
-- 
2.43.0


From 1254bc5a69e3324c87bae77fb325c8dfc9e273ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:46 +0000
Subject: [PATCH 112/135] fix: parameter sets restored from bytes check the
 size they need

---
 CEX/BlakeParams.cpp  |  6 ++++++
 CEX/KeccakParams.cpp | 12 +++++++++++-
 CEX/SHA2Params.cpp   |  9 ++++++++-
 CEX/SkeinParams.cpp  | 11 +++++++++--
 4 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/CEX/BlakeParams.cpp b/CEX/BlakeParams.cpp
index 67ab6d7..9e0deb5 100644
--- a/CEX/BlakeParams.cpp
+++ b/CEX/BlakeParams.cpp
@@ -72,6 +72,12 @@ BlakeParams::BlakeParams(const std::vector<uint8_t> &TreeArray)
 	std::memcpy(&m_nodeDepth, &TreeArray[9], 1);
 	std::memcpy(&m_innerLen, &TreeArray[10], 1);
 	std::memcpy(&m_reserved, &TreeArray[11], 1);
+
+	if (TreeArray.size() < GetHeaderSize())
+	{
+		throw CryptoDigestException(CLASS_NAME, std::string("Constructor"), std::string("The TreeArray buffer size is invalid!"), ErrorCodes::IllegalOperation);
+	}
+
 	m_dstCode.resize(DistributionCodeMax());
 	std::memcpy(&m_dstCode[0], &TreeArray[12], m_dstCode.size());
 }
diff --git a/CEX/KeccakParams.cpp b/CEX/KeccakParams.cpp
index 69d305e..52d40bf 100644
--- a/CEX/KeccakParams.cpp
+++ b/CEX/KeccakParams.cpp
@@ -55,7 +55,10 @@ KeccakParams::KeccakParams(const std::vector<uint8_t> &TreeArray)
 	m_reserved(0),
 	m_dstCode(0)
 {
-	CEXASSERT(TreeArray.size() >= GetHeaderSize(), "The TreeArray buffer is too int16_t!");
+	if (TreeArray.size() < HDR_SIZE)
+	{
+		throw CryptoDigestException(CLASS_NAME, std::string("Constructor"), std::string("The TreeArray buffer is too short!"), ErrorCodes::IllegalOperation);
+	}
 
 	m_nodeOffset = IntegerTools::LeBytesTo32(TreeArray, 0);
 	m_treeVersion = IntegerTools::LeBytesTo16(TreeArray, 4);
@@ -64,6 +67,13 @@ KeccakParams::KeccakParams(const std::vector<uint8_t> &TreeArray)
 	std::memcpy(&m_treeDepth, &TreeArray[18], 1);
 	std::memcpy(&m_treeFanout, &TreeArray[19], 1);
 	m_reserved = IntegerTools::LeBytesTo32(TreeArray, 20);
+
+	// the size of the distribution code follows from the output size
+	if (TreeArray.size() < GetHeaderSize())
+	{
+		throw CryptoDigestException(CLASS_NAME, std::string("Constructor"), std::string("The TreeArray buffer is too short!"), ErrorCodes::IllegalOperation);
+	}
+
 	m_dstCode.resize(DistributionCodeMax());
 	std::memcpy(&m_dstCode[0], &TreeArray[24], m_dstCode.size());
 }
diff --git a/CEX/SHA2Params.cpp b/CEX/SHA2Params.cpp
index 6d0649d..e4be538 100644
--- a/CEX/SHA2Params.cpp
+++ b/CEX/SHA2Params.cpp
@@ -56,7 +56,7 @@ SHA2Params::SHA2Params(const std::vector<uint8_t> &TreeArray)
 	m_reserved(0),
 	m_dstCode(0)
 {
-	if (TreeArray.size() < GetHeaderSize())
+	if (TreeArray.size() < HDR_SIZE)
 	{
 		throw CryptoDigestException(CLASS_NAME, std::string("Constructor"), std::string("The TreeArray buffer is too int16_t!"), ErrorCodes::IllegalOperation);
 	}
@@ -68,6 +68,13 @@ SHA2Params::SHA2Params(const std::vector<uint8_t> &TreeArray)
 	std::memcpy(&m_treeDepth, &TreeArray[18], 1);
 	std::memcpy(&m_treeFanout, &TreeArray[19], 1);
 	m_reserved = IntegerTools::LeBytesTo32(TreeArray, 20);
+
+	// the size of the distribution code follows from the output size
+	if (TreeArray.size() < GetHeaderSize())
+	{
+		throw CryptoDigestException(CLASS_NAME, std::string("Constructor"), std::string("The TreeArray buffer is too short!"), ErrorCodes::IllegalOperation);
+	}
+
 	m_dstCode.resize(DistributionCodeMax());
 	std::memcpy(&m_dstCode[0], &TreeArray[24], m_dstCode.size());
 }
diff --git a/CEX/SkeinParams.cpp b/CEX/SkeinParams.cpp
index 5b6aeb9..91906ac 100644
--- a/CEX/SkeinParams.cpp
+++ b/CEX/SkeinParams.cpp
@@ -65,7 +65,7 @@ SkeinParams::SkeinParams(const std::vector<uint8_t> &TreeArray)
 	m_reserved3(0),
 	m_dstCode(0)
 {
-	if (TreeArray.size() < GetHeaderSize())
+	if (TreeArray.size() < HDR_SIZE)
 	{
 		throw CryptoDigestException(CLASS_NAME, std::string("Constructor"), std::string("The TreeArray buffer size is invalid!"), ErrorCodes::IllegalOperation);
 	}
@@ -79,6 +79,13 @@ SkeinParams::SkeinParams(const std::vector<uint8_t> &TreeArray)
 	std::memcpy(&m_treeFanout, &TreeArray[18], 1);
 	std::memcpy(&m_reserved2, &TreeArray[19], 1);
 	m_reserved3 = IntegerTools::LeBytesTo32(TreeArray, 20);
+
+	// the size of the distribution code follows from the output size
+	if (TreeArray.size() < GetHeaderSize())
+	{
+		throw CryptoDigestException(CLASS_NAME, std::string("Constructor"), std::string("The TreeArray buffer size is invalid!"), ErrorCodes::IllegalOperation);
+	}
+
 	m_dstCode.resize(DistributionCodeMax());
 	std::memcpy(&m_dstCode[0], &TreeArray[24], m_dstCode.size());
 }
@@ -143,7 +150,7 @@ std::vector<uint8_t> &SkeinParams::DistributionCode()
 
 const size_t SkeinParams::DistributionCodeMax()
 {
-	return (m_outputSize - HDR_SIZE);
+	return m_outputSize > HDR_SIZE ? static_cast<size_t>(m_outputSize) - HDR_SIZE : 0;
 }
 
 std::vector<uint8_t> &SkeinParams::Schema() 
-- 
2.43.0


From 9294b4ee595911b5107f3ecc7132a1180a1f2a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:46 +0000
Subject: [PATCH 113/135] fix: parameter sets write no more than their
 serialised size

---
 CEX/BlakeParams.cpp  | 4 ++--
 CEX/KeccakParams.cpp | 2 +-
 CEX/SHA2Params.cpp   | 2 +-
 CEX/SkeinParams.cpp  | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/CEX/BlakeParams.cpp b/CEX/BlakeParams.cpp
index 9e0deb5..8612dc4 100644
--- a/CEX/BlakeParams.cpp
+++ b/CEX/BlakeParams.cpp
@@ -196,7 +196,7 @@ int32_t BlakeParams::GetHashCode()
 
 size_t BlakeParams::GetHeaderSize()
 {
-	return m_outputSize;
+	return m_outputSize == 32 ? 32 : 64;
 }
 
 void BlakeParams::Reset()
@@ -226,7 +226,7 @@ std::vector<uint8_t> BlakeParams::ToBytes()
 	std::memcpy(&trs[9], &m_nodeDepth, 1);
 	std::memcpy(&trs[10], &m_innerLen, 1);
 	std::memcpy(&trs[11], &m_reserved, 1);
-	std::memcpy(&trs[12], &m_dstCode[0], m_dstCode.size());
+	std::memcpy(trs.data() + 12, m_dstCode.data(), (std::min)(m_dstCode.size(), DistributionCodeMax()));
 
 	return trs;
 }
diff --git a/CEX/KeccakParams.cpp b/CEX/KeccakParams.cpp
index 52d40bf..ad5df19 100644
--- a/CEX/KeccakParams.cpp
+++ b/CEX/KeccakParams.cpp
@@ -217,7 +217,7 @@ std::vector<uint8_t> KeccakParams::ToBytes()
 	std::memcpy(&config[18], &m_treeDepth, 1);
 	std::memcpy(&config[19], &m_treeFanout, 1);
 	IntegerTools::Le32ToBytes(m_reserved, config, 20);
-	std::memcpy(&config[24], &m_dstCode[0], m_dstCode.size());
+	std::memcpy(config.data() + 24, m_dstCode.data(), (std::min)(m_dstCode.size(), DistributionCodeMax()));
 
 	return config;
 }
diff --git a/CEX/SHA2Params.cpp b/CEX/SHA2Params.cpp
index e4be538..a831050 100644
--- a/CEX/SHA2Params.cpp
+++ b/CEX/SHA2Params.cpp
@@ -223,7 +223,7 @@ std::vector<uint8_t> SHA2Params::ToBytes()
 	std::memcpy(&config[18], &m_treeDepth, 1);
 	std::memcpy(&config[19], &m_treeFanout, 1);
 	IntegerTools::Le32ToBytes(m_reserved, config, 20);
-	std::memcpy(&config[24], &m_dstCode[0], m_dstCode.size());
+	std::memcpy(config.data() + 24, m_dstCode.data(), (std::min)(m_dstCode.size(), DistributionCodeMax()));
 
 	return config;
 }
diff --git a/CEX/SkeinParams.cpp b/CEX/SkeinParams.cpp
index 91906ac..a147fdd 100644
--- a/CEX/SkeinParams.cpp
+++ b/CEX/SkeinParams.cpp
@@ -253,7 +253,7 @@ std::vector<uint8_t> SkeinParams::ToBytes()
 {
 	std::vector<uint8_t> trs(GetHeaderSize(), 0);
 
-	std::memcpy(&trs[0], &m_treeSchema[0], 4);
+	std::memcpy(trs.data(), m_treeSchema.data(), (std::min)(m_treeSchema.size(), static_cast<size_t>(4)));
 	IntegerTools::Le16ToBytes(m_treeVersion, trs, 4);
 	IntegerTools::Le16ToBytes(m_reserved1, trs, 6);
 	IntegerTools::Le64ToBytes(m_outputSize, trs, 8);
@@ -262,7 +262,7 @@ std::vector<uint8_t> SkeinParams::ToBytes()
 	std::memcpy(&trs[18], &m_treeFanout, 1);
 	std::memcpy(&trs[19], &m_reserved2, 1);
 	IntegerTools::Le32ToBytes(m_reserved3, trs, 20);
-	std::memcpy(&trs[24], &m_dstCode[0], m_dstCode.size());
+	std::memcpy(trs.data() + 24, m_dstCode.data(), (std::min)(m_dstCode.size(), DistributionCodeMax()));
 
 	return trs;
 }
-- 
2.43.0


From 1cde696d959cbad6de3dc4e5f32de9fcfbdd5708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:46 +0000
Subject: [PATCH 114/135] fix: parameter sets are equal only when every value
 is

---
 CEX/BlakeParams.cpp  | 2 +-
 CEX/KeccakParams.cpp | 9 +--------
 CEX/SHA2Params.cpp   | 9 +--------
 CEX/SkeinParams.cpp  | 2 +-
 4 files changed, 4 insertions(+), 18 deletions(-)

diff --git a/CEX/BlakeParams.cpp b/CEX/BlakeParams.cpp
index 8612dc4..70e146c 100644
--- a/CEX/BlakeParams.cpp
+++ b/CEX/BlakeParams.cpp
@@ -170,7 +170,7 @@ BlakeParams* BlakeParams::DeepCopy()
 
 bool BlakeParams::Equals(BlakeParams &Input)
 {
-	return (GetHashCode() == Input.GetHashCode());
+	return ToBytes() == Input.ToBytes();
 }
 
 int32_t BlakeParams::GetHashCode()
diff --git a/CEX/KeccakParams.cpp b/CEX/KeccakParams.cpp
index ad5df19..2d88020 100644
--- a/CEX/KeccakParams.cpp
+++ b/CEX/KeccakParams.cpp
@@ -161,14 +161,7 @@ KeccakParams* KeccakParams::DeepCopy()
 
 bool KeccakParams::Equals(KeccakParams &Input)
 {
-	bool res(true);
-
-	if (this->GetHashCode() != Input.GetHashCode())
-	{
-		res = false;
-	}
-
-	return res;
+	return ToBytes() == Input.ToBytes();
 }
 
 int32_t KeccakParams::GetHashCode()
diff --git a/CEX/SHA2Params.cpp b/CEX/SHA2Params.cpp
index a831050..665495c 100644
--- a/CEX/SHA2Params.cpp
+++ b/CEX/SHA2Params.cpp
@@ -167,14 +167,7 @@ SHA2Params* SHA2Params::DeepCopy()
 
 bool SHA2Params::Equals(SHA2Params &Input)
 {
-	bool res(true);
-
-	if (this->GetHashCode() != Input.GetHashCode())
-	{
-		res = false;
-	}
-
-	return res;
+	return ToBytes() == Input.ToBytes();
 }
 
 int32_t SHA2Params::GetHashCode()
diff --git a/CEX/SkeinParams.cpp b/CEX/SkeinParams.cpp
index a147fdd..0122f8d 100644
--- a/CEX/SkeinParams.cpp
+++ b/CEX/SkeinParams.cpp
@@ -204,7 +204,7 @@ SkeinParams* SkeinParams::DeepCopy()
 
 bool SkeinParams::Equals(SkeinParams &Input)
 {
-	return (this->GetHashCode() == Input.GetHashCode());
+	return ToBytes() == Input.ToBytes();
 }
 
 int32_t SkeinParams::GetHashCode()
-- 
2.43.0


From 7631620c1d0b05a83bd857c1cb7b2e46ae0dd313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:59 +0000
Subject: [PATCH 115/135] fix: a Blake digest made from parameters is the
 function they describe

---
 CEX/Blake256.cpp | 2 +-
 CEX/Blake512.cpp | 7 ++-----
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/CEX/Blake256.cpp b/CEX/Blake256.cpp
index d9d3377..ca49689 100644
--- a/CEX/Blake256.cpp
+++ b/CEX/Blake256.cpp
@@ -76,7 +76,7 @@ Blake256::Blake256(BlakeParams &Params)
 		2 * Params.FanOut() * Blake::BLAKE256_RATE_SIZE : 
 		Blake::BLAKE256_RATE_SIZE),
 	m_msgLength(0),
-	m_parallelProfile(Blake::BLAKE256_RATE_SIZE, false, STATE_PRECACHED, false, Params.FanOut()),
+	m_parallelProfile(Blake::BLAKE256_RATE_SIZE, static_cast<bool>(Params.FanOut() > 1), false, STATE_PRECACHED, false, Params.FanOut()),
 	m_treeParams(Params)
 {
 	if (m_parallelProfile.IsParallel())
diff --git a/CEX/Blake512.cpp b/CEX/Blake512.cpp
index c4143c4..431bd5b 100644
--- a/CEX/Blake512.cpp
+++ b/CEX/Blake512.cpp
@@ -78,11 +78,9 @@ Blake512::Blake512(BlakeParams &Params)
 		2UL * Params.FanOut() * Blake::BLAKE512_RATE_SIZE :
 		Blake::BLAKE512_RATE_SIZE),
 	m_msgLength(0),
-	m_parallelProfile(Blake::BLAKE512_RATE_SIZE, false, STATE_PRECACHED, false, Params.FanOut()),
+	m_parallelProfile(Blake::BLAKE512_RATE_SIZE, static_cast<bool>(Params.FanOut() > 1), false, STATE_PRECACHED, false, Params.FanOut()),
 	m_treeParams(Params)
 {
-	//m_parallelProfile.IsParallel() == true ? m_treeParams.FanOut() > 1 : false;
-
 	if (m_parallelProfile.IsParallel())
 	{
 		if (Params.LeafLength() != 0 && (Params.LeafLength() < Blake::BLAKE512_RATE_SIZE || Params.LeafLength() % Blake::BLAKE512_RATE_SIZE != 0))
@@ -96,8 +94,7 @@ Blake512::Blake512(BlakeParams &Params)
 	}
 	else
 	{
-		// fixed at defaults for sequential; depth 1, fanout 1, leaf length unlimited
-		m_treeParams = BlakeParams(static_cast<uint8_t>(Blake::BLAKE512_DIGEST_SIZE));
+		m_treeParams = BlakeParams(static_cast<uint8_t>(Blake::BLAKE512_DIGEST_SIZE), 0, 1, 1, 0, 0, 0, 0, Params.DistributionCode());
 	}
 
 	if (m_treeParams.FanOut() > 1)
-- 
2.43.0


From 9d2114a7aa9755d982e434cd284ce6b5e78ebe83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:47 +0000
Subject: [PATCH 116/135] fix: a memory pool gives each byte to one owner

---
 CEX/MemoryPool.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/CEX/MemoryPool.cpp b/CEX/MemoryPool.cpp
index c3801bc..f392c32 100644
--- a/CEX/MemoryPool.cpp
+++ b/CEX/MemoryPool.cpp
@@ -16,6 +16,7 @@ public:
 	size_t MaxAlloc;
 	uint8_t* MemPool;
 	size_t MinAlloc;
+	std::mutex Mutex;
 	size_t PageSize;
 	size_t PoolSize;
 
@@ -32,6 +33,7 @@ public:
 		MinAlloc((MinAlloc <= MaxAlloc) ? 
 			MinAlloc :
 			throw CryptoException(std::string("MemoryPool"), std::string("Constructor"), std::string("MemoryPool min alloc is more than max alloc!"), ErrorCodes::InvalidSize)),
+		Mutex(),
 		PageSize(PageSize),
 		PoolSize(PoolSize)
 	{
@@ -68,10 +70,9 @@ void* MemoryPool::Allocate(size_t Length)
 {
 	std::vector<std::pair<size_t, size_t>>::iterator best;
 	std::vector<std::pair<size_t, size_t>>::iterator itrl;
-	std::mutex m;
 	void* poolr;
 
-	std::lock_guard<std::mutex> lock(m);
+	std::lock_guard<std::mutex> lock(m_poolState->Mutex);
 	poolr = nullptr;
 
 	if (Length <= m_poolState->PoolSize && Length >= m_poolState->MinAlloc && Length <= m_poolState->MaxAlloc)
@@ -95,6 +96,8 @@ void* MemoryPool::Allocate(size_t Length)
 				}
 
 				poolr = m_poolState->MemPool + FSTOFT;
+
+				return poolr;
 			}
 
 			if (((best == m_poolState->FreeList.end()) || (best->second > itrl->second)) && (itrl->second >= (Length + PadSize(itrl->first, ALNBIT))))
@@ -124,6 +127,11 @@ void* MemoryPool::Allocate(size_t Length)
 					m_poolState->FreeList.insert(best, std::make_pair(FSTOFT, ALNPAD));
 				}
 			}
+			else if (best->second == 0)
+			{
+				// the block was used completely
+				m_poolState->FreeList.erase(best);
+			}
 
 			Clear(m_poolState->MemPool, FSTOFT + ALNPAD, Length);
 
@@ -141,7 +149,10 @@ void* MemoryPool::Allocate(size_t Length)
 
 void MemoryPool::Reset()
 {
+	std::lock_guard<std::mutex> lock(m_poolState->Mutex);
+
 	Clear(m_poolState->MemPool, 0, m_poolState->PoolSize);
+	m_poolState->FreeList.clear();
 	m_poolState->FreeList.push_back(std::make_pair(0, m_poolState->PoolSize));
 }
 
@@ -150,8 +161,8 @@ bool MemoryPool::Deallocate(void* Pointer, size_t Length)
 	bool status;
 	std::vector<std::pair<size_t, size_t>>::iterator itrl;
 	std::vector<std::pair<size_t, size_t>>::iterator prev;
-	std::mutex m;
-	std::lock_guard<std::mutex> lock(m);
+
+	std::lock_guard<std::mutex> lock(m_poolState->Mutex);
 
 	status = false;
 
@@ -209,7 +220,7 @@ bool MemoryPool::InPool(const void* Pointer, size_t PoolSize, const void* Buffer
 	const uintptr_t MEMPOOL = reinterpret_cast<uintptr_t>(Pointer);
 	const uintptr_t MEMBUF = reinterpret_cast<uintptr_t>(Buffer);
 
-	return (MEMBUF >= MEMPOOL) && (MEMBUF + BufferSize <= MEMPOOL + PoolSize);
+	return (MEMBUF >= MEMPOOL) && (BufferSize <= PoolSize) && (MEMBUF - MEMPOOL <= PoolSize - BufferSize);
 }
 
 size_t MemoryPool::PadSize(size_t Length, size_t Alignment)
-- 
2.43.0


From c3475b0b61a9c3a49a2cbaf099a8629582660c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:47 +0000
Subject: [PATCH 117/135] fix: an allocation whose size overflows is refused

---
 CEX/LockingAllocator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CEX/LockingAllocator.cpp b/CEX/LockingAllocator.cpp
index 1b06df7..b54301f 100644
--- a/CEX/LockingAllocator.cpp
+++ b/CEX/LockingAllocator.cpp
@@ -86,6 +86,11 @@ CEX_MALLOC_FN void* LockingAllocator::Allocate(size_t Elements, size_t ElementSi
 
 	ptr = nullptr;
 
+	if (ElementSize != 0 && Elements > static_cast<size_t>(-1) / ElementSize)
+	{
+		throw CryptoException(std::string("LockingAllocator"), std::string("Allocate"), std::string("The allocation size is too large!"), ErrorCodes::IllegalOperation);
+	}
+
 #if defined(CEX_SECURE_ALLOCATOR)
 	ptr = LockingAllocator::Instance().allocate(Elements, ElementSize);
 #endif
-- 
2.43.0


From 0a17b5491aac140298b91365e76ba91f54ad02c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:47 +0000
Subject: [PATCH 118/135] fix: freeing no memory does nothing

---
 CEX/SecureMemory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/SecureMemory.cpp b/CEX/SecureMemory.cpp
index c5137c7..ce941f7 100644
--- a/CEX/SecureMemory.cpp
+++ b/CEX/SecureMemory.cpp
@@ -142,7 +142,7 @@ void SecureMemory::Erase(void* Pointer, size_t Length)
 
 void SecureMemory::Free(void* Pointer, size_t Length)
 {
-	if (Pointer != nullptr || Length != 0)
+	if (Pointer != nullptr)
 	{
 		
 #if defined(CEX_OS_POSIX)
-- 
2.43.0


From 7e7c19f05f0043f454cd8e27cea5c1f47103c1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:47 +0000
Subject: [PATCH 119/135] fix: SecureExtract copies the number of elements
 asked for

---
 CEX/SecureVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/SecureVector.h b/CEX/SecureVector.h
index b25a317..aaffffb 100644
--- a/CEX/SecureVector.h
+++ b/CEX/SecureVector.h
@@ -202,7 +202,7 @@ inline static void SecureExtract(const SecureVector<T> &Input, size_t InOffset,
 		Output.resize(OTPSZE);
 	}
 
-	MemoryTools::Copy(Input, InOffset, Output, OutOffset, Input.size() * sizeof(T));
+	MemoryTools::Copy(Input, InOffset, Output, OutOffset, Elements * sizeof(T));
 }
 
 /// <summary>
-- 
2.43.0


From 1de34bd94316f229ca1f300a024455c6e6b0eaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:17 +0000
Subject: [PATCH 120/135] fix: KPA erases all of its state

---
 CEX/KPA.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/KPA.cpp b/CEX/KPA.cpp
index 5244569..436440b 100644
--- a/CEX/KPA.cpp
+++ b/CEX/KPA.cpp
@@ -72,7 +72,7 @@ public:
 
 		for (size_t i = 0; i < State.size(); ++i)
 		{
-			MemoryTools::Clear(State[i], 0, State[i].size());
+			MemoryTools::Clear(State[i], 0, State[i].size() * sizeof(uint64_t));
 		}
 
 		MemoryTools::Clear(Buffer, 0, Buffer.size());
@@ -92,7 +92,7 @@ public:
 
 		for (size_t i = 0; i < State.size(); ++i)
 		{
-			MemoryTools::Clear(State[i], 0, State[i].size());
+			MemoryTools::Clear(State[i], 0, State[i].size() * sizeof(uint64_t));
 		}
 
 		MemoryTools::Clear(Buffer, 0, Buffer.size());
-- 
2.43.0


From 987b84c8cf3f7be727d2654bd2154abc3a039937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:17 +0000
Subject: [PATCH 121/135] fix: a SecureStream erases the memory it releases

---
 CEX/SecureStream.cpp | 31 ++++++++++++++++++++++++++-----
 CEX/SecureStream.h   |  1 +
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/CEX/SecureStream.cpp b/CEX/SecureStream.cpp
index 11d010e..7b10a4a 100644
--- a/CEX/SecureStream.cpp
+++ b/CEX/SecureStream.cpp
@@ -123,6 +123,7 @@ const uint64_t SecureStream::Position()
 
 void SecureStream::Close()
 {
+	MemoryTools::Clear(m_streamData, 0, m_streamData.size());
 	m_streamData.clear();
 	m_streamPosition = 0;
 }
@@ -180,8 +181,8 @@ uint8_t SecureStream::ReadByte()
 
 void SecureStream::Reset()
 {
+	MemoryTools::Clear(m_streamData, 0, m_streamData.size());
 	m_streamData.clear();
-	m_streamData.resize(0);
 	m_streamPosition = 0;
 }
 
@@ -204,7 +205,7 @@ void SecureStream::Seek(uint64_t Offset, SeekOrigin Origin)
 void SecureStream::SetLength(uint64_t Length)
 {
 	Transform();
-	m_streamData.resize(Length);
+	Resize(Length);
 	Transform();
 }
 
@@ -239,7 +240,7 @@ void SecureStream::Write(const std::vector<uint8_t> &Input, size_t Offset, size_
 
 	if (m_streamData.size() < len)
 	{
-		m_streamData.resize(len);
+		Resize(len);
 	}
 
 	MemoryTools::Copy(Input, Offset, m_streamData, m_streamPosition, Length);
@@ -253,7 +254,7 @@ void SecureStream::WriteByte(uint8_t Value)
 
 	if (m_streamData.size() < m_streamPosition + 1)
 	{
-		m_streamData.resize(m_streamPosition + 1);
+		Resize(m_streamPosition + 1);
 	}
 
 	MemoryTools::CopyFromValue(Value, m_streamData, m_streamPosition, 1);
@@ -284,6 +285,21 @@ std::vector<uint8_t> SecureStream::GetSystemKey()
 	return hash;
 }
 
+void SecureStream::Resize(size_t Length)
+{
+	// the released memory must not contain the data
+	std::vector<uint8_t> tmp(Length);
+	const size_t CPYLEN = (Length < m_streamData.size()) ? Length : m_streamData.size();
+
+	if (CPYLEN != 0)
+	{
+		MemoryTools::Copy(m_streamData, 0, tmp, 0, CPYLEN);
+	}
+
+	m_streamData.swap(tmp);
+	MemoryTools::Clear(tmp, 0, tmp.size());
+}
+
 void SecureStream::Transform()
 {
 	if (m_streamData.size() != 0)
@@ -301,7 +317,12 @@ void SecureStream::Transform()
 		cpr.Initialize(true, kp);
 		std::vector<uint8_t> state(m_streamData.size());
 		cpr.Transform(m_streamData, 0, state, 0, state.size());
-		m_streamData = state;
+		m_streamData.swap(state);
+
+		MemoryTools::Clear(state, 0, state.size());
+		MemoryTools::Clear(seed, 0, seed.size());
+		MemoryTools::Clear(key, 0, key.size());
+		MemoryTools::Clear(iv, 0, iv.size());
 	}
 }
 
diff --git a/CEX/SecureStream.h b/CEX/SecureStream.h
index c122368..809bf5f 100644
--- a/CEX/SecureStream.h
+++ b/CEX/SecureStream.h
@@ -190,6 +190,7 @@ public:
 private:
 
 	std::vector<uint8_t> GetSystemKey();
+	void Resize(size_t Length);
 	void Transform();
 };
 
-- 
2.43.0


From a6a9f0051a8c7d29623a90c91aa4ddbda8c297a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:27 +0000
Subject: [PATCH 122/135] fix: GCM increments only the last 32 bits of the
 counter block

---
 CEX/GCM.cpp | 36 ++++++++++++++++++++++++++++++++++--
 CEX/GCM.h   |  1 +
 2 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/CEX/GCM.cpp b/CEX/GCM.cpp
index 7344357..1be728a 100644
--- a/CEX/GCM.cpp
+++ b/CEX/GCM.cpp
@@ -14,6 +14,7 @@ class GCM::GcmState
 public:
 
 	std::vector<uint8_t> AAD;
+	std::vector<uint8_t> Base;
 	SecureVector<uint8_t> Buffer;
 	SecureVector<uint8_t> Info;
 	SecureVector<uint8_t> Key;
@@ -28,6 +29,7 @@ public:
 	GcmState(bool IsDestroyed)
 		:
 		AAD(0),
+		Base(0),
 		Buffer(0),
 		Info(0),
 		Key(0),
@@ -49,6 +51,7 @@ public:
 	void Reset()
 	{
 		MemoryTools::Clear(AAD, 0, AAD.size());
+		MemoryTools::Clear(Base, 0, Base.size());
 		MemoryTools::Clear(Buffer, 0, Buffer.size());
 		MemoryTools::Clear(Info, 0, Info.size());
 		MemoryTools::Clear(Key, 0, Key.size());
@@ -277,6 +280,9 @@ void GCM::Initialize(bool Encryption, ISymmetricKey &Parameters)
 	m_cipherMode->Initialize(true, ckp);
 	m_cipherMode->ParallelProfile().Calculate(m_parallelProfile.IsParallel(), m_parallelProfile.ParallelBlockSize(), m_parallelProfile.ParallelMaxDegree());
 
+	// the initial counter block
+	m_gcmState->Base = m_gcmState->Nonce;
+
 	// permute the nonce for ghash
 	std::vector<uint8_t> tmpn(BLOCK_SIZE);
 	m_cipherMode->Transform(tmpn, 0, m_gcmState->Nonce, 0, BLOCK_SIZE);
@@ -338,7 +344,7 @@ void GCM::Transform(const std::vector<uint8_t> &Input, size_t InOffset, std::vec
 	if (IsEncryption() == true)
 	{
 		// encrypt plain-text
-		m_cipherMode->Transform(Input, InOffset, Output, OutOffset, Length);
+		Process(Input, InOffset, Output, OutOffset, Length);
 		// process the cipher-text
 		m_macAuthenticator->Update(Output, OutOffset, m_gcmState->Tag, Length);
 		// append the tag to the cipher-text
@@ -355,7 +361,7 @@ void GCM::Transform(const std::vector<uint8_t> &Input, size_t InOffset, std::vec
 			throw CryptoAuthenticationFailure(Name(), std::string("Transform"), std::string("The authentication tag does not match!"), ErrorCodes::AuthenticationFailure);
 		}
 
-		m_cipherMode->Transform(Input, InOffset, Output, OutOffset, Length);
+		Process(Input, InOffset, Output, OutOffset, Length);
 	}
 }
 
@@ -392,6 +398,32 @@ void GCM::Finalize(std::vector<uint8_t> &Output, size_t OutOffset, size_t Length
 	m_gcmState->Initialized = false;
 }
 
+void GCM::Process(const std::vector<uint8_t> &Input, size_t InOffset, std::vector<uint8_t> &Output, size_t OutOffset, size_t Length)
+{
+	// the GCM counter is the last 32 bits of the block, it wraps without a carry into the upper 96 bits
+	const uint64_t WRPLEN = (0xFFFFFFFFULL - IntegerTools::BeBytesTo32(m_gcmState->Base, BLOCK_SIZE - sizeof(uint32_t))) * BLOCK_SIZE;
+
+	if (Length > WRPLEN)
+	{
+		const size_t PRELEN = static_cast<size_t>(WRPLEN);
+
+		if (PRELEN != 0)
+		{
+			m_cipherMode->Transform(Input, InOffset, Output, OutOffset, PRELEN);
+		}
+
+		// continue from a zeroed counter
+		MemoryTools::Clear(m_gcmState->Base, BLOCK_SIZE - sizeof(uint32_t), sizeof(uint32_t));
+		SymmetricKey ckp(m_gcmState->Key, SecureLock(m_gcmState->Base), m_gcmState->Info);
+		m_cipherMode->Initialize(true, ckp);
+		m_cipherMode->Transform(Input, InOffset + PRELEN, Output, OutOffset + PRELEN, Length - PRELEN);
+	}
+	else
+	{
+		m_cipherMode->Transform(Input, InOffset, Output, OutOffset, Length);
+	}
+}
+
 bool GCM::Verify(const std::vector<uint8_t> &Input, size_t Offset, size_t Length)
 {
 	std::vector<uint8_t> code(TagSize());
diff --git a/CEX/GCM.h b/CEX/GCM.h
index 8a08d9a..0b30520 100644
--- a/CEX/GCM.h
+++ b/CEX/GCM.h
@@ -343,6 +343,7 @@ private:
 
 	void Compute(const std::vector<uint8_t> &Input, size_t Offset, size_t Length);
 	void Finalize(std::vector<uint8_t> &Output, size_t OutOffset, size_t Length);
+	void Process(const std::vector<uint8_t> &Input, size_t InOffset, std::vector<uint8_t> &Output, size_t OutOffset, size_t Length);
 	bool Verify(const std::vector<uint8_t> &Input, size_t Offset, size_t Length);
 };
 
-- 
2.43.0


From eb8a0808382ce557f95eeb6124285bcd184e3c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:31 +0000
Subject: [PATCH 123/135] fix: AVX is enabled only if the system saves both
 register halves

---
 CEX/CpuDetect.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/CpuDetect.cpp b/CEX/CpuDetect.cpp
index f713ff5..10d5462 100644
--- a/CEX/CpuDetect.cpp
+++ b/CEX/CpuDetect.cpp
@@ -359,7 +359,7 @@ bool CpuDetect::AvxEnabled()
 	// check if os saves the ymm registers
 	if (((cpuInfo[2] & (1UL << 27)) != 0) && ((cpuInfo[2] & (1UL << 28)) != 0))
 	{
-		status = (_xgetbv(_XCR_XFEATURE_ENABLED_MASK) & 0x06) != 0;
+		status = (_xgetbv(_XCR_XFEATURE_ENABLED_MASK) & 0x06) == 0x06;
 	}
 
 	return status;
@@ -373,7 +373,7 @@ bool CpuDetect::Avx2Enabled()
 
 	if (((cpuInfo[2] & (1UL << 27)) != 0) && (cpuInfo[2] & (1UL << 28)) != 0)
 	{
-		status = (_xgetbv(_XCR_XFEATURE_ENABLED_MASK) & 0xE6) != 0;
+		status = (_xgetbv(_XCR_XFEATURE_ENABLED_MASK) & 0x06) == 0x06;
 	}
 
 	return status;
-- 
2.43.0


From 4947fac73bcda64849423294943682ad1bb17307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:31 +0000
Subject: [PATCH 124/135] fix: an unknown number of cores counts as one

---
 CEX/CpuDetect.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/CEX/CpuDetect.cpp b/CEX/CpuDetect.cpp
index 10d5462..94e097f 100644
--- a/CEX/CpuDetect.cpp
+++ b/CEX/CpuDetect.cpp
@@ -478,6 +478,14 @@ void CpuDetect::Initialize()
 		}
 	}
 
+	// the number of cores could not be determined
+	if (m_virtCores == 0)
+	{
+		m_virtCores = 1;
+		m_physCores = 1;
+		m_logicalPerCore = 1;
+	}
+
 	// fallbacks, required by parallel auto-size feature
 	if (m_l1CacheSize == 0 || m_l1CacheSize % 8 != 0)
 	{
-- 
2.43.0


From e53df9f3b624850cc2ff1f666d0e6038cb8234da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:31 +0000
Subject: [PATCH 125/135] fix: a new parallel profile is the default one

---
 CEX/ParallelOptions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/ParallelOptions.cpp b/CEX/ParallelOptions.cpp
index 069398f..0a200c1 100644
--- a/CEX/ParallelOptions.cpp
+++ b/CEX/ParallelOptions.cpp
@@ -66,9 +66,9 @@ ParallelOptions::ParallelOptions(size_t BlockSize, bool Parallel, bool SimdMulti
 {
 	Detect();
 	Calculate();
-	StoreDefaults();
 	// override parallel capability
 	m_isParallel = Parallel;
+	StoreDefaults();
 }
 
 ParallelOptions::ParallelOptions(size_t BlockSize, bool Parallel, size_t ParallelBlockSize, size_t ParallelMaxDegree, bool SimdMultiply, size_t ReservedCache, bool SplitChannel)
-- 
2.43.0


From 7b800b26262ffc646d66a2e288d5d66a25954348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:52 +0000
Subject: [PATCH 126/135] fix: DigestStream does not destroy the digest it was
 lent

---
 CEX/DigestStream.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/CEX/DigestStream.cpp b/CEX/DigestStream.cpp
index abbb286..72c51c7 100644
--- a/CEX/DigestStream.cpp
+++ b/CEX/DigestStream.cpp
@@ -45,7 +45,7 @@ DigestStream::DigestStream(Digests DigestType, bool Parallel)
 
 DigestStream::DigestStream(IDigest* Digest)
 	:
-	m_streamState(new DigestStreamState(true, Digest != nullptr ? Digest->IsParallel() : false)),
+	m_streamState(new DigestStreamState(false, Digest != nullptr ? Digest->IsParallel() : false)),
 	m_digestEngine(Digest != nullptr ? Digest :
 		throw CryptoProcessingException(CLASS_NAME, std::string("Constructor"), std::string("Digest can not be null!"), ErrorCodes::IllegalOperation))
 {
@@ -60,6 +60,13 @@ DigestStream::~DigestStream()
 			m_digestEngine.reset(nullptr);
 		}
 	}
+	else
+	{
+		if (m_digestEngine != nullptr)
+		{
+			m_digestEngine.release();
+		}
+	}
 }
 
 //~~~Accessors~~~//
-- 
2.43.0


From 1dc612c29a29738149a2c3a4073a5d5dd75fab33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:41 +0000
Subject: [PATCH 127/135] fix: resetting an object does not forget what it owns

---
 CEX/BCG.cpp    | 1 -
 CEX/CSG.cpp    | 1 -
 CEX/GMAC.cpp   | 1 -
 CEX/HCG.cpp    | 1 -
 CEX/HMAC.cpp   | 1 -
 CEX/KDF2.cpp   | 1 -
 CEX/PBKDF2.cpp | 1 -
 CEX/RHX.cpp    | 1 -
 CEX/SHX.cpp    | 1 -
 9 files changed, 9 deletions(-)

diff --git a/CEX/BCG.cpp b/CEX/BCG.cpp
index 52ca4de..f01e668 100644
--- a/CEX/BCG.cpp
+++ b/CEX/BCG.cpp
@@ -66,7 +66,6 @@ public:
 		Reseed = 0;
 		Rounds = 0;
 		Threshold = 0;
-		IsDestroyed = false;
 		IsInitialized = false;
 		IsParallel = false;
 	}
diff --git a/CEX/CSG.cpp b/CEX/CSG.cpp
index 6cbe9c0..6acb94e 100644
--- a/CEX/CSG.cpp
+++ b/CEX/CSG.cpp
@@ -68,7 +68,6 @@ public:
 		Reseed = 0;
 		Threshold = 0;
 		ShakeMode = ShakeModes::None;
-		IsDestroyed = false;
 		IsInitialized = false;
 
 		MemoryTools::Clear(Buffer, 0, Buffer.size());
diff --git a/CEX/GMAC.cpp b/CEX/GMAC.cpp
index 48e9cbb..514c3f8 100644
--- a/CEX/GMAC.cpp
+++ b/CEX/GMAC.cpp
@@ -50,7 +50,6 @@ public:
 		MemoryTools::Clear(Hash, 0, Hash.size() * sizeof(uint64_t));
 		MemoryTools::Clear(Nonce, 0, Nonce.size());
 		MemoryTools::Clear(State, 0, State.size());
-		IsDestroyed = false;
 		IsInitialized = false;
 	}
 };
diff --git a/CEX/HCG.cpp b/CEX/HCG.cpp
index cf1b234..86a392c 100644
--- a/CEX/HCG.cpp
+++ b/CEX/HCG.cpp
@@ -53,7 +53,6 @@ public:
 		Reseed = 0;
 		Strength = 0;
 		Threshold = 0;
-		IsDestroyed = false;
 		IsInitialized = false;
 		MemoryTools::Clear(Buffer, 0, Buffer.size());
 		MemoryTools::Clear(Code, 0, Code.size());
diff --git a/CEX/HMAC.cpp b/CEX/HMAC.cpp
index a233976..621eea8 100644
--- a/CEX/HMAC.cpp
+++ b/CEX/HMAC.cpp
@@ -40,7 +40,6 @@ public:
 		HashSize = 0;
 		MemoryTools::Clear(InputPad, 0, InputPad.size());
 		MemoryTools::Clear(OutputPad, 0, OutputPad.size());
-		IsDestroyed = false;
 		IsInitialized = false;
 	}
 
diff --git a/CEX/KDF2.cpp b/CEX/KDF2.cpp
index b8c30a6..2c0207b 100644
--- a/CEX/KDF2.cpp
+++ b/CEX/KDF2.cpp
@@ -33,7 +33,6 @@ public:
 		MemoryTools::Clear(Counter, 0, Counter.size());
 		MemoryTools::Clear(Salt, 0, Salt.size());
 		MemoryTools::Clear(State, 0, State.size());
-		IsDestroyed = false;
 		IsInitialized = false;
 	}
 
diff --git a/CEX/PBKDF2.cpp b/CEX/PBKDF2.cpp
index 9e2dc1b..63fbdae 100644
--- a/CEX/PBKDF2.cpp
+++ b/CEX/PBKDF2.cpp
@@ -37,7 +37,6 @@ public:
 		MemoryTools::Clear(Counter, 0, Counter.size());
 		MemoryTools::Clear(Salt, 0, Salt.size());
 		MemoryTools::Clear(State, 0, State.size());
-		IsDestroyed = false;
 		IsInitialized = false;
 	}
 
diff --git a/CEX/RHX.cpp b/CEX/RHX.cpp
index f0b0465..071f78c 100644
--- a/CEX/RHX.cpp
+++ b/CEX/RHX.cpp
@@ -58,7 +58,6 @@ public:
 		MemoryTools::Clear(RoundKeys, 0, RoundKeys.size() * sizeof(RoundKeys[0]));
 		Rounds = 0;
 		Extension = BlockCipherExtensions::None;
-		Destroyed = false;
 		Encryption = false;
 		Initialized = false;
 	}
diff --git a/CEX/SHX.cpp b/CEX/SHX.cpp
index b41b42d..3503ffe 100644
--- a/CEX/SHX.cpp
+++ b/CEX/SHX.cpp
@@ -53,7 +53,6 @@ public:
 		MemoryTools::Clear(RoundKeys, 0, RoundKeys.size() * sizeof(uint32_t));
 		Rounds = 0;
 		Extension = BlockCipherExtensions::None;
-		Destroyed = false;
 		Encryption = false;
 		Initialized = false;
 	}
-- 
2.43.0


From 2c56e50facc6dda7c0465edc1f5501b855a059c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:42 +0000
Subject: [PATCH 128/135] fix: release the entropy provider when a generator
 cannot be seeded

---
 CEX/BCR.cpp | 4 ++--
 CEX/CSR.cpp | 4 ++--
 CEX/HCR.cpp | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/CEX/BCR.cpp b/CEX/BCR.cpp
index d85084d..a15530b 100644
--- a/CEX/BCR.cpp
+++ b/CEX/BCR.cpp
@@ -113,7 +113,7 @@ void BCR::Reset()
 	std::vector<uint8_t> nonce(ks.IVSize());
 
 	// initialize the random provider
-	Provider::IProvider* pvd = Helper::ProviderFromName::GetInstance(m_bcrState->ProviderType);
+	std::unique_ptr<Provider::IProvider> pvd(Helper::ProviderFromName::GetInstance(m_bcrState->ProviderType));
 
 	if (!pvd->IsAvailable())
 	{
@@ -123,7 +123,7 @@ void BCR::Reset()
 	// use the provider to generate the key
 	pvd->Generate(key);
 	pvd->Generate(nonce);
-	delete pvd;
+	pvd.reset(nullptr);
 
 	// initialize the drbg
 	Cipher::SymmetricKey kp(key, nonce);
diff --git a/CEX/CSR.cpp b/CEX/CSR.cpp
index a8cf5c8..e39fbc6 100644
--- a/CEX/CSR.cpp
+++ b/CEX/CSR.cpp
@@ -110,7 +110,7 @@ void CSR::Generate(SecureVector<uint8_t> &Output, size_t Offset, size_t Length)
 void CSR::Reset()
 {
 	// initialize the random provider
-	Provider::IProvider* pvd = Helper::ProviderFromName::GetInstance(m_csrState->ProviderType);
+	std::unique_ptr<Provider::IProvider> pvd(Helper::ProviderFromName::GetInstance(m_csrState->ProviderType));
 
 	if (!pvd->IsAvailable())
 	{
@@ -123,7 +123,7 @@ void CSR::Reset()
 	std::vector<uint8_t> cust(ks.IVSize());
 	pvd->Generate(key);
 	pvd->Generate(cust);
-	delete pvd;
+	pvd.reset(nullptr);
 
 	// initialize the drbg
 	Cipher::SymmetricKey kp(key, cust);
diff --git a/CEX/HCR.cpp b/CEX/HCR.cpp
index ed54298..f66b296 100644
--- a/CEX/HCR.cpp
+++ b/CEX/HCR.cpp
@@ -113,9 +113,9 @@ void HCR::Generate(SecureVector<uint8_t> &Output, size_t Offset, size_t Length)
 void HCR::Reset()
 {
 	// initialize the random provider
-	Provider::IProvider* pvd = Helper::ProviderFromName::GetInstance(m_hcrState->ProviderType == Providers::None ? 
+	std::unique_ptr<Provider::IProvider> pvd(Helper::ProviderFromName::GetInstance(m_hcrState->ProviderType == Providers::None ? 
 		Providers::CSP : 
-		m_hcrState->ProviderType);
+		m_hcrState->ProviderType));
 
 	if (!pvd->IsAvailable())
 	{
@@ -126,7 +126,7 @@ void HCR::Reset()
 	Cipher::SymmetricKeySize ks = m_rngGenerator->LegalKeySizes()[1];
 	std::vector<uint8_t> key(ks.KeySize());
 	pvd->Generate(key);
-	delete pvd;
+	pvd.reset(nullptr);
 
 	// initialize the drbg
 	Cipher::SymmetricKey kp(key);
-- 
2.43.0


From 63da3b7033b21a1f29b7955ccfc903bcb606aeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:36 +0000
Subject: [PATCH 129/135] fix: close the snapshots of the system state

---
 CEX/SystemTools.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/CEX/SystemTools.cpp b/CEX/SystemTools.cpp
index 98c4d40..178acc6 100644
--- a/CEX/SystemTools.cpp
+++ b/CEX/SystemTools.cpp
@@ -769,6 +769,11 @@ std::string SystemTools::Version()
 				} 
 				while (Heap32ListNext(snapshot, &heapList));
 			}
+
+			if (snapshot != INVALID_HANDLE_VALUE)
+			{
+				CloseHandle(snapshot);
+			}
 		}
 		catch (std::exception&) 
 		{
@@ -833,6 +838,11 @@ std::string SystemTools::Version()
 				} 
 				while (Module32Next(snapshot, &info));
 			}
+
+			if (snapshot != INVALID_HANDLE_VALUE)
+			{
+				CloseHandle(snapshot);
+			}
 		}
 		catch (std::exception&)
 		{
@@ -958,6 +968,11 @@ std::string SystemTools::Version()
 				} 
 				while (Process32Next(snapshot, &prcInf));
 			}
+
+			if (snapshot != INVALID_HANDLE_VALUE)
+			{
+				CloseHandle(snapshot);
+			}
 		}
 		catch (std::exception&)
 		{
@@ -1119,6 +1134,11 @@ std::string SystemTools::Version()
 				} 
 				while (Thread32Next(snapshot, &thdinf));
 			}
+
+			if (snapshot != INVALID_HANDLE_VALUE)
+			{
+				CloseHandle(snapshot);
+			}
 		}
 		catch (std::exception&) 
 		{
-- 
2.43.0


From 3791a9958e2fd98d70aa2a899736a0217738b851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:43 +0000
Subject: [PATCH 130/135] fix: collect the network adapters and the user token

---
 CEX/ECP.cpp         | 16 ++++++++--------
 CEX/SystemTools.cpp | 46 ++++++++++++++++++---------------------------
 CEX/SystemTools.h   |  4 ++--
 3 files changed, 28 insertions(+), 38 deletions(-)

diff --git a/CEX/ECP.cpp b/CEX/ECP.cpp
index ec0a1ad..b190b7b 100644
--- a/CEX/ECP.cpp
+++ b/CEX/ECP.cpp
@@ -289,17 +289,17 @@ std::vector<uint8_t> ECP::NetworkInfo()
 
 	try
 	{
-		std::vector<PIP_ADAPTER_INFO> info = SystemTools::AdaptersInfo();
+		std::vector<IP_ADAPTER_INFO> info = SystemTools::AdaptersInfo();
 
 		for (size_t i = 0; i < info.size(); ++i)
 		{
-			ArrayTools::AppendString(ArrayTools::ToString(info[i]->AdapterName, ArrayTools::StringSize(info[i]->AdapterName, sizeof(info[i]->AdapterName))), state);
-			ArrayTools::AppendVector(ArrayTools::ToByteArray(info[i]->Address, 8), state);
-			ArrayTools::AppendValue(info[i]->ComboIndex, state);
-			ArrayTools::AppendString(ArrayTools::ToString(info[i]->Description, ArrayTools::StringSize(info[i]->Description, sizeof(info[i]->Description))), state);
-			ArrayTools::AppendValue(info[i]->DhcpServer.IpAddress.String, state);
-			ArrayTools::AppendValue(info[i]->IpAddressList.IpAddress.String, state);
-			ArrayTools::AppendValue(info[i]->LeaseExpires, state);
+			ArrayTools::AppendString(ArrayTools::ToString(info[i].AdapterName, ArrayTools::StringSize(info[i].AdapterName, sizeof(info[i].AdapterName))), state);
+			ArrayTools::AppendVector(ArrayTools::ToByteArray(info[i].Address, 8), state);
+			ArrayTools::AppendValue(info[i].ComboIndex, state);
+			ArrayTools::AppendString(ArrayTools::ToString(info[i].Description, ArrayTools::StringSize(info[i].Description, sizeof(info[i].Description))), state);
+			ArrayTools::AppendString(ArrayTools::ToString(info[i].DhcpServer.IpAddress.String, ArrayTools::StringSize(info[i].DhcpServer.IpAddress.String, sizeof(info[i].DhcpServer.IpAddress.String))), state);
+			ArrayTools::AppendString(ArrayTools::ToString(info[i].IpAddressList.IpAddress.String, ArrayTools::StringSize(info[i].IpAddressList.IpAddress.String, sizeof(info[i].IpAddressList.IpAddress.String))), state);
+			ArrayTools::AppendValue(info[i].LeaseExpires, state);
 		}
 	}
 	catch (std::exception&)
diff --git a/CEX/SystemTools.cpp b/CEX/SystemTools.cpp
index 178acc6..dc1aae6 100644
--- a/CEX/SystemTools.cpp
+++ b/CEX/SystemTools.cpp
@@ -645,43 +645,33 @@ std::string SystemTools::Version()
 
 #if defined(CEX_OS_WINDOWS)
 
-	std::vector<PIP_ADAPTER_INFO> SystemTools::AdaptersInfo()
+	std::vector<IP_ADAPTER_INFO> SystemTools::AdaptersInfo()
 	{
-		std::vector<PIP_ADAPTER_INFO> sinfo(0);
+		std::vector<IP_ADAPTER_INFO> sinfo(0);
 
 		try
 		{
-			PIP_ADAPTER_INFO pAdapterInfo;
-			PIP_ADAPTER_INFO pAdapter = NULL;
+			PIP_ADAPTER_INFO pAdapter;
 			ULONG ulOutBufLen = sizeof(IP_ADAPTER_INFO);
+			std::vector<IP_ADAPTER_INFO> buf(1);
 
-			pAdapterInfo = reinterpret_cast<IP_ADAPTER_INFO*>(HeapAlloc(GetProcessHeap(), 0, sizeof(IP_ADAPTER_INFO)));
+			// the required size is returned in bytes
+			if (GetAdaptersInfo(buf.data(), &ulOutBufLen) == ERROR_BUFFER_OVERFLOW)
+			{
+				buf.resize((ulOutBufLen / sizeof(IP_ADAPTER_INFO)) + 1);
+				ulOutBufLen = static_cast<ULONG>(buf.size() * sizeof(IP_ADAPTER_INFO));
+			}
 
-			if (pAdapterInfo != NULL)
+			if (GetAdaptersInfo(buf.data(), &ulOutBufLen) == NO_ERROR)
 			{
-				if (GetAdaptersInfo(pAdapterInfo, &ulOutBufLen) == ERROR_BUFFER_OVERFLOW)
-				{
-					HeapFree(GetProcessHeap(), 0, pAdapterInfo);
-					pAdapterInfo = reinterpret_cast<IP_ADAPTER_INFO*>(HeapAlloc(GetProcessHeap(), 0, ulOutBufLen));
-				}
+				pAdapter = buf.data();
 
-				if (pAdapterInfo == NULL)
+				while (pAdapter)
 				{
-					if (GetAdaptersInfo(pAdapterInfo, &ulOutBufLen) == NO_ERROR)
-					{
-						pAdapter = pAdapterInfo;
-
-						while (pAdapter)
-						{
-							sinfo.push_back(pAdapter);
-							pAdapter = pAdapter->Next;
-						}
-					}
-
-					if (pAdapterInfo)
-					{
-						HeapFree(GetProcessHeap(), 0, pAdapterInfo);
-					}
+					sinfo.push_back(*pAdapter);
+					// the list pointer is only valid inside this function
+					sinfo.back().Next = NULL;
+					pAdapter = pAdapter->Next;
 				}
 			}
 		}
@@ -1209,7 +1199,7 @@ std::string SystemTools::Version()
 			{
 				// get the size of the memory buf needed for the SID
 				DWORD dwBufferSize = 0;
-				if (GetTokenInformation(hToken, TokenUser, NULL, 0, &dwBufferSize) && (GetLastError() != ERROR_INSUFFICIENT_BUFFER))
+				if (!GetTokenInformation(hToken, TokenUser, NULL, 0, &dwBufferSize) && (GetLastError() == ERROR_INSUFFICIENT_BUFFER))
 				{
 					// allocate buf for user token data
 					buf.resize(dwBufferSize);
diff --git a/CEX/SystemTools.h b/CEX/SystemTools.h
index 75d23ef..f607402 100644
--- a/CEX/SystemTools.h
+++ b/CEX/SystemTools.h
@@ -204,8 +204,8 @@ public:
 	/// Return an array ip adapter info structures
 	/// </summary>
 	/// 
-	/// <returns>A vector of PIP_ADAPTER_INFO structures</returns>
-	static std::vector<PIP_ADAPTER_INFO> AdaptersInfo();
+	/// <returns>A vector of IP_ADAPTER_INFO structures</returns>
+	static std::vector<IP_ADAPTER_INFO> AdaptersInfo();
 
 	/// <summary>
 	/// Return the current thread id
-- 
2.43.0


From 6cb95c573b3d6d6498d47c29b80af6b8fae6ac09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:17 +0000
Subject: [PATCH 131/135] fix: define CryptoGeneratorException::Name

---
 CEX/CryptoGeneratorException.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CEX/CryptoGeneratorException.cpp b/CEX/CryptoGeneratorException.cpp
index 2ea179b..bebe54a 100644
--- a/CEX/CryptoGeneratorException.cpp
+++ b/CEX/CryptoGeneratorException.cpp
@@ -13,4 +13,9 @@ const ExceptionTypes CryptoGeneratorException::Enumeral()
 	return ExceptionTypes::CryptoGeneratorException;
 }
 
+const std::string CryptoGeneratorException::Name()
+{
+	return Enumeration::ExceptionTypeConvert::ToName(Enumeral());
+}
+
 NAMESPACE_EXCEPTIONEND
-- 
2.43.0


From 72ff51833982758680fb6ebe44590b365716e46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:17 +0000
Subject: [PATCH 132/135] fix: CSG reports its security strength in bits

---
 CEX/CSG.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/CSG.cpp b/CEX/CSG.cpp
index 6acb94e..751c4cd 100644
--- a/CEX/CSG.cpp
+++ b/CEX/CSG.cpp
@@ -238,7 +238,7 @@ const size_t CSG::SecurityStrength()
 	return (m_csgState->ShakeMode == ShakeModes::SHAKE128 ? 
 		Keccak::KECCAK128_DIGEST_SIZE :
 		(m_csgState->ShakeMode == ShakeModes::SHAKE256) ? 
-		Keccak::KECCAK256_DIGEST_SIZE : Keccak::KECCAK512_DIGEST_SIZE);
+		Keccak::KECCAK256_DIGEST_SIZE : Keccak::KECCAK512_DIGEST_SIZE) * 8;
 }
 
 //~~~Public Functions~~~//
-- 
2.43.0


From e6fd5e808f26d853718dfd482c1ba0deaebb49dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:30 +0000
Subject: [PATCH 133/135] fix: describe the socket and address error codes

---
 CEX/ErrorCodes.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/CEX/ErrorCodes.cpp b/CEX/ErrorCodes.cpp
index 27f340f..2fda0f9 100644
--- a/CEX/ErrorCodes.cpp
+++ b/CEX/ErrorCodes.cpp
@@ -26,6 +26,9 @@ std::string ErrorCodeConvert::Description(ErrorCodes Enumeral)
 	case ErrorCodes::IllegalOperation:
 		name = std::string("Illegal operation requested");
 		break;
+	case ErrorCodes::InvalidAddress:
+		name = std::string("The IP address is invalid");
+		break;
 	case ErrorCodes::InvalidInfo:
 		name = std::string("Invalid symmetric key parameter; information");
 		break;
@@ -71,6 +74,27 @@ std::string ErrorCodeConvert::Description(ErrorCodes Enumeral)
 	case ErrorCodes::RetriesExceeded:
 		name = std::string("The number of retries was exceeded");
 		break;
+	case ErrorCodes::SocketDisconnected:
+		name = std::string("The socket was unexpectedly disconnected");
+		break;
+	case ErrorCodes::SocketError:
+		name = std::string("The socket operation experienced an unrecoverable error");
+		break;
+	case ErrorCodes::SocketFailure:
+		name = std::string("The socket operation has failed");
+		break;
+	case ErrorCodes::SocketInvalid:
+		name = std::string("The socket parameters are invalid");
+		break;
+	case ErrorCodes::SocketRefused:
+		name = std::string("The socket operation was refused");
+		break;
+	case ErrorCodes::SocketUnreachable:
+		name = std::string("The socket destination is unreachable");
+		break;
+	case ErrorCodes::Unreachable:
+		name = std::string("The destination host is unreachable");
+		break;
 	case ErrorCodes::WriteOnly:
 		name = std::string("The stream is write only");
 		break;
-- 
2.43.0


From 43998077ee2b3542cad81ef6a36c24addbc3c89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:32 +0000
Subject: [PATCH 134/135] fix: carry in LeIncreaseW when the input is the
 output

---
 CEX/IntegerTools.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/CEX/IntegerTools.h b/CEX/IntegerTools.h
index a7de16b..8dbdb78 100644
--- a/CEX/IntegerTools.h
+++ b/CEX/IntegerTools.h
@@ -2168,10 +2168,13 @@ public:
 		CEXASSERT(Input.size() != 0, "Input size can not be zero");
 		CEXASSERT(Output.size() >= Input.size(), "Output size is too small");
 
+		// the input and output can be the same array
+		const typename ArrayA::value_type LOWVAL = Input[0];
+
 		MemoryTools::Copy(Input, 0, Output, 0, Input.size() * sizeof(ArrayA::value_type));
 		Output[0] += static_cast<typename ArrayA::value_type>(Length);
 
-		if (Output[0] < Input[0])
+		if (Output[0] < LOWVAL)
 		{
 			++Output[1];
 		}
-- 
2.43.0


From 082787990526794c4db27a7efc43d577ecbf4446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:44 +0000
Subject: [PATCH 135/135] fix: range check of SecureRandom::Fill with an offset
 that wraps

---
 CEX/SecureRandom.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CEX/SecureRandom.cpp b/CEX/SecureRandom.cpp
index 346973e..a0e7100 100644
--- a/CEX/SecureRandom.cpp
+++ b/CEX/SecureRandom.cpp
@@ -70,7 +70,7 @@ const std::string SecureRandom::Name()
 
 void SecureRandom::Fill(std::vector<uint16_t> &Output, size_t Offset, size_t Elements)
 {
-	if (Offset + Elements > Output.size())
+	if (Offset > Output.size() || Output.size() - Offset < Elements)
 	{
 		throw CryptoRandomException(Name(), std::string("Fill"), std::string("The output vector is too small!"), ErrorCodes::InvalidParam);
 	}
@@ -82,7 +82,7 @@ void SecureRandom::Fill(std::vector<uint16_t> &Output, size_t Offset, size_t Ele
 
 void SecureRandom::Fill(SecureVector<uint16_t> &Output, size_t Offset, size_t Elements)
 {
-	if (Offset + Elements > Output.size())
+	if (Offset > Output.size() || Output.size() - Offset < Elements)
 	{
 		throw CryptoRandomException(Name(), std::string("Fill"), std::string("The output vector is too small!"), ErrorCodes::InvalidParam);
 	}
@@ -94,7 +94,7 @@ void SecureRandom::Fill(SecureVector<uint16_t> &Output, size_t Offset, size_t El
 
 void SecureRandom::Fill(std::vector<uint32_t> &Output, size_t Offset, size_t Elements)
 {
-	if (Offset + Elements > Output.size())
+	if (Offset > Output.size() || Output.size() - Offset < Elements)
 	{
 		throw CryptoRandomException(Name(), std::string("Fill"), std::string("The output vector is too small!"), ErrorCodes::InvalidParam);
 	}
@@ -106,7 +106,7 @@ void SecureRandom::Fill(std::vector<uint32_t> &Output, size_t Offset, size_t Ele
 
 void SecureRandom::Fill(std::vector<uint64_t> &Output, size_t Offset, size_t Elements)
 {
-	if (Offset + Elements > Output.size())
+	if (Offset > Output.size() || Output.size() - Offset < Elements)
 	{
 		throw CryptoRandomException(Name(), std::string("Fill"), std::string("The output vector is too small!"), ErrorCodes::InvalidParam);
 	}
-- 
2.43.0

