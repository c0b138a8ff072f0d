From 273385aac2fd633313f54554a5c404f89283847e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:07 +0000
Subject: [PATCH 01/58] fix: refuse a block that spends one output twice
 instead of crashing

Inputs that differ only in their features byte pass the duplicate check. The
second one found its leaf already removed and dereferenced a null pointer.
---
 src/PMMR/TxHashSetImpl.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/PMMR/TxHashSetImpl.cpp b/src/PMMR/TxHashSetImpl.cpp
index 36048d8..244040f 100644
--- a/src/PMMR/TxHashSetImpl.cpp
+++ b/src/PMMR/TxHashSetImpl.cpp
@@ -115,7 +115,10 @@ bool TxHashSet::ApplyBlock(std::shared_ptr<IBlockDB> pBlockDB, const FullBlock&
 		}
 
 		auto pOutput = m_pOutputPMMR->GetAt(pOutputPosition->GetLeafIndex());
-		assert(pOutput != nullptr);
+		if (pOutput == nullptr) {
+			LOG_WARNING_F("Output {} already spent in block {}", commitment, block);
+			return false;
+		}
 
 		if (pOutput->IsCoinbase() && pOutputPosition->GetBlockHeight() > maximumBlockHeight) {
 			LOG_WARNING_F("Coinbase {} not mature", input.GetCommitment());
-- 
2.43.0


From d8a3cdb8c36483cffec76ad869cfed2883df528e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:07 +0000
Subject: [PATCH 02/58] fix: do not read the first of no range proofs

A transaction body without outputs made VerifyBulletproofs call front() on an
empty vector.
---
 src/Crypto/Bulletproofs.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Crypto/Bulletproofs.cpp b/src/Crypto/Bulletproofs.cpp
index 5088209..0f0bfeb 100644
--- a/src/Crypto/Bulletproofs.cpp
+++ b/src/Crypto/Bulletproofs.cpp
@@ -32,6 +32,10 @@ Bulletproofs::~Bulletproofs()
 
 bool Bulletproofs::VerifyBulletproofs(const std::vector<std::pair<Commitment, RangeProof>>& rangeProofs) const
 {
+	if (rangeProofs.empty()) {
+		return true;
+	}
+
 	std::shared_lock<std::shared_mutex> readLock(m_mutex);
 
 	const size_t numBits = 64;
-- 
2.43.0


From 9e1f1f6ffb2cb0ec32e58c9f93f1393c59544c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:34 +0000
Subject: [PATCH 03/58] fix: remember verified range proofs by proof, not by
 commitment alone

Any proof was accepted for a commitment whose proof had been verified before,
and one batch with proofs of different lengths read past the shorter ones.
---
 src/Crypto/BulletProofsCache.h | 11 ++++++-----
 src/Crypto/Bulletproofs.cpp    | 15 ++++++++++++---
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/Crypto/BulletProofsCache.h b/src/Crypto/BulletProofsCache.h
index 81aa04b..35b0e79 100644
--- a/src/Crypto/BulletProofsCache.h
+++ b/src/Crypto/BulletProofsCache.h
@@ -2,6 +2,7 @@
 
 #include <caches/Cache.h>
 #include <Crypto/Models/Commitment.h>
+#include <Crypto/Models/RangeProof.h>
 #include <mutex>
 
 class BulletProofsCache
@@ -13,20 +14,20 @@ public:
 
 	}
 
-	void AddToCache(const Commitment& commitment)
+	void AddToCache(const Commitment& commitment, const RangeProof& proof)
 	{
 		std::unique_lock<std::mutex> lock(m_mutex);
 
-		m_bulletproofsCache.Put(commitment, commitment);
+		m_bulletproofsCache.Put(commitment, proof);
 	}
 
-	bool WasAlreadyVerified(const Commitment& commitment) const
+	bool WasAlreadyVerified(const Commitment& commitment, const RangeProof& proof) const
 	{
 		std::unique_lock<std::mutex> lock(m_mutex);
 
 		if (m_bulletproofsCache.Cached(commitment))
 		{
-			return m_bulletproofsCache.Get(commitment) == commitment;
+			return m_bulletproofsCache.Get(commitment) == proof;
 		}
 
 		return false;
@@ -34,5 +35,5 @@ public:
 
 private:
 	mutable std::mutex m_mutex;
-	mutable LRUCache<Commitment, Commitment> m_bulletproofsCache;
+	mutable LRUCache<Commitment, RangeProof> m_bulletproofsCache;
 };
\ No newline at end of file
diff --git a/src/Crypto/Bulletproofs.cpp b/src/Crypto/Bulletproofs.cpp
index 0f0bfeb..094c2ad 100644
--- a/src/Crypto/Bulletproofs.cpp
+++ b/src/Crypto/Bulletproofs.cpp
@@ -44,13 +44,22 @@ bool Bulletproofs::VerifyBulletproofs(const std::vector<std::pair<Commitment, Ra
 	std::vector<Commitment> commitments;
 	commitments.reserve(rangeProofs.size());
 
+	std::vector<const RangeProof*> proofs;
+	proofs.reserve(rangeProofs.size());
+
 	std::vector<const unsigned char*> bulletproofPointers;
 	bulletproofPointers.reserve(rangeProofs.size());
 	for (const std::pair<Commitment, RangeProof>& rangeProof : rangeProofs)
 	{
-		if (!m_cache.WasAlreadyVerified(rangeProof.first))
+		if (rangeProof.second.GetProofBytes().size() != proofLength) {
+			LOG_ERROR_F("Rangeproof for {} has an unexpected length", rangeProof.first);
+			return false;
+		}
+
+		if (!m_cache.WasAlreadyVerified(rangeProof.first, rangeProof.second))
 		{
 			commitments.push_back(rangeProof.first);
+			proofs.push_back(&rangeProof.second);
 			bulletproofPointers.emplace_back(rangeProof.second.GetProofBytes().data());
 		}
 	}
@@ -79,9 +88,9 @@ bool Bulletproofs::VerifyBulletproofs(const std::vector<std::pair<Commitment, Ra
 		return false;
 	}
 
-	for (const Commitment& commitment : commitments)
+	for (size_t i = 0; i < commitments.size(); i++)
 	{
-		m_cache.AddToCache(commitment);
+		m_cache.AddToCache(commitments[i], *proofs[i]);
 	}
 
 	return true;
-- 
2.43.0


From 820b8a43464b664c6919fe353e9cf001b954debe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:33 +0000
Subject: [PATCH 04/58] fix: compare block timestamps with the clock in the
 same unit

GetMaxBlockTime returns the clock's native tick count (nanoseconds with
libstdc++) while header timestamps are seconds, so no header was ever too far in
the future.
---
 src/BlockChain/Validators/BlockHeaderValidator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/BlockChain/Validators/BlockHeaderValidator.cpp b/src/BlockChain/Validators/BlockHeaderValidator.cpp
index 41ab9ee..8ae20c8 100644
--- a/src/BlockChain/Validators/BlockHeaderValidator.cpp
+++ b/src/BlockChain/Validators/BlockHeaderValidator.cpp
@@ -16,7 +16,9 @@ void BlockHeaderValidator::Validate(const BlockHeader& header, const BlockHeader
     }
 
     // Validate Timestamp - Ensure timestamp not too far in the future
-    if (header.GetTimestamp() > Consensus::GetMaxBlockTime(std::chrono::system_clock::now())) {
+    // GetMaxBlockTime counts clock ticks, header timestamps count seconds.
+    const std::chrono::system_clock::duration maxBlockTime(Consensus::GetMaxBlockTime(std::chrono::system_clock::now()));
+    if (header.GetTimestamp() > std::chrono::duration_cast<std::chrono::seconds>(maxBlockTime).count()) {
         throw BAD_DATA_EXCEPTION_F(EBanReason::BadBlockHeader, "Timestamp beyond maxBlockTime for header {}", header);
     }
 
-- 
2.43.0


From 91c32eee09c41be7f95f575951eb73e537527cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:41 +0000
Subject: [PATCH 05/58] fix: a bad stored orphan no longer makes the node
 refuse the valid block that extends it

---
 src/BlockChain/Processors/BlockProcessor.cpp | 25 +++++++++++++++++---
 src/BlockChain/Processors/BlockProcessor.h   |  2 +-
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/BlockChain/Processors/BlockProcessor.cpp b/src/BlockChain/Processors/BlockProcessor.cpp
index d429276..9b5fbaa 100644
--- a/src/BlockChain/Processors/BlockProcessor.cpp
+++ b/src/BlockChain/Processors/BlockProcessor.cpp
@@ -71,7 +71,10 @@ EBlockChainStatus BlockProcessor::ProcessBlockInternal(const FullBlock& block)
 	}
 
 	if (info.status == EBlockStatus::REORG) {
-		HandleReorg(pBatch, info.reorgBlocks);
+		if (!HandleReorg(pBatch, info.reorgBlocks)) {
+			pOrphanPool->AddOrphanBlock(block);
+			return EBlockChainStatus::ORPHANED;
+		}
 	} else {
 		assert(info.status == EBlockStatus::NEXT_BLOCK);
 
@@ -129,7 +132,7 @@ BlockProcessor::BlockProcessingInfo BlockProcessor::DetermineBlockStatus(const F
 	return { EBlockStatus::REORG, reorgBlocks };
 }
 
-void BlockProcessor::HandleReorg(Writer<ChainState> pBatch, const std::vector<FullBlock::CPtr>& reorgBlocks)
+bool BlockProcessor::HandleReorg(Writer<ChainState> pBatch, const std::vector<FullBlock::CPtr>& reorgBlocks)
 {
 	const uint64_t totalDifficulty = pBatch->GetTotalDifficulty(EChainType::CONFIRMED);
 
@@ -152,7 +155,21 @@ void BlockProcessor::HandleReorg(Writer<ChainState> pBatch, const std::vector<Fu
 
 	for (const FullBlock::CPtr& pBlock : reorgBlocks)
 	{
-		ValidateAndAddBlock(*pBlock, pBatch);
+		try {
+			ValidateAndAddBlock(*pBlock, pBatch);
+		}
+		catch (const BadDataException&) {
+			// Orphans are stored before their body can be checked against the header.
+			// Forget the bad one, so that the real block can be received again.
+			pBatch->GetOrphanPool()->RemoveOrphan(pBlock->GetHeight(), pBlock->GetHash());
+			if (pBlock == reorgBlocks.back()) {
+				throw;
+			}
+
+			LOG_WARNING_F("Orphan {} was invalid", *pBlock);
+			pBatch->Rollback();
+			return false;
+		}
 	}
 
 	if (reorgBlocks.back()->GetTotalDifficulty() > totalDifficulty)
@@ -179,6 +196,8 @@ void BlockProcessor::HandleReorg(Writer<ChainState> pBatch, const std::vector<Fu
 
 		pBlockDB->Commit();
 	}
+
+	return true;
 }
 
 void BlockProcessor::ValidateAndAddBlock(const FullBlock& block, Writer<ChainState> pBatch)
diff --git a/src/BlockChain/Processors/BlockProcessor.h b/src/BlockChain/Processors/BlockProcessor.h
index f53a4ed..d1c0cdf 100644
--- a/src/BlockChain/Processors/BlockProcessor.h
+++ b/src/BlockChain/Processors/BlockProcessor.h
@@ -26,7 +26,7 @@ public:
 
 private:
 	EBlockChainStatus ProcessBlockInternal(const FullBlock& block);
-	void HandleReorg(Writer<ChainState> pBatch, const std::vector<FullBlock::CPtr>& reorgBlocks);
+	bool HandleReorg(Writer<ChainState> pBatch, const std::vector<FullBlock::CPtr>& reorgBlocks);
 	void ValidateAndAddBlock(const FullBlock& block, Writer<ChainState> pLockedState);
 
 	BlockProcessingInfo DetermineBlockStatus(const FullBlock& block, Writer<ChainState> pLockedState);
-- 
2.43.0


From 11e0e065b0997f58b6ceea4f481920b6459fd3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:47 +0000
Subject: [PATCH 06/58] fix: keep the verified proof's bytes in the range proof
 cache

---
 src/Crypto/BulletProofsCache.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Crypto/BulletProofsCache.h b/src/Crypto/BulletProofsCache.h
index 35b0e79..13badd9 100644
--- a/src/Crypto/BulletProofsCache.h
+++ b/src/Crypto/BulletProofsCache.h
@@ -4,6 +4,7 @@
 #include <Crypto/Models/Commitment.h>
 #include <Crypto/Models/RangeProof.h>
 #include <mutex>
+#include <vector>
 
 class BulletProofsCache
 {
@@ -18,7 +19,7 @@ public:
 	{
 		std::unique_lock<std::mutex> lock(m_mutex);
 
-		m_bulletproofsCache.Put(commitment, proof);
+		m_bulletproofsCache.Put(commitment, proof.GetProofBytes());
 	}
 
 	bool WasAlreadyVerified(const Commitment& commitment, const RangeProof& proof) const
@@ -27,7 +28,7 @@ public:
 
 		if (m_bulletproofsCache.Cached(commitment))
 		{
-			return m_bulletproofsCache.Get(commitment) == proof;
+			return m_bulletproofsCache.Get(commitment) == proof.GetProofBytes();
 		}
 
 		return false;
@@ -35,5 +36,5 @@ public:
 
 private:
 	mutable std::mutex m_mutex;
-	mutable LRUCache<Commitment, RangeProof> m_bulletproofsCache;
+	mutable LRUCache<Commitment, std::vector<unsigned char>> m_bulletproofsCache;
 };
\ No newline at end of file
-- 
2.43.0


From dffb9e977119539f96d6bf26019dc1dab8d8a694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:44 +0000
Subject: [PATCH 07/58] fix: release the locks held by a written object when
 committing or opening it throws

---
 include/Core/Traits/Lockable.h | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/Core/Traits/Lockable.h b/include/Core/Traits/Lockable.h
index c43a543..e8e8bfe 100644
--- a/include/Core/Traits/Lockable.h
+++ b/include/Core/Traits/Lockable.h
@@ -108,7 +108,15 @@ class Writer : public Reader<T>
 				m_pMutex->lock();
 			}
 
-			OnInitWrite(batched);
+			try
+			{
+				OnInitWrite(batched);
+			}
+			catch (...)
+			{
+				m_pMutex->unlock();
+				throw;
+			}
 		}
 
 		~InnerWriter()
@@ -123,9 +131,17 @@ class Writer : public Reader<T>
 				}
 				else
 				{
-					Commit();
+					try
+					{
+						Commit();
+					}
+					catch (std::exception&)
+					{
+						// TODO: Handle
+					}
 				}
 
+				// Must always run, since objects release the locks they hold here.
 				OnEndWrite();
 			}
 			catch (std::exception&)
-- 
2.43.0


From e25da39e8773333b1eca8563414a41e188a3a716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:44 +0000
Subject: [PATCH 08/58] fix: commit the database before the chain files, so a
 failing database write changes nothing

---
 src/BlockChain/ChainState.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/BlockChain/ChainState.cpp b/src/BlockChain/ChainState.cpp
index 7a0eb0a..36f4173 100644
--- a/src/BlockChain/ChainState.cpp
+++ b/src/BlockChain/ChainState.cpp
@@ -221,14 +221,15 @@ std::vector<std::pair<uint64_t, Hash>> ChainState::GetBlocksNeeded(const uint64_
 
 void ChainState::Commit()
 {
-	if (!m_chainStoreWriter.IsNull())
+	// The database goes first: when it can't be written, nothing else has changed yet.
+	if (!m_blockDBWriter.IsNull())
 	{
-		m_chainStoreWriter->Commit();
+		m_blockDBWriter->Commit();
 	}
 
-	if (!m_blockDBWriter.IsNull())
+	if (!m_chainStoreWriter.IsNull())
 	{
-		m_blockDBWriter->Commit();
+		m_chainStoreWriter->Commit();
 	}
 
 	if (!m_headerMMRWriter.IsNull())
-- 
2.43.0


From f90d2a9434bf8d2053200e9503ddc3f1f8331952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:44 +0000
Subject: [PATCH 09/58] fix: report a failed commit of a batch of database
 entries

---
 src/Database/RocksDB/RocksDB.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Database/RocksDB/RocksDB.h b/src/Database/RocksDB/RocksDB.h
index a959524..1e18d34 100644
--- a/src/Database/RocksDB/RocksDB.h
+++ b/src/Database/RocksDB/RocksDB.h
@@ -172,7 +172,12 @@ public:
 		}
 
 		if (pTempTransaction != nullptr) {
-			pTempTransaction->Commit();
+			status = pTempTransaction->Commit();
+			if (!status.ok())
+			{
+				LOG_ERROR_F("Transaction::Commit failed with error {}", status.getState());
+				throw DATABASE_EXCEPTION("Put Failed");
+			}
 		}
 	}
 
-- 
2.43.0


From 6f5b728bee3c212dc9904e68ec29ef12c5537972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:44 +0000
Subject: [PATCH 10/58] fix: remove a partial entry left at the end of a data
 file by an interrupted commit

---
 include/Core/File/DataFile.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/Core/File/DataFile.h b/include/Core/File/DataFile.h
index 49efd9d..d7d0614 100644
--- a/include/Core/File/DataFile.h
+++ b/include/Core/File/DataFile.h
@@ -21,6 +21,16 @@ public:
 		std::shared_ptr<AppendOnlyFile> pFile = std::make_shared<AppendOnlyFile>(path);
 		pFile->Load();
 
+		// An interrupted commit can leave part of an entry at the end of the file.
+		const uint64_t partial = pFile->GetSize() % NUM_BYTES;
+		if (partial != 0)
+		{
+			if (!pFile->Rewind(pFile->GetSize() - partial) || !pFile->Flush())
+			{
+				throw FILE_EXCEPTION_F("Failed to remove partial entry from {}", path);
+			}
+		}
+
 		return std::make_shared<DataFile>(DataFile(pFile));
 	}
 
-- 
2.43.0


From c1133219013bb17b8dc6aefd262562cc0c0c9dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:44 +0000
Subject: [PATCH 11/58] fix: report failing writes of data and bitmap files
 instead of ignoring them

---
 include/Core/File/AppendOnlyFile.h |  2 ++
 include/Core/File/BitmapFile.h     |  6 ++++--
 src/Core/File/AppendOnlyFile.cpp   |  6 +++++-
 src/Core/File/MappedFile_Nix.cpp   | 13 ++++++++++++-
 src/PMMR/TxHashSetImpl.cpp         | 19 ++++++++++++++-----
 5 files changed, 37 insertions(+), 9 deletions(-)

diff --git a/include/Core/File/AppendOnlyFile.h b/include/Core/File/AppendOnlyFile.h
index e7956df..39ab554 100644
--- a/include/Core/File/AppendOnlyFile.h
+++ b/include/Core/File/AppendOnlyFile.h
@@ -13,6 +13,7 @@ public:
 		: m_path(path),
 		m_bufferIndex(0),
 		m_fileSize(0),
+		m_flushFailed(false),
 		m_pMappedFile(nullptr) { }
 
 	AppendOnlyFile(const AppendOnlyFile& file) = delete;
@@ -40,6 +41,7 @@ private:
 	fs::path m_path;
 	uint64_t m_bufferIndex;
 	uint64_t m_fileSize;
+	bool m_flushFailed;
 	std::vector<unsigned char> m_buffer;
 	IMappedFile::UPtr m_pMappedFile;
 };
\ No newline at end of file
diff --git a/include/Core/File/BitmapFile.h b/include/Core/File/BitmapFile.h
index b58bf2c..20f9d29 100644
--- a/include/Core/File/BitmapFile.h
+++ b/include/Core/File/BitmapFile.h
@@ -64,12 +64,14 @@ public:
 			}
 
 			file.close();
+			const bool written = file.good();
 
 			std::error_code error;
 			m_mmap = mio::make_mmap_source(MPATH_STR, error);
-			if (error.value() != 0)
+			if (!written || error.value() != 0)
 			{
-				// TODO: Handle this
+				LOG_ERROR_F("Failed to write file: {}", m_path);
+				throw FILE_EXCEPTION_F("Failed to write file: {}", m_path);
 			}
 
 			m_modifiedBytes.clear();
diff --git a/src/Core/File/AppendOnlyFile.cpp b/src/Core/File/AppendOnlyFile.cpp
index 6b77226..04c0bb9 100644
--- a/src/Core/File/AppendOnlyFile.cpp
+++ b/src/Core/File/AppendOnlyFile.cpp
@@ -11,7 +11,7 @@ void AppendOnlyFile::Load()
 
 bool AppendOnlyFile::Flush()
 {
-	if (m_fileSize == m_bufferIndex && m_buffer.empty())
+	if (!m_flushFailed && m_fileSize == m_bufferIndex && m_buffer.empty())
 	{
 		return true;
 	}
@@ -23,12 +23,16 @@ bool AppendOnlyFile::Flush()
 
 	if (!m_pMappedFile->Write(m_bufferIndex, m_buffer))
 	{
+		// Only what is below the write position is known to be in the file.
+		m_fileSize = m_bufferIndex;
+		m_flushFailed = true;
 		return false;
 	}
 
 	m_fileSize = m_bufferIndex + m_buffer.size();
 	m_bufferIndex = m_fileSize;
 	m_buffer.clear();
+	m_flushFailed = false;
 
 	return true;
 }
diff --git a/src/Core/File/MappedFile_Nix.cpp b/src/Core/File/MappedFile_Nix.cpp
index 003beeb..450a439 100644
--- a/src/Core/File/MappedFile_Nix.cpp
+++ b/src/Core/File/MappedFile_Nix.cpp
@@ -43,7 +43,11 @@ bool MappedFile::Write(const size_t startIndex, const std::vector<uint8_t>& data
 
 	Unmap();
 
-	FileUtil::TruncateFile(m_path, startIndex);
+	if (!FileUtil::TruncateFile(m_path, startIndex))
+	{
+		LOG_ERROR_F("Failed to truncate file: {}", m_path);
+		return false;
+	}
 
 	if (!data.empty())
 	{
@@ -57,6 +61,13 @@ bool MappedFile::Write(const size_t startIndex, const std::vector<uint8_t>& data
 		file.seekp(startIndex, std::ios::beg);
 		file.write((const char*)data.data(), data.size());
 		file.close();
+
+		if (!file.good())
+		{
+			LOG_ERROR_F("Failed to write file: {}", m_path);
+			FileUtil::TruncateFile(m_path, startIndex);
+			return false;
+		}
 	}
 
 	return true;
diff --git a/src/PMMR/TxHashSetImpl.cpp b/src/PMMR/TxHashSetImpl.cpp
index 244040f..d2f71cb 100644
--- a/src/PMMR/TxHashSetImpl.cpp
+++ b/src/PMMR/TxHashSetImpl.cpp
@@ -11,6 +11,7 @@
 #include <Database/BlockDb.h>
 #include <Common/Logger.h>
 #include <P2P/SyncStatus.h>
+#include <future>
 #include <thread>
 
 TxHashSet::TxHashSet(
@@ -372,11 +373,19 @@ void TxHashSet::Rewind(std::shared_ptr<IBlockDB> pBlockDB, const BlockHeader& he
 
 void TxHashSet::Commit()
 {
-	std::vector<std::thread> threads;
-	threads.emplace_back(std::thread([this] { this->m_pKernelMMR->Commit(); }));
-	threads.emplace_back(std::thread([this] { this->m_pOutputPMMR->Commit(); }));
-	threads.emplace_back(std::thread([this] { this->m_pRangeProofPMMR->Commit(); }));
-	ThreadUtil::JoinAll(threads);
+	std::vector<std::future<void>> commits;
+	commits.push_back(std::async(std::launch::async, [this] { this->m_pKernelMMR->Commit(); }));
+	commits.push_back(std::async(std::launch::async, [this] { this->m_pOutputPMMR->Commit(); }));
+	commits.push_back(std::async(std::launch::async, [this] { this->m_pRangeProofPMMR->Commit(); }));
+	for (auto& commit : commits)
+	{
+		commit.wait();
+	}
+
+	for (auto& commit : commits)
+	{
+		commit.get(); // Rethrows the exception if the commit failed.
+	}
 
 	m_pBlockHeaderBackup = m_pBlockHeader;
 }
-- 
2.43.0


From 23ee0aec60affc9d03b114f491eb65bc0b07de81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:44 +0000
Subject: [PATCH 12/58] fix: SharedQueue::empty reads the queue under its lock

---
 include/Common/SharedQueue.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Common/SharedQueue.h b/include/Common/SharedQueue.h
index 335816e..b79d2fb 100644
--- a/include/Common/SharedQueue.h
+++ b/include/Common/SharedQueue.h
@@ -59,6 +59,7 @@ public:
 
     bool empty()
     {
+        std::unique_lock<std::mutex> mlock(mutex_);
         return queue_.empty();
     }
 
-- 
2.43.0


From 794f7190921f5f69999eccc91dd05d0941a42bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:03 +0000
Subject: [PATCH 13/58] fix: replace files by one rename and report failing
 reads and writes

---
 src/Common/Util/FileUtil.cpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/Common/Util/FileUtil.cpp b/src/Common/Util/FileUtil.cpp
index d6520fc..1626e58 100644
--- a/src/Common/Util/FileUtil.cpp
+++ b/src/Common/Util/FileUtil.cpp
@@ -29,7 +29,13 @@ bool FileUtil::ReadFile(const fs::path& filePath, std::vector<uint8_t>& data)
 	data.resize((size_t)size);
 
 	file.seekg(0, std::ios::beg);
-	file.read((char*)&data[0], size);
+	file.read((char*)data.data(), size);
+	if (!file.good())
+	{
+		LOG_ERROR_F("Failed to read {}", filePath);
+		throw FILE_EXCEPTION_F("Failed to read {}", filePath);
+	}
+
 	file.close();
 
 	return true;
@@ -38,13 +44,6 @@ bool FileUtil::ReadFile(const fs::path& filePath, std::vector<uint8_t>& data)
 void FileUtil::RenameFile(const fs::path& source, const fs::path& destination)
 {
 	std::error_code ec;
-	fs::remove(destination, ec);
-	if (ec)
-	{
-		LOG_ERROR_F("Failed to remove {}. Error: {}", destination, ec.message());
-		throw FILE_EXCEPTION_F("Failed to remove {}. Error: {}", destination, ec.message());
-	}
-
 	fs::rename(source, destination, ec);
 	if (ec)
 	{
@@ -63,9 +62,16 @@ void FileUtil::SafeWriteToFile(const fs::path& filePath, const std::vector<uint8
 		throw FILE_EXCEPTION_F("Failed to open {}", tmpFilePath);
 	}
 
-	file.write((const char*)&data[0], data.size());
+	file.write((const char*)data.data(), data.size());
 	file.close();
 
+	if (!file.good())
+	{
+		LOG_ERROR_F("Failed to write {}", tmpFilePath);
+		RemoveFile(tmpFilePath);
+		throw FILE_EXCEPTION_F("Failed to write {}", tmpFilePath);
+	}
+
 	RenameFile(tmpFilePath, filePath);
 }
 
-- 
2.43.0


From 70785e90aaf464b81dea4c68384fcbe7ff0c0039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:03 +0000
Subject: [PATCH 14/58] fix: write the settings atomically, keep settings that
 cannot be read, and build each change on the last one

---
 src/API/Node/Handlers/UpdateConfigHandler.h | 28 +++++++++++++--------
 src/Core/Config.cpp                         | 26 +++++++++----------
 2 files changed, 30 insertions(+), 24 deletions(-)

diff --git a/src/API/Node/Handlers/UpdateConfigHandler.h b/src/API/Node/Handlers/UpdateConfigHandler.h
index f687916..6e38840 100644
--- a/src/API/Node/Handlers/UpdateConfigHandler.h
+++ b/src/API/Node/Handlers/UpdateConfigHandler.h
@@ -3,10 +3,11 @@
 #include <Core/Config.h>
 #include <Core/Global.h>
 #include <Core/Util/JsonUtil.h>
+#include <Common/Util/FileUtil.h>
 #include <Net/Servers/RPC/RPCMethod.h>
 #include <API/Wallet/Owner/Models/Errors.h>
 #include <optional>
-#include <fstream>
+#include <sstream>
 
 class UpdateConfigHandler : public RPCMethod
 {
@@ -166,17 +167,22 @@ public:
 		}
 		
 		fs::path config_path = config.GetDataDirectory() / "server_config.json";
-		std::ofstream file(config_path, std::ios::out | std::ios::binary | std::ios::ate);
-		if (file.is_open()) {
-			file << config_json;
-			file.close();
-
-			Json::Value result_json;
-			return request.BuildResult(result_json);
-		} else {
-			LOG_ERROR("Failed to save config file at: {}", config_path.u8string());
+		try {
+			std::stringstream json;
+			json << config_json;
+			const std::string text = json.str();
+			FileUtil::SafeWriteToFile(config_path, std::vector<uint8_t>(text.cbegin(), text.cend()));
+		}
+		catch (std::exception& e) {
+			LOG_ERROR_F("Failed to save config file at: {}", config_path);
 			return request.BuildError("INTERNAL_ERROR", "Failed to save config file at: " + config_path.u8string());
-		}		
+		}
+
+		// Later updates must be based on the settings that were just saved.
+		config.GetJSON() = config_json;
+
+		Json::Value result_json;
+		return request.BuildResult(result_json);
 	}
 
 	bool ContainsSecrets() const noexcept final { return false; }
diff --git a/src/Core/Config.cpp b/src/Core/Config.cpp
index fc4d0f6..4b18c55 100644
--- a/src/Core/Config.cpp
+++ b/src/Core/Config.cpp
@@ -8,11 +8,12 @@
 #include <Common/Logger.h>
 #include <Common/Util/FileUtil.h>
 #include <Common/Util/StringUtil.h>
+#include <Core/Exceptions/DeserializationException.h>
 #include <Core/Exceptions/FileException.h>
 #include <Core/Util/JsonUtil.h>
 #include <Net/IPAddress.h>
 
-#include <fstream>
+#include <sstream>
 #include <unordered_set>
 
 struct Config::Impl
@@ -58,15 +59,19 @@ Config::Ptr Config::Load(const fs::path& configPath, const Environment environme
 	std::shared_ptr<Config> pConfig = nullptr;
 	
 	// Read config file
-	try {
+	if (FileUtil::Exists(configPath)) {
 		std::vector<unsigned char> data;
 		if (!FileUtil::ReadFile(configPath, data)) {
 			LOG_ERROR_F("Failed to open config file at: {}", configPath);
 			throw FILE_EXCEPTION_F("Failed to open config file at: {}", configPath);
 		}
-		pConfig = Config::Load(JsonUtil::Parse(data), environment);
+
+		try {
+			pConfig = Config::Load(JsonUtil::Parse(data), environment);
+		}
+		catch (const DeserializationException&) { }
+		catch (const Json::Exception&) { }
 	}
-	catch (...) { }
 	
 	if (pConfig == nullptr || pConfig->GetJSON().empty()) {
 		pConfig = Config::Default(environment);
@@ -75,15 +80,10 @@ Config::Ptr Config::Load(const fs::path& configPath, const Environment environme
 	FileUtil::CreateDirectories(pConfig->GetDataDirectory());
 
 	// Update config file
-	Json::Value& json = pConfig->GetJSON();
-	std::ofstream file(configPath, std::ios::out | std::ios::binary | std::ios::ate);
-	if (!file.is_open()) {
-		LOG_ERROR_F("Failed to save config file at: {}", configPath);
-		throw FILE_EXCEPTION_F("Failed to save config file at: {}", configPath);
-	}
-
-	file << json;
-	file.close();
+	std::stringstream json;
+	json << pConfig->GetJSON();
+	const std::string text = json.str();
+	FileUtil::SafeWriteToFile(configPath, std::vector<uint8_t>(text.cbegin(), text.cend()));
 
 	return pConfig;
 }
-- 
2.43.0


From 23ecb38da9c5da334027aa918d0e06633a591e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:03 +0000
Subject: [PATCH 15/58] fix: replace the torrc file in one step

---
 src/Core/Config/TorConfig.h | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/Core/Config/TorConfig.h b/src/Core/Config/TorConfig.h
index 3284f2e..c734740 100644
--- a/src/Core/Config/TorConfig.h
+++ b/src/Core/Config/TorConfig.h
@@ -194,6 +194,19 @@ private:
 	fs::path m_torDataPath;
 	fs::path m_torrcPath;
 
+	fs::path GetTempTorrcPath() const { return m_torDataPath / ".torrc.tmp"; }
+
+	// Replaces the torrc file in one step. When the new file couldn't be written, the old one is kept.
+	void ReplaceTorrc(const bool written) const noexcept
+	{
+		std::error_code ec;
+		if (written) {
+			fs::rename(GetTempTorrcPath(), m_torrcPath, ec);
+		} else {
+			fs::remove(GetTempTorrcPath(), ec);
+		}
+	}
+
 	void AddObfs4Config() const noexcept
 	{
 		AddRequiredHeadersTorBridges(false);
@@ -212,7 +225,7 @@ private:
 		std::string line;
 		
 		std::ofstream newConfigFile;
-		newConfigFile.open("temp.torrc", std::ofstream::out | std::ofstream::trunc);
+		newConfigFile.open(GetTempTorrcPath(), std::ofstream::out | std::ofstream::trunc);
 		newConfigFile << "UseBridges 1" << "\n";
 		if (snowflake)
 		{
@@ -247,8 +260,7 @@ private:
 		
 		newConfigFile.close();
 		configFile.close();
-		remove(m_torrcPath);
-		rename("temp.torrc", m_torrcPath);
+		ReplaceTorrc(newConfigFile.good());
 		
 		return;
 	}
@@ -259,7 +271,7 @@ private:
 		std::string line;
 
 		std::ofstream newConfigFile;
-		newConfigFile.open("temp.torrc", std::ofstream::out | std::ofstream::trunc);
+		newConfigFile.open(GetTempTorrcPath(), std::ofstream::out | std::ofstream::trunc);
 
 		while (std::getline(configFile, line))
 		{
@@ -276,8 +288,7 @@ private:
 
 		newConfigFile.close();
 		configFile.close();
-		remove(m_torrcPath);
-		rename("temp.torrc", m_torrcPath);
+		ReplaceTorrc(newConfigFile.good());
 
 		return;
 	}
@@ -288,7 +299,7 @@ private:
 		std::string line;
 		
 		std::ofstream newConfigFile;
-		newConfigFile.open("temp.torrc", std::ofstream::out | std::ofstream::trunc);
+		newConfigFile.open(GetTempTorrcPath(), std::ofstream::out | std::ofstream::trunc);
 
 		while (std::getline(configFile, line))
 		{
@@ -306,8 +317,7 @@ private:
 
 		newConfigFile.close();
 		configFile.close();
-		remove(m_torrcPath);
-		rename("temp.torrc", m_torrcPath);
+		ReplaceTorrc(newConfigFile.good());
 
 		return;
 	}
-- 
2.43.0


From e7c6fb2908b60dbbec8bc15532f84c50b46e411d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:42 +0000
Subject: [PATCH 16/58] fix: refuse a transaction that is not valid together
 with the mempool

---
 src/TxPool/TransactionPoolImpl.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/TxPool/TransactionPoolImpl.cpp b/src/TxPool/TransactionPoolImpl.cpp
index a3a5529..aafb276 100644
--- a/src/TxPool/TransactionPoolImpl.cpp
+++ b/src/TxPool/TransactionPoolImpl.cpp
@@ -69,6 +69,14 @@ EAddTransactionStatus TransactionPool::AddTransaction(
 
 	if (poolType == EPoolType::MEMPOOL)
 	{
+		// The transaction must also be valid together with those already in the mempool.
+		auto pMemPoolAggTx = m_memPool.Aggregate();
+		if (pMemPoolAggTx != nullptr && ValidTransactionFinder::FindValidTransactions(pBlockDB, pTxHashSet, { pTransaction }, pMemPoolAggTx).empty())
+		{
+			LOG_WARNING_F("Transaction conflicts with the mempool ({})", *pTransaction);
+			return EAddTransactionStatus::NOT_ADDED;
+		}
+
 		m_memPool.AddTransaction(pTransaction, EDandelionStatus::FLUFFED);
 		m_stemPool.RemoveTransaction(*pTransaction);
 	}
-- 
2.43.0


From d2671605a5596ca41f30c6863584686ba28e4e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:42 +0000
Subject: [PATCH 17/58] fix: evict transactions that a reorg made too early for
 the next block

---
 src/TxPool/Pool.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/TxPool/Pool.cpp b/src/TxPool/Pool.cpp
index b875915..e67ee71 100644
--- a/src/TxPool/Pool.cpp
+++ b/src/TxPool/Pool.cpp
@@ -198,6 +198,12 @@ bool Pool::ShouldEvict(const Transaction& transaction, const FullBlock& block) c
 		{
 			return true;
 		}
+
+		// After a reorg, the next block can be lower than when the transaction was added.
+		if (kernel.GetLockHeight() > block.GetHeight() + 1)
+		{
+			return true;
+		}
 	}
 
 	return false;
-- 
2.43.0


From 02db9be456dde32632ec31f34fba9350d57ae093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:42 +0000
Subject: [PATCH 18/58] fix: update the transaction pool only once the block is
 committed

---
 src/BlockChain/Processors/BlockProcessor.cpp | 16 ++++++++++++++--
 src/BlockChain/Processors/BlockProcessor.h   |  1 +
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/BlockChain/Processors/BlockProcessor.cpp b/src/BlockChain/Processors/BlockProcessor.cpp
index 9b5fbaa..550b061 100644
--- a/src/BlockChain/Processors/BlockProcessor.cpp
+++ b/src/BlockChain/Processors/BlockProcessor.cpp
@@ -81,6 +81,7 @@ EBlockChainStatus BlockProcessor::ProcessBlockInternal(const FullBlock& block)
 		ValidateAndAddBlock(block, pBatch);
 		pConfirmedChain->AddBlock(block.GetHash(), block.GetHeight());
 		pBatch->Commit();
+		ReconcileTxPool(pBatch, { std::make_shared<const FullBlock>(block) });
 	}
 
 	return EBlockChainStatus::SUCCESS;
@@ -182,6 +183,7 @@ bool BlockProcessor::HandleReorg(Writer<ChainState> pBatch, const std::vector<Fu
 		}
 
 		pBatch->Commit();
+		ReconcileTxPool(pBatch, reorgBlocks);
 	}
 	else
 	{
@@ -205,7 +207,6 @@ void BlockProcessor::ValidateAndAddBlock(const FullBlock& block, Writer<ChainSta
 	auto pOrphanPool = pBatch->GetOrphanPool();
 	auto pBlockDB = pBatch->GetBlockDB();
 	auto pTxHashSet = pBatch->GetTxHashSetManager()->GetTxHashSet();
-	auto pTxPool = pBatch->GetTransactionPool();
 
 	const Hash& previousHash = block.GetPreviousHash();
 	auto pPreviousHeader = pBlockDB->GetBlockHeader(previousHash);
@@ -240,5 +241,16 @@ void BlockProcessor::ValidateAndAddBlock(const FullBlock& block, Writer<ChainSta
 	pBlockDB->AddBlockSums(block.GetHash(), blockSums);
 	pBlockDB->AddBlock(block);
 	pOrphanPool->RemoveOrphan(block.GetHeight(), block.GetHash());
-	pTxPool->ReconcileBlock(pBlockDB, pTxHashSet, block);
+}
+
+void BlockProcessor::ReconcileTxPool(Writer<ChainState> pBatch, const std::vector<FullBlock::CPtr>& blocks)
+{
+	auto pBlockDB = pBatch->GetBlockDB();
+	auto pTxHashSet = pBatch->GetTxHashSetManager()->GetTxHashSet();
+	auto pTxPool = pBatch->GetTransactionPool();
+
+	for (const FullBlock::CPtr& pBlock : blocks)
+	{
+		pTxPool->ReconcileBlock(pBlockDB, pTxHashSet, *pBlock);
+	}
 }
\ No newline at end of file
diff --git a/src/BlockChain/Processors/BlockProcessor.h b/src/BlockChain/Processors/BlockProcessor.h
index d1c0cdf..6db664b 100644
--- a/src/BlockChain/Processors/BlockProcessor.h
+++ b/src/BlockChain/Processors/BlockProcessor.h
@@ -28,6 +28,7 @@ private:
 	EBlockChainStatus ProcessBlockInternal(const FullBlock& block);
 	bool HandleReorg(Writer<ChainState> pBatch, const std::vector<FullBlock::CPtr>& reorgBlocks);
 	void ValidateAndAddBlock(const FullBlock& block, Writer<ChainState> pLockedState);
+	void ReconcileTxPool(Writer<ChainState> pLockedState, const std::vector<FullBlock::CPtr>& blocks);
 
 	BlockProcessingInfo DetermineBlockStatus(const FullBlock& block, Writer<ChainState> pLockedState);
 
-- 
2.43.0


From b359601232563e7ae51ff3455801596826def50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:32 +0000
Subject: [PATCH 19/58] fix: coin selection doesn't overflow and respects the
 fee when all coins are selected

---
 src/Wallet/SlateBuilder/CoinSelection.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Wallet/SlateBuilder/CoinSelection.cpp b/src/Wallet/SlateBuilder/CoinSelection.cpp
index e1e7774..e9630ef 100644
--- a/src/Wallet/SlateBuilder/CoinSelection.cpp
+++ b/src/Wallet/SlateBuilder/CoinSelection.cpp
@@ -53,7 +53,7 @@ std::vector<OutputDataEntity> CoinSelection::SelectUsingSmallestInputs(
 		selectedCoins.push_back(coin);
 
 		const uint64_t fee = FeeUtil::CalculateFee(feeBase, (int64_t)selectedCoins.size(), numOutputs, numKernels);
-		if (amountFound >= (amount + fee))
+		if (amountFound >= fee && (amountFound - fee) >= amount)
 		{
 			return selectedCoins;
 		}
@@ -81,7 +81,7 @@ std::vector<OutputDataEntity> CoinSelection::SelectUsingFewestInputs(
 		selectedCoins.push_back(coin);
 
 		const uint64_t fee = FeeUtil::CalculateFee(feeBase, (int64_t)selectedCoins.size(), numOutputs, numKernels);
-		if (amountFound >= (amount + fee)) {
+		if (amountFound >= fee && (amountFound - fee) >= amount) {
 			return selectedCoins;
 		}
 	}
@@ -105,7 +105,7 @@ std::vector<OutputDataEntity> CoinSelection::SelectUsingAllInputs(
 	}
 
 	const uint64_t fee = FeeUtil::CalculateFee(feeBase, (int64_t)availableCoins.size(), numOutputs, numKernels);
-	if (amount < amount + fee) {
+	if (amountFound >= fee && (amountFound - fee) >= amount) {
 		return availableCoins;
 	}
 
@@ -134,7 +134,7 @@ std::vector<OutputDataEntity> CoinSelection::SelectUsingCustomInputs(
 	}
 
 	const uint64_t fee = FeeUtil::CalculateFee(feeBase, (int64_t)selectedCoins.size(), numOutputs, numKernels);
-	if (amountFound >= (amount + fee))
+	if (amountFound >= fee && (amountFound - fee) >= amount)
 	{
 		return selectedCoins;
 	}
-- 
2.43.0


From 2c91a6e4d7575363a0973754b1ad5753edf324c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:32 +0000
Subject: [PATCH 20/58] fix: sending the entire balance fails when it doesn't
 cover the fee

---
 src/Wallet/SlateBuilder/SendSlateBuilder.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Wallet/SlateBuilder/SendSlateBuilder.cpp b/src/Wallet/SlateBuilder/SendSlateBuilder.cpp
index 31d4408..59ee150 100644
--- a/src/Wallet/SlateBuilder/SendSlateBuilder.cpp
+++ b/src/Wallet/SlateBuilder/SendSlateBuilder.cpp
@@ -11,6 +11,7 @@
 #include <Common/Logger.h>
 #include <Net/Tor/TorAddressParser.h>
 #include <Crypto/ED25519.h>
+#include <Wallet/Exceptions/InsufficientFundsException.h>
 #include <Wallet/Models/Slatepack/Armor.h>
 
 SendSlateBuilder::SendSlateBuilder(INodeClientConstPtr pNodeClient)
@@ -66,10 +67,15 @@ Slate SendSlateBuilder::BuildSendSlate(
 		(int64_t)totalNumOutputs,
 		(int64_t)numKernels
 	);
+	if (sendEntireBalance && inputTotal <= fee)
+	{
+		WALLET_ERROR("Not enough funds.");
+		throw InsufficientFundsException();
+	}
+
 	uint64_t amountToSend = sendEntireBalance ? (inputTotal - fee) : amount;
 	if (numChangeOutputs == 0)
 	{
-		assert((inputTotal - amountToSend) >= fee); // TODO: Exception
 		fee = inputTotal - amountToSend;
 	}
 
-- 
2.43.0


From a144e4c074c40070eea17c724af3a523954dbe82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:32 +0000
Subject: [PATCH 21/58] fix: only finalise the started send of a slate, and
 only once

---
 src/Wallet/SlateBuilder/FinalizeSlateBuilder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Wallet/SlateBuilder/FinalizeSlateBuilder.cpp b/src/Wallet/SlateBuilder/FinalizeSlateBuilder.cpp
index 65e3b6e..a0d8f32 100644
--- a/src/Wallet/SlateBuilder/FinalizeSlateBuilder.cpp
+++ b/src/Wallet/SlateBuilder/FinalizeSlateBuilder.cpp
@@ -20,8 +20,8 @@ std::pair<Slate, Transaction> FinalizeSlateBuilder::Finalize(const Slate& rcvSla
 	// Load original send Slate
 	Slate sendSlate = m_pWallet->GetSlate(finalizeSlate.GetId(), ESlateStage::STANDARD_SENT);
 
-	// Load WalletTx
-	WalletTx walletTx = m_pWallet->GetTransactionBySlateId(finalizeSlate.GetId());
+	// Load WalletTx. Only a payment that was neither finalized nor canceled yet can be finalized.
+	WalletTx walletTx = m_pWallet->GetTransactionBySlateId(finalizeSlate.GetId(), EWalletTxType::SENDING_STARTED);
 
 	// Load private context
 	SlateContextEntity slateContext = m_pWallet->GetSlateContext(finalizeSlate.GetId());
-- 
2.43.0


From 3068132ec3c24bc940a7bd40c4114035e6428b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:32 +0000
Subject: [PATCH 22/58] fix: check all transactions of a slate before receiving
 it

---
 src/Wallet/SlateBuilder/ReceiveSlateBuilder.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/Wallet/SlateBuilder/ReceiveSlateBuilder.cpp b/src/Wallet/SlateBuilder/ReceiveSlateBuilder.cpp
index 88c6502..7c03bc9 100644
--- a/src/Wallet/SlateBuilder/ReceiveSlateBuilder.cpp
+++ b/src/Wallet/SlateBuilder/ReceiveSlateBuilder.cpp
@@ -92,9 +92,13 @@ bool ReceiveSlateBuilder::VerifySlateStatus(
 	const Slate& slate) const
 {
 	// Slate was already received.
-	std::unique_ptr<WalletTx> pWalletTx = pWallet->GetTxBySlateId(masterSeed, slate.GetId());
-	if (pWalletTx != nullptr) {
-		const EWalletTxType status = pWalletTx->GetType();
+	// There can be several transactions for the slate: one for each canceled attempt, and the sender's when sending to self.
+	for (const WalletTx& walletTx : pWallet->GetDatabase().Read()->GetTransactions(masterSeed)) {
+		if (!walletTx.GetSlateId().has_value() || walletTx.GetSlateId().value() != slate.GetId()) {
+			continue;
+		}
+
+		const EWalletTxType status = walletTx.GetType();
 		if (status != EWalletTxType::RECEIVED_CANCELED && status != EWalletTxType::SENDING_STARTED) {
 			WALLET_ERROR_F("Already received slate {}", uuids::to_string(slate.GetId()));
 			return false;
-- 
2.43.0


From cadfd764bc54ac54506e71141673f204d947caf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:32 +0000
Subject: [PATCH 23/58] fix: coins of a pending send stay locked when a reorg
 brings them back

---
 src/Wallet/WalletRefresher.cpp | 70 ++++++++++++++++++++++++++++------
 src/Wallet/WalletRefresher.h   |  3 +-
 2 files changed, 61 insertions(+), 12 deletions(-)

diff --git a/src/Wallet/WalletRefresher.cpp b/src/Wallet/WalletRefresher.cpp
index fa03b1f..00fc11d 100644
--- a/src/Wallet/WalletRefresher.cpp
+++ b/src/Wallet/WalletRefresher.cpp
@@ -7,6 +7,7 @@
 #include <Wallet/NodeClient.h>
 #include <Wallet/WalletDB/WalletDB.h>
 #include <unordered_map>
+#include <unordered_set>
 
 // TODO: Rewrite this && use cache - Shouldn't refresh when block height = same
 // 0. Initial login after upgrade - for every output, find matching WalletTx and update OutputDataEntity TxId. If none found, create new WalletTx.
@@ -64,7 +65,7 @@ std::vector<OutputDataEntity> WalletRefresher::Refresh(const SecureVector& maste
     }
 
     // 3. Refresh status for all wallet outputs
-    RefreshOutputs(masterSeed, pBatch, walletOutputs);
+    RefreshOutputs(masterSeed, pBatch, walletOutputs, walletTransactions);
 
     // 4. For all wallet outputs, update matching WalletTx status.
     RefreshTransactions(masterSeed, pBatch, walletOutputs, walletTransactions);
@@ -101,8 +102,24 @@ std::vector<OutputDataEntity> WalletRefresher::FindNewOutputs(
     return new_outputs;
 }
 
-void WalletRefresher::RefreshOutputs(const SecureVector& masterSeed, Writer<IWalletDB> pBatch, std::vector<OutputDataEntity>& walletOutputs)
+void WalletRefresher::RefreshOutputs(
+    const SecureVector& masterSeed,
+    Writer<IWalletDB> pBatch,
+    std::vector<OutputDataEntity>& walletOutputs,
+    const std::vector<WalletTx>& walletTransactions)
 {
+    // Coins used by a payment that was not canceled. After a reorg, these may be on chain again.
+    std::unordered_set<Commitment> usedCommitments;
+    for (const WalletTx& walletTx : walletTransactions) {
+        const EWalletTxType type = walletTx.GetType();
+        const bool isSend = type == EWalletTxType::SENDING_STARTED || type == EWalletTxType::SENDING_FINALIZED || type == EWalletTxType::SENT;
+        if (isSend && walletTx.GetTransaction().has_value()) {
+            for (const TransactionInput& input : walletTx.GetTransaction().value().GetInputs()) {
+                usedCommitments.insert(input.GetCommitment());
+            }
+        }
+    }
+
     std::vector<Commitment> commitments;
     std::transform(
         walletOutputs.begin(), walletOutputs.end(),
@@ -119,18 +136,18 @@ void WalletRefresher::RefreshOutputs(const SecureVector& masterSeed, Writer<IWal
         auto iter = outputLocations.find(outputData.GetCommitment());
         if (iter != outputLocations.cend()) {
             // Output is on chain, so unless it's being spent, then we can mark it as spendable.
-            if (current_status == EOutputStatus::LOCKED) {
-                continue;
-            }
+            const bool isUsed = current_status == EOutputStatus::LOCKED || usedCommitments.count(outputData.GetCommitment()) > 0;
+            const EOutputStatus new_status = isUsed ? EOutputStatus::LOCKED : EOutputStatus::SPENDABLE;
+            const uint64_t block_height = iter->second.GetBlockHeight();
 
-            // If spendable status, it's already up-to-date.
-            if (current_status == EOutputStatus::SPENDABLE) {
+            // If status and height are unchanged, it's already up-to-date.
+            if (current_status == new_status && outputData.GetBlockHeight().value_or(0) == block_height) {
                 continue;
             }
 
-            WALLET_DEBUG_F("Marking output as spendable: {}", outputData);
-            outputData.SetBlockHeight(iter->second.GetBlockHeight());
-            outputData.SetStatus(EOutputStatus::SPENDABLE);
+            WALLET_DEBUG_F("Marking output as {}: {}", OutputStatus::ToString(new_status), outputData);
+            outputData.SetBlockHeight(block_height);
+            outputData.SetStatus(new_status);
             pBatch->SaveOutput(masterSeed, outputData);
         } else {
             // NO_CONFIRMATIONS means the output is being received, but hasn't been seen on chain yet.
@@ -166,6 +183,26 @@ void WalletRefresher::RefreshTransactions(
         walletTransactionsById.insert({ walletTx.GetId(), walletTx });
     }
 
+    // A payment with an input that's still on chain is not confirmed.
+    std::unordered_set<Commitment> lockedCommitments;
+    for (const OutputDataEntity& output : refreshedOutputs) {
+        if (output.GetStatus() == EOutputStatus::LOCKED) {
+            lockedCommitments.insert(output.GetCommitment());
+        }
+    }
+
+    auto isUnconfirmed = [&lockedCommitments](const WalletTx& walletTx) -> bool {
+        if (walletTx.GetTransaction().has_value()) {
+            for (const TransactionInput& input : walletTx.GetTransaction().value().GetInputs()) {
+                if (lockedCommitments.count(input.GetCommitment()) > 0) {
+                    return true;
+                }
+            }
+        }
+
+        return false;
+    };
+
     for (const OutputDataEntity& output : refreshedOutputs) {
         if (output.GetWalletTxId().has_value()) {
             auto iter = walletTransactionsById.find(output.GetWalletTxId().value());
@@ -180,7 +217,7 @@ void WalletRefresher::RefreshTransactions(
 
                         walletTx.SetType(EWalletTxType::RECEIVED);
                         pBatch->AddTransaction(masterSeed, walletTx);
-                    } else if (walletTx.GetType() == EWalletTxType::SENDING_FINALIZED) {
+                    } else if (walletTx.GetType() == EWalletTxType::SENDING_FINALIZED && !isUnconfirmed(walletTx)) {
                         WALLET_DEBUG_F("Marking transaction as sent: {}", walletTx.GetId());
 
                         walletTx.SetType(EWalletTxType::SENT);
@@ -193,6 +230,17 @@ void WalletRefresher::RefreshTransactions(
 
     for (WalletTx& walletTx : walletTransactions) {
         const auto& tx = walletTx.GetTransaction();
+        if (isUnconfirmed(walletTx)) {
+            if (walletTx.GetType() == EWalletTxType::SENT) {
+                WALLET_DEBUG_F("Transaction was reorged out. Marking as finalized: {}", walletTx.GetId());
+
+                walletTx.SetType(EWalletTxType::SENDING_FINALIZED);
+                pBatch->AddTransaction(masterSeed, walletTx);
+            }
+
+            continue;
+        }
+
         if (tx.has_value() && walletTx.GetType() == EWalletTxType::SENDING_FINALIZED) {
             for (const TransactionOutput& output : tx.value().GetOutputs()) {
                 auto pOutputData = FindOutput(refreshedOutputs, output.GetCommitment());
diff --git a/src/Wallet/WalletRefresher.h b/src/Wallet/WalletRefresher.h
index 6cb8825..2f37a55 100644
--- a/src/Wallet/WalletRefresher.h
+++ b/src/Wallet/WalletRefresher.h
@@ -37,7 +37,8 @@ private:
 	void RefreshOutputs(
 		const SecureVector& masterSeed,
 		Writer<IWalletDB> pBatch,
-		std::vector<OutputDataEntity>& walletOutputs
+		std::vector<OutputDataEntity>& walletOutputs,
+		const std::vector<WalletTx>& walletTransactions
 	);
 
 	void RefreshTransactions(
-- 
2.43.0


From a054bdbee22be3a0a485eccff00c1262dc8f642a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:32 +0000
Subject: [PATCH 24/58] fix: a failed commit of the wallet database is rolled
 back and doesn't terminate the process

---
 src/Wallet/WalletDB/Sqlite/SqliteTransaction.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/Wallet/WalletDB/Sqlite/SqliteTransaction.h b/src/Wallet/WalletDB/Sqlite/SqliteTransaction.h
index 83be377..386e579 100644
--- a/src/Wallet/WalletDB/Sqlite/SqliteTransaction.h
+++ b/src/Wallet/WalletDB/Sqlite/SqliteTransaction.h
@@ -38,9 +38,10 @@ public:
 			throw WALLET_STORE_EXCEPTION("Tried to commit a closed transaction.");
 		}
 
-		m_open = false;
-
+		// Stays open if this fails, so that it's still rolled back.
 		m_pDatabase->Execute("COMMIT;");
+
+		m_open = false;
 	}
 
 	void Rollback() noexcept
@@ -52,7 +53,15 @@ public:
 
 		m_open = false;
 
-		m_pDatabase->Execute("ROLLBACK;");
+		try
+		{
+			m_pDatabase->Execute("ROLLBACK;");
+		}
+		catch (std::exception&)
+		{
+			// Sqlite may have rolled the transaction back on its own already.
+			WALLET_WARNING("Failed to rollback transaction");
+		}
 	}
 
 private:
-- 
2.43.0


From aa4e28692085b8aeaad8ac7188bf21799a6b4ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:32 +0000
Subject: [PATCH 25/58] fix: errors while reading the wallet database aren't
 treated as end of rows

---
 src/Wallet/WalletDB/Sqlite/SqliteDB.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Wallet/WalletDB/Sqlite/SqliteDB.cpp b/src/Wallet/WalletDB/Sqlite/SqliteDB.cpp
index ae4b270..c8fe7a6 100644
--- a/src/Wallet/WalletDB/Sqlite/SqliteDB.cpp
+++ b/src/Wallet/WalletDB/Sqlite/SqliteDB.cpp
@@ -21,7 +21,13 @@ SqliteDB::Statement::~Statement()
 
 bool SqliteDB::Statement::Step()
 {
-	return sqlite3_step(m_pStatement) == SQLITE_ROW;
+	const int result = sqlite3_step(m_pStatement);
+	if (result != SQLITE_ROW && result != SQLITE_DONE) {
+		WALLET_ERROR_F("Error executing statement: {}", sqlite3_errmsg(m_pDatabase));
+		throw WALLET_STORE_EXCEPTION("Error executing statement.");
+	}
+
+	return result == SQLITE_ROW;
 }
 
 void SqliteDB::Statement::Finalize()
-- 
2.43.0


From 7340ad3e077ddb0db063e0687e2faae5d34cb1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:32 +0000
Subject: [PATCH 26/58] fix: an interrupted wallet creation doesn't make the
 name unusable

---
 src/Wallet/WalletDB/Sqlite/SqliteStore.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/Wallet/WalletDB/Sqlite/SqliteStore.cpp b/src/Wallet/WalletDB/Sqlite/SqliteStore.cpp
index 33e7162..d1ef209 100644
--- a/src/Wallet/WalletDB/Sqlite/SqliteStore.cpp
+++ b/src/Wallet/WalletDB/Sqlite/SqliteStore.cpp
@@ -87,17 +87,22 @@ Locked<IWalletDB> SqliteStore::CreateWallet(const std::string& username, const E
 		throw WALLET_STORE_EXCEPTION("Wallet already exists.");
 	}
 
-	if (!FileUtil::CreateDirectories(userDBPath)) {
+	if (!FileUtil::CreateDirectories(userDBPath) && !FileUtil::Exists(userDBPath)) {
 		WALLET_ERROR_F("Failed to create wallet directory for user: {}", username);
 		throw WALLET_STORE_EXCEPTION("Failed to create directory.");
 	}
 
+	// The wallet exists once seed.json does, so anything else is what's left of a wallet that was only partly created or deleted.
+	const fs::path dbFile = GetDBFile(username);
+	FileUtil::RemoveFile(dbFile.u8string() + "-journal");
+	FileUtil::RemoveFile(dbFile);
+
+	SqliteDB::Ptr pDatabase = CreateWalletDB(username);
+
 	const std::string seedJSON = encryptedSeed.ToJSON().toStyledString();
 	const std::vector<unsigned char> seedBytes(seedJSON.data(), seedJSON.data() + seedJSON.size());
 	FileUtil::SafeWriteToFile(seedFile, seedBytes);
 
-	SqliteDB::Ptr pDatabase = CreateWalletDB(username);
-
 	Locked<IWalletDB> walletDB(std::shared_ptr<IWalletDB>(new WalletSqlite(m_walletDirectory, username, pDatabase)));
 	m_userDBs.insert(std::make_pair(username, walletDB));
 	return walletDB;
-- 
2.43.0


From 4c917bb9391f2a00d935d0a0ad6fd6453b1447a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:32 +0000
Subject: [PATCH 27/58] fix: report failure to save the increased address index

---
 src/Wallet/WalletManagerImpl.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Wallet/WalletManagerImpl.cpp b/src/Wallet/WalletManagerImpl.cpp
index 51b2258..12e4972 100644
--- a/src/Wallet/WalletManagerImpl.cpp
+++ b/src/Wallet/WalletManagerImpl.cpp
@@ -179,7 +179,10 @@ KeyChainPath WalletManager::IncreaseAddressKeyChainPathIndex(const SessionToken&
 	KeyChainPath userPath = KeyChainPath::FromString("m/0/0"); // FUTURE: Support multiple account paths
 	
 	// now let's increase the index
-	int nextIndex = wallet.Write()->GetDatabase().Write()->IncreaseAddressIndex(userPath);
+	auto pDatabase = wallet.Write()->GetDatabase().BatchWrite();
+	int nextIndex = pDatabase->IncreaseAddressIndex(userPath);
+	pDatabase->Commit();
+
 	// after increasing the index we should then add the tor listener again using the new derived key
 	return KeyChainPath::FromString("m/0/1").GetChild(nextIndex);
 }
-- 
2.43.0


From 7eb5d51b68e3f343de3d67fefe9804a9630cef6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:52 +0000
Subject: [PATCH 28/58] fix: check the key of a session token for every use of
 the session

---
 src/Wallet/SessionManager.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/Wallet/SessionManager.cpp b/src/Wallet/SessionManager.cpp
index 3aed8df..dc96b90 100644
--- a/src/Wallet/SessionManager.cpp
+++ b/src/Wallet/SessionManager.cpp
@@ -192,6 +192,8 @@ void SessionManager::Logout(const SessionToken& token)
 	auto iter = m_sessionsById.find(token.GetSessionId());
 	if (iter != m_sessionsById.end())
 	{
+		GetSeed(token); // Throws if the token isn't valid.
+
 		std::string username = iter->second->m_wallet.Read()->GetUsername();
 		m_pForeignController->StopListener(iter->second->m_wallet.Read()->GetUsername());
 		if (!m_pForeignController->IsListening(username)) {
@@ -207,7 +209,11 @@ SecureVector SessionManager::GetSeed(const SessionToken& token) const
 	if (iter != m_sessionsById.end())
 	{
 		std::shared_ptr<const LoggedInSession> pSession = iter->second;
-		
+		if (token.GetTokenKey().size() != pSession->m_encryptedSeedWithCS.size())
+		{
+			throw SessionTokenException();
+		}
+
 		std::vector<unsigned char> seedWithCS(pSession->m_encryptedSeedWithCS.size());
 		for (size_t i = 0; i < seedWithCS.size(); i++)
 		{
@@ -232,6 +238,8 @@ SecureVector SessionManager::GetSeed(const SessionToken& token) const
 
 Locked<Wallet> SessionManager::GetWallet(const SessionToken& token) const
 {
+	GetSeed(token); // Throws if the token isn't valid.
+
 	auto iter = m_sessionsById.find(token.GetSessionId());
 	if (iter != m_sessionsById.end())
 	{
@@ -243,6 +251,8 @@ Locked<Wallet> SessionManager::GetWallet(const SessionToken& token) const
 
 Locked<WalletImpl> SessionManager::GetWalletImpl(const SessionToken& token) const
 {
+	GetSeed(token); // Throws if the token isn't valid.
+
 	auto iter = m_sessionsById.find(token.GetSessionId());
 	if (iter != m_sessionsById.end())
 	{
-- 
2.43.0


From 56ba2698f6e8e192aa26e92701bb589cbf09aabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:53 +0000
Subject: [PATCH 29/58] fix: end a user's last session without waiting for its
 requests under the lock

Destroying a user's listener waits for the requests it's handling. Logout did so
holding the session manager's lock, which those requests need, so both waited
forever. When shutting down, requests used the session manager while it was
being destroyed.

The listener also kept the token of the user's first session, so it stopped
working when that session ended, though others were still open.
---
 include/API/Wallet/Foreign/ForeignServer.h |  14 ++-
 src/Wallet/ForeignController.cpp           |  28 ++++-
 src/Wallet/ForeignController.h             |  14 ++-
 src/Wallet/SessionManager.cpp              | 135 ++++++++++++++-------
 src/Wallet/SessionManager.h                |  15 ++-
 src/Wallet/WalletManagerImpl.cpp           |   8 +-
 6 files changed, 160 insertions(+), 54 deletions(-)

diff --git a/include/API/Wallet/Foreign/ForeignServer.h b/include/API/Wallet/Foreign/ForeignServer.h
index 0874ca7..ddef541 100644
--- a/include/API/Wallet/Foreign/ForeignServer.h
+++ b/include/API/Wallet/Foreign/ForeignServer.h
@@ -29,10 +29,7 @@ public:
     ~ForeignServer()
     {
         LOG_INFO("Shutting down foreign server");
-        if (m_torAddress.has_value())
-        {
-            m_pTorProcess->RemoveListener(m_torAddress.value());
-        }
+        RemoveTorListener();
     }
 
     static ForeignServer::UPtr Create(
@@ -43,6 +40,15 @@ public:
         const int currentAddressIndex
     );
 
+    void RemoveTorListener()
+    {
+        if (m_torAddress.has_value())
+        {
+            m_pTorProcess->RemoveListener(m_torAddress.value());
+            m_torAddress = std::nullopt;
+        }
+    }
+
     uint16_t GetPortNumber() const noexcept { return m_pRPCServer->GetPortNumber(); }
     const std::optional<TorAddress>& GetTorAddress() const noexcept { return m_torAddress; }
 
diff --git a/src/Wallet/ForeignController.cpp b/src/Wallet/ForeignController.cpp
index d5a7c11..e10ea38 100644
--- a/src/Wallet/ForeignController.cpp
+++ b/src/Wallet/ForeignController.cpp
@@ -1,6 +1,5 @@
 #include "ForeignController.h"
 
-#include <API/Wallet/Foreign/ForeignServer.h>
 #include <Wallet/SessionToken.h>
 #include <Wallet/Keychain/KeyChain.h>
 #include <Wallet/WalletManager.h>
@@ -62,23 +61,40 @@ std::pair<uint16_t, std::optional<TorAddress>> ForeignController::StartListener(
 	return response;
 }
 
-bool ForeignController::StopListener(const std::string& username)
+ForeignServer::UPtr ForeignController::StopListener(const std::string& username)
 {
 	std::unique_lock<std::mutex> lock(m_contextsMutex);
 
 	auto iter = m_contextsByUsername.find(username);
 	if (iter == m_contextsByUsername.end())
 	{
-		return false;
+		return nullptr;
 	}
 
 	iter->second->m_numReferences--;
-	if (iter->second->m_numReferences == 0)
+	if (iter->second->m_numReferences > 0)
 	{
-		m_contextsByUsername.erase(iter);
+		return nullptr;
 	}
 
-	return true;
+	ForeignServer::UPtr pServer = std::move(iter->second->m_pServer);
+	pServer->RemoveTorListener();
+	m_contextsByUsername.erase(iter);
+	return pServer;
+}
+
+std::vector<ForeignServer::UPtr> ForeignController::StopListeners()
+{
+	std::unique_lock<std::mutex> lock(m_contextsMutex);
+
+	std::vector<ForeignServer::UPtr> servers;
+	for (auto& iter : m_contextsByUsername)
+	{
+		servers.push_back(std::move(iter.second->m_pServer));
+	}
+
+	m_contextsByUsername.clear();
+	return servers;
 }
 
 bool ForeignController::IsListening(const std::string& username)
diff --git a/src/Wallet/ForeignController.h b/src/Wallet/ForeignController.h
index 20d1c90..d16dc47 100644
--- a/src/Wallet/ForeignController.h
+++ b/src/Wallet/ForeignController.h
@@ -1,7 +1,9 @@
 #pragma once
 
+#include <API/Wallet/Foreign/ForeignServer.h>
 #include <Net/Tor/TorProcess.h>
 #include <unordered_map>
+#include <vector>
 #include <optional>
 #include <string>
 #include <mutex>
@@ -24,7 +26,17 @@ public:
 		const KeyChain& keyChain,
 		const int currentAddressIndex
 	);
-	bool StopListener(const std::string& username);
+
+	//
+	// Removes one reference to the user's listener, and returns the listener if nobody's using it anymore.
+	// Destroying it waits for its requests to complete, so it must be destroyed without holding locks those requests need.
+	//
+	ForeignServer::UPtr StopListener(const std::string& username);
+
+	//
+	// Removes and returns all of the listeners. They must be destroyed without holding locks their requests need.
+	//
+	std::vector<ForeignServer::UPtr> StopListeners();
 
 	bool IsListening(const std::string& username);
 
diff --git a/src/Wallet/SessionManager.cpp b/src/Wallet/SessionManager.cpp
index dc96b90..22036c4 100644
--- a/src/Wallet/SessionManager.cpp
+++ b/src/Wallet/SessionManager.cpp
@@ -24,10 +24,6 @@ SessionManager::SessionManager(
 SessionManager::~SessionManager()
 {
 	LOG_INFO("Shutting down session manager");
-	for (auto iter = m_sessionsById.begin(); iter != m_sessionsById.end(); iter++)
-	{
-		m_pForeignController->StopListener(iter->second->m_wallet.Read()->GetUsername());
-	}
 }
 
 Locked<SessionManager> SessionManager::Create(
@@ -124,24 +120,8 @@ SessionToken SessionManager::Login(
 	const std::string& username,
 	const SecureVector& seed)
 {
-	Hash hash = Hasher::SHA256((const std::vector<unsigned char>&)seed);
-	std::vector<unsigned char> checksum(
-		hash.GetData().cbegin(),
-		hash.GetData().cbegin() + 4
-	);
-	SecureVector seedWithChecksum = seed;
-	seedWithChecksum.insert(seedWithChecksum.end(), checksum.begin(), checksum.end());
-
-	SecureVector tokenKey = CSPRNG::GenerateRandomBytes(seedWithChecksum.size());
-
-	SecureVector encryptedSeedWithCS(seedWithChecksum.size());
-	for (size_t i = 0; i < seedWithChecksum.size(); i++)
-	{
-		encryptedSeedWithCS[i] = seedWithChecksum[i] ^ tokenKey[i];
-	}
-
-	const uint64_t sessionId = m_nextSessionId++;
-	SessionToken token(sessionId, tokenKey);
+	auto session = NewToken(seed);
+	const SessionToken& token = session.first;
 
 	auto pWalletDB = m_pWalletDB->OpenWallet(username, seed);
 	Locked<WalletImpl> walletImpl = WalletImpl::LoadWallet(
@@ -161,22 +141,50 @@ SessionToken SessionManager::Login(
 		walletImpl.Read()->GetSlatepackAddress()
 	);
 
-	m_sessionsById[sessionId] = std::make_shared<LoggedInSession>(
+	m_sessionsById[token.GetSessionId()] = std::make_shared<LoggedInSession>(
 		wallet,
 		walletImpl,
-		std::move(encryptedSeedWithCS)
+		std::move(session.second)
 	);
 
 	KeyChain keyChain = KeyChain::FromSeed(seed);
 	int currentAddressIndex = pWalletDB.Read()->GetCurrentAddressIndex(KeyChainPath::FromString("m/0/0"));
-	
-	auto listenerInfo = m_pForeignController->StartListener(
-		pTorProcess,
-		username,
-		token,
-		keyChain,
-		currentAddressIndex
-	);
+
+	// The listener is shared by all of the user's sessions, so it has one of its own.
+	SessionToken listenerToken = token;
+	if (!m_pForeignController->IsListening(username))
+	{
+		auto listenerSession = NewToken(seed);
+		listenerToken = listenerSession.first;
+		m_sessionsById[listenerToken.GetSessionId()] = std::make_shared<LoggedInSession>(
+			wallet,
+			walletImpl,
+			std::move(listenerSession.second)
+		);
+		m_listenerSessions[username] = listenerToken.GetSessionId();
+	}
+
+	std::pair<uint16_t, std::optional<TorAddress>> listenerInfo;
+	try
+	{
+		listenerInfo = m_pForeignController->StartListener(
+			pTorProcess,
+			username,
+			listenerToken,
+			keyChain,
+			currentAddressIndex
+		);
+	}
+	catch (...)
+	{
+		m_sessionsById.erase(token.GetSessionId());
+		if (!m_pForeignController->IsListening(username))
+		{
+			EndListenerSession(username);
+		}
+		throw;
+	}
+
 	wallet.Write()->SetListenerPort(listenerInfo.first);
 	walletImpl.Write()->SetListenerPort(listenerInfo.first);
 	if (listenerInfo.second.has_value()) {
@@ -187,20 +195,65 @@ SessionToken SessionManager::Login(
 	return token;
 }
 
-void SessionManager::Logout(const SessionToken& token)
+std::pair<SessionToken, SecureVector> SessionManager::NewToken(const SecureVector& seed)
+{
+	Hash hash = Hasher::SHA256((const std::vector<unsigned char>&)seed);
+	std::vector<unsigned char> checksum(
+		hash.GetData().cbegin(),
+		hash.GetData().cbegin() + 4
+	);
+	SecureVector seedWithChecksum = seed;
+	seedWithChecksum.insert(seedWithChecksum.end(), checksum.begin(), checksum.end());
+
+	SecureVector tokenKey = CSPRNG::GenerateRandomBytes(seedWithChecksum.size());
+
+	SecureVector encryptedSeedWithCS(seedWithChecksum.size());
+	for (size_t i = 0; i < seedWithChecksum.size(); i++)
+	{
+		encryptedSeedWithCS[i] = seedWithChecksum[i] ^ tokenKey[i];
+	}
+
+	const uint64_t sessionId = m_nextSessionId++;
+	return std::make_pair(SessionToken(sessionId, tokenKey), std::move(encryptedSeedWithCS));
+}
+
+void SessionManager::EndListenerSession(const std::string& username)
+{
+	auto iter = m_listenerSessions.find(username);
+	if (iter != m_listenerSessions.end())
+	{
+		m_sessionsById.erase(iter->second);
+		m_listenerSessions.erase(iter);
+	}
+
+	m_pWalletDB->CloseWallet(username);
+}
+
+std::unique_ptr<ForeignServer> SessionManager::Logout(const SessionToken& token)
 {
 	auto iter = m_sessionsById.find(token.GetSessionId());
-	if (iter != m_sessionsById.end())
+	if (iter == m_sessionsById.end())
 	{
-		GetSeed(token); // Throws if the token isn't valid.
+		return nullptr;
+	}
 
-		std::string username = iter->second->m_wallet.Read()->GetUsername();
-		m_pForeignController->StopListener(iter->second->m_wallet.Read()->GetUsername());
-		if (!m_pForeignController->IsListening(username)) {
-			m_pWalletDB->CloseWallet(username);
-		}
-		m_sessionsById.erase(iter);
+	GetSeed(token); // Throws if the token isn't valid.
+
+	std::string username = iter->second->m_wallet.Read()->GetUsername();
+	m_sessionsById.erase(iter);
+
+	auto pListener = m_pForeignController->StopListener(username);
+	if (pListener != nullptr)
+	{
+		EndListenerSession(username);
 	}
+
+	return pListener;
+}
+
+std::vector<std::unique_ptr<ForeignServer>> SessionManager::StopListeners()
+{
+	return m_pForeignController->StopListeners();
 }
 
 SecureVector SessionManager::GetSeed(const SessionToken& token) const
diff --git a/src/Wallet/SessionManager.h b/src/Wallet/SessionManager.h
index 22e2981..5ca1bb9 100644
--- a/src/Wallet/SessionManager.h
+++ b/src/Wallet/SessionManager.h
@@ -10,12 +10,14 @@
 #include <Wallet/SessionToken.h>
 #include <memory>
 #include <unordered_map>
+#include <vector>
 
 // Forward Declarations
 class INodeClient;
 class IWalletStore;
 class IWalletManager;
 class ForeignController;
+class ForeignServer;
 
 class SessionManager
 {
@@ -46,7 +48,13 @@ public:
 		const std::string& username,
 		const SecureVector& seed
 	);
-	void Logout(const SessionToken& token);
+
+	//
+	// Ends the session, and returns the user's listener if that was the last one.
+	// The listener must be destroyed without holding the lock, since its requests need it to complete.
+	//
+	std::unique_ptr<ForeignServer> Logout(const SessionToken& token);
+	std::vector<std::unique_ptr<ForeignServer>> StopListeners();
 
 	SecureVector GetSeed(const SessionToken& token) const;
 	SecureVector GetSeed(const std::string& username, const SecureString& password) const;
@@ -55,7 +63,12 @@ public:
 	Locked<WalletImpl> GetWalletImpl(const SessionToken& token) const;
 
 private:
+	// Returns a new token, and the seed & checksum encrypted with its key.
+	std::pair<SessionToken, SecureVector> NewToken(const SecureVector& seed);
+	void EndListenerSession(const std::string& username);
+
 	std::unordered_map<uint64_t, std::shared_ptr<LoggedInSession>> m_sessionsById;
+	std::unordered_map<std::string, uint64_t> m_listenerSessions; // Sessions used by the listeners
 	// TODO: Keep multimap of sessions per username
 
 	uint64_t m_nextSessionId;
diff --git a/src/Wallet/WalletManagerImpl.cpp b/src/Wallet/WalletManagerImpl.cpp
index 12e4972..56e534b 100644
--- a/src/Wallet/WalletManagerImpl.cpp
+++ b/src/Wallet/WalletManagerImpl.cpp
@@ -1,5 +1,6 @@
 #include "WalletManagerImpl.h"
 #include "CancelTx.h"
+#include "ForeignController.h"
 #include "Keychain/SeedEncrypter.h"
 #include "Keychain/Mnemonic.h"
 #include "SlateBuilder/ReceiveSlateBuilder.h"
@@ -32,6 +33,10 @@ WalletManager::WalletManager(const Config& config, INodeClientPtr pNodeClient, s
 WalletManager::~WalletManager()
 {
 	LOG_INFO("Shutting down wallet manager");
+
+	// Destroying a listener waits for its requests to complete, and they need the lock.
+	auto listeners = m_sessionManager.Write()->StopListeners();
+	listeners.clear();
 }
 
 
@@ -226,7 +231,8 @@ LoginResponse WalletManager::Login(
 
 void WalletManager::Logout(const SessionToken& token)
 {
-	m_sessionManager.Write()->Logout(token);
+	// Destroying the listener waits for its requests to complete, and they need the lock.
+	std::unique_ptr<ForeignServer> pListener = m_sessionManager.Write()->Logout(token);
 }
 
 void WalletManager::DeleteWallet(const GrinStr& username, const SecureString& password)
-- 
2.43.0


From 418369c962613bca8d02580a1ab80df0059755bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:53 +0000
Subject: [PATCH 30/58] fix: open, create and delete wallets one at a time

Requests are handled by several threads, which used the store's list of open
wallets at once. Two that created the same wallet removed each other's database.
---
 src/Wallet/WalletDB/Sqlite/SqliteStore.cpp | 12 +++++++++++-
 src/Wallet/WalletDB/Sqlite/SqliteStore.h   |  2 ++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/Wallet/WalletDB/Sqlite/SqliteStore.cpp b/src/Wallet/WalletDB/Sqlite/SqliteStore.cpp
index d1ef209..9654a08 100644
--- a/src/Wallet/WalletDB/Sqlite/SqliteStore.cpp
+++ b/src/Wallet/WalletDB/Sqlite/SqliteStore.cpp
@@ -18,7 +18,7 @@ static const uint8_t ENCRYPTION_FORMAT = 0;
 
 std::shared_ptr<SqliteStore> SqliteStore::Open(const Config& config)
 {
-	return std::make_shared<SqliteStore>(SqliteStore(config.GetWalletPath()));
+	return std::shared_ptr<SqliteStore>(new SqliteStore(config.GetWalletPath()));
 }
 
 fs::path SqliteStore::GetDBFile(const std::string& username) const
@@ -33,6 +33,8 @@ std::vector<GrinStr> SqliteStore::GetAccounts() const
 
 Locked<IWalletDB> SqliteStore::OpenWallet(const std::string& username, const SecureVector& masterSeed)
 {
+	std::unique_lock<std::mutex> lock(m_mutex);
+
 	auto iter = m_userDBs.find(username);
 	if (iter != m_userDBs.end()) {
 		WALLET_DEBUG_F("wallet.db already open for user: {}", username);
@@ -71,6 +73,8 @@ Locked<IWalletDB> SqliteStore::OpenWallet(const std::string& username, const Sec
 
 void SqliteStore::CloseWallet(const std::string& username)
 {
+	std::unique_lock<std::mutex> lock(m_mutex);
+
 	auto iter = m_userDBs.find(username);
 	if (iter != m_userDBs.end()) {
 		WALLET_DEBUG_F("Closing wallet.db for user: {}", username);
@@ -80,6 +84,8 @@ void SqliteStore::CloseWallet(const std::string& username)
 
 Locked<IWalletDB> SqliteStore::CreateWallet(const std::string& username, const EncryptedSeed& encryptedSeed)
 {
+	std::unique_lock<std::mutex> lock(m_mutex);
+
 	const fs::path userDBPath = m_walletDirectory / username;
 	const fs::path seedFile = userDBPath / "seed.json";
 	if (FileUtil::Exists(seedFile)) {
@@ -110,6 +116,8 @@ Locked<IWalletDB> SqliteStore::CreateWallet(const std::string& username, const E
 
 void SqliteStore::DeleteWallet(const std::string& username)
 {
+	std::unique_lock<std::mutex> lock(m_mutex);
+
 	if (m_userDBs.find(username) != m_userDBs.end()) {
 		WALLET_ERROR_F("User '{}' still logged in. Can't delete wallet.", username);
 		throw WALLET_STORE_EXCEPTION("User still logged in.");
@@ -129,6 +137,8 @@ void SqliteStore::DeleteWallet(const std::string& username)
 
 void SqliteStore::ChangePassword(const std::string& username, const EncryptedSeed& encryptedSeed)
 {
+	std::unique_lock<std::mutex> lock(m_mutex);
+
 	const fs::path userDBPath = m_walletDirectory / username;
 	const fs::path seedFile = userDBPath / "seed.json";
 
diff --git a/src/Wallet/WalletDB/Sqlite/SqliteStore.h b/src/Wallet/WalletDB/Sqlite/SqliteStore.h
index ace5677..051182e 100644
--- a/src/Wallet/WalletDB/Sqlite/SqliteStore.h
+++ b/src/Wallet/WalletDB/Sqlite/SqliteStore.h
@@ -5,6 +5,7 @@
 #include <Common/Secure.h>
 #include <Wallet/WalletDB/WalletStore.h>
 #include <filesystem.h>
+#include <mutex>
 #include <string>
 #include <unordered_map>
 
@@ -29,5 +30,6 @@ private:
 	fs::path GetDBFile(const std::string& username) const;
 
 	const fs::path& m_walletDirectory;
+	std::mutex m_mutex;
 	std::unordered_map<std::string, Locked<IWalletDB>> m_userDBs;
 };
\ No newline at end of file
-- 
2.43.0


From e1f11b4aa0b101a7c03c8490a2465f4349532cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:58 +0000
Subject: [PATCH 31/58] fix: check coins and payments again once the database
 is locked

Each session has its own locks, so coins could be selected, and a slate
received or finalized, by two sessions at once: only the database they share
tells which came first.
---
 .../SlateBuilder/FinalizeSlateBuilder.cpp     |  8 ++++++
 .../SlateBuilder/ReceiveSlateBuilder.cpp      | 10 +++----
 src/Wallet/SlateBuilder/ReceiveSlateBuilder.h |  2 +-
 src/Wallet/SlateBuilder/SendSlateBuilder.cpp  | 27 +++++++++++++++++++
 src/Wallet/SlateBuilder/SendSlateBuilder.h    |  5 ++++
 5 files changed, 46 insertions(+), 6 deletions(-)

diff --git a/src/Wallet/SlateBuilder/FinalizeSlateBuilder.cpp b/src/Wallet/SlateBuilder/FinalizeSlateBuilder.cpp
index a0d8f32..7818d12 100644
--- a/src/Wallet/SlateBuilder/FinalizeSlateBuilder.cpp
+++ b/src/Wallet/SlateBuilder/FinalizeSlateBuilder.cpp
@@ -253,6 +253,14 @@ void FinalizeSlateBuilder::UpdateDatabase(
 	const std::string& armored_slatepack) const
 {
 	auto pBatch = m_pWallet->GetDatabase().BatchWrite();
+
+	// The payment was loaded before locking the database, so another session could've finalized or canceled it since.
+	auto pWalletTx = pBatch->GetTransactionById(m_pWallet->GetMasterSeed(), walletTx.GetId());
+	if (pWalletTx == nullptr || pWalletTx->GetType() != EWalletTxType::SENDING_STARTED) {
+		WALLET_ERROR_F("Payment {} was already finalized or canceled", walletTx.GetId());
+		throw WALLET_EXCEPTION("Payment was already finalized or canceled.");
+	}
+
 	pBatch->SaveSlate(m_pWallet->GetMasterSeed(), finalizeSlate, armored_slatepack);
 	pBatch->AddTransaction(m_pWallet->GetMasterSeed(), walletTx);
 	pBatch->Commit();
diff --git a/src/Wallet/SlateBuilder/ReceiveSlateBuilder.cpp b/src/Wallet/SlateBuilder/ReceiveSlateBuilder.cpp
index 7c03bc9..b2e8e11 100644
--- a/src/Wallet/SlateBuilder/ReceiveSlateBuilder.cpp
+++ b/src/Wallet/SlateBuilder/ReceiveSlateBuilder.cpp
@@ -24,14 +24,14 @@ Slate ReceiveSlateBuilder::AddReceiverData(
 	Slate receiveSlate = send_slate;
 	receiveSlate.stage = ESlateStage::STANDARD_RECEIVED;
 
+	auto pBatch = pWallet->GetDatabase().BatchWrite();
+
 	// Verify slate was never received, exactly one kernel exists, and fee is valid.
-	if (!VerifySlateStatus(pWallet.GetShared(), masterSeed, receiveSlate))
+	if (!VerifySlateStatus(pBatch.GetShared(), masterSeed, receiveSlate))
 	{
 		throw WALLET_EXCEPTION("Failed to verify received slate.");
 	}
 
-	auto pBatch = pWallet->GetDatabase().BatchWrite();
-
 	// Generate output
 	KeyChainPath keyChainPath = pBatch->GetNextChildPath(pWallet->GetUserPath());
 	const uint32_t walletTxId = pBatch->GetNextTransactionId();
@@ -87,13 +87,13 @@ Slate ReceiveSlateBuilder::AddReceiverData(
 }
 
 bool ReceiveSlateBuilder::VerifySlateStatus(
-	std::shared_ptr<WalletImpl> pWallet,
+	std::shared_ptr<const IWalletDB> pBatch,
 	const SecureVector& masterSeed,
 	const Slate& slate) const
 {
 	// Slate was already received.
 	// There can be several transactions for the slate: one for each canceled attempt, and the sender's when sending to self.
-	for (const WalletTx& walletTx : pWallet->GetDatabase().Read()->GetTransactions(masterSeed)) {
+	for (const WalletTx& walletTx : pBatch->GetTransactions(masterSeed)) {
 		if (!walletTx.GetSlateId().has_value() || walletTx.GetSlateId().value() != slate.GetId()) {
 			continue;
 		}
diff --git a/src/Wallet/SlateBuilder/ReceiveSlateBuilder.h b/src/Wallet/SlateBuilder/ReceiveSlateBuilder.h
index 82a66c7..b47757e 100644
--- a/src/Wallet/SlateBuilder/ReceiveSlateBuilder.h
+++ b/src/Wallet/SlateBuilder/ReceiveSlateBuilder.h
@@ -21,7 +21,7 @@ public:
 	) const;
 
 private:
-	bool VerifySlateStatus(std::shared_ptr<WalletImpl> pWallet, const SecureVector& masterSeed, const Slate& slate) const;
+	bool VerifySlateStatus(std::shared_ptr<const IWalletDB> pBatch, const SecureVector& masterSeed, const Slate& slate) const;
 	SlateSignature BuildSignature(Slate& slate, const SigningKeys& signing_keys) const;
 	void UpdatePaymentProof(
 		const std::shared_ptr<WalletImpl>& pWallet,
diff --git a/src/Wallet/SlateBuilder/SendSlateBuilder.cpp b/src/Wallet/SlateBuilder/SendSlateBuilder.cpp
index 59ee150..3d1a661 100644
--- a/src/Wallet/SlateBuilder/SendSlateBuilder.cpp
+++ b/src/Wallet/SlateBuilder/SendSlateBuilder.cpp
@@ -13,6 +13,7 @@
 #include <Crypto/ED25519.h>
 #include <Wallet/Exceptions/InsufficientFundsException.h>
 #include <Wallet/Models/Slatepack/Armor.h>
+#include <unordered_set>
 
 SendSlateBuilder::SendSlateBuilder(INodeClientConstPtr pNodeClient)
 	: m_pNodeClient(pNodeClient)
@@ -106,6 +107,8 @@ Slate SendSlateBuilder::Build(
 	const uint64_t blockHeight = m_pNodeClient->GetChainHeight() + 1;
 
 	auto pBatch = pWallet->GetDatabase().BatchWrite();
+	VerifySpendable(pBatch->GetOutputs(masterSeed), inputs);
+
 	const uint32_t walletTxId = pBatch->GetNextTransactionId();
 
 	// Create change outputs with total blinding factor xC
@@ -205,6 +208,30 @@ Slate SendSlateBuilder::Build(
 	return slate;
 }
 
+void SendSlateBuilder::VerifySpendable(
+	const std::vector<OutputDataEntity>& outputs,
+	const std::vector<OutputDataEntity>& inputs) const
+{
+	// The coins were selected before locking the database, so another session could've used them since.
+	std::unordered_set<Commitment> spendable;
+	for (const OutputDataEntity& output : outputs)
+	{
+		if (output.GetStatus() == EOutputStatus::SPENDABLE)
+		{
+			spendable.insert(output.GetCommitment());
+		}
+	}
+
+	for (const OutputDataEntity& input : inputs)
+	{
+		if (spendable.find(input.GetCommitment()) == spendable.end())
+		{
+			WALLET_ERROR_F("Coin {} is no longer spendable.", input.GetCommitment());
+			throw WALLET_EXCEPTION("Coin no longer spendable.");
+		}
+	}
+}
+
 WalletTx SendSlateBuilder::BuildWalletTx(
 	const uint32_t walletTxId,
 	const BlindingFactor& txOffset,
diff --git a/src/Wallet/SlateBuilder/SendSlateBuilder.h b/src/Wallet/SlateBuilder/SendSlateBuilder.h
index 4656f76..8329523 100644
--- a/src/Wallet/SlateBuilder/SendSlateBuilder.h
+++ b/src/Wallet/SlateBuilder/SendSlateBuilder.h
@@ -44,6 +44,11 @@ private:
 		const std::vector<SlatepackAddress>& recipients
 	) const;
 
+	void VerifySpendable(
+		const std::vector<OutputDataEntity>& outputs,
+		const std::vector<OutputDataEntity>& inputs
+	) const;
+
 	WalletTx BuildWalletTx(
 		const uint32_t walletTxId,
 		const BlindingFactor& txOffset,
-- 
2.43.0


From 202329343f9ff070bfc3cda061911dec4188751f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:50 +0000
Subject: [PATCH 32/58] fix: stop handling requests before destroying what they
 use

An RPC server's methods were destroyed while requests were still using them,
when the server was shut down.
---
 include/Net/Servers/RPC/RPCServer.h | 10 +++++++---
 include/Net/Servers/Server.h        |  1 +
 src/Net/Servers/Server.cpp          |  7 ++++++-
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/Net/Servers/RPC/RPCServer.h b/include/Net/Servers/RPC/RPCServer.h
index abb8a5b..323b6c8 100644
--- a/include/Net/Servers/RPC/RPCServer.h
+++ b/include/Net/Servers/RPC/RPCServer.h
@@ -30,13 +30,16 @@ public:
 		const std::string& uri,
 		const LoggerAPI::LogFile& logFile)
 	{
-		auto pRPCServer = std::shared_ptr<RPCServer>(new RPCServer(pServer, logFile));
+		auto pRPCServer = std::shared_ptr<RPCServer>(new RPCServer(pServer, uri, logFile));
 
 		pServer->AddListener(uri, APIHandler, pRPCServer.get());
 
 		return pRPCServer;
 	}
 
+	// Waits for the requests being handled, since they use the methods.
+	~RPCServer() { m_pServer->RemoveListener(m_uri); }
+
 	uint16_t GetPortNumber() const noexcept { return m_pServer->GetPortNumber(); }
 
 	void AddMethod(const std::string& method, const std::shared_ptr<RPCMethod>& pMethod) noexcept
@@ -47,8 +50,8 @@ public:
 	const ServerPtr& GetServer() const { return m_pServer; }
 
 private:
-	RPCServer(const ServerPtr& pServer, const LoggerAPI::LogFile& logFile)
-		: m_pServer(pServer), m_logFile(logFile) { }
+	RPCServer(const ServerPtr& pServer, const std::string& uri, const LoggerAPI::LogFile& logFile)
+		: m_pServer(pServer), m_uri(uri), m_logFile(logFile) { }
 
 	static int APIHandler(mg_connection* pConnection, void* pCbContext)
 	{
@@ -152,6 +155,7 @@ private:
 	}
 
 	ServerPtr m_pServer;
+	std::string m_uri;
 	std::unordered_map<std::string, std::shared_ptr<RPCMethod>> m_methods;
 	LoggerAPI::LogFile m_logFile;
 };
diff --git a/include/Net/Servers/Server.h b/include/Net/Servers/Server.h
index ea9c68b..064be86 100644
--- a/include/Net/Servers/Server.h
+++ b/include/Net/Servers/Server.h
@@ -25,6 +25,7 @@ public:
 	uint16_t GetPortNumber() const noexcept { return m_portNumber; }
 
 	void AddListener(const std::string& uri, mg_request_handler handler, void* pCallbackData) noexcept;
+	void RemoveListener(const std::string& uri) noexcept; // Returns once none of its requests are being handled.
 
 private:
 	Server(mg_context* pContext, const uint16_t portNumber)
diff --git a/src/Net/Servers/Server.cpp b/src/Net/Servers/Server.cpp
index a54ef44..ba32b4c 100644
--- a/src/Net/Servers/Server.cpp
+++ b/src/Net/Servers/Server.cpp
@@ -55,4 +55,9 @@ Server::~Server()
 void Server::AddListener(const std::string& uri, mg_request_handler handler, void* pCallbackData) noexcept
 {
 	mg_set_request_handler(m_pContext, uri.c_str(), handler, pCallbackData);
-}
\ No newline at end of file
+}
+
+void Server::RemoveListener(const std::string& uri) noexcept
+{
+	mg_set_request_handler(m_pContext, uri.c_str(), NULL, NULL);
+}
-- 
2.43.0


From 99780d06702d30d3642cf1ded030c837905f59d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:21 +0000
Subject: [PATCH 33/58] fix: initialise the flag that stops a connection from
 receiving

---
 src/P2P/Connection.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/P2P/Connection.h b/src/P2P/Connection.h
index 142ebf9..7a13d17 100644
--- a/src/P2P/Connection.h
+++ b/src/P2P/Connection.h
@@ -46,6 +46,7 @@ public:
 		m_pMessageProcessor(pMessageProcessor),
 		m_terminate(false),
 		m_sendingDisabled(false),
+		m_receivingDisabled(false),
 		m_advertisedBlocks(256) { }
 
 	Connection(const Connection&) = delete;
-- 
2.43.0


From 6aa85fd07ac09a645b4d6584601a1e81302071e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:21 +0000
Subject: [PATCH 34/58] fix: keep a message alive and alone on the wire until
 it is sent

SendAsync handed asio a buffer owned by its caller, and two threads that both
found the queue empty wrote to the socket at the same time.
---
 include/Net/Socket.h |  1 +
 src/Net/Socket.cpp   | 59 +++++++++++++++++++++++++++-----------------
 2 files changed, 37 insertions(+), 23 deletions(-)

diff --git a/include/Net/Socket.h b/include/Net/Socket.h
index c353af6..eeb89b8 100644
--- a/include/Net/Socket.h
+++ b/include/Net/Socket.h
@@ -79,6 +79,7 @@ public:
 private:
 	bool HasReceivedData();
 	void ThrowSocketException(const asio::error_code& ec);
+	void WriteAsync(const std::vector<uint8_t>& message);
 	void HandleSent(const asio::error_code& ec, size_t bytes_transferred);
 
 	std::shared_mutex m_socketMutex;
diff --git a/src/Net/Socket.cpp b/src/Net/Socket.cpp
index 6db95ea..ac264bd 100644
--- a/src/Net/Socket.cpp
+++ b/src/Net/Socket.cpp
@@ -183,21 +183,34 @@ bool Socket::SendSync(const std::vector<uint8_t>& message, const bool incrementC
 
 void Socket::SendAsync(const std::vector<uint8_t>& message)
 {
-    bool first_in_queue = m_writeQueue.empty();
-    m_writeQueue.push_back(message);
-
-    if (!first_in_queue) {
-        // There is already an async_write in process.
-        // It will send this message when it completes.
-        return;
+    {
+        std::unique_lock<std::mutex> queueLock(m_writeQueueMutex);
+        m_writeQueue.push_back(message);
+
+        if (m_writeQueue.size() > 1) {
+            // There is already an async_write in process.
+            // It will send this message when it completes.
+            return;
+        }
     }
 
+    WriteAsync(message);
+}
+
+void Socket::WriteAsync(const std::vector<uint8_t>& message)
+{
+    // The buffer must outlive the asynchronous write.
+    auto pMessage = std::make_shared<std::vector<uint8_t>>(message);
+
     std::shared_lock<std::shared_mutex> socketLock(m_socketMutex);
     if (m_socketOpen) {
+        auto pSocket = shared_from_this();
         asio::async_write(
             *m_pSocket,
-            asio::buffer(message.data(), message.size()),
-            std::bind(&Socket::HandleSent, shared_from_this(), std::placeholders::_1, std::placeholders::_2)
+            asio::buffer(pMessage->data(), pMessage->size()),
+            [pSocket, pMessage](const asio::error_code& ec, size_t bytes_transferred) {
+                pSocket->HandleSent(ec, bytes_transferred);
+            }
         );
     }
 }
@@ -206,24 +219,24 @@ void Socket::HandleSent(const asio::error_code& ec, size_t)
 {
     m_rateCounter.AddMessageSent();
 
-    if (!m_writeQueue.empty()) {
-        m_writeQueue.pop_front();
-    }
-
     if (ec) {
         LOG_INFO_F("Failed to send message to {}: {}", *this, ec.message());
-    } else if (!m_writeQueue.empty()) {
-        std::vector<uint8_t> message = m_writeQueue.front();
-
-        std::shared_lock<std::shared_mutex> socketLock(m_socketMutex);
-        if (m_socketOpen) {
-            asio::async_write(
-                *m_pSocket,
-                asio::buffer(message.data(), message.size()),
-                std::bind(&Socket::HandleSent, shared_from_this(), std::placeholders::_1, std::placeholders::_2)
-            );
+        return;
+    }
+
+    std::vector<uint8_t> message;
+
+    {
+        std::unique_lock<std::mutex> queueLock(m_writeQueueMutex);
+        m_writeQueue.pop_front();
+        if (m_writeQueue.empty()) {
+            return;
         }
+
+        message = m_writeQueue.front();
     }
+
+    WriteAsync(message);
 }
 
 std::vector<uint8_t> Socket::ReceiveSync(const size_t num_bytes, const bool incrementCount)
-- 
2.43.0


From 11a1cac8932c54ac309b51e9646d5199aad3b046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:21 +0000
Subject: [PATCH 35/58] fix: prune every inactive connection, without holding
 up the others

Erasing while iterating skipped the next connection and stepped past the end,
and disconnecting under the list's lock deadlocked with a connection that was
processing a message which had to be broadcast.
---
 src/P2P/ConnectionManager.cpp | 48 +++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/src/P2P/ConnectionManager.cpp b/src/P2P/ConnectionManager.cpp
index fbee250..675cf9f 100644
--- a/src/P2P/ConnectionManager.cpp
+++ b/src/P2P/ConnectionManager.cpp
@@ -190,30 +190,40 @@ ConnectionPtr ConnectionManager::GetConnection(const uint64_t connectionId) cons
 
 void ConnectionManager::PruneConnections(const bool bInactiveOnly)
 {
-	auto connectionsWriter = m_connections.Write();
-	std::vector<ConnectionPtr>& connections = *connectionsWriter;
-
-	for (auto iter = connections.begin(); iter < connections.end(); iter++) {
-		ConnectionPtr pConnection = *iter;
-		if (!bInactiveOnly || !pConnection->IsConnectionActive()) {
-			try { 
-				pConnection->Disconnect();
-			}
-			catch (std::exception& e) {
-				LOG_ERROR("Error disconnecting: {}", e.what());
+	std::vector<ConnectionPtr> pruned;
+
+	{
+		auto connectionsWriter = m_connections.Write();
+		std::vector<ConnectionPtr>& connections = *connectionsWriter;
+
+		for (auto iter = connections.begin(); iter != connections.end();) {
+			if (!bInactiveOnly || !(*iter)->IsConnectionActive()) {
+				pruned.push_back(*iter);
+				iter = connections.erase(iter);
+			} else {
+				++iter;
 			}
-			connections.erase(iter);
 		}
+
+		m_numInbound = std::accumulate(
+			connections.begin(), connections.end(), (size_t)0,
+			[](size_t inbound, const ConnectionPtr& pConnection) {
+				return pConnection->GetDirection() == EDirection::INBOUND ? inbound + 1 : inbound;
+			}
+		);
+
+		m_numOutbound = connections.size() - m_numInbound;
 	}
 
-	m_numInbound = std::accumulate(
-		connections.begin(), connections.end(), (size_t)0,
-		[](size_t inbound, const ConnectionPtr& pConnection) {
-			return pConnection->GetDirection() == EDirection::INBOUND ? inbound + 1 : inbound;
+	// A connection may be busy processing a message that needs the list of connections.
+	for (const ConnectionPtr& pConnection : pruned) {
+		try {
+			pConnection->Disconnect();
 		}
-	);
-
-	m_numOutbound = connections.size() - m_numInbound;
+		catch (std::exception& e) {
+			LOG_ERROR("Error disconnecting: {}", e.what());
+		}
+	}
 }
 
 ConnectionPtr ConnectionManager::GetMostWorkPeer(const std::vector<ConnectionPtr>& connections) const
-- 
2.43.0


From b436821994603870e8616a7cd18bcc06956173d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:21 +0000
Subject: [PATCH 36/58] fix: a malformed message no longer blocks the network
 thread for good

Disconnect() was called while the connection's mutex was held by its caller.
---
 src/P2P/Connection.cpp | 10 +++++-----
 src/P2P/Connection.h   |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/P2P/Connection.cpp b/src/P2P/Connection.cpp
index 9aa6577..13fa49f 100644
--- a/src/P2P/Connection.cpp
+++ b/src/P2P/Connection.cpp
@@ -20,7 +20,7 @@ void Connection::Connect()
 
 void Connection::Disconnect()
 {
-    std::unique_lock<std::mutex> write_lock(m_mutex);
+    std::unique_lock<std::recursive_mutex> write_lock(m_mutex);
 
     if (!m_terminate) {
         m_terminate = true;
@@ -143,7 +143,7 @@ void Connection::HandleConnected(const asio::error_code& ec)
 
 void Connection::HandleReceivedHeader(const asio::error_code& ec, const size_t bytes_received)
 {
-    std::unique_lock<std::mutex> write_lock(m_mutex);
+    std::unique_lock<std::recursive_mutex> write_lock(m_mutex);
 
     if (!ec && m_pSocket->IsOpen() && bytes_received == 11) {
         assert(m_received.size() == 11);
@@ -175,7 +175,7 @@ void Connection::HandleReceivedHeader(const asio::error_code& ec, const size_t b
 
 void Connection::HandleReceivedBody(MessageHeader msg_header, const asio::error_code& ec, const size_t bytes_received)
 {
-    std::unique_lock<std::mutex> write_lock(m_mutex);
+    std::unique_lock<std::recursive_mutex> write_lock(m_mutex);
 
     if (!ec && m_pSocket->IsOpen() && bytes_received == msg_header.GetLength()) {
         assert(m_received.size() == msg_header.GetLength());
@@ -221,7 +221,7 @@ void Connection::HandleReceivedBody(MessageHeader msg_header, const asio::error_
 
 void Connection::CheckPing()
 {
-    std::unique_lock<std::mutex> write_lock(m_mutex);
+    std::unique_lock<std::recursive_mutex> write_lock(m_mutex);
 
     if (!GetSocket()->IsActive()) {
         return;
@@ -257,7 +257,7 @@ bool Connection::SendSync(const IMessage& message)
 
 bool Connection::ReceiveSync(std::vector<uint8_t>& bytes, const size_t num_bytes)
 {
-    std::unique_lock<std::mutex> write_lock(m_mutex);
+    std::unique_lock<std::recursive_mutex> write_lock(m_mutex);
 
     bytes = m_pSocket->ReceiveSync(num_bytes, false);
     if (bytes.size() != num_bytes) {
diff --git a/src/P2P/Connection.h b/src/P2P/Connection.h
index 7a13d17..3695970 100644
--- a/src/P2P/Connection.h
+++ b/src/P2P/Connection.h
@@ -113,7 +113,7 @@ private:
 	mutable SocketPtr m_pSocket;
 
 	mutable LRUCache<Hash, Hash> m_advertisedBlocks;
-	mutable std::mutex m_mutex;
+	mutable std::recursive_mutex m_mutex;
 };
 
 typedef std::shared_ptr<Connection> ConnectionPtr;
\ No newline at end of file
-- 
2.43.0


From 1f070fdac626da8529da70e82eae356ffa4e3397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:21 +0000
Subject: [PATCH 37/58] fix: close the connection to a peer that gets banned

Marking it terminated made the later Disconnect() do nothing.
---
 src/P2P/Connection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/P2P/Connection.cpp b/src/P2P/Connection.cpp
index 13fa49f..03f136a 100644
--- a/src/P2P/Connection.cpp
+++ b/src/P2P/Connection.cpp
@@ -273,5 +273,5 @@ void Connection::BanPeer(const EBanReason reason)
 {
     LOG_WARNING_F("Banning peer {} for '{}'.", GetIPAddress(), BanReason::Format(reason));
     GetPeer()->Ban(reason);
-    m_terminate = true;
+    Disconnect();
 }
\ No newline at end of file
-- 
2.43.0


From 03d113f1fb52363a6a1a8b102a7aa28c5e7be8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:21 +0000
Subject: [PATCH 38/58] fix: ask for peers through the write queue

Other threads may already be sending on the connection.
---
 src/P2P/Connection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/P2P/Connection.cpp b/src/P2P/Connection.cpp
index 03f136a..fa59258 100644
--- a/src/P2P/Connection.cpp
+++ b/src/P2P/Connection.cpp
@@ -95,7 +95,7 @@ void Connection::Thread_Connect(std::shared_ptr<Connection> pConnection)
         pConnection->m_connectionManager.AddConnection(pConnection);
 
         if (pConnection->GetDirection() == EDirection::OUTBOUND) {
-            pConnection->SendSync(GetPeerAddressesMessage(Capabilities::ECapability::FAST_SYNC_NODE));
+            pConnection->SendAsync(GetPeerAddressesMessage(Capabilities::ECapability::FAST_SYNC_NODE));
             LOG_DEBUG_F("Capabilities sent to {}", pConnection->m_connectedPeer);
         }
 
-- 
2.43.0


From b934c7ea49511bffd8e3ead4d0a4ec644ab6e4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:21 +0000
Subject: [PATCH 39/58] fix: keep listening after a refused, failed or vanished
 inbound connection

The listener was not re-armed, or the exception ended the process; and the
destructor waited for the network thread holding the mutex that thread needs.
---
 src/P2P/Seed/Seeder.cpp | 37 +++++++++++++++++++++++++++----------
 src/P2P/Seed/Seeder.h   |  1 +
 2 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/P2P/Seed/Seeder.cpp b/src/P2P/Seed/Seeder.cpp
index 5178643..c52f983 100644
--- a/src/P2P/Seed/Seeder.cpp
+++ b/src/P2P/Seed/Seeder.cpp
@@ -21,7 +21,6 @@ Seeder::~Seeder()
 
     m_pAsioContext->stop();
 
-    std::unique_lock<std::mutex> lock(m_mutex);
     ThreadUtil::Join(m_seedThread);
     ThreadUtil::Join(m_asioThread);
 }
@@ -58,11 +57,18 @@ void Seeder::Thread_AsioContext(Seeder& seeder)
 {
     LoggerAPI::SetThreadName("ASIO");
 
+    // Outbound connections need the context to keep running even when nothing is pending.
+    auto work = asio::make_work_guard(*seeder.m_pAsioContext);
+
     seeder.StartListener();
 
     while (!seeder.m_terminate) {
-        asio::error_code ec;
-        seeder.m_pAsioContext->run(ec);
+        try {
+            seeder.m_pAsioContext->run();
+        }
+        catch (std::exception& e) {
+            LOG_ERROR_F("Exception thrown: {}", e.what());
+        }
     }
 }
 
@@ -122,11 +128,25 @@ void Seeder::StartListener()
 void Seeder::Accept(const asio::error_code& ec)
 {
     std::unique_lock<std::mutex> lock(m_mutex);
-    
-    if (ec) return;
-    
+
+    if (ec == asio::error::operation_aborted || m_terminate) return;
+
+    if (!ec) {
+        try {
+            HandleAccepted();
+        }
+        catch (std::exception& e) {
+            LOG_WARNING_F("Failed to accept connection: {}", e.what());
+        }
+    }
+
+    m_pSocket = std::make_shared<asio::ip::tcp::socket>(*m_pAsioContext);
+    m_pAcceptor->async_accept(*m_pSocket, std::bind(&Seeder::Accept, this, std::placeholders::_1));
+}
+
+void Seeder::HandleAccepted()
+{
     if (m_connectionManager.GetNumberOfActiveConnections() < Global::GetConfig().GetMaxPeers()) {
-        SocketAddress socket_address = SocketAddress::FromEndpoint(m_pSocket->remote_endpoint());
         SocketPtr pSocket(new Socket(SocketAddress::FromEndpoint(m_pSocket->remote_endpoint()), m_pAsioContext, m_pSocket));
         pSocket->SetOpen(true);
 
@@ -157,9 +177,6 @@ void Seeder::Accept(const asio::error_code& ec)
         asio::error_code ignoreError;
         m_pSocket->close(ignoreError);
     }
-
-    m_pSocket = std::make_shared<asio::ip::tcp::socket>(*m_pAsioContext);
-    m_pAcceptor->async_accept(*m_pSocket, std::bind(&Seeder::Accept, this, std::placeholders::_1));
 }
 
 void Seeder::SeedNewConnection()
diff --git a/src/P2P/Seed/Seeder.h b/src/P2P/Seed/Seeder.h
index 5f67f58..90bfa25 100644
--- a/src/P2P/Seed/Seeder.h
+++ b/src/P2P/Seed/Seeder.h
@@ -49,6 +49,7 @@ private:
 	void StartListener();
 
 	void Accept(const asio::error_code& ec);
+	void HandleAccepted();
 	void SeedNewConnection();
 
 	ConnectionManager& m_connectionManager;
-- 
2.43.0


From 26877061d178fcedcbc0181067979c7fff02fb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:21 +0000
Subject: [PATCH 40/58] fix: look past a banned peer when choosing whom to
 connect to

---
 src/P2P/Seed/PeerManager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/P2P/Seed/PeerManager.cpp b/src/P2P/Seed/PeerManager.cpp
index 3709062..5c92ef9 100644
--- a/src/P2P/Seed/PeerManager.cpp
+++ b/src/P2P/Seed/PeerManager.cpp
@@ -242,6 +242,7 @@ std::vector<PeerPtr> PeerManager::GetPeersWithCapability(
         const PeerPtr& peer = peerEntry.m_peer;
 
         if (connectingToPeer && peer->GetLastBanTime() > maxBanTime) {
+            iter++;
             continue;
         }
 
-- 
2.43.0


From 2b5d31c1f8836fc1ba0e550386a29f00e9e9fea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:34 +0000
Subject: [PATCH 41/58] fix: download blocks on a chain younger than the
 cut-through horizon

The subtraction wrapped around, so state sync counted as in progress for good.
---
 src/P2P/Sync/StateSyncer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/P2P/Sync/StateSyncer.cpp b/src/P2P/Sync/StateSyncer.cpp
index 58e4c91..dfe357f 100644
--- a/src/P2P/Sync/StateSyncer.cpp
+++ b/src/P2P/Sync/StateSyncer.cpp
@@ -16,7 +16,7 @@ bool StateSyncer::SyncState(SyncStatus& syncStatus)
 	}
 
 	// If state sync is still in progress, return true to delay block sync.
-	if (syncStatus.GetBlockHeight() < (syncStatus.GetHeaderHeight() - Consensus::CUT_THROUGH_HORIZON))
+	if ((syncStatus.GetBlockHeight() + Consensus::CUT_THROUGH_HORIZON) < syncStatus.GetHeaderHeight())
 	{
 		return true;
 	}
-- 
2.43.0


From 149fd94726cab3407a8711bbfa338530f3aa07eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:32 +0000
Subject: [PATCH 42/58] fix: count received headers as an answer, and expect
 none beyond a peer's claim

---
 src/P2P/Sync/HeaderSyncer.cpp | 33 +++++++++++++++++++++++++++++++--
 src/P2P/Sync/HeaderSyncer.h   |  1 +
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/P2P/Sync/HeaderSyncer.cpp b/src/P2P/Sync/HeaderSyncer.cpp
index e5b05bf..3a977ad 100644
--- a/src/P2P/Sync/HeaderSyncer.cpp
+++ b/src/P2P/Sync/HeaderSyncer.cpp
@@ -8,6 +8,7 @@ bool HeaderSyncer::SyncHeaders(const SyncStatus& syncStatus, const bool startup)
 {
 	const uint64_t chainHeight = syncStatus.GetHeaderHeight();
 	const uint64_t networkHeight = syncStatus.GetNetworkHeight();
+	const bool moreWork = syncStatus.GetNetworkDifficulty() > syncStatus.GetHeaderDifficulty();
 
 	// This solves an issue that occurs due to the handshake not containing height.
 	if (networkHeight == 0)
@@ -15,7 +16,8 @@ bool HeaderSyncer::SyncHeaders(const SyncStatus& syncStatus, const bool startup)
 		return true;
 	}
 
-	if (networkHeight >= (chainHeight + 5) || (startup && networkHeight > chainHeight))
+	// A longer chain with no more work than ours would never become our chain, however many headers we ask for.
+	if (moreWork && (networkHeight >= (chainHeight + 5) || (startup && networkHeight > chainHeight)))
 	{
 		if (IsHeaderSyncDue(syncStatus))
 		{
@@ -58,11 +60,24 @@ bool HeaderSyncer::IsHeaderSyncDue(const SyncStatus& syncStatus)
 	// Check if header download timed out.
 	if (m_timeout < std::chrono::system_clock::now())
 	{
+		if (height > m_lastHeight)
+		{
+			LOG_TRACE("Headers received, but fewer than a full batch. Requesting the rest.");
+			m_retried = false;
+			return true;
+		}
+
 		LOG_DEBUG("Timed out. Banning then requesting from new peer.");
 
 		if (m_pPeer != nullptr)
 		{
-			if (m_retried)
+			if (!ClaimsMoreWork(syncStatus))
+			{
+				LOG_DEBUG_F("{} has no more headers for us.", m_pPeer);
+				m_pPeer = nullptr;
+				m_retried = false;
+			}
+			else if (m_retried)
 			{
 				LOG_ERROR_F("Banning peer {} for fraud height.", m_pPeer);
 				m_pPeer->Ban(EBanReason::FraudHeight);
@@ -81,6 +96,20 @@ bool HeaderSyncer::IsHeaderSyncDue(const SyncStatus& syncStatus)
 	return false;
 }
 
+// The work a peer claimed may have been outgrown since it was asked.
+bool HeaderSyncer::ClaimsMoreWork(const SyncStatus& syncStatus) const
+{
+	for (const ConnectedPeer& peer : m_pConnectionManager.lock()->GetConnectedPeers())
+	{
+		if (peer.GetIPAddress() == m_pPeer->GetIPAddress() && peer.GetTotalDifficulty() > syncStatus.GetHeaderDifficulty())
+		{
+			return true;
+		}
+	}
+
+	return false;
+}
+
 bool HeaderSyncer::RequestHeaders(const SyncStatus& syncStatus)
 {
 	LOG_TRACE("Requesting headers.");
diff --git a/src/P2P/Sync/HeaderSyncer.h b/src/P2P/Sync/HeaderSyncer.h
index e3d11b6..f8b4f08 100644
--- a/src/P2P/Sync/HeaderSyncer.h
+++ b/src/P2P/Sync/HeaderSyncer.h
@@ -25,6 +25,7 @@ public:
 private:
 	bool IsHeaderSyncDue(const SyncStatus& syncStatus);
 	bool RequestHeaders(const SyncStatus& syncStatus);
+	bool ClaimsMoreWork(const SyncStatus& syncStatus) const;
 
 	std::weak_ptr<ConnectionManager> m_pConnectionManager;
 	IBlockChain::Ptr m_pBlockChain;
-- 
2.43.0


From c9a2f9cc4e3d62a8aea63138c48b23c736050abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:32 +0000
Subject: [PATCH 43/58] fix: follow headers found while blocks are still
 downloading at startup

---
 src/P2P/Sync/Syncer.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/P2P/Sync/Syncer.cpp b/src/P2P/Sync/Syncer.cpp
index c5060e6..af3ff0f 100644
--- a/src/P2P/Sync/Syncer.cpp
+++ b/src/P2P/Sync/Syncer.cpp
@@ -54,7 +54,6 @@ void Syncer::Thread_Sync(Syncer& syncer)
     HeaderSyncer headerSyncer(syncer.m_pConnectionManager, syncer.m_pBlockChain);
     StateSyncer stateSyncer(syncer.m_pConnectionManager, syncer.m_pBlockChain);
     BlockSyncer blockSyncer(syncer.m_pConnectionManager, syncer.m_pBlockChain, syncer.m_pPipeline);
-    bool headers_synced = false;
     bool blocks_synced = false;
     auto pStatus = syncer.m_pSyncStatus;
 
@@ -65,13 +64,11 @@ void Syncer::Thread_Sync(Syncer& syncer)
 
             if (pStatus->GetNumActiveConnections() >= Global::GetConfig().GetMinSyncPeers()) {
                 // Sync Headers
-                if (headerSyncer.SyncHeaders(*pStatus, !headers_synced)) {
+                if (headerSyncer.SyncHeaders(*pStatus, !blocks_synced)) {
                     if (pStatus->GetStatus() != ESyncStatus::SYNCING_TXHASHSET && pStatus->GetStatus() != ESyncStatus::PROCESSING_TXHASHSET) {
                         pStatus->UpdateStatus(ESyncStatus::SYNCING_HEADERS);
                     }
                     continue;
-                } else {
-                    headers_synced = true;
                 }
 
                 // Sync State (TxHashSet)
-- 
2.43.0


From 0649f2191df0d8908cda43709b5cf971fd264482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:09 +0000
Subject: [PATCH 44/58] fix: only ban a peer for blocks it claims to have and
 was asked for

---
 src/P2P/Sync/BlockSyncer.cpp | 52 +++++++++++++++++++++++++++---------
 src/P2P/Sync/BlockSyncer.h   |  7 +++--
 2 files changed, 42 insertions(+), 17 deletions(-)

diff --git a/src/P2P/Sync/BlockSyncer.cpp b/src/P2P/Sync/BlockSyncer.cpp
index 6338e2e..b1496d5 100644
--- a/src/P2P/Sync/BlockSyncer.cpp
+++ b/src/P2P/Sync/BlockSyncer.cpp
@@ -11,9 +11,11 @@ bool BlockSyncer::SyncBlocks(const SyncStatus& syncStatus, const bool startup)
     const uint64_t chainHeight = syncStatus.GetBlockHeight();
     const uint64_t networkHeight = syncStatus.GetNetworkHeight();
 
-    if (networkHeight >= (chainHeight + 5) || (startup && networkHeight > chainHeight)) {
+    const bool moreWork = syncStatus.GetNetworkDifficulty() > syncStatus.GetBlockDifficulty();
+
+    if (moreWork && (networkHeight >= (chainHeight + 5) || (startup && networkHeight > chainHeight))) {
         if (IsBlockSyncDue(syncStatus)) {
-            RequestBlocks();
+            RequestBlocks(syncStatus);
 
             m_lastHeight = chainHeight;
         }
@@ -40,6 +42,17 @@ bool BlockSyncer::IsBlockSyncDue(const SyncStatus& syncStatus)
 
     m_lastHeight = chainHeight;
 
+    // Forget requests made over connections that closed since. They won't be answered.
+    std::unordered_map<IPAddress, bool> connected;
+    for (auto iter = m_requestedBlocks.begin(); iter != m_requestedBlocks.end();) {
+        const IPAddress& address = iter->second.PEER->GetIPAddress();
+        if (connected.find(address) == connected.end()) {
+            connected[address] = m_pConnectionManager.lock()->IsConnected(address);
+        }
+
+        iter = connected[address] ? std::next(iter) : m_requestedBlocks.erase(iter);
+    }
+
     // Check if blocks were received, and we're ready to request next batch.
     if (m_requestedBlocks.size() < 15) {
         LOG_TRACE("Requesting next batch.");
@@ -50,12 +63,12 @@ bool BlockSyncer::IsBlockSyncDue(const SyncStatus& syncStatus)
     std::vector<std::pair<uint64_t, Hash>> blocksNeeded = m_pBlockChain->GetBlocksNeeded(15);
     for (auto iter = blocksNeeded.cbegin(); iter != blocksNeeded.cend(); iter++) {
         auto requested_block = m_requestedBlocks.find(iter->first);
-        if (requested_block == m_requestedBlocks.end()) {
+        if (requested_block == m_requestedBlocks.end() || requested_block->second.HASH != iter->second) {
             LOG_TRACE_F("Block {} not requested yet.", iter->first);
             return true;
         }
 
-        if (IsSlowPeer(requested_block->second.PEER)) {
+        if (requested_block->second.PEER->IsBanned()) {
             LOG_TRACE_F(
                 "Waiting on block {} from banned peer {}.",
                 requested_block->second.BLOCK_HEIGHT,
@@ -77,7 +90,19 @@ bool BlockSyncer::IsBlockSyncDue(const SyncStatus& syncStatus)
     return false;
 }
 
-bool BlockSyncer::RequestBlocks()
+// A peer is only expected to have the blocks of our header chain if it claims at least as much work.
+bool BlockSyncer::IsExpectedToAnswer(PeerConstPtr pPeer, const SyncStatus& syncStatus) const
+{
+    for (const ConnectedPeer& connectedPeer : m_pConnectionManager.lock()->GetConnectedPeers()) {
+        if (connectedPeer.GetIPAddress() == pPeer->GetIPAddress()) {
+            return connectedPeer.GetTotalDifficulty() >= syncStatus.GetHeaderDifficulty();
+        }
+    }
+
+    return false;
+}
+
+bool BlockSyncer::RequestBlocks(const SyncStatus& syncStatus)
 {
     LOG_TRACE("Requesting blocks.");
 
@@ -106,9 +131,11 @@ bool BlockSyncer::RequestBlocks()
         }
 
         auto iter = m_requestedBlocks.find(blocksNeeded[blockIndex].first);
-        if (iter != m_requestedBlocks.end()) {
-            if (IsSlowPeer(iter->second.PEER) || iter->second.TIMEOUT < std::chrono::system_clock::now()) {
-                if (!iter->second.PEER->IsBanned()) {
+        if (iter != m_requestedBlocks.end() && iter->second.HASH == blocksNeeded[blockIndex].second) {
+            if (iter->second.PEER->IsBanned()) {
+                blocksToRequest.emplace_back(blocksNeeded[blockIndex]);
+            } else if (iter->second.TIMEOUT < std::chrono::system_clock::now()) {
+                if (IsExpectedToAnswer(iter->second.PEER, syncStatus)) {
                     if (!iter->second.RETRIED) {
                         LOG_INFO_F("Requesting block {} from peer {} again", iter->second.BLOCK_HEIGHT, iter->second.PEER);
                         GetBlockMessage getBlockMessage(blocksNeeded[blockIndex].second);
@@ -118,14 +145,12 @@ bool BlockSyncer::RequestBlocks()
                             ++blockIndex;
                             continue;
                         }
+                    } else {
+                        LOG_ERROR_F("Banning peer {} for fraud height.", iter->second.PEER);
+                        iter->second.PEER->Ban(EBanReason::FraudHeight);
                     }
-
-                    LOG_ERROR_F("Banning peer {} for fraud height.", iter->second.PEER);
-                    iter->second.PEER->Ban(EBanReason::FraudHeight);
                 }
 
-                m_slowPeers.insert(iter->second.PEER->GetIPAddress());
-
                 blocksToRequest.emplace_back(blocksNeeded[blockIndex]);
             }
         } else {
@@ -145,6 +170,7 @@ bool BlockSyncer::RequestBlocks()
         if (m_pConnectionManager.lock()->SendMessageToPeer(getBlockMessage, mostWorkPeers[nextPeer])) {
             RequestedBlock blockRequested;
             blockRequested.BLOCK_HEIGHT = blocksToRequest[i].first;
+            blockRequested.HASH = blocksToRequest[i].second;
             blockRequested.PEER = mostWorkPeers[nextPeer];
             blockRequested.TIMEOUT = std::chrono::system_clock::now() + std::chrono::seconds(10);
             blockRequested.RETRIED = false;
diff --git a/src/P2P/Sync/BlockSyncer.h b/src/P2P/Sync/BlockSyncer.h
index 78a97ef..712b181 100644
--- a/src/P2P/Sync/BlockSyncer.h
+++ b/src/P2P/Sync/BlockSyncer.h
@@ -6,7 +6,6 @@
 #include <BlockChain/BlockChain.h>
 #include <chrono>
 #include <deque>
-#include <unordered_set>
 #include <unordered_map>
 #include <cstdint>
 
@@ -30,8 +29,8 @@ public:
 
 private:
 	bool IsBlockSyncDue(const SyncStatus& syncStatus);
-	bool RequestBlocks();
-	bool IsSlowPeer(PeerConstPtr pPeer) const { return m_slowPeers.find(pPeer->GetIPAddress()) != m_slowPeers.end(); }
+	bool RequestBlocks(const SyncStatus& syncStatus);
+	bool IsExpectedToAnswer(PeerConstPtr pPeer, const SyncStatus& syncStatus) const;
 
 	std::weak_ptr<ConnectionManager> m_pConnectionManager;
 	IBlockChain::Ptr m_pBlockChain;
@@ -44,10 +43,10 @@ private:
 	{
 		PeerPtr PEER;
 		uint64_t BLOCK_HEIGHT;
+		Hash HASH;
 		std::chrono::time_point<std::chrono::system_clock> TIMEOUT;
 		bool RETRIED;
 		// TODO: Add retry?
 	};
 	std::unordered_map<uint64_t, RequestedBlock> m_requestedBlocks;
-	std::unordered_set<IPAddress> m_slowPeers;
 };
\ No newline at end of file
-- 
2.43.0


From e1262367200f1e089c9f71f435b1237fdfca739b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:40 +0000
Subject: [PATCH 45/58] fix: stop syncing from banned peers whose connection is
 not yet closed

---
 src/P2P/ConnectionManager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/P2P/ConnectionManager.cpp b/src/P2P/ConnectionManager.cpp
index 675cf9f..0a6d53b 100644
--- a/src/P2P/ConnectionManager.cpp
+++ b/src/P2P/ConnectionManager.cpp
@@ -86,7 +86,7 @@ std::vector<PeerPtr> ConnectionManager::GetMostWorkPeers() const
 	if (pMostWorkPeer != nullptr) {
 		const uint64_t totalDifficulty = pMostWorkPeer->GetTotalDifficulty();
 		for (const ConnectionPtr& pConnection : *connections) {
-			if (pConnection->GetTotalDifficulty() >= totalDifficulty && pConnection->GetHeight() > 0) {
+			if (pConnection->GetTotalDifficulty() >= totalDifficulty && pConnection->GetHeight() > 0 && !pConnection->GetPeer()->IsBanned()) {
 				mostWorkPeers.push_back(pConnection->GetPeer());
 			}
 		}
@@ -233,7 +233,7 @@ ConnectionPtr ConnectionManager::GetMostWorkPeer(const std::vector<ConnectionPtr
 	uint64_t mostWorkHeight = 0;
 	for (const ConnectionPtr& pConnection : connections)
 	{
-		if (pConnection->GetHeight() == 0)
+		if (pConnection->GetHeight() == 0 || pConnection->GetPeer()->IsBanned())
 		{
 			continue;
 		}
-- 
2.43.0


From 96a1f7e77861df1b9446be27841a736a048efc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:37 +0000
Subject: [PATCH 46/58] fix: request blocks by hash after a reorg, and those of
 a stored fork not at all

---
 src/BlockChain/ChainState.cpp |  7 +++++--
 src/P2P/Sync/BlockSyncer.cpp  | 13 ++++++++-----
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/BlockChain/ChainState.cpp b/src/BlockChain/ChainState.cpp
index 36f4173..bf23b85 100644
--- a/src/BlockChain/ChainState.cpp
+++ b/src/BlockChain/ChainState.cpp
@@ -205,8 +205,11 @@ std::vector<std::pair<uint64_t, Hash>> ChainState::GetBlocksNeeded(const uint64_
     uint64_t nextHeight = GetChainStore()->FindCommonIndex(EChainType::CANDIDATE, EChainType::CONFIRMED)->GetHeight() + 1;
     while (nextHeight <= candidateHeight) {
         auto pIndex = pCandidateChain->GetByHeight(nextHeight);
-        if (!m_pOrphanPool->IsOrphan(nextHeight, pIndex->GetHash())) {
-            blocksNeeded.emplace_back(std::pair<uint64_t, Hash>(nextHeight, pIndex->GetHash()));
+        const Hash& hash = pIndex->GetHash();
+
+        // Blocks of a fork that wasn't the heaviest yet when they were received are already stored.
+        if (!m_pOrphanPool->IsOrphan(nextHeight, hash) && GetBlockDB()->GetBlock(hash) == nullptr) {
+            blocksNeeded.emplace_back(std::pair<uint64_t, Hash>(nextHeight, hash));
 
             if (blocksNeeded.size() == maxNumBlocks) {
                 break;
diff --git a/src/P2P/Sync/BlockSyncer.cpp b/src/P2P/Sync/BlockSyncer.cpp
index b1496d5..2a0a6a7 100644
--- a/src/P2P/Sync/BlockSyncer.cpp
+++ b/src/P2P/Sync/BlockSyncer.cpp
@@ -35,13 +35,16 @@ bool BlockSyncer::IsBlockSyncDue(const SyncStatus& syncStatus)
         LOG_TRACE_F("{} blocks received since last check.", blocksDownloaded);
     }
 
-    // Remove downloaded blocks from queue.
-    for (size_t i = m_lastHeight; i <= chainHeight; i++) {
-        m_requestedBlocks.erase(i);
-    }
-
     m_lastHeight = chainHeight;
 
+    // Remove downloaded blocks from queue. After a reorg, blocks below the current height may still be awaited.
+    for (auto iter = m_requestedBlocks.begin(); iter != m_requestedBlocks.end();) {
+        const RequestedBlock& request = iter->second;
+        const bool downloaded = request.BLOCK_HEIGHT <= chainHeight
+            && m_pBlockChain->HasBlock(request.BLOCK_HEIGHT, request.HASH);
+        iter = downloaded ? m_requestedBlocks.erase(iter) : std::next(iter);
+    }
+
     // Forget requests made over connections that closed since. They won't be answered.
     std::unordered_map<IPAddress, bool> connected;
     for (auto iter = m_requestedBlocks.begin(); iter != m_requestedBlocks.end();) {
-- 
2.43.0


From 32299b0c8f64844dba3544a6cb5f9e9e9e76c252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:37 +0000
Subject: [PATCH 47/58] fix: an overstated total difficulty no longer stops the
 node from syncing

---
 src/P2P/ConnectionManager.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/P2P/ConnectionManager.cpp b/src/P2P/ConnectionManager.cpp
index 0a6d53b..0260d58 100644
--- a/src/P2P/ConnectionManager.cpp
+++ b/src/P2P/ConnectionManager.cpp
@@ -56,9 +56,20 @@ void ConnectionManager::UpdateSyncStatus(SyncStatus& syncStatus) const
 	auto connections = m_connections.Read();
 
 	ConnectionPtr pMostWorkPeer = GetMostWorkPeer(*connections);
+
+	// A peer that overstates its work but not its height must not hide how far behind the others we are.
+	uint64_t networkHeight = pMostWorkPeer != nullptr ? pMostWorkPeer->GetHeight() : NULL;
+	for (const ConnectionPtr& pConnection : *connections)
+	{
+		if (pConnection->GetTotalDifficulty() > syncStatus.GetBlockDifficulty() && !pConnection->GetPeer()->IsBanned())
+		{
+			networkHeight = (std::max)(networkHeight, pConnection->GetHeight());
+		}
+	}
+
 	syncStatus.UpdateNetworkStatus(
 		connections->size(),
-		pMostWorkPeer != nullptr ? pMostWorkPeer->GetHeight() : NULL,
+		networkHeight,
 		pMostWorkPeer != nullptr ? pMostWorkPeer->GetTotalDifficulty() : NULL
 	);
 }
-- 
2.43.0


From c5da6dd110cd51d9ea80d8d9ddeb87ac4f4d30b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:32 +0000
Subject: [PATCH 48/58] fix: refuse a known header whose other fields were
 altered

---
 include/Core/Models/BlockHeader.h                  |  3 +++
 src/BlockChain/Processors/BlockHeaderProcessor.cpp |  8 +++++++-
 src/BlockChain/Processors/BlockProcessor.cpp       | 13 ++++++++++++-
 src/Core/Models/BlockHeader.cpp                    |  7 +++++++
 4 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/include/Core/Models/BlockHeader.h b/include/Core/Models/BlockHeader.h
index 14af97f..84be7c4 100644
--- a/include/Core/Models/BlockHeader.h
+++ b/include/Core/Models/BlockHeader.h
@@ -53,6 +53,9 @@ public:
 	BlockHeader& operator=(BlockHeader&& other) noexcept = default;
 	bool operator!=(const BlockHeader& rhs) const { return this->GetHash() != rhs.GetHash(); }
 
+	// Compares every field. Headers with different fields can have the same hash, which only covers the proof of work.
+	bool IsSame(const BlockHeader& rhs) const;
+
 	//
 	// Getters
 	//
diff --git a/src/BlockChain/Processors/BlockHeaderProcessor.cpp b/src/BlockChain/Processors/BlockHeaderProcessor.cpp
index ada2fb2..e72d073 100644
--- a/src/BlockChain/Processors/BlockHeaderProcessor.cpp
+++ b/src/BlockChain/Processors/BlockHeaderProcessor.cpp
@@ -26,7 +26,13 @@ EBlockChainStatus BlockHeaderProcessor::ProcessSingleHeader(const BlockHeaderPtr
     auto pCandidateChain = pLockedState->GetChainStore()->GetCandidateChain();
 
     // Check if header already processed
-    if (pBlockDB->GetBlockHeader(pHeader->GetHash()) != nullptr) {
+    auto pKnownHeader = pBlockDB->GetBlockHeader(pHeader->GetHash());
+    if (pKnownHeader != nullptr) {
+        // The hash only covers the proof of work, so the other fields could have been altered.
+        if (!pKnownHeader->IsSame(*pHeader)) {
+            throw BAD_DATA_EXCEPTION_F(EBanReason::BadBlockHeader, "Header {} was altered.", *pHeader);
+        }
+
         LOG_TRACE_F("Header {} already processed.", *pHeader);
         return EBlockChainStatus::ALREADY_EXISTS;
     }
diff --git a/src/BlockChain/Processors/BlockProcessor.cpp b/src/BlockChain/Processors/BlockProcessor.cpp
index 550b061..d138002 100644
--- a/src/BlockChain/Processors/BlockProcessor.cpp
+++ b/src/BlockChain/Processors/BlockProcessor.cpp
@@ -111,7 +111,18 @@ BlockProcessor::BlockProcessingInfo BlockProcessor::DetermineBlockStatus(const F
 	while (!pConfirmedChain->IsOnChain(pForkBlock->GetHeight() - 1, pForkBlock->GetPreviousHash()))
 	{
 		Hash previousHash = pForkBlock->GetPreviousHash();
-		pForkBlock = pOrphanPool->GetOrphanBlock(pForkBlock->GetHeight() - 1, previousHash);
+		const uint64_t previousHeight = pForkBlock->GetHeight() - 1;
+		pForkBlock = pOrphanPool->GetOrphanBlock(previousHeight, previousHash);
+		if (pForkBlock != nullptr) {
+			// Blocks received before their header may have been stored with an altered one.
+			auto pKnownHeader = pBlockDB->GetBlockHeader(previousHash);
+			if (pKnownHeader != nullptr && !pKnownHeader->IsSame(*pForkBlock->GetHeader())) {
+				LOG_WARNING_F("Orphan {} has an altered header.", *pForkBlock);
+				pOrphanPool->RemoveOrphan(previousHeight, previousHash);
+				pForkBlock = nullptr;
+			}
+		}
+
 		if (pForkBlock == nullptr) {
 			pForkBlock = pBlockDB->GetBlock(previousHash);
 		}
diff --git a/src/Core/Models/BlockHeader.cpp b/src/Core/Models/BlockHeader.cpp
index 92ce620..87142d9 100644
--- a/src/Core/Models/BlockHeader.cpp
+++ b/src/Core/Models/BlockHeader.cpp
@@ -181,6 +181,13 @@ std::shared_ptr<BlockHeader> BlockHeader::FromJSON(const Json::Value& json)
 	);
 }
 
+bool BlockHeader::IsSame(const BlockHeader& rhs) const
+{
+	return GetPreProofOfWork() == rhs.GetPreProofOfWork()
+		&& m_proofOfWork.GetEdgeBits() == rhs.m_proofOfWork.GetEdgeBits()
+		&& m_proofOfWork.GetProofNonces() == rhs.m_proofOfWork.GetProofNonces();
+}
+
 std::vector<unsigned char> BlockHeader::GetPreProofOfWork() const
 {
 	Serializer serializer;
-- 
2.43.0


From e721871c779d5d1cc2c238364e25d4a34c33d104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:25 +0000
Subject: [PATCH 49/58] fix: requests over a closed connection are not held
 against a peer that reconnected

---
 src/P2P/ConnectionManager.cpp | 20 ++++++++++++--------
 src/P2P/ConnectionManager.h   |  1 +
 src/P2P/Sync/BlockSyncer.cpp  |  8 +++++---
 src/P2P/Sync/BlockSyncer.h    |  1 +
 src/P2P/Sync/HeaderSyncer.cpp |  6 +++++-
 src/P2P/Sync/HeaderSyncer.h   |  1 +
 6 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/P2P/ConnectionManager.cpp b/src/P2P/ConnectionManager.cpp
index 0260d58..eea1320 100644
--- a/src/P2P/ConnectionManager.cpp
+++ b/src/P2P/ConnectionManager.cpp
@@ -75,16 +75,20 @@ void ConnectionManager::UpdateSyncStatus(SyncStatus& syncStatus) const
 }
 
 bool ConnectionManager::IsConnected(const IPAddress& address) const
+{
+	return GetConnectionId(address).has_value();
+}
+
+std::optional<uint64_t> ConnectionManager::GetConnectionId(const IPAddress& address) const
 {
 	auto connections = m_connections.Read();
-	return std::any_of(
-		connections->cbegin(),
-		connections->cend(),
-		[&address](const ConnectionPtr& pConnection)
-		{
-			return pConnection->GetIPAddress() == address && pConnection->IsConnectionActive();
+	for (const ConnectionPtr& pConnection : *connections) {
+		if (pConnection->GetIPAddress() == address && pConnection->IsConnectionActive()) {
+			return pConnection->GetId();
 		}
-	);
+	}
+
+	return std::nullopt;
 }
 
 std::vector<PeerPtr> ConnectionManager::GetMostWorkPeers() const
@@ -159,7 +163,7 @@ bool ConnectionManager::SendMessageToPeer(const IMessage& message, PeerConstPtr
 {
 	auto connections = *m_connections.Read().GetShared();
 	for (auto pConnection : connections) {
-		if (pConnection->GetIPAddress() == pPeer->GetIPAddress()) {
+		if (pConnection->GetIPAddress() == pPeer->GetIPAddress() && pConnection->IsConnectionActive()) {
 			pConnection->SendAsync(message);
 			return true;
 		}
diff --git a/src/P2P/ConnectionManager.h b/src/P2P/ConnectionManager.h
index c0b0050..1895d95 100644
--- a/src/P2P/ConnectionManager.h
+++ b/src/P2P/ConnectionManager.h
@@ -25,6 +25,7 @@ public:
 	size_t GetNumberOfActiveConnections() const { return m_connections.Read()->size(); }
 
 	bool IsConnected(const IPAddress& address) const;
+	std::optional<uint64_t> GetConnectionId(const IPAddress& address) const;
 	std::vector<PeerPtr> GetMostWorkPeers() const;
 	std::vector<ConnectedPeer> GetConnectedPeers() const;
 	uint64_t GetMostWork() const;
diff --git a/src/P2P/Sync/BlockSyncer.cpp b/src/P2P/Sync/BlockSyncer.cpp
index 2a0a6a7..de083e2 100644
--- a/src/P2P/Sync/BlockSyncer.cpp
+++ b/src/P2P/Sync/BlockSyncer.cpp
@@ -46,14 +46,15 @@ bool BlockSyncer::IsBlockSyncDue(const SyncStatus& syncStatus)
     }
 
     // Forget requests made over connections that closed since. They won't be answered.
-    std::unordered_map<IPAddress, bool> connected;
+    std::unordered_map<IPAddress, std::optional<uint64_t>> connected;
     for (auto iter = m_requestedBlocks.begin(); iter != m_requestedBlocks.end();) {
         const IPAddress& address = iter->second.PEER->GetIPAddress();
         if (connected.find(address) == connected.end()) {
-            connected[address] = m_pConnectionManager.lock()->IsConnected(address);
+            connected[address] = m_pConnectionManager.lock()->GetConnectionId(address);
         }
 
-        iter = connected[address] ? std::next(iter) : m_requestedBlocks.erase(iter);
+        const bool closed = !connected[address].has_value() || connected[address] != iter->second.CONNECTION_ID;
+        iter = closed ? m_requestedBlocks.erase(iter) : std::next(iter);
     }
 
     // Check if blocks were received, and we're ready to request next batch.
@@ -175,6 +176,7 @@ bool BlockSyncer::RequestBlocks(const SyncStatus& syncStatus)
             blockRequested.BLOCK_HEIGHT = blocksToRequest[i].first;
             blockRequested.HASH = blocksToRequest[i].second;
             blockRequested.PEER = mostWorkPeers[nextPeer];
+            blockRequested.CONNECTION_ID = m_pConnectionManager.lock()->GetConnectionId(blockRequested.PEER->GetIPAddress());
             blockRequested.TIMEOUT = std::chrono::system_clock::now() + std::chrono::seconds(10);
             blockRequested.RETRIED = false;
 
diff --git a/src/P2P/Sync/BlockSyncer.h b/src/P2P/Sync/BlockSyncer.h
index 712b181..cf452ca 100644
--- a/src/P2P/Sync/BlockSyncer.h
+++ b/src/P2P/Sync/BlockSyncer.h
@@ -42,6 +42,7 @@ private:
 	struct RequestedBlock
 	{
 		PeerPtr PEER;
+		std::optional<uint64_t> CONNECTION_ID;
 		uint64_t BLOCK_HEIGHT;
 		Hash HASH;
 		std::chrono::time_point<std::chrono::system_clock> TIMEOUT;
diff --git a/src/P2P/Sync/HeaderSyncer.cpp b/src/P2P/Sync/HeaderSyncer.cpp
index 3a977ad..261a50a 100644
--- a/src/P2P/Sync/HeaderSyncer.cpp
+++ b/src/P2P/Sync/HeaderSyncer.cpp
@@ -50,10 +50,13 @@ bool HeaderSyncer::IsHeaderSyncDue(const SyncStatus& syncStatus)
 		return true;
 	}
 
-	if (!m_pConnectionManager.lock()->IsConnected(m_pPeer->GetIPAddress()))
+	// Even if the peer has reconnected since, the answer was lost with the connection.
+	const std::optional<uint64_t> connectionId = m_pConnectionManager.lock()->GetConnectionId(m_pPeer->GetIPAddress());
+	if (!connectionId.has_value() || connectionId != m_connectionId)
 	{
 		LOG_TRACE("Peer disconnected. Requesting from new peer.");
 		m_pPeer = nullptr;
+		m_retried = false;
 		return true;
 	}
 
@@ -132,6 +135,7 @@ bool HeaderSyncer::RequestHeaders(const SyncStatus& syncStatus)
 	if (m_pPeer != nullptr)
 	{
 		LOG_TRACE("Headers requested.");
+		m_connectionId = m_pConnectionManager.lock()->GetConnectionId(m_pPeer->GetIPAddress());
 		m_timeout = std::chrono::system_clock::now() + std::chrono::seconds(10);
 		m_lastHeight = syncStatus.GetHeaderHeight();
 	}
diff --git a/src/P2P/Sync/HeaderSyncer.h b/src/P2P/Sync/HeaderSyncer.h
index f8b4f08..7215f01 100644
--- a/src/P2P/Sync/HeaderSyncer.h
+++ b/src/P2P/Sync/HeaderSyncer.h
@@ -33,5 +33,6 @@ private:
 	std::chrono::time_point<std::chrono::system_clock> m_timeout;
 	uint64_t m_lastHeight;
 	PeerPtr m_pPeer;
+	std::optional<uint64_t> m_connectionId;
 	bool m_retried;
 };
\ No newline at end of file
-- 
2.43.0


From 19f5649413c6f288fee8b4b51e9d2248c3008849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:04 +0000
Subject: [PATCH 50/58] fix: catch up with a heavier fork that is no more than
 a few blocks longer

---
 src/P2P/MessageProcessor.cpp  |  5 +++--
 src/P2P/Sync/BlockSyncer.cpp  |  4 ++--
 src/P2P/Sync/BlockSyncer.h    |  2 +-
 src/P2P/Sync/HeaderSyncer.cpp |  4 ++--
 src/P2P/Sync/HeaderSyncer.h   |  2 +-
 src/P2P/Sync/Syncer.cpp       | 13 +++++++++++--
 6 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/P2P/MessageProcessor.cpp b/src/P2P/MessageProcessor.cpp
index cc486da..b89531f 100644
--- a/src/P2P/MessageProcessor.cpp
+++ b/src/P2P/MessageProcessor.cpp
@@ -245,7 +245,7 @@ void MessageProcessor::ProcessMessageInternal(const std::shared_ptr<Connection>&
                     const HeaderMessage headerMessage(block.GetHeader());
                     m_connectionManager.BroadcastMessage(headerMessage, pConnection->GetId());
                 } else if (added == EBlockChainStatus::ORPHANED) {
-                    if (block.GetTotalDifficulty() > m_pBlockChain->GetTotalDifficulty(EChainType::CONFIRMED))
+                    if (pConnection->GetTotalDifficulty() > m_pBlockChain->GetTotalDifficulty(EChainType::CONFIRMED))
                     {
                         pConnection->SendAsync(GetCompactBlockMessage{ block.GetPreviousHash() });
                     }
@@ -286,7 +286,8 @@ void MessageProcessor::ProcessMessageInternal(const std::shared_ptr<Connection>&
             {
                 if (compactBlock.GetHeight() < (m_pBlockChain->GetHeight(EChainType::CONFIRMED) + 100))
                 {
-                    if (compactBlock.GetTotalDifficulty() > m_pBlockChain->GetTotalDifficulty(EChainType::CONFIRMED))
+                    // The fork may well start at a block with less work than ours.
+                    if (pConnection->GetTotalDifficulty() > m_pBlockChain->GetTotalDifficulty(EChainType::CONFIRMED))
                     {
                         pConnection->SendAsync(GetCompactBlockMessage{ compactBlock.GetPreviousHash() });
                     }
diff --git a/src/P2P/Sync/BlockSyncer.cpp b/src/P2P/Sync/BlockSyncer.cpp
index de083e2..d94dd6a 100644
--- a/src/P2P/Sync/BlockSyncer.cpp
+++ b/src/P2P/Sync/BlockSyncer.cpp
@@ -6,14 +6,14 @@
 #include <Common/Util/StringUtil.h>
 #include <Crypto/CSPRNG.h>
 
-bool BlockSyncer::SyncBlocks(const SyncStatus& syncStatus, const bool startup)
+bool BlockSyncer::SyncBlocks(const SyncStatus& syncStatus, const bool catchUp)
 {
     const uint64_t chainHeight = syncStatus.GetBlockHeight();
     const uint64_t networkHeight = syncStatus.GetNetworkHeight();
 
     const bool moreWork = syncStatus.GetNetworkDifficulty() > syncStatus.GetBlockDifficulty();
 
-    if (moreWork && (networkHeight >= (chainHeight + 5) || (startup && networkHeight > chainHeight))) {
+    if (moreWork && (networkHeight >= (chainHeight + 5) || catchUp)) {
         if (IsBlockSyncDue(syncStatus)) {
             RequestBlocks(syncStatus);
 
diff --git a/src/P2P/Sync/BlockSyncer.h b/src/P2P/Sync/BlockSyncer.h
index cf452ca..c413e80 100644
--- a/src/P2P/Sync/BlockSyncer.h
+++ b/src/P2P/Sync/BlockSyncer.h
@@ -25,7 +25,7 @@ public:
 		m_lastHeight(0),
 		m_highestRequested(0) { }
 
-	bool SyncBlocks(const SyncStatus& syncStatus, const bool startup);
+	bool SyncBlocks(const SyncStatus& syncStatus, const bool catchUp);
 
 private:
 	bool IsBlockSyncDue(const SyncStatus& syncStatus);
diff --git a/src/P2P/Sync/HeaderSyncer.cpp b/src/P2P/Sync/HeaderSyncer.cpp
index 261a50a..afd6ded 100644
--- a/src/P2P/Sync/HeaderSyncer.cpp
+++ b/src/P2P/Sync/HeaderSyncer.cpp
@@ -4,7 +4,7 @@
 
 #include <Common/Logger.h>
 
-bool HeaderSyncer::SyncHeaders(const SyncStatus& syncStatus, const bool startup)
+bool HeaderSyncer::SyncHeaders(const SyncStatus& syncStatus, const bool catchUp)
 {
 	const uint64_t chainHeight = syncStatus.GetHeaderHeight();
 	const uint64_t networkHeight = syncStatus.GetNetworkHeight();
@@ -17,7 +17,7 @@ bool HeaderSyncer::SyncHeaders(const SyncStatus& syncStatus, const bool startup)
 	}
 
 	// A longer chain with no more work than ours would never become our chain, however many headers we ask for.
-	if (moreWork && (networkHeight >= (chainHeight + 5) || (startup && networkHeight > chainHeight)))
+	if (moreWork && (networkHeight >= (chainHeight + 5) || catchUp))
 	{
 		if (IsHeaderSyncDue(syncStatus))
 		{
diff --git a/src/P2P/Sync/HeaderSyncer.h b/src/P2P/Sync/HeaderSyncer.h
index 7215f01..8e04326 100644
--- a/src/P2P/Sync/HeaderSyncer.h
+++ b/src/P2P/Sync/HeaderSyncer.h
@@ -20,7 +20,7 @@ public:
 		m_retried = false;
 	}
 
-	bool SyncHeaders(const SyncStatus& syncStatus, const bool startup);
+	bool SyncHeaders(const SyncStatus& syncStatus, const bool catchUp);
 
 private:
 	bool IsHeaderSyncDue(const SyncStatus& syncStatus);
diff --git a/src/P2P/Sync/Syncer.cpp b/src/P2P/Sync/Syncer.cpp
index af3ff0f..1479a9f 100644
--- a/src/P2P/Sync/Syncer.cpp
+++ b/src/P2P/Sync/Syncer.cpp
@@ -8,6 +8,7 @@
 #include <Common/Logger.h>
 #include <Common/Util/ThreadUtil.h>
 #include <Core/Global.h>
+#include <chrono>
 
 Syncer::Syncer(
     std::weak_ptr<ConnectionManager> pConnectionManager,
@@ -55,6 +56,7 @@ void Syncer::Thread_Sync(Syncer& syncer)
     StateSyncer stateSyncer(syncer.m_pConnectionManager, syncer.m_pBlockChain);
     BlockSyncer blockSyncer(syncer.m_pConnectionManager, syncer.m_pBlockChain, syncer.m_pPipeline);
     bool blocks_synced = false;
+    auto lastInSync = std::chrono::steady_clock::now();
     auto pStatus = syncer.m_pSyncStatus;
 
     while (!syncer.m_terminate && Global::IsRunning()) {
@@ -63,8 +65,15 @@ void Syncer::Thread_Sync(Syncer& syncer)
             syncer.UpdateSyncStatus();
 
             if (pStatus->GetNumActiveConnections() >= Global::GetConfig().GetMinSyncPeers()) {
+                // Blocks just found are announced to us, so a few missing blocks are not worth a sync, unless they keep missing.
+                if (pStatus->GetBlockDifficulty() >= pStatus->GetNetworkDifficulty()) {
+                    lastInSync = std::chrono::steady_clock::now();
+                }
+
+                const bool catchUp = !blocks_synced || std::chrono::steady_clock::now() - lastInSync > std::chrono::seconds(30);
+
                 // Sync Headers
-                if (headerSyncer.SyncHeaders(*pStatus, !blocks_synced)) {
+                if (headerSyncer.SyncHeaders(*pStatus, catchUp)) {
                     if (pStatus->GetStatus() != ESyncStatus::SYNCING_TXHASHSET && pStatus->GetStatus() != ESyncStatus::PROCESSING_TXHASHSET) {
                         pStatus->UpdateStatus(ESyncStatus::SYNCING_HEADERS);
                     }
@@ -77,7 +86,7 @@ void Syncer::Thread_Sync(Syncer& syncer)
                 }
 
                 // Sync Blocks
-                if (blockSyncer.SyncBlocks(*pStatus, !blocks_synced)) {
+                if (blockSyncer.SyncBlocks(*pStatus, catchUp)) {
                     pStatus->UpdateStatus(ESyncStatus::SYNCING_BLOCKS);
                     continue;
                 } else {
-- 
2.43.0


From bb4f658c703c567b043bf9c3e7fd7ae0fe04159b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:18 +0000
Subject: [PATCH 51/58] fix: answer a headers request from the newest locator
 entry on our chain

---
 src/P2P/BlockLocator.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/P2P/BlockLocator.cpp b/src/P2P/BlockLocator.cpp
index 900b856..febd183 100644
--- a/src/P2P/BlockLocator.cpp
+++ b/src/P2P/BlockLocator.cpp
@@ -60,9 +60,9 @@ std::vector<BlockHeaderPtr> BlockLocator::LocateHeaders(const std::vector<Hash>&
 	{
 		const uint64_t totalHeight = m_pBlockChain->GetHeight(EChainType::CANDIDATE);
 		const uint64_t headerHeight = pCommonHeader->GetHeight();
-		const uint64_t numHeadersToSend = (std::min)(totalHeight - headerHeight, (uint64_t)P2P::MAX_BLOCK_HEADERS);
+		const uint64_t numHeadersToSend = totalHeight > headerHeight ? (std::min)(totalHeight - headerHeight, (uint64_t)P2P::MAX_BLOCK_HEADERS) : 0;
 
-		for (int i = 1; i <= numHeadersToSend; i++)
+		for (uint64_t i = 1; i <= numHeadersToSend; i++)
 		{
 			auto pHeader = m_pBlockChain->GetBlockHeaderByHeight(headerHeight + i, EChainType::CANDIDATE);
 			if (pHeader == nullptr)
@@ -82,7 +82,14 @@ BlockHeaderPtr BlockLocator::FindCommonHeader(const std::vector<Hash>& locatorHa
 	for (const Hash& locatorHash : locatorHashes)
 	{
 		auto pHeader = m_pBlockChain->GetBlockHeaderByHash(locatorHash);
-		if (pHeader != nullptr)
+		if (pHeader == nullptr)
+		{
+			continue;
+		}
+
+		// Headers of forks we know of are not on the chain the reply is taken from.
+		auto pChainHeader = m_pBlockChain->GetBlockHeaderByHeight(pHeader->GetHeight(), EChainType::CANDIDATE);
+		if (pChainHeader != nullptr && pChainHeader->GetHash() == locatorHash)
 		{
 			return pHeader;
 		}
-- 
2.43.0


From 4263e108fdcbac42870ae307dff47a3e8d1c9453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:25 +0000
Subject: [PATCH 52/58] fix: announce a block that had to wait for its parent

---
 include/BlockChain/BlockChain.h   |  2 +-
 src/BlockChain/BlockChainImpl.cpp | 15 ++++++++++-----
 src/BlockChain/BlockChainImpl.h   |  2 +-
 src/P2P/Pipeline/BlockPipe.cpp    | 30 ++++++++++++++++++++++++------
 src/P2P/Pipeline/BlockPipe.h      | 15 +++++++++++++--
 src/P2P/Pipeline/Pipeline.h       |  2 +-
 6 files changed, 50 insertions(+), 16 deletions(-)

diff --git a/include/BlockChain/BlockChain.h b/include/BlockChain/BlockChain.h
index 1f84b59..ec324bd 100644
--- a/include/BlockChain/BlockChain.h
+++ b/include/BlockChain/BlockChain.h
@@ -129,7 +129,7 @@ public:
 	//
 	virtual std::vector<std::pair<uint64_t, Hash>> GetBlocksNeeded(const uint64_t maxNumBlocks) const = 0;
 
-	virtual bool ProcessNextOrphanBlock() = 0;
+	virtual BlockHeaderPtr ProcessNextOrphanBlock() = 0;
 	virtual bool HasOrphan(const Hash& blockHash) const = 0;
 };
 
diff --git a/src/BlockChain/BlockChainImpl.cpp b/src/BlockChain/BlockChainImpl.cpp
index d1f97ed..81ee180 100644
--- a/src/BlockChain/BlockChainImpl.cpp
+++ b/src/BlockChain/BlockChainImpl.cpp
@@ -383,7 +383,7 @@ std::vector<std::pair<uint64_t, Hash>> BlockChain::GetBlocksNeeded(const uint64_
 	return m_pChainState->Read()->GetBlocksNeeded(maxNumBlocks);
 }
 
-bool BlockChain::ProcessNextOrphanBlock()
+BlockHeaderPtr BlockChain::ProcessNextOrphanBlock()
 {
 	BlockHeaderPtr pNextHeader = nullptr;
 	std::shared_ptr<const FullBlock> pOrphanBlock = nullptr;
@@ -394,19 +394,24 @@ bool BlockChain::ProcessNextOrphanBlock()
 		pNextHeader = pReader->GetBlockHeaderByHeight(height, EChainType::CANDIDATE);
 		if (pNextHeader == nullptr)
 		{
-			return false;
+			return nullptr;
 		}
 
 		pOrphanBlock = pReader->GetOrphanBlock(height, pNextHeader->GetHash());
 		if (pOrphanBlock == nullptr)
 		{
-			return false;
+			return nullptr;
 		}
 	}
 
 	try
 	{
-		return BlockProcessor(m_pChainState).ProcessBlock(*pOrphanBlock) == EBlockChainStatus::SUCCESS;
+		if (BlockProcessor(m_pChainState).ProcessBlock(*pOrphanBlock) == EBlockChainStatus::SUCCESS)
+		{
+			return pNextHeader;
+		}
+
+		return nullptr;
 	}
 	catch (std::exception&)
 	{
@@ -414,7 +419,7 @@ bool BlockChain::ProcessNextOrphanBlock()
 			Write()->
 			GetOrphanPool()->
 			RemoveOrphan(pNextHeader->GetHeight(), pNextHeader->GetHash());
-		return false;
+		return nullptr;
 	}
 }
 
diff --git a/src/BlockChain/BlockChainImpl.h b/src/BlockChain/BlockChainImpl.h
index b008328..60e7d34 100644
--- a/src/BlockChain/BlockChainImpl.h
+++ b/src/BlockChain/BlockChainImpl.h
@@ -61,7 +61,7 @@ public:
 	std::vector<BlockWithOutputs> GetOutputsByHeight(const uint64_t startHeight, const uint64_t maxHeight) const final;
 	std::vector<std::pair<uint64_t, Hash>> GetBlocksNeeded(const uint64_t maxNumBlocks) const final;
 
-	bool ProcessNextOrphanBlock() final;
+	BlockHeaderPtr ProcessNextOrphanBlock() final;
 	bool HasOrphan(const Hash& blockHash) const final;
 
 private:
diff --git a/src/P2P/Pipeline/BlockPipe.cpp b/src/P2P/Pipeline/BlockPipe.cpp
index 2621c44..3bbf7f4 100644
--- a/src/P2P/Pipeline/BlockPipe.cpp
+++ b/src/P2P/Pipeline/BlockPipe.cpp
@@ -1,13 +1,21 @@
 #include "BlockPipe.h"
-#include "../Messages/TransactionKernelMessage.h"
+#include "../Messages/HeaderMessage.h"
 #include "../ConnectionManager.h"
 
 #include <Common/Util/ThreadUtil.h>
 #include <Common/Logger.h>
 #include <BlockChain/BlockChain.h>
 
-BlockPipe::BlockPipe(const Config& config, const IBlockChain::Ptr& pBlockChain)
-	: m_config(config), m_pBlockChain(pBlockChain), m_terminate(false)
+BlockPipe::BlockPipe(
+	const Config& config,
+	const std::shared_ptr<ConnectionManager>& pConnectionManager,
+	const IBlockChain::Ptr& pBlockChain,
+	const SyncStatusConstPtr& pSyncStatus)
+	: m_config(config),
+	m_pConnectionManager(pConnectionManager),
+	m_pBlockChain(pBlockChain),
+	m_pSyncStatus(pSyncStatus),
+	m_terminate(false)
 {
 }
 
@@ -19,9 +27,13 @@ BlockPipe::~BlockPipe()
 	ThreadUtil::Join(m_processThread);
 }
 
-std::shared_ptr<BlockPipe> BlockPipe::Create(const Config& config, const IBlockChain::Ptr& pBlockChain)
+std::shared_ptr<BlockPipe> BlockPipe::Create(
+	const Config& config,
+	const std::shared_ptr<ConnectionManager>& pConnectionManager,
+	const IBlockChain::Ptr& pBlockChain,
+	const SyncStatusConstPtr& pSyncStatus)
 {
-	std::shared_ptr<BlockPipe> pBlockPipe = std::shared_ptr<BlockPipe>(new BlockPipe(config, pBlockChain));
+	std::shared_ptr<BlockPipe> pBlockPipe = std::shared_ptr<BlockPipe>(new BlockPipe(config, pConnectionManager, pBlockChain, pSyncStatus));
 	pBlockPipe->m_blockThread = std::thread(Thread_ProcessNewBlocks, std::ref(*pBlockPipe.get()));
 	pBlockPipe->m_processThread = std::thread(Thread_PostProcessBlocks, std::ref(*pBlockPipe.get()));
 
@@ -88,10 +100,16 @@ void BlockPipe::Thread_PostProcessBlocks(BlockPipe& pipeline)
 
 	while (!pipeline.m_terminate && Global::IsRunning())
 	{
-		if (!pipeline.m_pBlockChain->ProcessNextOrphanBlock())
+		BlockHeaderPtr pHeader = pipeline.m_pBlockChain->ProcessNextOrphanBlock();
+		if (pHeader == nullptr)
 		{
 			ThreadUtil::SleepFor(std::chrono::milliseconds(5));
 		}
+		else if (pipeline.m_pSyncStatus->GetStatus() == ESyncStatus::NOT_SYNCING)
+		{
+			// Its parent arrived after it, so nobody has been told about this block yet.
+			pipeline.m_pConnectionManager->BroadcastMessage(HeaderMessage(pHeader), 0);
+		}
 	}
 
 	LOG_TRACE("END");
diff --git a/src/P2P/Pipeline/BlockPipe.h b/src/P2P/Pipeline/BlockPipe.h
index 4e39ecd..79a4922 100644
--- a/src/P2P/Pipeline/BlockPipe.h
+++ b/src/P2P/Pipeline/BlockPipe.h
@@ -4,6 +4,7 @@
 #include <P2P/Peer.h>
 #include <Core/Models/FullBlock.h>
 #include <BlockChain/BlockChain.h>
+#include <P2P/SyncStatus.h>
 #include <Common/ConcurrentQueue.h>
 #include <string>
 #include <cstdint>
@@ -12,6 +13,7 @@
 
 // Forward Declarations
 class Config;
+class ConnectionManager;
 class TxHashSetArchiveMessage;
 class Transaction;
 
@@ -20,7 +22,9 @@ class BlockPipe
 public:
 	static std::shared_ptr<BlockPipe> Create(
 		const Config& config,
-		const IBlockChain::Ptr& pBlockChain
+		const std::shared_ptr<ConnectionManager>& pConnectionManager,
+		const IBlockChain::Ptr& pBlockChain,
+		const SyncStatusConstPtr& pSyncStatus
 	);
 	~BlockPipe();
 
@@ -28,10 +32,17 @@ public:
 	bool IsProcessingBlock(const Hash& hash) const;
 
 private:
-	BlockPipe(const Config& config, const IBlockChain::Ptr& pBlockChain);
+	BlockPipe(
+		const Config& config,
+		const std::shared_ptr<ConnectionManager>& pConnectionManager,
+		const IBlockChain::Ptr& pBlockChain,
+		const SyncStatusConstPtr& pSyncStatus
+	);
 
 	const Config& m_config;
+	std::shared_ptr<ConnectionManager> m_pConnectionManager;
 	IBlockChain::Ptr m_pBlockChain;
+	SyncStatusConstPtr m_pSyncStatus;
 
 	struct BlockEntry
 	{
diff --git a/src/P2P/Pipeline/Pipeline.h b/src/P2P/Pipeline/Pipeline.h
index 5a44f8d..a82f663 100644
--- a/src/P2P/Pipeline/Pipeline.h
+++ b/src/P2P/Pipeline/Pipeline.h
@@ -22,7 +22,7 @@ public:
 		const IBlockChain::Ptr& pBlockChain,
 		SyncStatusPtr pSyncStatus)
 	{
-		std::shared_ptr<BlockPipe> pBlockPipe = BlockPipe::Create(config, pBlockChain);
+		std::shared_ptr<BlockPipe> pBlockPipe = BlockPipe::Create(config, pConnectionManager, pBlockChain, pSyncStatus);
 		std::shared_ptr<TransactionPipe> pTransactionPipe = TransactionPipe::Create(config, pConnectionManager, pBlockChain);
 		std::shared_ptr<TxHashSetPipe> pTxHashSetPipe = TxHashSetPipe::Create(pConnectionManager, pBlockChain, pSyncStatus);
 
-- 
2.43.0


From 6aaecee7000d84ed836e71d2b4465db31df2bfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:25 +0000
Subject: [PATCH 53/58] fix: a peer is not abusive because of the messages we
 send it

---
 src/P2P/Connection.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/P2P/Connection.cpp b/src/P2P/Connection.cpp
index fa59258..34bce41 100644
--- a/src/P2P/Connection.cpp
+++ b/src/P2P/Connection.cpp
@@ -68,8 +68,8 @@ void Connection::SendAsync(const IMessage& message)
 
 bool Connection::ExceedsRateLimit() const
 {
-    return m_pSocket->GetRateCounter().GetSentInLastMinute() > 500
-        || m_pSocket->GetRateCounter().GetReceivedInLastMinute() > 500;
+    // What we chose to send is not the peer's doing.
+    return m_pSocket->GetRateCounter().GetReceivedInLastMinute() > 500;
 }
 
 void Connection::Thread_Connect(std::shared_ptr<Connection> pConnection)
-- 
2.43.0


From 86cd02b9d24f0794f926d5408a7e3bea99d602a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:25 +0000
Subject: [PATCH 54/58] fix: announce a transaction once, not once per kernel

---
 src/P2P/P2PServerImpl.cpp            | 6 ++++--
 src/P2P/Pipeline/TransactionPipe.cpp | 8 ++++----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/P2P/P2PServerImpl.cpp b/src/P2P/P2PServerImpl.cpp
index be5010f..182d4be 100644
--- a/src/P2P/P2PServerImpl.cpp
+++ b/src/P2P/P2PServerImpl.cpp
@@ -154,9 +154,11 @@ bool P2PServer::UnbanAllPeers()
 
 void P2PServer::BroadcastTransaction(const TransactionPtr& pTransaction)
 {
-	for (auto& kernel : pTransaction->GetKernels())
+	// One kernel is enough to request the transaction by.
+	const std::vector<TransactionKernel>& kernels = pTransaction->GetKernels();
+	if (!kernels.empty())
 	{
-		const TransactionKernelMessage message(kernel.GetHash());
+		const TransactionKernelMessage message(kernels.front().GetHash());
 		m_pConnectionManager->BroadcastMessage(message, 0);
 	}
 }
diff --git a/src/P2P/Pipeline/TransactionPipe.cpp b/src/P2P/Pipeline/TransactionPipe.cpp
index ee38946..2aa9c80 100644
--- a/src/P2P/Pipeline/TransactionPipe.cpp
+++ b/src/P2P/Pipeline/TransactionPipe.cpp
@@ -45,12 +45,12 @@ void TransactionPipe::Thread_ProcessTransactions(TransactionPipe& pipeline)
 				const EBlockChainStatus status = pipeline.m_pBlockChain->AddTransaction(pTxEntry->pTransaction, pTxEntry->poolType);
 				if (status == EBlockChainStatus::SUCCESS && pTxEntry->poolType == EPoolType::MEMPOOL)
 				{
-					// Broacast TransactionKernelMsg
+					// Broacast TransactionKernelMsg. One kernel is enough to request the transaction by.
 					const std::vector<TransactionKernel>& kernels = pTxEntry->pTransaction->GetKernels();
-					for (auto& kernel : kernels)
+					if (!kernels.empty())
 					{
-						const TransactionKernelMessage message(kernel.GetHash());
-						LOG_DEBUG_F("Broadcasting kernel {}", kernel.GetHash());
+						const TransactionKernelMessage message(kernels.front().GetHash());
+						LOG_DEBUG_F("Broadcasting kernel {}", kernels.front().GetHash());
 						pipeline.m_pConnectionManager->BroadcastMessage(message, pTxEntry->m_connectionId);
 					}
 				}
-- 
2.43.0


From a9b0afeaab32bf5c5118ee0f465893e7b0c1f5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:25 +0000
Subject: [PATCH 55/58] fix: start the embargo of a stem transaction when it
 arrives

---
 src/TxPool/Pool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TxPool/Pool.cpp b/src/TxPool/Pool.cpp
index e67ee71..9dc471e 100644
--- a/src/TxPool/Pool.cpp
+++ b/src/TxPool/Pool.cpp
@@ -33,7 +33,7 @@ void Pool::AddTransaction(TransactionPtr pTransaction, const EDandelionStatus st
 {
 	LOG_DEBUG_F("Transaction added: {}", pTransaction->GetHash());
 
-	m_transactions.emplace_back(TxPoolEntry(pTransaction, status, std::time_t()));
+	m_transactions.emplace_back(TxPoolEntry(pTransaction, status, std::time(nullptr)));
 }
 
 bool Pool::ContainsTransaction(const Transaction& transaction) const
-- 
2.43.0


From 182736e28da1f4a23782d4b6335160f97ac9ac99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:25 +0000
Subject: [PATCH 56/58] fix: do not hand out stem transactions to peers that
 ask for them

---
 src/TxPool/TransactionPoolImpl.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/TxPool/TransactionPoolImpl.cpp b/src/TxPool/TransactionPoolImpl.cpp
index aafb276..e3ee99a 100644
--- a/src/TxPool/TransactionPoolImpl.cpp
+++ b/src/TxPool/TransactionPoolImpl.cpp
@@ -109,13 +109,8 @@ TransactionPtr TransactionPool::FindTransactionByKernelHash(const Hash& kernelHa
 {
 	std::shared_lock<std::shared_mutex> readLock(m_mutex);
 
-	TransactionPtr pTransaction = m_memPool.FindTransactionByKernelHash(kernelHash);
-	if (pTransaction == nullptr)
-	{
-		pTransaction = m_stemPool.FindTransactionByKernelHash(kernelHash);
-	}
-
-	return pTransaction;
+	// Transactions in the stempool are not public yet.
+	return m_memPool.FindTransactionByKernelHash(kernelHash);
 }
 
 void TransactionPool::ReconcileBlock(std::shared_ptr<const IBlockDB> pBlockDB, ITxHashSetConstPtr pTxHashSet, const FullBlock& block)
-- 
2.43.0


From 3d72bcb3290bfe7f35c3852414f512e1f032b9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:10 +0000
Subject: [PATCH 57/58] fix: do not process a TxHashSet that was not asked for

---
 src/P2P/Pipeline/TxHashSetPipe.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/P2P/Pipeline/TxHashSetPipe.cpp b/src/P2P/Pipeline/TxHashSetPipe.cpp
index 94c7728..fca74b2 100644
--- a/src/P2P/Pipeline/TxHashSetPipe.cpp
+++ b/src/P2P/Pipeline/TxHashSetPipe.cpp
@@ -39,8 +39,8 @@ void TxHashSetPipe::ReceiveTxHashSet(const Connection::Ptr& pConnection, const T
 	if (m_pSyncStatus->GetStatus() != ESyncStatus::SYNCING_TXHASHSET)
 	{
 		LOG_WARNING_F("Received TxHashSet from {} when not requested.", *pConnection);
-		// connection.BanPeer(EBanReason::Abusive);
-		// return;
+		pConnection->Disconnect();
+		return;
 	}
 
 	const bool processing = m_processing.exchange(true);
-- 
2.43.0


From 10085b62489e5d6229284b97d604110041d2a38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:26 +0000
Subject: [PATCH 58/58] fix: switch to a heavier fork whose blocks all waited
 for it to become heavier

---
 src/BlockChain/BlockChainImpl.cpp | 23 +++++-----------------
 src/BlockChain/ChainState.cpp     | 32 +++++++++++++++++++++++++++++++
 src/BlockChain/ChainState.h       |  4 ++++
 3 files changed, 41 insertions(+), 18 deletions(-)

diff --git a/src/BlockChain/BlockChainImpl.cpp b/src/BlockChain/BlockChainImpl.cpp
index 81ee180..a0a5841 100644
--- a/src/BlockChain/BlockChainImpl.cpp
+++ b/src/BlockChain/BlockChainImpl.cpp
@@ -385,30 +385,17 @@ std::vector<std::pair<uint64_t, Hash>> BlockChain::GetBlocksNeeded(const uint64_
 
 BlockHeaderPtr BlockChain::ProcessNextOrphanBlock()
 {
-	BlockHeaderPtr pNextHeader = nullptr;
-	std::shared_ptr<const FullBlock> pOrphanBlock = nullptr;
-
+	std::shared_ptr<const FullBlock> pOrphanBlock = m_pChainState->Read()->GetNextOrphanBlock();
+	if (pOrphanBlock == nullptr)
 	{
-		auto pReader = m_pChainState->Read();
-		const uint64_t height = pReader->GetHeight(EChainType::CONFIRMED) + 1;
-		pNextHeader = pReader->GetBlockHeaderByHeight(height, EChainType::CANDIDATE);
-		if (pNextHeader == nullptr)
-		{
-			return nullptr;
-		}
-
-		pOrphanBlock = pReader->GetOrphanBlock(height, pNextHeader->GetHash());
-		if (pOrphanBlock == nullptr)
-		{
-			return nullptr;
-		}
+		return nullptr;
 	}
 
 	try
 	{
 		if (BlockProcessor(m_pChainState).ProcessBlock(*pOrphanBlock) == EBlockChainStatus::SUCCESS)
 		{
-			return pNextHeader;
+			return pOrphanBlock->GetHeader();
 		}
 
 		return nullptr;
@@ -418,7 +405,7 @@ BlockHeaderPtr BlockChain::ProcessNextOrphanBlock()
 		m_pChainState->
 			Write()->
 			GetOrphanPool()->
-			RemoveOrphan(pNextHeader->GetHeight(), pNextHeader->GetHash());
+			RemoveOrphan(pOrphanBlock->GetHeight(), pOrphanBlock->GetHash());
 		return nullptr;
 	}
 }
diff --git a/src/BlockChain/ChainState.cpp b/src/BlockChain/ChainState.cpp
index bf23b85..2d63596 100644
--- a/src/BlockChain/ChainState.cpp
+++ b/src/BlockChain/ChainState.cpp
@@ -166,6 +166,38 @@ std::shared_ptr<const FullBlock> ChainState::GetOrphanBlock(const uint64_t heigh
 	return m_pOrphanPool->GetOrphanBlock(height, hash);
 }
 
+std::shared_ptr<const FullBlock> ChainState::GetNextOrphanBlock() const
+{
+	auto pCandidateChain = GetChainStore()->GetCandidateChain();
+	const uint64_t commonHeight = GetChainStore()->FindCommonIndex(EChainType::CANDIDATE, EChainType::CONFIRMED)->GetHeight();
+	const uint64_t confirmedHeight = GetHeight(EChainType::CONFIRMED);
+
+	// Blocks of a heavier fork are of no use until there are enough of them to replace ours.
+	std::shared_ptr<const FullBlock> pNextBlock = nullptr;
+	for (uint64_t height = commonHeight + 1; height <= pCandidateChain->GetHeight(); height++)
+	{
+		const Hash hash = pCandidateChain->GetHash(height);
+		auto pOrphanBlock = m_pOrphanPool->GetOrphanBlock(height, hash);
+		if (pOrphanBlock == nullptr && GetBlockDB()->GetBlock(hash) == nullptr)
+		{
+			break;
+		}
+
+		pNextBlock = pOrphanBlock;
+		if (pOrphanBlock != nullptr && commonHeight == confirmedHeight)
+		{
+			break;
+		}
+	}
+
+	if (pNextBlock != nullptr && pNextBlock->GetTotalDifficulty() > GetTotalDifficulty(EChainType::CONFIRMED))
+	{
+		return pNextBlock;
+	}
+
+	return nullptr;
+}
+
 std::unique_ptr<BlockWithOutputs> ChainState::GetBlockWithOutputs(const uint64_t height) const
 {
 	auto pBlockIndex = GetChainStore()->GetChain(EChainType::CONFIRMED)->GetByHeight(height);
diff --git a/src/BlockChain/ChainState.h b/src/BlockChain/ChainState.h
index a88e25c..06517df 100644
--- a/src/BlockChain/ChainState.h
+++ b/src/BlockChain/ChainState.h
@@ -44,6 +44,10 @@ public:
 	std::unique_ptr<FullBlock> GetBlockByHeight(const uint64_t height) const;
 	std::shared_ptr<const FullBlock> GetOrphanBlock(const uint64_t height, const Hash& hash) const;
 
+	// The orphan, if any, that would now extend our chain, or replace it by the candidate chain.
+	std::shared_ptr<const FullBlock> GetNextOrphanBlock() const;
+
+
 	std::unique_ptr<BlockWithOutputs> GetBlockWithOutputs(const uint64_t height) const;
 
 	std::vector<std::pair<uint64_t, Hash>> GetBlocksNeeded(const uint64_t maxNumBlocks) const;
-- 
2.43.0

