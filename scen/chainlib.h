// Block-tree generator, executable reference model and the node under test.
#pragma once
#include "sim.h"
#include <Core/Models/FullBlock.h>
#include <Core/Models/Transaction.h>
#include <Core/Models/CompactBlock.h>
#include <Core/Genesis.h>
#include <Core/Global.h>
#include <Core/Context.h>
#include <Crypto/Crypto.h>
#include <BlockChain/BlockChain.h>
#include <Database/Database.h>
#include <Database/BlockDb.h>
#include <PMMR/TxHashSetManager.h>
#include <PMMR/HeaderMMR.h>
#include <TxPool/TransactionPool.h>
#include <map>
#include <memory>

struct Coin { Commitment c; uint64_t amount; BlindingFactor blind; bool coinbase; uint64_t height; uint64_t leaf; };
typedef std::map<std::string, Coin> CoinMap;    // hex commitment -> coin

struct MMRAcc { // append-only Merkle mountain range, peaks only (model)
	uint64_t size = 0, leaves = 0; std::vector<std::pair<int, Hash>> peaks;
	void append(const std::vector<uint8_t>& leaf);
	Hash root() const;
};

struct Blk {
	int id = 0, parent = -1; std::shared_ptr<FullBlock> full; uint64_t height = 0, td = 0;
	MMRAcc out, rp, ker, hdr;          // after this block (hdr: including this header)
	std::shared_ptr<CoinMap> utxo;     // after this block
	BlindingFactor offset = BlindingFactor(Hash::ValueOf(0));
	bool valid = true; std::string why; // of this block itself (given its ancestors)
	std::vector<std::string> spent, created;
	const Hash& hash() const { return full->GetHash(); }
	BlockHeaderPtr header() const { return full->GetHeader(); }
};

struct TxOut { uint64_t amount; };
struct World {
	sim::Rng r; std::vector<Blk> b;
	World(uint64_t salt = 0);
	int genesis() const { return 0; }
	// transactions
	TransactionPtr makeTx(const std::vector<Coin>& in, const std::vector<uint64_t>& outAmounts, uint64_t fee, std::vector<Coin>* outs = nullptr, int lockHeight = 0, int kernels = 1);
	TransactionPtr randomTx(const CoinMap& utxo, uint64_t nextHeight, int maxIn, int maxOut, std::vector<Coin>* used = nullptr, std::vector<Coin>* outs = nullptr, bool spendFresh = true, uint64_t feeBase = 0);
	TransactionPtr recreateTx(int parent, std::vector<Coin>* used); // spends coins of the tip and creates again a commitment already spent on this chain
	// blocks
	int mine(int parent, const std::vector<TransactionPtr>& txs, uint64_t diff = 1, uint64_t dt = 60);
	int mineCb(int parent, const std::vector<TransactionPtr>& txs, const TransactionOutput& cb, const TransactionKernel& ck, uint64_t diff = 1, uint64_t dt = 60); // with a coinbase made elsewhere
	int mineRandom(int parent, uint64_t diff, int maxTx);
	int addRaw(int parent, std::shared_ptr<FullBlock> full, bool valid, const std::string& why);
	std::shared_ptr<FullBlock> assemble(int parent, const TransactionBody& body, const BlindingFactor& txOffset, uint64_t diff, uint64_t dt, const std::map<std::string, int64_t>& tweak = {});
	std::shared_ptr<FullBlock> mutant(int of, int kind, std::string* why); // an invalid sibling of block `of`; null if the kind does not apply
	static int mutantKinds();
	bool ancestorsValid(int id) const;
	bool isAncestor(int a, int d) const;
	int best(const std::set<int>& avail, int first = -1) const;
	Coin newCoin(uint64_t amount, bool coinbase, TransactionOutput* out);
	void apply(Blk& x, const Blk& p);
	std::vector<Coin> wallet; // every coin ever created (for blinds)
	std::map<std::string, Coin> byCommit;
};
TransactionKernel makeKernel(EKernelFeatures f, uint64_t fee, uint64_t lock, const BlindingFactor& blind, const Commitment& excess);
uint64_t txFee(size_t in, size_t out, size_t ker);

struct Node {
	Context::Ptr ctx; IDatabasePtr db; std::shared_ptr<Locked<TxHashSetManager>> txhs; ITransactionPool::Ptr pool; std::shared_ptr<Locked<IHeaderMMR>> hmmr; IBlockChain::Ptr chain;
	std::string dir; Json::Value cfg;
	void init(const std::string& d, bool scheduler = false);
	void open();       // may throw
	void close();
	CompactBlock compact(const FullBlock& f);
};
const char* statusName(EBlockChainStatus s);
EBlockChainStatus addBlockSafe(Node& n, const FullBlock& f, std::string* exc = nullptr);

struct CheckOpts { bool full = true; bool readBlocks = true; const char* prop = "C04"; std::vector<int> others; const char* when = ""; };
// compare everything observable of the node against the model state at block `tip`
void checkState(Node& n, const World& w, int tip, const CheckOpts& o);
std::string observe(Node& n, const World& w, bool confirmedOnly = false); // digest of observable state (no model needed)
void growTree(World& w, sim::Rng& r, int from, int n, double pFork, double pInvalid, int maxTx, int maxDiff);
int tipOf(Node& n, const World& w, EChainType t);
