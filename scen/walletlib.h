// Wallets under test, the chain they follow and the bookkeeping the checks compare them with.
#pragma once
#include "chainlib.h"
#include <Wallet/WalletManager.h>
#include <Wallet/NodeClient.h>
#include <Wallet/WalletDB/WalletDB.h>
#include <Wallet/WalletDB/WalletStore.h>
#include <functional>
#include <memory>
#include <map>
#include <set>

// The node as a wallet sees it: a block tree, an active tip, unconfirmed posted transactions.
struct Ledger : public INodeClient {
	World& w; int tip = 0; std::vector<TransactionPtr> mem; uint64_t posts = 0; bool offline = false; std::function<void()> onPost;
	explicit Ledger(World& w) : w(w) {}
	const Blk& t() const { return w.b[tip]; }
	uint64_t height() const { return w.b[tip].height; }
	uint64_t GetChainHeight() const override;
	BlockHeaderPtr GetTipHeader() const override;
	BlockHeaderPtr GetBlockHeader(const uint64_t h) const override;
	std::map<Commitment, OutputLocation> GetOutputsByCommitment(const std::vector<Commitment>& c) const override;
	std::vector<BlockWithOutputs> GetBlockOutputs(const uint64_t, const uint64_t) const override { return {}; }
	std::unique_ptr<OutputRange> GetOutputsByLeafIndex(const uint64_t start, const uint64_t max) const override;
	bool PostTransaction(TransactionPtr tx, const EPoolType) override;
	// world side
	bool fits(const Transaction& x, int on, const std::vector<TransactionPtr>& beside) const; // could be in the block after `on` together with `beside`
	const TransactionOutput* output(const std::string& commit, int at) const; // the unspent output itself
	void setTip(int id);  // switch the active chain (transactions that fall out go back to mem)
	struct LeafRec { int blk; const TransactionOutput* o; };
	const std::vector<LeafRec>& leaves() const;
	mutable std::vector<LeafRec> cache; mutable int cacheTip = -1;
};

struct OutV { std::string path, commit; uint64_t amount, height; int status; int64_t txId; bool coinbase; };
struct TxV { uint32_t id; int type; std::string slate; bool hasTx = false, finalTx = false; std::vector<std::string> ins, outs; uint64_t credited, debited; bool sent = false, recv = false, fin = false, ctx = false; };
struct WView { std::map<std::string, OutV> out; std::map<uint32_t, TxV> tx; uint64_t refresh = 0, leaf = 0; uint32_t nextChild = 0, nextTx = 0; int addr = 0;
	std::string digest(bool counters = false) const; };
WView viewOf(Locked<IWalletDB> db, const SecureVector& seed, bool counters = true);
const char* stName(int s); const char* txName(int t);

struct WUser { std::string name, pass; SecureString words; SecureVector seed; std::vector<SessionToken> tokens; uint16_t port = 0; std::shared_ptr<Locked<IWalletDB>> db; };
struct Exch { std::string id; int from = -1; Slate s1; std::vector<std::pair<int, Slate>> s2; std::vector<std::string> ins; uint64_t amount = 0, fee = 0; bool cancelled = false; int finalised = 0; TransactionPtr tx; std::map<int, int> received, recvCancelled; uint32_t txId = 0; };

// One machine: a data directory, a wallet manager, its users.
struct Machine {
	std::string dir; Json::Value cfg; Context::Ptr ctx; IWalletManagerPtr wm; INodeClientPtr node; std::vector<WUser> users;
	void init(const std::string& d, INodeClientPtr n, int minConf = 0); // no exceptions expected
	void open(); void close();
	std::string create(const std::string& name, const std::string& pass, int words = 24); // "" or the error
	std::string restore(const std::string& name, const std::string& pass, const SecureString& words);
	std::string login(int u);
	void attach(WUser& u) { auto w = wm->GetWallet(u.tokens.back()); u.seed = w.Read()->GetMasterSeed(); u.db = std::make_shared<Locked<IWalletDB>>(w.Read()->GetDatabase()); }
	Locked<IWalletDB> db(int u) { return *users[u].db; } // as opened by the latest login
};
// database of a user without a manager
WView coldView(const Config& c, const std::string& user, const SecureVector& seed);

// consistency of one wallet's records in themselves
void checkRecords(const WView& v, const char* prop, const std::string& when);
