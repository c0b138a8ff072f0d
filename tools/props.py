#!/usr/bin/env python3
"""Source of properties.jsonl: python3 tools/props.py rewrites it."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                          "observe_at": observe, "hook_needed": hook}})
BC, PM, TP, P2 = "src/BlockChain/", "src/PMMR/", "src/TxPool/", "src/P2P/"

prop("C01", "A kill at any instant loses no accepted block and never wedges the node",
     "If the node process is killed at any instant (between any two file-system operations, or in the middle of one) while it accepts blocks, reorganises or compacts, then reopening the data directory succeeds and yields one coherent chain: the confirmed tip, the headers, the unspent-output set and the per-block indexes all describe the same block, that block's total difficulty is at least that of the last block whose acceptance had been reported, and the reopened node accepts the remaining blocks and ends in the same state as a node that was never killed.",
     ["crash_points", "histories", "schedules"], "every block/reorg/compaction history x every kill point (including torn writes) x thread schedules of the commit",
     "Unit tests never kill the process; the commit spans four file families and a key-value store with no common journal.",
     [BC + "ChainState.cpp", BC + "BlockChain.cpp", BC + "ChainStore.cpp", PM + "TxHashSetImpl.cpp", PM + "HeaderMMRImpl.cpp", "src/Database/BlockDB.cpp", "include/Core/File/AppendOnlyFile.h", "src/Core/File/AppendOnlyFile.cpp", "include/Core/File/BitmapFile.h"],
     [("ordered multi-store commit", BC + "ChainState.cpp Commit/BatchWrite"), ("append-only files truncated to the last committed size", "src/Core/File/AppendOnlyFile.cpp")],
     ["block-chain API after reopening: tips, headers, blocks, outputs, roots"])
prop("C02", "A rejected or failed block leaves no trace",
     "When a block, header or reorganisation is refused, or fails part-way because the disk returns an error, every externally visible result (tips, headers, unspent outputs, kernel and position lookups, total difficulty, mempool contents) is exactly what it was before the attempt, both immediately and after a restart, and the same valid blocks are still accepted afterwards.",
     ["histories", "fault_sequences", "inputs"], "every accepted history x every kind of invalid block or failing disk operation injected at every point of processing",
     "Tests offer one or two invalid blocks on fresh chains and never a failing disk; roll-back paths run only on error.",
     [BC + "Processors/BlockProcessor.cpp", BC + "ChainState.cpp", PM + "TxHashSetImpl.cpp", "include/Core/Traits/Batchable.h", "include/Core/Traits/Lockable.h"],
     [("batch roll-back", "include/Core/Traits/Lockable.h"), ("validation before commit", BC + "Processors/BlockProcessor.cpp")], ["block-chain API before/after", "return status of block submission"])
prop("C03", "The node converges to the most-work valid chain whatever the delivery order",
     "Whatever the order, duplication or interleaving in which headers and blocks of a block tree reach the node, once every block has been offered with its ancestors the confirmed tip is the valid block of greatest total difficulty (the first accepted among equals), and the confirmed tip's total difficulty never decreases along the way.",
     ["histories", "schedules", "inputs"], "all delivery orders (orphans, duplicates, headers first, invalid siblings) of generated block trees",
     "Tests deliver a few hand-written fork shapes in one order.",
     [BC + "Processors/BlockProcessor.cpp", BC + "Processors/BlockHeaderProcessor.cpp", BC + "OrphanPool/OrphanPool.cpp", BC + "BlockChain.cpp", BC + "ChainState.cpp"],
     [("fork choice", BC + "Processors/BlockProcessor.cpp DetermineBlockStatus"), ("orphan resolution", BC + "BlockChain.cpp ProcessNextOrphanBlock")], ["confirmed and candidate tips"])
prop("C04", "The unspent-output set always equals a replay of the confirmed chain",
     "After any sequence of accepted blocks, reorganisations, compactions and restarts, each output commitment is reported unspent exactly if a replay of the confirmed chain from genesis leaves it unspent, with the block height and position of its creation; header and block lookups by height, hash and commitment and the output and kernel roots also agree with that replay.",
     ["histories", "crash_points"], "all sequences of extend / reorg / compact / restart operations on generated chains with spending transactions",
     "Tests check a handful of outputs on linear chains; spent bitmaps, rewinds, pruning and position indexes interact only across long mixed histories.",
     [PM + "TxHashSetImpl.cpp", PM + "OutputPMMR.h", PM + "LeafSet.cpp", PM + "PruneList.cpp", "src/Database/BlockDB.cpp", BC + "CoinView.cpp"],
     [("rewind by block bitmap", PM + "TxHashSetImpl.cpp Rewind"), ("spent-position index", "src/Database/BlockDB.cpp")], ["unspent-output queries, header lookups, MMR roots"])
prop("C05", "No history makes the node accept an inflating or invalid block",
     "A block that breaks a consensus rule (creates value, spends a missing, spent or immature output, carries a wrong signature, range proof, root, size, offset, kernel sum, height, version, timestamp or difficulty) is refused whatever was processed before it and in whatever form it arrives (full, compact, orphan, reorganisation), and at all times the confirmed unspent outputs sum to exactly the scheduled supply.",
     ["histories", "inputs"], "all mutations of valid blocks x all preceding histories (same block valid first, mutant first, transaction seen in the pool, on a losing fork)",
     "Tests present each kind of invalid block once to a fresh node; caches and pools make the verdict depend on history.",
     ["src/Core/Validation/TxBodyValidator.cpp", "src/Core/Validation/TransactionValidator.cpp", "include/Core/Validation/KernelSumValidator.h", "include/Core/Validation/KernelSignatureValidator.h", BC + "Validators/BlockValidator.cpp", BC + "Validators/BlockHeaderValidator.cpp", "src/Crypto/Bulletproofs.cpp", PM + "TxHashSetImpl.cpp"],
     [("block validation", BC + "Validators/BlockValidator.cpp"), ("proof cache", "src/Crypto/BulletProofsCache.h")], ["status of block submission", "sum of unspent commitments"])
prop("C06", "Readers running beside chain updates only ever see whole states",
     "While blocks and reorganisations are applied, concurrent queries each return the answer of some single accepted chain state between the query's start and end (never a half-applied block or a mixture of two states), successive tip queries of one reader never go to a lower total difficulty, and every query and update completes without deadlock.",
     ["schedules", "histories"], "all interleavings of several reader threads with block-processing threads",
     "Tests are single threaded.",
     [BC + "BlockChain.cpp", BC + "ChainState.cpp", "include/Core/Traits/Lockable.h", "include/Core/Traits/Batchable.h", BC + "ChainStore.cpp"],
     [("reader/writer lock around the state", "include/Core/Traits/Lockable.h")], ["block-chain API from several threads"])
prop("C07", "A state snapshot imports completely and correctly, or not at all",
     "A node that imports a state archive served by an honest node for some header ends with exactly that header's unspent-output set and can follow the chain from there; an archive that is damaged, truncated, for another header or inconsistent with the header's commitments is refused and leaves the importing node as it was, able to import a good archive later.",
     ["inputs", "histories", "fault_sequences"], "all source histories (with spends, compaction) x corruption of the archive x disk faults while it is written, unpacked or loaded",
     "Tests cover no archive exchange at all.",
     [PM + "TxHashSetManager.cpp", PM + "TxHashSetValidator.cpp", PM + "Zip/TxHashSetZip.cpp", PM + "Zip/Zipper.cpp", BC + "Processors/TxHashSetProcessor.cpp", BC + "BlockChain.cpp"],
     [("archive validation against the header", PM + "TxHashSetValidator.cpp")], ["snapshot and import API, then chain API"])
prop("C08", "A served snapshot is a consistent past state and serving changes nothing",
     "Producing a state archive while blocks are being applied yields the state as of exactly the requested header, and neither success nor failure of the production alters the serving node's chain state, leaves files behind that affect later snapshots, or prevents later blocks and snapshots.",
     ["schedules", "fault_sequences", "histories"], "all interleavings of snapshot production with block processing, reorgs and disk errors",
     "No test produces two snapshots, nor one during block processing.",
     [PM + "TxHashSetManager.cpp", PM + "TxHashSetImpl.cpp", BC + "BlockChain.cpp"], [("snapshot of a rewound copy", PM + "TxHashSetManager.cpp SaveSnapshot")], ["archive contents", "chain API"])

prop("P01", "The mempool is always jointly minable on the current tip",
     "After every pool addition, block, reorganisation or expiry, the public pool's transactions are pairwise non-conflicting and, taken together, form a valid set on top of the current confirmed chain (every input unspent there or created by another pool transaction), so that a block assembled from them is accepted.",
     ["histories", "schedules"], "all sequences of transaction arrivals (dependent, conflicting, invalid, low-fee), blocks mined elsewhere and reorganisations",
     "Tests add one or two transactions and never reconcile through reorganisations.",
     [TP + "Pool.cpp", TP + "TransactionPool.cpp", TP + "TransactionAggregator.cpp", TP + "ValidTransactionFinder.cpp", BC + "Processors/BlockProcessor.cpp"],
     [("reconciliation with each block", TP + "Pool.cpp ReconcileBlock"), ("joint validation of candidates", TP + "ValidTransactionFinder.cpp")], ["pool queries, block assembly"])
prop("P02", "A valid transaction offered to the pool is kept until mined or made invalid",
     "A valid transaction accepted into the pool stays available (by kernel, by hash and for block assembly) until a confirmed block contains its kernels or spends its inputs or it is replaced by an aggregate containing it; transactions of blocks that a reorganisation disconnects and that are still valid are not silently forgotten if the pool still held them, and a refused block evicts nothing.",
     ["histories"], "all sequences of additions, refused blocks, accepted blocks and reorganisations",
     "Tests never submit invalid or losing blocks to a node with a populated pool.",
     [TP + "Pool.cpp", TP + "TransactionPool.cpp", BC + "Processors/BlockProcessor.cpp"], [("reconciliation only on acceptance", BC + "Processors/BlockProcessor.cpp")], ["pool queries"])
prop("P03", "A stem transaction is always diffused, and not before its embargo",
     "Every valid transaction that enters the stem phase is, while the node runs, either relayed along the stem and then diffused to all peers no later than its embargo plus a bounded delay, or already confirmed; and a node that relayed it never diffuses it before its embargo has passed unless it chose diffusion itself or saw it in public.",
     ["schedules", "fault_sequences", "histories"], "all timings of arrivals, patience and embargo timers, relay-peer losses and failed sends, clock readings",
     "The tests contain no timer-driven run of the relay loop.",
     [P2 + "Dandelion.cpp", TP + "Pool.cpp", TP + "TransactionPool.cpp"], [("embargo timers", TP + "TransactionPool.cpp GetExpiredTransactions"), ("patience loop", P2 + "Dandelion.cpp")], ["messages sent to simulated peers", "pool queries"])

prop("N01", "The node reaches the best chain while one honest peer stays reachable",
     "As long as one honest peer with the best chain stays connected, the node downloads headers and blocks and reaches that peer's tip within a bounded simulated time after faults stop, whatever other peers do (stall, vanish mid-reply, answer out of order, send useless, duplicate or invalid data) and whatever delay, fragmentation or loss of connections occurred before.",
     ["schedules", "fault_sequences", "histories"], "all peer behaviours and network faults over a run, thread schedules of the node's pipelines and timers",
     "No test runs the synchronisation threads against peers.",
     [P2 + "Sync/Syncer.cpp", P2 + "Sync/HeaderSyncer.cpp", P2 + "Sync/BlockSyncer.cpp", P2 + "Pipeline/BlockPipe.cpp", P2 + "ConnectionManager.cpp", P2 + "MessageProcessor.cpp"],
     [("retry and time-outs", P2 + "Sync/HeaderSyncer.cpp, BlockSyncer.cpp"), ("block pipeline", P2 + "Pipeline/BlockPipe.cpp")], ["chain tip over simulated time", "messages on simulated sockets"])
prop("N02", "Only misbehaving peers are banned, and a ban is honoured",
     "A peer that only ever sends valid protocol messages and answers what it is asked for, as far as its connection lets it, is never banned, whatever the timing, ordering and faults; a peer that sends an invalid header, block, transaction or malformed message is disconnected, and while a peer is banned the node neither connects to it nor keeps a connection from it until the ban window has elapsed.",
     ["schedules", "histories", "inputs"], "all mixes of honest and misbehaving peers, reconnects, clock advances and shutdowns",
     "Ban handling spans several threads and is exercised by no test.",
     [P2 + "MessageProcessor.cpp", P2 + "ConnectionManager.cpp", P2 + "Seed/PeerManager.cpp", P2 + "Seed/Seeder.cpp", P2 + "Connection.cpp", "include/P2P/Peer.h"],
     [("ban on consensus failure", P2 + "MessageProcessor.cpp"), ("ban window", P2 + "Seed/PeerManager.cpp")], ["peer states, connections on simulated sockets"])
prop("N03", "Messages cross the wire whole, in order and unmixed",
     "However TCP splits, delays or back-pressures the stream and however many threads send at once, each peer receives a byte stream that is a concatenation of whole messages exactly as queued (no lost, duplicated, interleaved or altered bytes), messages queued by one thread arrive in that order, and incoming messages split at any byte boundary are processed as if they had arrived in one piece.",
     ["schedules", "fault_sequences", "inputs"], "all fragmentations, partial writes, stalls and concurrent senders",
     "Tests never put two senders or a partial write on a socket.",
     ["src/Net/Socket.cpp", "include/Net/Socket.h", "include/Common/SharedQueue.h", P2 + "Connection.cpp"], [("per-socket write queue", "src/Net/Socket.cpp SendAsync/HandleSent")], ["bytes received by a simulated peer", "responses to fragmented requests"])
prop("N04", "No sequence of bytes from peers crashes, hangs or silences the node",
     "Whatever bytes remote parties send at whatever moment, including during the handshake, cut off anywhere, and whatever moment they connect, reset or disconnect, the node neither terminates nor deadlocks nor stops accepting and serving other peers.",
     ["inputs", "schedules", "fault_sequences"], "all byte streams (mutated and truncated protocol messages), connect/reset timings and thread schedules",
     "Tests deserialise well-formed messages only.",
     [P2 + "Connection.cpp", P2 + "MessageProcessor.cpp", P2 + "Seed/HandShake.cpp", P2 + "Seed/Seeder.cpp", P2 + "Messages/*.h", "include/Core/Serialization/ByteBuffer.h"],
     [("deserialisation guards", "include/Core/Serialization/ByteBuffer.h"), ("per-connection exception handling", P2 + "Connection.cpp")], ["process liveness, answers to an honest probe peer"])
prop("N05", "Connection bookkeeping matches the sockets",
     "The reported inbound and outbound peers are exactly the live handshaken connections once events settle, no peer is connected twice, the maximum number of peers is respected, every closed connection is eventually forgotten and its resources released, and the node keeps reaching for its minimum number of outbound peers while reachable addresses exist.",
     ["schedules", "fault_sequences"], "all orders of connect, handshake, close, time-out and prune events",
     "No test opens more than one connection.",
     [P2 + "ConnectionManager.cpp", P2 + "Seed/Seeder.cpp", P2 + "Connection.cpp", P2 + "Seed/PeerManager.cpp"], [("pruning", P2 + "ConnectionManager.cpp PruneConnections")], ["peer counts against simulated sockets"])
prop("N06", "The node shuts down cleanly from any state",
     "Whenever shutdown is requested, at any point of start-up, synchronisation, message handling or block processing, the node stops within a bounded simulated time with every thread joined, no crash and no deadlock, and a restart finds the state it had accepted.",
     ["schedules", "fault_sequences"], "all shutdown instants and schedules", "Tests shut an idle node down.",
     [P2 + "P2PServerImpl.cpp", P2 + "ConnectionManager.cpp", P2 + "Seed/Seeder.cpp", P2 + "Pipeline/*.cpp", P2 + "Dandelion.cpp", P2 + "Sync/Syncer.cpp"], [("ordered destruction and joins", P2 + "P2PServerImpl.cpp")], ["threads remaining, process status, reopened chain"])
prop("N07", "Requests are answered with the data asked for",
     "A handshaken peer asking for headers by locator, a block, a compact block, a transaction by kernel, peer addresses or a ping receives, within a bounded simulated time, the reply the confirmed chain and the pool define for it (the headers following the newest locator entry on the chain, the very block or transaction asked for), and no reply with other data, also while the chain changes.",
     ["schedules", "histories", "inputs"], "all request sequences interleaved with chain updates", "Tests call the lookups directly, once.",
     [P2 + "MessageProcessor.cpp", P2 + "BlockLocator.cpp", BC + "BlockChain.cpp"], [("request handlers", P2 + "MessageProcessor.cpp")], ["replies on simulated sockets"])
prop("N08", "New blocks and transactions spread to every peer that lacks them",
     "When the node accepts a new best block or a new valid public transaction from one peer, every other connected, capable peer that has not announced it is told of it once within a bounded simulated time, and nothing invalid is ever relayed.",
     ["schedules", "histories"], "all timings of arrivals from several peers at once", "No test has two peers.",
     [P2 + "MessageProcessor.cpp", P2 + "Pipeline/BlockPipe.cpp", P2 + "Pipeline/TransactionPipe.cpp", P2 + "ConnectionManager.cpp"], [("broadcast except source", P2 + "ConnectionManager.cpp BroadcastMessage")], ["messages at simulated peers"])

W = "src/Wallet/"
prop("W01", "A wallet operation cut short by a crash or disk error is all or nothing",
     "If the process is killed or the disk fails at any instant during any wallet operation (send, receive, finalise, cancel, refresh, account creation), then on reopening the wallet's outputs, transactions, stored keys and key counter show that operation either entirely done or not at all, the wallet opens with the same password, no secret context is lost for an exchange that was reported as started, and later operations work.",
     ["crash_points", "fault_sequences", "histories"], "all operation histories x every file operation as kill or failure point",
     "Tests never kill the wallet nor fail its disk.",
     [W + "WalletDB/Sqlite/SqliteDB.cpp", W + "WalletDB/Sqlite/SqliteTransaction.h", W + "WalletDB/Sqlite/WalletSqlite.cpp", W + "WalletImpl.cpp", W + "SlateBuilder/*.cpp"],
     [("one transaction per operation", "include/Core/Traits/Batchable.h, SqliteTransaction")], ["wallet API after reopening"])
prop("W02", "The seed of an existing wallet is never lost",
     "Once wallet creation or a password change has been reported successful, and at every instant of a later password change, re-creation attempt, crash or disk error, the stored seed can be recovered with the old or the new password (exactly one of them once the change was reported), and a failed or interrupted creation does not leave a name that can neither be opened nor created again.",
     ["crash_points", "fault_sequences"], "every file operation of create, restore and change-password as kill or failure point",
     "Tests change a password once on a healthy disk.",
     [W + "WalletDB/Sqlite/SqliteStore.cpp", W + "WalletManagerImpl.cpp", W + "SessionManager.cpp", "include/Common/Util/FileUtil.h"], [("replace-by-rename of the seed file", "include/Common/Util/FileUtil.h SafeWriteToFile")], ["opening the wallet with each password"])
prop("W03", "A coin is never committed to two pending payments",
     "However many sessions and threads act on a wallet at once, no output is selected as input of two sends that are both still pending or done, and an output is offered for selection only while it is confirmed, mature and not locked.",
     ["schedules", "histories"], "all interleavings of concurrent sends, receives, cancels, finalisations and refreshes over one or more sessions",
     "Tests use one thread and one session.",
     [W + "SlateBuilder/SendSlateBuilder.cpp", W + "SlateBuilder/CoinSelection.cpp", W + "WalletImpl.cpp", W + "SessionManager.cpp"], [("lock inputs inside the wallet's write lock", W + "SlateBuilder/SendSlateBuilder.cpp")], ["inputs of returned slates, output status"])
prop("W04", "Reported balances always account for every coin exactly once",
     "After any sequence of sends, receives, cancels, finalisations, confirmations, chain reorganisations and refreshes, once the wallet has refreshed against the chain its spendable, locked, immature and unconfirmed totals equal those computed from the chain and the exchanges' true outcomes; no coin is lost, double counted or left locked by a cancelled or expired exchange.",
     ["histories", "fault_sequences"], "all operation histories with node outages and reorganisations", "Tests check the balance after one or two operations.",
     [W + "WalletRefresher.cpp", W + "WalletImpl.cpp", W + "CancelTx.cpp", W + "OutputRestorer.cpp"], [("status reconciliation", W + "WalletRefresher.cpp")], ["balance, outputs and transactions API against a model wallet"])
prop("W05", "Each slate exchange takes effect at most once and conserves value",
     "A payment exchange delivered in any order with any duplication and cancellation is received at most once, finalised at most once, never finalised after it was cancelled, and produces a transaction whose inputs equal its outputs plus the fee, with the agreed amount at the receiver and the rest as the sender's change.",
     ["histories", "inputs", "fault_sequences"], "all orders, duplicates and losses of slates between two wallets, cancels at any point, all amounts including boundary ones",
     "Tests run the happy path.",
     [W + "SlateBuilder/SendSlateBuilder.cpp", W + "SlateBuilder/ReceiveSlateBuilder.cpp", W + "SlateBuilder/FinalizeSlateBuilder.cpp", W + "CancelTx.cpp", W + "SlateBuilder/CoinSelection.cpp"], [("slate status checks by id", W + "SlateBuilder/*.cpp")], ["returned slates and final transaction"])
prop("W06", "No key is used for two different outputs",
     "Across sends, receives, concurrent operations, restarts and crashes, the wallet never derives the same output key twice for different outputs, so no two of its outputs share a commitment blinding and no recorded output is overwritten by another.",
     ["schedules", "crash_points", "histories"], "all interleavings and crash points of key-consuming operations", "Tests derive a few keys sequentially.",
     [W + "WalletImpl.cpp", W + "WalletDB/Sqlite/WalletSqlite.cpp", W + "Keychain/KeyChain.cpp"], [("persisted child counter", W + "WalletDB/Sqlite/WalletSqlite.cpp GetNextChildPath")], ["key paths of outputs in slates and store"])
prop("W07", "Wallet sessions are isolated and usable under concurrency",
     "A request carrying a session token acts only on the wallet and with the secrets of the user who obtained that token by password, a token is worthless after logout or if altered, and concurrent logins, logouts, listeners and requests never crash, deadlock or act on another user's wallet.",
     ["schedules", "histories", "inputs"], "all interleavings of logins, logouts, requests and altered tokens for several users", "Tests open one session.",
     [W + "SessionManager.cpp", W + "WalletManagerImpl.cpp", W + "ForeignController.cpp"], [("token-masked secret per session", W + "SessionManager.cpp")], ["results of wallet API calls"])
prop("W08", "A wallet restored from its seed recovers all its confirmed coins",
     "Creating a wallet from the recovery words alone and scanning a chain finds exactly the unspent outputs that belong to that seed with their amounts, whatever mix of coinbase, change and received outputs, spends and reorganisations preceded it, and later sends from the restored wallet work without re-using keys.",
     ["histories", "fault_sequences"], "all preceding wallet histories, node failures during the scan", "Tests restore nothing from a chain.",
     [W + "OutputRestorer.cpp", W + "WalletRefresher.cpp", W + "Keychain/KeyChain.cpp"], [("rewind of range proofs", W + "OutputRestorer.cpp")], ["balance of the restored wallet"])

prop("U01", "Shared state is exclusive for writers and batches are all or nothing",
     "For every object guarded by the project's reader/writer wrapper, no writer overlaps any other access, a batch's changes become visible only when it is committed and vanish entirely when it is not (also when an exception unwinds it), and waiting readers and writers eventually proceed.",
     ["schedules"], "all interleavings of readers, writers and batches over one or several guarded objects", "Tests of the wrapper are single threaded.",
     ["include/Core/Traits/Lockable.h", "include/Core/Traits/Batchable.h"], [("shared mutex plus commit/rollback on destruction", "include/Core/Traits/Lockable.h")], ["values read under guards"])
prop("U02", "Work queues deliver each item exactly once and in order",
     "Items put into the project's concurrent queues by any number of producer threads while one thread takes them out (looking at the front and then removing it, as the code does) are each taken out exactly once and in order for each producer, a taker never blocks while an item is available, and sizes and emptiness tests never report a state that never existed.",
     ["schedules"], "all interleavings of producers and consumers", "Tests use one thread.",
     ["include/Common/ConcurrentQueue.h", "include/Common/SharedQueue.h"], [("mutex around the deque", "include/Common/ConcurrentQueue.h")], ["queue operations"])
prop("U03", "Settings and credentials files survive a crash during update",
     "Changing a setting replaces the configuration file atomically: a kill or disk error at any instant leaves the complete old or the complete new settings, never an empty, partial or missing file, and the change is in effect after it has been reported.",
     ["crash_points", "fault_sequences"], "every file operation of an update as kill or failure point", "Tests write the file once on a healthy disk.",
     ["src/Core/Config/Config.cpp", "src/Core/Config/*.cpp", "include/Common/Util/FileUtil.h"], [("write to temporary then rename", "include/Common/Util/FileUtil.h")], ["reloaded configuration"])
prop("U04", "Append-only data files hold exactly what was committed",
     "For each of the node's own file formats (append-only data, hash, bitmap files), after any sequence of append, rewind, discard, commit, reopen, kill and disk error, reads return exactly the committed content plus this session's pending changes, a failed commit is reported, and an interrupted one never damages data committed before it below the rewind point.",
     ["histories", "crash_points", "fault_sequences"], "all operation sequences with kill/failure at every file operation", "Tests exercise one short sequence on a healthy disk.",
     ["src/Core/File/AppendOnlyFile.cpp", "src/Core/File/MappedFile_Nix.cpp", "include/Core/File/BitmapFile.h", "include/Core/File/DataFile.h"], [("buffered tail over a mapped file", "src/Core/File/AppendOnlyFile.cpp")], ["file API, reopened"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    try:
        import jsonschema
        s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for p in P: jsonschema.validate(p, s)
    except ImportError:
        pass
    print(len(P), "properties")
