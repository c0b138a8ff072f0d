import json, os
_here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOOK_COMMITS = []
CHAIN_REAL = "src/BlockChain, src/PMMR, src/Database (with the real RocksDB and SQLite libraries), src/TxPool, src/Core, src/Crypto (bulletproof cache, serialisation), the project's own files through the simulated disk"
CHAIN_STUB = "libsecp256k1-zkp (toy group with the same interface and algebra), proof-of-work (skipped by the code's own automated-testing mode), mio memory mapping (plain reads), network (not used)"
WALLET_REAL = "src/Wallet (manager, sessions, slate builders, coin selection, refresher, restorer, foreign listener), its SQLite database on the simulated disk, src/Core and src/Crypto, key derivation, slate encodings"
WALLET_STUB = "libsecp256k1-zkp (toy group with the same interface and algebra, rewindable proofs), the node (a ledger with the block tree, unconfirmed transactions and outages behind the INodeClient interface), civetweb (requests are handed to its handlers), scrypt (cheap stand-in), Tor (absent)"
NET_REAL = "src/P2P and src/Net (server, seeder, handshake, connections, write queue, message processing, synchronisation, pipelines, Dandelion; asio on the simulated sockets), and the whole node behind them: " + CHAIN_REAL
NET_STUB = "libsecp256k1-zkp (toy group with the same interface and algebra), proof-of-work (skipped by the code's own automated-testing mode), mio memory mapping (plain reads), kernel sockets, epoll and DNS (simulated network), remote peers (scripted, with their own wire code)"
CHECKS = {
    "C01": dict(scen=[("chain_crash", 1)], rule="a run delivers a random fork tree and kills the node one to three times (five in thorough) while opening, before the commit, between or inside its writes, or after an operation; non-trivial: a kill happened; distinct by the hash of all observations"),
    "C02": dict(scen=[("chain_tree", 3), ("chain_diskerr", 2)], rule="a run grows a random block tree and delivers it with tampered blocks, duplicates, restarts, or with reads and writes failing at random points; non-trivial: a reorganisation or an injected disk error happened; distinct by the hash of all observations"),
    "C03": dict(scen=[("chain_tree", 1)], rule="a run delivers a random fork tree in a random order; non-trivial: a reorganisation happened; distinct by the hash of all observations"),
    "C04": dict(scen=[("chain_tree", 1)], rule="a run delivers a random fork tree and compares every lookup with a replay model; non-trivial: a reorganisation happened; distinct by the hash of all observations"),
    "C05": dict(scen=[("chain_tree", 1)], rule="a run delivers a random fork tree mixed with about forty kinds of tampered blocks; non-trivial: a reorganisation happened; distinct by the hash of all observations"),
    "P01": dict(scen=[("pool", 3), ("pool_threads", 1)], rule="a run mixes transaction submission (valid, conflicting, premature, tampered), blocks, reorganisations, stem and fluff on a node with its chain; non-trivial: a reorganisation, or two submitting threads; distinct by the hash of all observations"),
    "P02": dict(scen=[("pool", 3), ("pool_threads", 1)], rule="a run mixes transaction submission, blocks that mine some of them, reorganisations, refused blocks and disk errors; the pool's content is compared with what was accepted and is still valid; non-trivial: a reorganisation, or two submitting threads; distinct by the hash of all observations"),
    "W01": dict(real=WALLET_REAL, stub=WALLET_STUB, scen=[("wallet_crash", 2), ("wallet_disk", 1)], rule="a run lets two wallets pay each other over a chain with reorganisations and kills the process (up to three times, five in thorough) or fails the disk at a random file operation inside a random wallet operation; afterwards the records must show that operation done or not done; non-trivial: a kill or disk error happened; distinct by the hash of all observations"),
    "W02": dict(real=WALLET_REAL, stub=WALLET_STUB, scen=[("wallet_seed", 2), ("wallet_crash", 1)], rule="a run creates, restores, re-keys, deletes and opens wallets under up to three names with kills (up to four) and disk errors at random file operations; non-trivial: a kill or disk error happened; distinct by the hash of all observations"),
    "W03": dict(real=WALLET_REAL, stub=WALLET_STUB, scen=[("wallet_flow", 3), ("wallet_threads", 2)], rule="a run lets two or three wallets pay each other with every selection strategy, duplicated, tampered and cancelled slates, blocks, reorganisations, restarts and node outages; non-trivial: a reorganisation or at least two payments; distinct by the hash of all observations"),
    "W04": dict(real=WALLET_REAL, stub=WALLET_STUB, scen=[("wallet_flow", 1)], rule="as W03; after refreshes the reported totals are compared with those computed from the chain and the exchanges; non-trivial: a reorganisation or at least two payments; distinct by the hash of all observations"),
    "W05": dict(real=WALLET_REAL, stub=WALLET_STUB, scen=[("wallet_flow", 3), ("wallet_threads", 2)], rule="as W03; slates are delivered repeatedly, out of order, in four encodings, tampered with and after cancellation; non-trivial: a reorganisation or at least two payments; distinct by the hash of all observations"),
    "W06": dict(real=WALLET_REAL, stub=WALLET_STUB, scen=[("wallet_flow", 2), ("wallet_crash", 2), ("wallet_disk", 2), ("wallet_threads", 1)], rule="as W01 and W03; every key path ever seen is remembered with its commitment; non-trivial: a reorganisation, a kill, a disk error or at least two payments; distinct by the hash of all observations"),
    "W07": dict(real=WALLET_REAL + ", session manager, foreign controller, foreign and RPC servers", stub=WALLET_STUB, scen=[("wallet_threads", 1)], rule="a run has 2-4 threads issuing requests for two users, each with up to three sessions, through the wallet manager and the users' listeners: sends, receives, finalisations, cancellations, refreshes, address changes, logins and logouts, forged tokens, password changes, wallets created and deleted, and in some runs a shutdown with requests in progress; distinct by the hash of all observations"),
    "W08": dict(real=WALLET_REAL + "; the whole node behind it: chain, PMMR, databases, pool and the node's own wallet client", stub=WALLET_STUB.replace("the node (a ledger with the block tree, unconfirmed transactions and outages behind the INodeClient interface)", "a thin layer over the node's client that caps batches and fails calls"), scen=[("wallet_restore", 1)], rule="a run lets two wallets build a history (coinbases, sends, receives, cancellations, reorganisations), feeds its blocks to a real node, restores one wallet from its words and scans in batches of 1-1000 outputs while further blocks or a reorganisation arrive on another thread and node calls fail; then the restored wallet is used; non-trivial: a failed call, a moving tip or a reorganisation; distinct by the hash of all observations"),
    "N01": dict(real=NET_REAL, stub=NET_STUB, scen=[("net_sync", 1)], rule="a run starts the node on a random block of a random tree among one honest and up to five other peers (behind, on a fork, repeating, flaky, silent, forgetful, mute, lying, invalid, wrong bodies, useless answers, malformed bytes), with resets, delays, short reads and writes, refused descriptors and dead addresses for 1-45 s; non-trivial: more than one peer or network faults; distinct by the hash of all observations"),
    "N02": dict(real=NET_REAL, stub=NET_STUB, scen=[("net_sync", 2), ("net_hostile", 1), ("net_relay", 1)], rule="as N01; at every 200 ms the ban state of every peer is compared with what it did; non-trivial: more than one peer or network faults; distinct by the hash of all observations"),
    "N03": dict(real=NET_REAL, stub=NET_STUB, scen=[("net_requests", 2), ("net_relay", 1), ("net_sync", 1)], rule="every byte the node sends to any scripted peer is parsed and each message compared with what it may be, and replies are matched in order with requests, while links split messages at any byte, delay, back-pressure and stall, and several threads send at once; non-trivial: more than one peer or network faults; distinct by the hash of all observations"),
    "N04": dict(real=NET_REAL, stub=NET_STUB, scen=[("net_hostile", 1)], rule="a run has one or two honest peers and up to six hostile parties with four addresses each, which connect, are connected to, send random bytes, cut, dribbled and spoiled handshakes and, after a handshake, bursts of unasked and spoiled messages of every type, stop reading, close, reset or hang; afterwards a stranger must be accepted and served and new blocks be followed; non-trivial: every run; distinct by the hash of all observations"),
    "N07": dict(real=NET_REAL, stub=NET_STUB, scen=[("net_requests", 1)], rule="a run has up to several asking peers of all protocol versions that request headers by locator, blocks, compact blocks, transactions and peer addresses, known and unknown, while the chain grows and reorganises; each reply is compared with what the chain sampled around it allows; non-trivial: more than one peer or network faults; distinct by the hash of all observations"),
    "N08": dict(real=NET_REAL, stub=NET_STUB, scen=[("net_relay", 1)], rule="a run feeds a synchronised node with transactions, blocks as headers, compact and full blocks from several peers, with peers leaving and network faults; each accepted item must reach each connected peer that does not have it, once, and no rejected item any; non-trivial: more than one peer or network faults; distinct by the hash of all observations"),
    "P03": dict(real=NET_REAL, stub=NET_STUB, scen=[("net_relay", 1)], rule="as N08 with stem transactions under random embargo, patience and stem probability; a stem transaction goes to one relay peer only until it is fluffed, is fluffed within its embargo and is not revealed before; non-trivial: more than one peer or network faults; distinct by the hash of all observations"),
    "U01": dict(scen=[("util_locked", 1)], real="include/Core/Traits/Lockable.h (Locked, Reader, Writer, MultiLocker), include/Core/Traits/Batchable.h", stub="guarded objects are small test records; threads run under the simulated scheduler", rule="a run has 2-5 threads that read, write, batch, abandon and throw over up to three guarded objects; the combined history must be linearizable; distinct by the hash of all observations"),
    "U02": dict(scen=[("util_queue", 1)], real="include/Common/ConcurrentQueue.h, include/Common/SharedQueue.h", stub="threads run under the simulated scheduler, with preemption at every access to shared memory", rule="a run has producers and a consumer on one queue; the history must be linearizable against a deque; distinct by the hash of all observations"),
    "U03": dict(scen=[("util_settings", 1)], real="src/Core/Config, include/Common/Util/FileUtil.h, the settings API handler, Tor configuration file writing", stub="network (not used); the disk is the simulated one", rule="a run changes settings a random number of times with kills and disk errors at random file operations and reloads them; distinct by the hash of all observations"),
    "U04": dict(scen=[("util_rawfile", 1), ("util_datafile", 1), ("util_bitmap", 1)], real="src/Core/File, include/Core/File (AppendOnlyFile, DataFile, BitmapFile) on the simulated disk", stub="mio memory mapping (plain reads)", rule="a run performs a random history of append, rewind, discard, commit, reopen with kills and disk errors at random file operations, compared with an in-memory model; distinct by the hash of all observations"),
}
for k, c in CHECKS.items():
    c.setdefault("real", CHAIN_REAL); c.setdefault("stub", CHAIN_STUB)
    c.setdefault("technique", "deterministic simulation with fault injection (seeded search, replayable)")
    c.setdefault("note", "seeded exploration of simulated executions against an executable reference model; not exhaustive")
NOT_APPLICABLE = {json.loads(l)["id"]: "not built yet" for l in open(os.path.join(_here, "properties.jsonl"))}
for k in CHECKS: NOT_APPLICABLE.pop(k, None)
