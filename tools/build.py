#!/usr/bin/env python3
"""Content-hash build of /repo's working tree + the simulator into /verif/build.
A translation unit is recompiled when its flags, its text or the text of any
repository/simulator header it included last time changed."""
import hashlib, os, subprocess, sys, glob, concurrent.futures as cf, json, time, fcntl
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
OBJ = os.path.join(OUT, "obj")
INC = ["stubs", "sim", "scen"]
CXX = "g++"
REPO_INC = ["include", "deps", "deps/stduuid/include", "deps/ghc", "deps/jsoncpp", "deps/cppcodec",
            "deps/scheduler/include", "deps/bitcoin/include", "deps/chachapoly", "deps/rfc6234", "deps/scrypt", "deps/sha3", "src", ".", "tests/framework/include"]
BASE = ["-g1", "-DNDEBUG", "-DUNICODE", "-DFMT_HEADER_ONLY=1", "-pthread", "-fno-omit-frame-pointer", "-w", "-fPIC", "-DHAVE_SCRYPT_CONFIG_H"]
CXXF = ["-std=c++17", "-include", "cstdint", "-include", "stdexcept", "-D_GLIBCXX_ASSERTIONS"]
INSTR = ["/src/BlockChain/", "/src/PMMR/", "/src/TxPool/", "/src/P2P/", "/src/Wallet/", "/src/Net/", "/src/Common/", "/src/Server/", "/src/Core/Config", "/src/Core/File", "/src/Core/Global", "/src/Database/", "scen/selftest", "scen/util"]
NOINSTR = ["Keychain", "/src/Core/Config/ConfigProps"]
LIBS = ["-lrocksdb", "-lroaring", "-lminizip", "-lsodium", "-lsqlite3", "-luuid", "-lz", "-lzstd", "-ldl", "-lpthread"]

def sources():
    r = []
    for root, _, files in os.walk(os.path.join(REPO, "src")):
        for f in sorted(files):
            p = os.path.join(root, f)
            if not f.endswith(".cpp") or f.endswith("_Win.cpp"):
                continue
            if p.endswith(("src/Server/Main.cpp", "src/Common/ChildProcess.cpp")):
                continue
            r.append(p)
    r.sort(key=lambda p: (0 if "/src/Core/Config" in p else 1 if "/src/Core/" in p else 2, p))
    d = os.path.join(REPO, "deps")
    for pat in ("jsoncpp/*.cpp", "sha3/*.cpp", "bitcoin/src/*.cpp", "bitcoin/src/*.c", "chachapoly/*.cpp", "rfc6234/*.c"):
        r += sorted(glob.glob(os.path.join(d, pat)))
    r = [p for p in r if not p.endswith("shatest.c")]
    own = []
    for pat in ("stubs/*.cpp", "sim/*.cpp", "scen/*.cpp"):
        own += sorted(glob.glob(os.path.join(VERIF, pat)))
    return r, own

_h = {}
def fhash(p):
    if p not in _h:
        try:
            with open(p, "rb") as f:
                _h[p] = hashlib.sha1(f.read()).hexdigest()
        except OSError:
            _h[p] = "missing"
    return _h[p]

def flags(src, own):
    f = list(BASE)
    if src.endswith(".cpp"):
        f += CXXF
    f += ["-O1"]
    f += ["-I" + os.path.join(VERIF, i) for i in INC]
    f += ["-I" + os.path.join(REPO, i) for i in REPO_INC]
    m = {"/src/P2P/": "MW_P2P", "/src/BlockChain/": "MW_BLOCK_CHAIN", "/src/Server/": "MW_SERVER", "/src/Wallet/": "MW_WALLET", "/src/PMMR/": "MW_PMMR",
         "/src/Database/": "MW_DATABASE", "/src/TxPool/": "MW_TX_POOL", "/src/PoW/": "MW_POW", "/src/Crypto/": "MW_CRYPTO", "/src/Core/": "MW_CORE", "/src/Net/": "MW_NET"}
    for k, v in m.items():
        if k in src:
            f.append("-D" + v)
    if any(x in src for x in INSTR) and not any(x in src for x in NOINSTR):
        f += ["-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0"]
    return f

def parse_d(dp):
    try:
        t = open(dp).read()
    except OSError:
        return None
    t = t.replace("\\\n", " ")
    deps = t.split(":", 1)[1].split() if ":" in t else []
    return [os.path.normpath(x) for x in deps if x.startswith((REPO, VERIF))]

def key(src, fl, deps):
    h = hashlib.sha1((" ".join(fl)).encode())
    for d in sorted(set(deps)):
        h.update(d.encode()); h.update(fhash(d).encode())
    return h.hexdigest()

def one(job):
    src, own = job
    name = src.replace("/", "_").strip("_")
    o, d, k = (os.path.join(OBJ, name + e) for e in (".o", ".d", ".key"))
    fl = flags(src, own)
    deps = parse_d(d)
    if deps is not None and os.path.exists(o) and os.path.exists(k):
        if open(k).read() == key(src, fl, deps):
            return (src, o, 0, "", 0.0)
    t = time.time()
    cc = CXX if src.endswith(".cpp") else "gcc"
    r = subprocess.run([cc] + fl + ["-MD", "-MF", d, "-c", src, "-o", o], capture_output=True, text=True)
    if r.returncode == 0:
        open(k, "w").write(key(src, fl, parse_d(d)))
    else:
        try: os.remove(k)
        except OSError: pass
    return (src, o, r.returncode, r.stderr, time.time() - t)

def build(verbose=False):
    os.makedirs(OBJ, exist_ok=True)
    lock = open(os.path.join(OUT, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    rs, own = sources()
    jobs = [(s, False) for s in rs] + [(s, True) for s in own]
    objs, n, bad = {}, 0, []
    with cf.ThreadPoolExecutor(int(os.environ.get("SIM_JOBS", "8"))) as ex:
        for src, o, rc, err, dt in ex.map(one, jobs):
            objs[src] = o
            if dt: n += 1
            if verbose and dt: print(f"{dt:6.1f}s {src}", flush=True)
            if rc: bad.append((src, err))
    if bad:
        for s, e in bad:
            print(f"BUILD FAILED: {s}\n{e[:3000]}", file=sys.stderr)
        return None, n
    exe = os.path.join(OUT, "sim")
    lk = hashlib.sha1(b"".join(open(objs[s], "rb").read() if False else hashlib.sha1(open(objs[s], "rb").read()).digest() for s, _ in jobs) + " ".join(LIBS).encode()).hexdigest()
    kf = exe + ".key"
    if not (os.path.exists(exe) and os.path.exists(kf) and open(kf).read() == lk):
        rsp = os.path.join(OUT, "link.rsp")
        open(rsp, "w").write("\n".join(objs[s] for s, _ in jobs))
        r = subprocess.run([CXX, "-o", exe + ".tmp", "-rdynamic", "-pthread", "@" + rsp] + LIBS, capture_output=True, text=True)
        if r.returncode:
            print("LINK FAILED\n" + r.stderr[:6000], file=sys.stderr)
            return None, n
        os.replace(exe + ".tmp", exe)
        open(kf, "w").write(lk)
    return exe, n

if __name__ == "__main__":
    t = time.time()
    exe, n = build(verbose="-v" in sys.argv)
    print(f"build: {n} compiled, {time.time()-t:.1f}s, exe={exe}")
    sys.exit(0 if exe else 1)
