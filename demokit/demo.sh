#!/bin/bash
# Builds demo.cpp against /repo's own libraries (plus the few sources its build leaves out, over a toy
# group standing in for libsecp256k1-zkp) in a scratch directory and runs it there.
R=$PWD; D=$(cd "$(dirname "$0")" && pwd); S=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$S"' EXIT
I="-I$D"; for i in include deps deps/stduuid/include deps/ghc deps/jsoncpp deps/cppcodec deps/scheduler/include deps/bitcoin/include deps/chachapoly deps/rfc6234 deps/scrypt deps/sha3 src . tests/framework/include; do I="$I -I$R/$i"; done
F="-std=c++17 -O0 -w -fPIC -DNDEBUG -DUNICODE -DFMT_HEADER_ONLY=1 -DHAVE_SCRYPT_CONFIG_H -D_GLIBCXX_ASSERTIONS -include cstdint -include stdexcept -pthread"
SRC="$R/src/Crypto/AggSig.cpp:MW_CRYPTO $R/src/Crypto/Bulletproofs.cpp:MW_CRYPTO $R/src/Crypto/Crypto.cpp:MW_CRYPTO $R/src/Crypto/Pedersen.cpp:MW_CRYPTO $R/src/Crypto/PublicKeys.cpp:MW_CRYPTO $R/src/Core/File/MappedFile_Nix.cpp:MW_CORE $R/src/PMMR/Common/MMRHashUtil.cpp:MW_PMMR $R/src/PMMR/TxHashSetImpl.cpp:MW_PMMR $R/src/PMMR/TxHashSetManager.cpp:MW_PMMR $R/src/PMMR/TxHashSetValidator.cpp:MW_PMMR"
for f in toysecp childprocess_stub chainlib demo; do [ -f "$D/$f.cpp" ] && SRC="$SRC $D/$f.cpp:DEMO"; done
i=0; O=""
for s in $SRC; do i=$((i+1)); O="$O $S/$i.o"; echo "${s%%:*} ${s##*:} $S/$i.o"; done | xargs -P 8 -L 1 bash -c "g++ $F $I -D\$1 -c \$0 -o \$2" || { echo "demo: compilation failed"; exit 3; }
for s in $SRC; do :; done; O=$(ls $S/*.o)
L="$R/bin/Release"
g++ -o $S/demo -pthread -Wl,--whole-archive $L/libCore.a -Wl,--no-whole-archive $O -Wl,--start-group $L/libBlockChain.a $L/libTxPool.a $L/libP2P.a $L/libWallet.a $L/libWalletDB.a $L/libKeychain.a $L/libAPI.a $L/libTor.a $L/libNet.a $L/libPoW.a $L/libPMMR.a $L/libDatabase.a $L/libCrypto.a $L/libCommon.a $L/libjsoncpp.a $L/libbitcoin.a $L/libchachapoly.a $L/librfc6234.a $L/libscrypt.a $L/libsha3.a -Wl,--end-group -lrocksdb -lroaring -lminizip -lcivetweb-cpp -lcivetweb -lsodium -lsqlite3 -luuid -lz -lzstd -ldl 2>$S/err || { head -c 3000 $S/err; echo "demo: link failed"; exit 3; }
mkdir $S/run; cd $S/run && export HOME=$S/run TMPDIR=$S/run && timeout ${DEMO_T:-200} $S/demo; rc=$?
[ $rc = 0 ] && echo "demo: property holds" || echo "demo: property broken (rc $rc)"
exit $rc
