#!/bin/bash
# mkseed.sh ID: (re)fills seeded/ID with the support files its demo.cpp needs and a demo.sh
d=/verif/seeded/$1; mkdir -p $d; rm -rf "$d/kit"; mkdir $d/kit
cp -a /verif/shim $d/kit/shim; mkdir $d/kit/harness; cp /verif/harness/*.h /verif/harness/*.cpp $d/kit/harness/
cat > $d/demo.sh <<'X'
#!/bin/bash
# exit 0: the behaviour shown by demo.cpp is right; nonzero: it is broken. Links /repo's built libraries.
here=$(cd "$(dirname "$0")" && pwd); d=$(mktemp -d); trap 'rm -rf "${d:?}"' EXIT; R=/repo; K=$here/kit
I="-I$K/shim -I$R/include -I$R/deps -I$R/deps/stduuid/include -I$R/deps/ghc -I$R/deps/jsoncpp -I$R/deps/cppcodec -I$R/deps/scheduler/include -I$R/deps/bitcoin/include -I$R/deps/chachapoly -I$R/deps/rfc6234 -I$R/deps/reproc/reproc++/include -I$R/deps/reproc/reproc/include -I$K/shim/reproc -I$R/deps/reproc/reproc/src -I$K/harness -I$R/src"
F="-std=c++17 -O1 -w -Wno-changes-meaning -DNDEBUG -DUNICODE -DCIVETWEB_DLL_IMPORTS -DCIVETWEB_CXX_DLL_IMPORTS -DNOMINMAX -DMW_CRYPTO -DMW_PMMR -include cstdint -include $K/shim/pch.h"
n=0; pids=()
for f in $here/demo.cpp $K/harness/*.cpp $K/shim/*.cpp $R/src/Crypto/{AggSig,Bulletproofs,Crypto,Pedersen,PublicKeys}.cpp $R/src/Core/File/MappedFile_Nix.cpp $R/src/PMMR/Common/MMRHashUtil.cpp $R/src/PMMR/TxHashSet{Impl,Manager,Validator}.cpp; do
  [ -f "$f" ] || f=$(find $R/src -name "$(basename "$f")" | head -1)
  n=$((n+1)); g++ $F $I -c "$f" -o $d/$n.o & pids+=($!)
done
for p in "${pids[@]}"; do wait $p || { echo "demo does not build"; exit 3; }; done
g++ -fuse-ld=lld -Wl,--wrap=open -Wl,--wrap=read -Wl,--wrap=close -o $d/demo $d/*.o -Wl,--start-group $(ls $R/bin/Release/*.a | grep -v sqlite3) -Wl,--end-group -lfmt -lrocksdb -lcivetweb-cpp -lcivetweb -lroaring -lminizip -lsodium -lz -luuid -lsqlite3 -lcrypto -lssl -lpthread -ldl || exit 3
cd $d; VERIF_DIR=$d timeout 200 $d/demo --cases 1
X
