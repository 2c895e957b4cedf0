#!/bin/bash
# campaign.sh SCRATCH SECONDS [KIND...]: libFuzzer over the readers of $VERIF_REPO (default /repo), from fuzz/corpus.zip; the
# corpus that results is minimised by coverage into fuzz/corpus.zip again. Not part of a check: it finds files, checks replay them.
set -e
W=$1; S=$2; shift 2
V=$(cd "$(dirname "$0")/.." && pwd); R=${VERIF_REPO:-/repo}/src
mkdir -p "$W/o" "$W/c" "$W/m" "$W/x" "$W/s"
FL="-std=gnu++17 -g1 -O1 -w -DNDEBUG -D_GLIBCXX_ASSERTIONS -fsanitize=address,fuzzer-no-link -I$R -I$R/nrlib -I/usr/include/x86_64-linux-gnu/openblas-pthread -DHAS_BOOST_FILESYSTEM -DUSE_BOOST -DFLENS_FIRST_INDEX=0"
for m in eclipsegrid geometry iotools pointset random segy stormgrid surface trend volume wavelet well tinyxml math; do
  for f in "$R"/nrlib/$m/*.cpp; do echo "clang++ $FL -c $f -o $W/o/${m}_$(basename "$f").o"; done
done > "$W/cmds"
echo "clang++ $FL -DLIBFUZZER -c $V/fuzz/readers.cpp -o $W/o/readers.o" >> "$W/cmds"
xargs -a "$W/cmds" -P 8 -I{} sh -c '{}'
clang++ -fsanitize=address,fuzzer "$W"/o/*.o -L/usr/lib/x86_64-linux-gnu/openblas-pthread -lfftw3 -lfftw3f -lopenblas -llapacke -lboost_filesystem -lboost_system -o "$W/fz"
(cd "$W/c" && python3 - "$V/fuzz/corpus.zip" <<'P'
import sys, zipfile, os
if os.path.exists(sys.argv[1]):
    z = zipfile.ZipFile(sys.argv[1])
    for n in z.namelist():
        os.makedirs(os.path.dirname(n), exist_ok=True)
        open(n, "wb").write(b"A" + z.read(n))   # the entry point takes the first byte away
P
)
export SCRATCH=$W/s
[ $# -gt 0 ] || set -- $(ls "$W/c")
for k in "$@"; do
  mkdir -p "$W/x/$k" "$W/c/$k"
  echo "KIND=$k $W/fz -fork=1 -ignore_crashes=1 -ignore_timeouts=1 -ignore_ooms=1 -timeout=10 -rss_limit_mb=1500 -max_len=9000 -max_total_time=$S -artifact_prefix=$W/x/$k/ $W/c/$k > $W/x/$k.log 2>&1; rm -rf $W/m/$k; mkdir $W/m/$k; KIND=$k $W/fz -merge=1 -max_len=9000 $W/m/$k $W/c/$k > $W/x/$k.merge 2>&1"
done | xargs -P 8 -I{} sh -c '{}'
find "$W/x" -mindepth 2 -type f
python3 "$V/fuzz/pack.py" "$W/m" "$V/fuzz/corpus.zip" "$@"
