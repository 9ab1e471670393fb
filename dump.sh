#!/bin/bash
# Dump the MIR of /repo's current tree (through the roots crate) to $1.
# Second argument "codec": the serde and prost implementations of the wire and storage types;
# "min", "mins", "minq", "minqs": the library without the entry points (no features; staking; query; both);
# "owner", "ownercodec", "counter", "countercodec": the example contracts in testing/contracts and their messages;
# "mincodec": the implementations of the types without features.
# Exit 0: $1 written (library roots included unless they no longer compile); 3: /repo does not build.
V=$(cd "$(dirname "$0")" && pwd)
OUT=$1
SYS=$(rustc +nightly --print sysroot) || exit 3
export LD_LIBRARY_PATH=$SYS/lib
mkdir -p $V/.build
BIN=$V/mirdump/target/debug/mirdump
if [ ! -x $BIN ] || [ $V/mirdump/src/main.rs -nt $BIN ]; then
  (cd $V/mirdump && cargo +nightly build --offline -q) || exit 3
fi
echo '*' > $V/.build/allow
# one extraction at a time: cargo decides by the source's time stamp whether the dumper has to run
exec 9> $V/.build/lock
flock 9
cd $V/roots
export MIRDUMP_OUT=$OUT MIRDUMP_ALLOW=$V/.build/allow
export RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 --cap-lints=allow -Cdebug-assertions=off -Coverflow-checks=on"
export RUSTC_WORKSPACE_WRAPPER=$BIN CARGO_TARGET_DIR=$V/.build/roots
FEATS=("--features lib" "--features full")
[ -n "$2" ] && FEATS=("--features $2")
for F in "${FEATS[@]}"; do
  rm -f $OUT
  touch $V/roots/src/lib.rs
  if cargo +nightly check --offline -q $F 2> $OUT.log && [ -s $OUT ]; then exit 0; fi
done
cat $OUT.log >&2
exit 3
