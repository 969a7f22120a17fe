#!/bin/bash
# check.sh <ID>            run one property check against /repo's working tree
# check.sh replay <FILE>   run one replay file again
# Exit 0: held. Exit 1 with a VIOLATION line: broken. Anything else: the check itself failed.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/harness" || exit 2
# The crate under test is always rebuilt: file times say nothing about a tree that was copied or checked out.
for p in release production; do
    if [ -d target/$p/.fingerprint ]; then
        find target/$p/.fingerprint -maxdepth 1 \( -name 'mqttbytes-*' -o -name 'harness-*' \) -exec rm -rf -- {} +
    fi
done
# With overflow checks and debug assertions, and without, as users ship it.
cargo build --profile production --offline --locked 1>&2 &
cargo build --release --offline --locked 1>&2
a=$?
wait $!
b=$?
if [ $a != 0 ] || [ $b != 0 ]; then
    echo "check.sh: the harness does not build against /repo" >&2
    exit 2
fi
if [ "$1" = replay ]; then
    exec ./target/release/harness replay "$2"
fi
MQTTBYTES_HARNESS_PRODUCTION=1 exec ./target/release/harness check "$1"
