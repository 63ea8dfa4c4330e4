#!/bin/bash
# development helper: sweep.sh FROM TO [PROFILES...]: run the server profiles in parallel, print violation kinds
F=$1; T=$2; shift 2
P=${@:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C21 C22}
export RUST_BACKTRACE=0
for p in $P; do echo $p; done | xargs -P${J:-8} -I{} sh -c "timeout 800 /verif/.build/target/debug/zodsim sweep ${W:-Server} {} $F $T 2>&1 | cut -c1-240 | tail -14 | sed 's/^/{} /'"
