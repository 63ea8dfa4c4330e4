#!/bin/bash
# development helper: show.sh WORLD PROFILE SEED: the history of one run, one line per event
RUST_BACKTRACE=0 /verif/.build/target/debug/zodsim show $1 $2 $3 2>&1 | grep -E '^ +[0-9]+ +[0-9]+ |^[a-z-]+ \{|^panics' | sed 's/Object//g; s/String("/("/g; s/String(//g; s/Number(\([0-9]*\))/\1/g; s/Array//g; s/"\([a-z]*\)":/\1:/g' | cut -c1-${COLS:-300}
