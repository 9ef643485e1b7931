#!/bin/bash
# Every run's digest of events must come out the same however often, and by
# however many workers, it is executed.
bash /verif/build.sh || exit 2
sim=/verif/sim/target/release/sim
for p in ${*:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C23}; do
    a=$($sim digest $p 7 0 1 600 | sort)
    b=$( { $sim digest $p 7 1 3 600; $sim digest $p 7 0 3 600; $sim digest $p 7 2 3 600; } | sort)
    [ "$a" == "$b" ] && echo "$p: same ($(echo "$a" | wc -l) runs)" || echo "$p: DIFFERENT: $(diff <(echo "$a") <(echo "$b") | head -4)"
done
