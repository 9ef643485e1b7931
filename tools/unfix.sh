#!/bin/bash
# Takes each repair out of /repo in turn (working tree only) and expects the
# check of its property to report a violation.
grep '^fixed:' /verif/known_findings.txt | while read -r _ prop commit _; do
    prop=${prop#property=}
    [ -n "$1" ] && [ "$1" != "$commit" ] && continue
    if ! git -C /repo diff "$commit" "$commit^" | git -C /repo apply --3way 2>/dev/null; then
        git -C /repo reset -q --hard
        echo "$prop $commit: cannot be taken out alone"
        continue
    fi
    git -C /repo reset -q
    out=$(bash /verif/check.sh "$prop" quick 2>&1)
    git -C /repo checkout -q -- .
    echo "$prop $commit: $(echo "$out" | grep -c '^VIOLATION') violation(s): $(echo "$out" | grep -B1 '^VIOLATION' | head -1 | cut -c1-160)"
done
