#!/bin/bash
# tools/job.sh BC SECONDS [engine options --] params... : run the engine on one parameter tuple
BC=$1; T=$2; shift 2
O=(); while [[ "$1" == --* ]]; do [[ "$1" == "--" ]] && { shift; break; }; O+=("$1"); shift; done
P=(); for x in "$@"; do P+=(--param "$x"); done
D=$(mktemp -d); S=$(date +%s.%N)
timeout $((T+5)) "$(dirname "$0")"/../engine/sx "$BC" --out "$D" --max-time "$T" --solver-timeout 60000 --max-steps 30000000 --witness 0 "${O[@]}" "${P[@]}" 2>&1 | tail -${TAIL:-4}
echo "[$*] $(echo "$(date +%s.%N)-$S" | bc) s"; rm -r "$D"
