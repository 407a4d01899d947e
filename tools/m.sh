#!/bin/bash
# tools/m.sh: like mut.sh, with a heading
echo "--- $2 => $3" | head -c 300; echo; bash "$(dirname "$0")/mut.sh" "$@"
