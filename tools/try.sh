#!/bin/bash
# try.sh PLANT CHECK...: apply a planted bug to /repo, run the checks, undo it
p=$(cd "$(dirname "$0")/.." && pwd)
git -C /repo apply "$p/seeded/$1/patch.diff" || exit 2
for c in "${@:2}"; do "$p/run.sh" "$c" | cut -c1-400; done
git -C /repo checkout -- .
