#!/bin/bash
# build.sh SCRATCH [REPO]: instruments REPO's current tree (default /repo) and
# builds the explorer $SCRATCH/bin/runner. Nothing is written outside SCRATCH.
set -e
SCRATCH=$1
REPO=${2:-/repo}
HERE=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$SCRATCH"/{tmp,gp/src,bin}
[ -d "$SCRATCH/cache" ] || cp -a /opt/vp/gocache "$SCRATCH/cache" 2>/dev/null || mkdir -p "$SCRATCH/cache"
export SCRATCH
. "$HERE/mc/env.sh"
cd "$HERE/mc"
R=github.com/qbeon/webwire-go
go build -o "$SCRATCH/bin/instr" verif/instr
"$SCRATCH/bin/instr" -out "$SCRATCH/gp/src" -repo "$REPO" -repopath $R -shims "$HERE/mc/src/verif/vsched" \
	$R=$REPO=repo $R/message=$REPO/message=repo $R/payload=$REPO/payload=repo \
	$R/transport/memchan=$REPO/transport/memchan=repo $R/requestManager=$REPO/requestManager=repo \
	verif/harness=$HERE/mc/harness=harness
go build -o "$SCRATCH/bin/runner" verif/runner
