#!/bin/bash
# dev.sh SRC OUTDIR GROUP [race]: instrumented copy of SRC and harness binary, for development
. /opt/vp/env.sh
set -e
src=$1 out=$2 g=$3
mkdir -p $out
(cd /verif/mc/rewrite && go build -o $out/rewrite .)
rm -rf $out/tree; mkdir -p $out/tree
$out/rewrite -src $src -dst $out/tree $EXTRA ./plugin/... ./zpages ./exporter/... ./resource/... ./metric/... ./stats/... ./tag/... ./trace/...
mkdir -p $out/tree/internal/vsched && cp -r /verif/mc/vsched/* $out/tree/internal/vsched/
cp -r /verif/mc/vh $out/tree/internal/vh
cp -r /verif/mc/h $out/tree/internal/vharness
cd $out/tree
L="-trimpath -gcflags=go.opencensus.io/...=-lang=go1.21"
if [ "$4" = race ]; then
 python3 -c "import sys; sys.path.insert(0,'/verif'); import check; print(check.overlay('$out', check.goenv()))" >/dev/null
 GOEXPERIMENT=nosizespecializedmalloc go build -race -overlay $out/overlay/overlay.json $L "-gcflags=go.opencensus.io/internal/vsched/...=-lang=go1.21 -race=false -l" "-gcflags=go.opencensus.io/internal/vsched/vatomic=-lang=go1.21" "-gcflags=go.opencensus.io/internal/vsched/vruntime=-lang=go1.21" -o $out/$g.race ./internal/vharness/$g
else
 go build $L -o $out/$g ./internal/vharness/$g
fi
