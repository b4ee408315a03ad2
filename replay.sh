#!/bin/bash
# replay.sh <replay file>: runs the failing input of a replay file against /repo.
cd "$(dirname "$0")" || exit 3
here=$(pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
tmp=$(mktemp -d /tmp/gocvreplay.XXXXXX) || exit 3
trap 'rm -rf "$tmp"' EXIT
python3 - "$1" "$here" "$tmp" <<'P' || exit 3
import json,sys,glob,os
r=json.load(open(sys.argv[1])); c=r.get("failing_input")
if not c:
    print("no failing input in this file; failed obligations:")
    for o in r["failed_obligations"]: print(" ",o["function"],o["obligation"])
    sys.exit(1)
json.dump({"Replace":{"/repo/cmd/zzverif/"+os.path.basename(f):f for f in glob.glob(sys.argv[2]+"/witness/*.go")}},open(sys.argv[3]+"/ov.json","w"))
open(sys.argv[3]+"/args","w").write("-prop %s -seed %d -round %d"%(c["property"],c["seed"],c["round"]))
P
mkdir "$tmp/scratch"
(cd /repo && go build -overlay "$tmp/ov.json" -o "$tmp/zz" ./cmd/zzverif) || exit 3
"$tmp/zz" $(cat "$tmp/args") -tmp "$tmp/scratch"
