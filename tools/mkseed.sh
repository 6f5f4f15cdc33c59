#!/bin/bash
# mkseed.sh ID "servers": lays the parts every end-to-end demonstration shares into seeded/ID.
V="$(cd "$(dirname "$0")/.." && pwd)"; S="$V/seeded/$1"; mkdir -p "$S/kit/demo"
cp -a "$V/harness/cluster" "$V/harness/fakeetcd" "$S/kit/"
grep -v porcupine "$V/harness/go.mod" > "$S/kit/go.mod"
cp "$V/sums/go.work.sum" "$S/kit/sums"
cp "$V/tools/kit/run.sh" "$S/kit/run.sh"; cp "$V/tools/kit/kit.go" "$S/kit/demo/kit.go"
sed '/^\/\/ MustBucket/,/^}/d' "$V/harness/cmd/check/api.go" > "$S/kit/demo/api.go"
cp "$V/harness/cmd/check/meta.go" "$S/kit/demo/meta.go"
sed "/^\/\/ checkCapacity/,/^}/d" "$V/harness/cmd/check/objstore.go" > "$S/kit/demo/objstore.go"
printf '#!/bin/bash\nD="$(cd "$(dirname "$0")" && pwd)"\n. "$D/kit/run.sh" %s\n' "$2" > "$S/demo.sh"; chmod +x "$S/demo.sh"
