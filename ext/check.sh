#!/bin/bash
# ext/check.sh SEED TIER: decides C15 by running the VS Code client against recording stand-ins
cd "$(dirname "$0")/.." || exit 2
ROOT=$PWD
REPO=${HIRMON_REPO:-/repo}
out=$ROOT/.build/ext
mkdir -p "$out" evidence
node=$(command -v node || echo /usr/bin/node)
es=/opt/veriftools/node/node_modules/.bin/esbuild
rm -f "$out/extension.js"
"$es" "$REPO/vscode-extension/src/extension.ts" --bundle --platform=node --format=cjs --log-level=error \
  --external:vscode --external:vscode-languageclient --external:vscode-languageclient/node \
  --outfile="$out/extension.js" > "$out/build.log" 2>&1 || { cat "$out/build.log" >&2; echo "the client does not build" >&2; exit 4; }
exec "$node" ext/monitor.js "$out/extension.js" "${1:-1}" "${2:-quick}" "$ROOT"
