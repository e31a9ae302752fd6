#!/bin/bash
# check.sh ID TIER - rebuild the harness from /repo's working tree and decide one property.
# check.sh --build - only build.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$here"
export CARGO_TARGET_DIR="$here/target"
export CARGO_NET_OFFLINE=true
mkdir -p "$CARGO_TARGET_DIR" "$here/evidence" "$here/replays"
build() {
  # Cargo decides by modification times; decide by content as well, so that no change is missed.
  local now old
  now="$( (cd /repo && find Cargo.toml server -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum; rustc -V; cd "$here/harness" && find . -name '*.rs' -o -name '*.c' -o -name 'Cargo.*' | sort | xargs sha256sum) 2>/dev/null | sha256sum | cut -d' ' -f1)"
  old="$(cat "$CARGO_TARGET_DIR/source.hash" 2>/dev/null)"
  if [ "$now" = "$old" ] && [ -x "$CARGO_TARGET_DIR/release/vh" ]; then return 0; fi
  if [ -n "$old" ]; then (cd "$here/harness" && cargo clean --release --offline -p server -p vh) >/dev/null 2>&1; fi
  rm -f "$CARGO_TARGET_DIR/source.hash"
  local log="$CARGO_TARGET_DIR/build.log" parts="pools sweeps coord" try ok=
  # Parts of the harness that no longer fit a changed interface are left out (and said to be); the rest still decides.
  for try in 1 2 3 4; do
    if (cd "$here/harness" && cargo build --release --offline --no-default-features --features "$parts") >"$log" 2>&1; then ok=1; break; fi
    local bad= where
    where="$(awk '/^error/ {e=1} /^warning/ {e=0} e && /^ *--> / {print $2; e=0}' "$log")"
    grep -qE '^src/props/(pools|crowd)\.rs' <<<"$where" && bad="$bad pools"
    grep -qE '^src/props/sweeps\.rs' <<<"$where" && bad="$bad sweeps"
    grep -qE '^src/bin/v_coord\.rs' <<<"$where" && bad="$bad coord"
    local p left=
    for p in $parts; do case " $bad " in *" $p "*) echo "NOTE: the part '$p' of the harness does not build against /repo and is left out" >&2;; *) left="$left $p";; esac; done
    [ "$left" = " $parts" ] && break
    [ -z "$bad" ] && break
    parts="$left"
  done
  if [ -z "$ok" ]; then
    grep -E '^error' -A8 "$log" >&2; tail -5 "$log" >&2
    return 1
  fi
  if [ -f "$here/harness/shim/shim.c" ]; then
    gcc -O1 -shared -fPIC -o "$CARGO_TARGET_DIR/release/shim.so" "$here/harness/shim/shim.c" -ldl >>"$log" 2>&1 || { tail -5 "$log" >&2; return 1; }
  fi
  echo "$now" > "$CARGO_TARGET_DIR/source.hash"
}
exec 9>"$CARGO_TARGET_DIR/build.lock"
flock 9
if ! build; then echo "ERROR: the harness does not build against /repo" >&2; exit 3; fi
flock -u 9
exec 9>&-
[ "${1:-}" = "--build" ] && exit 0
[ $# -ge 1 ] || { echo "usage: check.sh ID [quick|thorough]" >&2; exit 2; }
exec "$CARGO_TARGET_DIR/release/vh" run "$1" "${2:-${VERIF_TIER:-quick}}"
