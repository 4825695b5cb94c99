#!/bin/bash
# mechanical copy of /repo/smtp-queue with its private items made reachable; $1: destination
set -e
src=/repo/smtp-queue
dst="$1"
put() { cmp -s "$1" "$2" 2>/dev/null || cp "$1" "$2"; }
mkdir -p "$dst/src"
(cd "$dst/src" && find . -type f -name '*.rs') | while read -r f; do
  [ -e "$src/src/$f" ] || rm -f "$dst/src/$f"
done
sed 's#path = "\.\./#path = "/repo/#' $src/Cargo.toml > "$dst/.new"
put "$dst/.new" "$dst/Cargo.toml"
(cd $src/src && find . -type f) | while read -r f; do
  mkdir -p "$dst/src/$(dirname "$f")"
  if [ "$f" = ./lib.rs ]; then
    { cat $src/src/lib.rs
      printf '\npub use mail::FoundInflightMail as VxFoundInflightMail;\npub mod vx {\n    pub use send_queued_mail::send_queued_mail;\n}\n'; } > "$dst/.new"
    put "$dst/.new" "$dst/src/lib.rs"
  else
    put "$src/src/$f" "$dst/src/$f"
  fi
done
rm -f "$dst/.new"
