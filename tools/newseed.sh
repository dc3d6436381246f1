#!/bin/bash
# newseed.sh <id>: fill in the common files of /verif/seeded/<id>
d=/verif/seeded/$1; mkdir -p "$d"; cp /verif/tools/kdemo.h "$d/"
cat > "$d/demo.sh" <<'X'
#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
o=$(mktemp -d /tmp/kdemobin.XXXXXX)
trap 'rm -rf "$o"' EXIT
gcc -w -I "$d" -I /repo/src/pkcs11/headers/3.2 -o "$o/demo" "$d/demo.c" -ldl -lpthread || exit 3
timeout 120 "$o/demo"
X
chmod +x "$d/demo.sh"
