set -e
cd /repo
cargo build --offline 2>&1 | grep -E "^error" -A9 && exit 1
bash /verif/tools/baseline.sh | tail -1
git commit -qam "fix: $1"
printf '%s\t%s\t%s\n' "$1" "$2" "$3" >> /verif/tools/fixes.tsv
git log --oneline | head -1
