#!/bin/bash
# newbug.sh ID: package the edits made in /tmp/bug (a copy of /repo) as seeded/ID
set -e
V=$(cd "$(dirname "$0")/.." && pwd); S=$V/seeded/$1; mkdir -p "$S"
git -C /tmp/bug diff > "$S/patch.diff"
cp "$V/tools/demo_op.py" "$S/demo_op.py"
cat > "$S/demo.sh" <<'X'
#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
cd "$d" && PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python demo.py
X
git -C /tmp/bug checkout -q -- .
