#!/usr/bin/env python3
"""mkseed.py ID FILE PROPERTY NEEDS BREAKS < (old text, a line with only =====, new text): records a planted bug."""
import json, os, subprocess, sys
id, file, prop, needs, breaks = sys.argv[1:6]
old, new = sys.stdin.read().split("\n=====\n")
new = new.rstrip("\n")
d = "/verif/seeded/" + id
os.makedirs(d, exist_ok=True)
assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout.strip()
path = "/repo/" + file
text = open(path).read()
assert text.count(old) == 1, text.count(old)
open(path, "w").write(text.replace(old, new))
diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
open(d + "/patch.diff", "w").write(diff)
subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
if not os.path.exists(d + "/demo.sh"):
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# exit 0: behaves; run in the repository root
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 99
trap 'rm -r "$tmp"' EXIT
g++ -std=c++17 -O2 -w -I. "$here/demo.cc" -o "$tmp/demo" -lpthread || exit 98
cd "$tmp" && timeout 200 ./demo
''')
print(diff)
