#!/usr/bin/env python3
"""mkseed(id, property, needs, breaks, edits, files): writes /verif/seeded/<id>; edits are (path, old, new)."""
import json, os, subprocess, sys
def mkseed(id, prop, needs, breaks, edits, demo, **files):
    d = f"/verif/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    assert not subprocess.run(["git","-C","/repo","status","--short"],capture_output=True,text=True).stdout.strip(), "dirty"
    try:
        for path, old, new in edits:
            p = "/repo/" + path
            s = open(p).read()
            assert s.count(old) == 1, (path, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        patch = subprocess.run(["git","-C","/repo","diff"],capture_output=True,text=True).stdout
    finally:
        subprocess.run(["git","-C","/repo","checkout","-q","--","."])
    open(d+"/patch.diff","w").write(patch)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks}, open(d+"/meta.json","w"), indent=1)
    open(d+"/demo.sh","w").write(demo)
    for name, text in files.items():
        open(d+"/"+name.replace("__","."),"w").write(text)
# A demo that runs main.go inside of the module of /repo:
GO_DEMO = '''#!/bin/bash
# Runs main.go, as if it was part of the module in the current directory.
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
echo '{"Replace":{"'"$PWD"'/pkg/zzdemo/main.go":"'"$here"'/main.go"}}' > "$tmp/overlay.json"
go run -overlay "$tmp/overlay.json" ./pkg/zzdemo
'''
# A demo that generates Go code for the model and runs main.go with it:
GEN_DEMO = '''#!/bin/bash
# Generates Go code for model.model (service 'my', version 'v1') and runs main.go with it.
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
go build -o "$tmp/metamodel" ./cmd/metamodel || exit 3
mkdir -p "$tmp/model/my/v1" "$tmp/m"
cp "$here"/*.model "$tmp/model/my/v1/"
cp tests/go/go.mod tests/go/go.sum "$tmp/m/"
cp "$here/main.go" "$tmp/m/"
cd "$tmp/m" || exit 3
PATH=/opt/vp/bin:$PATH "$tmp/metamodel" generate go --model="$tmp/model" \\
  --base=github.com/openshift-online/ocm-api-metamodel/tests/go/generated --output="$tmp/m/generated" || exit 4
go run .
'''
# A demo that runs the command line tool: the body uses $metamodel, $here and $tmp.
CLI_DEMO = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
metamodel="$tmp/metamodel"
go build -o "$metamodel" ./cmd/metamodel || exit 3
'''
