#!/bin/bash
# usage: seed.sh ID PROP 'needs' 'breaks'   (edited copy in /tmp/seed/repo, main.go of the demo in /tmp/seed/main.go,
# optional demo.sh in /tmp/seed/demo.sh); confirms the change and stores it in /verif/seeded/ID
ID=$1; D=/verif/seeded/$ID
. /opt/vp/env.sh
[ -d /tmp/seed/repo ] || { mkdir -p /tmp/seed; cp -a /repo /tmp/seed/repo; echo fresh copy; exit 0; }
mkdir -p $D
git -C /tmp/seed/repo diff > $D/patch.diff
[ -s $D/patch.diff ] || { echo empty patch; exit 1; }
if [ -f /tmp/seed/demo.sh ]; then cp /tmp/seed/demo.sh $D/demo.sh; else
cp /tmp/seed/main.go $D/main.go.txt
cat > $D/demo.sh <<'X'
#!/bin/bash
# runs main.go.txt against the repository in the current directory
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
. /opt/vp/env.sh
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
cp "$D/main.go.txt" "$T/main.go"
printf 'module demo\n\ngo 1.14\n\nrequire github.com/vim-jp/go-vimlparser v0.0.0\n\nreplace github.com/vim-jp/go-vimlparser => %s\n' "$R" > "$T/go.mod"
cd "$T" && go build -o demo . && timeout 60 ./demo
X
fi
python3 - "$ID" "$2" "$3" "$4" <<'X'
import json,sys
json.dump({'property':sys.argv[2],'needs':sys.argv[3],'what_it_breaks':sys.argv[4]},open('/verif/seeded/%s/meta.json'%sys.argv[1],'w'),indent=1)
X
(cd /repo && bash $D/demo.sh >/tmp/seed/o1 2>&1); a=$?
(cd /tmp/seed/repo && bash $D/demo.sh >/tmp/seed/o2 2>&1); b=$?
echo "demo: unpatched $a patched $b"; tail -3 /tmp/seed/o1; echo --; tail -5 /tmp/seed/o2
[ $a = 0 ] && [ $b != 0 ] || { echo BAD demo; exit 1; }
git -C /repo apply $D/patch.diff || exit 1
bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seed/res.json >/dev/null 2>&1
git -C /repo checkout -- .
python3 - <<'X'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed/res.json'))
def passed(x):
    for k in ('passed','pass','stable'):
        if k in x: return set(x[k])
    return set(x)
m=passed(b)-passed(r)
print('tests missing:',sorted(m)[:5], len(m)); 
X
git -C /tmp/seed/repo checkout -q -- .
