"""Write seeded/<id>/ from a description: edits [(file, old, new)], features, main."""
import json, os, shutil, subprocess
OUT='/verif/seeded'
DEMO='''#!/bin/bash
# Exits 0 when the behaviour is right, run from the root of the repository
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"

[workspace]

[dependencies]
value-bag = { path = "$repo", default-features = false, features = [%FEATURES%] }
%DEPS%
EOF
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true
cargo build --offline --quiet --manifest-path "$work/Cargo.toml" --target-dir "$work/target" || exit 2
timeout 60 "$work/target/debug/demo"
'''
def seed(id, prop, needs, breaks, edits, main, features="full"):
    feats={'full':["inline-i128","inline-str-l","std","owned","seq","sval2","serde1","error","test"]}.get(features, features.split(',') if features!='full' else None)
    d=f'{OUT}/{id}'
    os.makedirs(d,exist_ok=True)
    deps=''
    if 'sval2' in feats: deps+='sval = { version = "2", default-features = false }\nsval_ref = { version = "2", default-features = false }\n'
    if 'serde1' in feats: deps+='serde = { package = "serde_core", version = "1", default-features = false, features = ["alloc"] }\n'
    open(f'{d}/demo.sh','w').write(DEMO.replace('%FEATURES%',', '.join('"%s"'%f for f in feats if f)).replace('%DEPS%',deps.rstrip()))
    os.chmod(f'{d}/demo.sh',0o755)
    open(f'{d}/main.rs','w').write(main.lstrip('\n'))
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(f'{d}/meta.json','w'),indent=1)
    w='/tmp/seeds/w'
    shutil.rmtree(w,ignore_errors=True)
    subprocess.run(['git','clone','-q','/repo',w],check=True)
    for f,old,new in edits:
        p=f'{w}/{f}'; s=open(p).read()
        assert s.count(old)>=1,(id,f,'not found',old)
        assert s.count(old)==1,(id,f,'ambiguous',s.count(old),old)
        open(p,'w').write(s.replace(old,new))
    r=subprocess.run(['git','-C',w,'diff'],capture_output=True,text=True,check=True).stdout
    open(f'{d}/patch.diff','w').write(r)
    shutil.rmtree(w)
    print('wrote',id)
