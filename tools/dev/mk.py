import os, subprocess, json, sys
R='/tmp/w/repo'
DEMO_SH='''#!/bin/bash
# Builds demo.rs against the tree in the current directory and runs it: 0 when the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
graviola = { path = "$repo/graviola" }
%s[profile.dev]
opt-level = 1
[profile.dev.package."*"]
opt-level = 1
T
export RUSTFLAGS='--cfg getrandom_backend="linux_getrandom"'
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target"
cd "$d" && cargo build --offline -q || exit 3
timeout 250 "$d/target/debug/demo"
'''
def bug(id, prop, edits, demo, needs, breaks, deps=''):
    subprocess.run(['git','-C',R,'checkout','-q','--','.'],check=True)
    for f,old,new in edits:
        p=os.path.join(R,f); s=open(p).read()
        n=s.count(old)
        if n!=1: print(id,f,'match count',n,repr(old[:60])); return
        open(p,'w').write(s.replace(old,new))
    diff=subprocess.run(['git','-C',R,'diff'],capture_output=True,text=True,check=True).stdout
    subprocess.run(['git','-C',R,'checkout','-q','--','.'],check=True)
    d=f'/verif/seeded/{id}'; os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.rs','w').write(demo.lstrip())
    open(d+'/demo.sh','w').write(DEMO_SH%deps); os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
    print(id,'written')
RUSTLS='rustls-graviola = { path = "$repo/rustls-graviola" }\nrustls = { version = "0.23", default-features = false, features = ["std", "tls12"] }\n'
