#!/bin/bash
# Regenerates harness/Cargo.lock offline (needed only when a dependency changes): cargo cannot fetch the git source of
# askar-crypto here, so the lock is generated against a scratch copy of /repo whose manifest names the stand-in by path.
set -e
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
H=$(cd "$(dirname "$0")" && pwd); D=${1:-$H}
T=$(mktemp -d /tmp/mklock.XXXXXX); trap 'rm -rf "$T"' EXIT
mkdir $T/repo $T/h; cp -r $H/../standin $T/standin; find $T/standin -name Cargo.toml -exec sed -i "s#\"/repo#\"$T/repo#g" {} +; (cd /repo && tar --exclude=.git --exclude=target -cf - .) | tar -xf - -C $T/repo
S=$T/standin/askar-crypto
python3 - "$T" "$S" "$D" <<'P'
import sys,re
T,S,D=sys.argv[1:]
m=open(T+'/repo/Cargo.toml').read()
m=re.sub(r"git = 'https://github.com/hyperledger/aries-askar'\nrev = '[^']*'", "path = '%s'"%S, m); open(T+'/repo/Cargo.toml','w').write(m)
h=open(D+'/Cargo.toml').read()
h=h.replace('path = "/repo"','path = "%s/repo"'%T)
h=re.sub(r'git = "https://github.com/hyperledger/aries-askar", rev = "[^"]*"','path = "%s"'%S,h)
h=re.sub(r'\[patch\."https://github.com/hyperledger/aries-askar"\]\naskar-crypto = .*\n','',h)
h=re.sub(r'path = "src/[^"]*"','path = "src/m.rs"',h)
open(T+'/h/Cargo.toml','w').write(h)
P
mkdir -p $T/h/src; echo 'fn main(){}' > $T/h/src/m.rs; cp $T/h/src/m.rs $T/h/src/main.rs; cp $T/h/src/m.rs $T/h/src/lib.rs
cp /opt/vp/partial/Cargo.lock $T/h/Cargo.lock
(cd $T/h && cargo generate-lockfile --offline)
cp $T/h/Cargo.lock $D/Cargo.lock
