#!/usr/bin/env python3
"""regenerates /verif/seeded/<id>/ from edits against /repo's HEAD (scratch clone in /tmp/bugmk)"""
import json,os,subprocess,sys
R='/tmp/bugmk'
P='src/parser.rs'
DEMO='''#!/bin/bash
# builds demo.rs against the crate in the current directory (a scratch cargo project) and runs it
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
t="$(mktemp -d)" || exit 2
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/p/src" "$t/work"; cp "$here/demo.rs" "$t/p/src/main.rs"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[dependencies]\\nrphtml = { path = "%s" }\\n[workspace]\\n' "$repo" > "$t/p/Cargo.toml"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/p/Cargo.lock"
export CARGO_TARGET_DIR="$t/target" CARGO_NET_OFFLINE=true PATH="/root/.cargo/bin:$PATH"
(cd "$t/p" && cargo build --offline --quiet) || { echo "demo does not build"; exit 3; }
cd "$t/work" && timeout 200 "$t/target/debug/demo"
'''
PRE='''#![allow(unused)]
use rphtml::config::{ParseOptions, RenderOptions};
use rphtml::parser::*;
fn all() -> ParseOptions {
	ParseOptions { auto_fix_unclosed_tag: true, auto_fix_unexpected_endtag: true, auto_fix_unescaped_lt: true, ..Default::default() }
}
fn strict() -> ParseOptions {
	Default::default()
}
fn show(t: &str, o: ParseOptions) -> String {
	match Doc::parse(t, o) {
		Ok(d) => format!("ok {}", d.render(&Default::default())),
		Err(e) => format!("error {e}"),
	}
}
'''
BUGS=[]
def bug(id,prop,edits,demo,needs,breaks):
    BUGS.append((id,prop,edits,demo,needs,breaks))
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'buglist.py')).read())
def sh(*a,**k): return subprocess.run(a,check=True,capture_output=True,text=True,**k).stdout
only=sys.argv[1:]
subprocess.run(['rm','-rf','/tmp/bugmk']); sh('git','clone','-q','/repo',R)
for id,prop,edits,demo,needs,breaks in BUGS:
    if only and id not in only: continue
    sh('git','checkout','-q','--','.',cwd=R)
    for e in edits:
        f,a,b=e if len(e)==3 else (P,)+e
        s=open(f'{R}/{f}').read()
        assert s.count(a)==1,(id,f,a,s.count(a))
        open(f'{R}/{f}','w').write(s.replace(a,b))
    d=f'/verif/seeded/{id}'; os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(sh('git','diff',cwd=R))
    open(d+'/demo.sh','w').write(DEMO); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo.rs','w').write(PRE+demo)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    print(id)
subprocess.run(['rm','-rf','/tmp/bugmk'])
