#!/usr/bin/env python3
"""mkseed.py ID PROPERTY DEPS(comma separated crate names, may be empty) -- for planting a bug.

Takes the working-tree diff of /tmp/seed (a copy of /repo) and /tmp/seed_demo.rs, and writes /verif/seeded/ID.
meta texts are read from /tmp/seed_meta.json {"needs","what_it_breaks"}."""
import sys, os, json, subprocess, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid, prop, deps = sys.argv[1], sys.argv[2], [d for d in sys.argv[3].split(",") if d]
d = f"{V}/seeded/{sid}"
os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", os.environ.get("SEED", "/tmp/seed"), "diff"], capture_output=True, text=True).stdout
assert diff, "no change in /tmp/seed"
open(d + "/patch.diff", "w").write(diff)
open(d + "/common.rs", "w").write(open(V + "/tools/demo_common.rs").read())
single = "single::" in open("/tmp/seed_demo.rs").read()
if single:
    open(d + "/single.rs", "w").write(open(V + "/harness/single.rs").read())
    sys.argv[3] += ",dao-proposal-single,cw-utils"
open(d + "/main.rs", "w").write(
    """#![allow(unused)]
mod sym {
    pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| "panic".to_string())
    }
    pub fn note(_: &str, _: &str) {}
}
#[macro_use]
mod common;
MODS
mod demo;
fn main() {
    demo::run()
}
""".replace("MODS\n", "mod single;\n" if single else "")
)
open(d + "/demo.rs", "w").write(open("/tmp/seed_demo.rs").read())
man = open(V + "/build_rep/Cargo.toml").read()
lines, out = man.splitlines(), []
third = [l for l in lines if re.match(r"^(cosmwasm|cw-multi|cw-storage|cw-utils|cw2|cw20|cw20-base|cw4|cw721|anyhow|serde|cw-ownable|cw-controllers|cw4-group|cw721-base|osmosis-std|prost)\b.*= ", l) and "/repo/" not in l]
deps = [x for x in sys.argv[3].split(",") if x]
need = {"dao-dao-core", "dao-interface", "dao-voting"} | set(deps)
repo = [l for l in lines if "/repo/" in l and l.split(" ")[0] in need]
miss = need - {l.split(" ")[0] for l in repo} - {"cw-utils"}
assert not miss, miss
open(d + "/Cargo.toml.in", "w").write(
    '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n\n[workspace]\n\n[[bin]]\nname = "demo"\npath = "main.rs"\n\n[dependencies]\n' + "\n".join(third + repo) + "\n"
)
open(d + "/demo.sh", "w").write(
    """#!/bin/bash
# Exit 0: the contracts behave; nonzero: the planted change shows.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
cp "$D"/*.rs "$T"/ && cp "$D"/Cargo.toml.in "$T"/Cargo.toml && cp /repo/Cargo.lock "$T"/Cargo.lock || exit 99
cd "$T" && CARGO_TARGET_DIR="$T/target" CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0 cargo run --offline -q
"""
)
os.chmod(d + "/demo.sh", 0o755)
m = json.load(open("/tmp/seed_meta.json"))
json.dump({"property": prop, **m}, open(d + "/meta.json", "w"), indent=1)
