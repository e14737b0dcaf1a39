#!/usr/bin/env python3
"""Writes build_sym/Cargo.toml and build_rep/Cargo.toml (both committed)."""
import re,os
REPO="/repo"
crates=[]
for l in open(REPO+"/Cargo.toml"):
    m=re.match(r'([a-z0-9-]+) = \{ path = "\./([^"]+)"',l)
    if m: crates.append(m.groups())
skip={"dao-migrator","dao-testing","btsg-ft-factory","dao-test-custom-factory","dao-proposal-hook-counter"}
out=[]
for n,p in crates:
    if n in skip: continue
    t=open(f"{REPO}/{p}/Cargo.toml").read()
    f=[]
    if re.search(r'^library *=',t,re.M): f.append('"library"')
    df=""
    if re.search(r'^default *= *\["osmosis_tokenfactory"\]',t,re.M) or "osmosis_tokenfactory" in t and n.startswith("cw-tokenfactory"):
        df=""
    out.append(f'{n} = {{ path = "{REPO}/{p}"{", features = ["+", ".join(f)+"]" if f else ""} }}')
ext='''cosmwasm-std = { version = "1.5.4", features = ["ibc3", "cosmwasm_1_2", "staking", "stargate"] }
cosmwasm-schema = "1.5.4"
cw-multi-test = { version = "0.20.1", features = ["cosmwasm_1_1"] }
cw-storage-plus = "1.1"
cw-utils = "1.0"
cw-controllers = "1.1"
cw2 = "1.1"
cw20 = "1.1"
cw20-base = { version = "1.1", features = ["library"] }
cw4 = "1.1"
cw4-group = { version = "1.1", features = ["library"] }
cw721 = "0.18"
cw721-base = { version = "0.18", features = ["library"] }
cw-ownable = "0.5"
wynd-utils = "0.4"
omniflix-std = "0.1.8"
osmosis-std = "0.20.1"
cw-core-v1 = { package = "cw-core", version = "0.1.0", features = ["library"] }
cw-core-interface-v1 = { package = "cw-core-interface", version = "0.1.0" }
cw-proposal-single-v1 = { package = "cw-proposal-single", version = "0.1.0", features = ["library"] }
voting-v1 = { package = "dao-voting", version = "0.1.0" }
cw-utils-v1 = { package = "cw-utils", version = "0.13" }
cw20-v1 = { package = "cw20", version = "0.13" }
cw20-stake-v1 = { package = "cw20-stake", version = "0.2.6", features = ["library"] }
cw20-stake-external-rewards-v1 = { package = "stake-cw20-external-rewards", version = "0.2.6", features = ["library"] }
cw20-stake-reward-distributor-v1 = { package = "stake-cw20-reward-distributor", version = "0.1.0", features = ["library"] }
dao-pre-propose-single-v241 = { package = "dao-pre-propose-single", version = "=2.4.1", features = ["library"] }
dao-pre-propose-multiple-v241 = { package = "dao-pre-propose-multiple", version = "=2.4.1", features = ["library"] }
dao-pre-propose-approval-single-v241 = { package = "dao-pre-propose-approval-single", version = "=2.4.1", features = ["library"] }
dao-voting-v241 = { package = "dao-voting", version = "=2.4.1" }
cw-denom-v241 = { package = "cw-denom", version = "=2.4.1" }
dao-pre-propose-base-v241 = { package = "dao-pre-propose-base", version = "=2.4.1" }
anyhow = "1.0"
serde = { version = "1.0", default-features = false, features = ["derive"] }
'''
for d,name,feat,patch in [("build_sym","harness_sym",', features = ["symbolic"]','\n[patch.crates-io]\ncosmwasm-std = { path = "../cosmwasm-std" }\n'),("build_rep","harness_rep","","")]:
    os.makedirs(d,exist_ok=True)
    open(d+"/Cargo.toml","w").write(f'''# written by gen_manifests.py
[package]
name = "{name}"
version = "0.1.0"
edition = "2021"

[workspace]

[[bin]]
name = "{name}"
path = "../harness/main.rs"

[dependencies]
sym = {{ path = "../sym"{feat} }}
{ext}
'''+"\n".join(out)+"\n"+f'''
[profile.dev]
opt-level = 1
debug = false
incremental = false
overflow-checks = true
debug-assertions = false
panic = "unwind"

# programs that run at build time gain nothing from optimisation
[profile.dev.build-override]
opt-level = 0
debug = false
{patch}''')
