#!/bin/bash
# runs demo.rs as a test of the e2e crate against the built tree
D=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin" RUSTUP_TOOLCHAIN=1.97.1 RUSTUP_AUTO_INSTALL=0 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER= INSTA_UPDATE=no
T=/repo/e2e/tests/vp_demo
mkdir -p "$T" && cp "$D"/*.rs "$T"/ && cp "$D"/*.graphql "$T"/ 2>/dev/null
trap 'rm -rf /repo/e2e/tests/vp_demo; rmdir /repo/e2e/tests 2>/dev/null' EXIT
cd /repo/e2e || exit 3
( cd /repo && timeout 280 cargo test --workspace --features hive-router/graphiql --locked --offline --test vp_demo -- --test-threads=1 )
