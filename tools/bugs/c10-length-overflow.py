id = "c10-length-overflow"
property = "C10"
needs = "an output length above 2^64 - 1"
breaks = "a length that doesn't fit is wrapped instead of being rejected, and output of another length is printed"
edits = [("baokeshed_bin/src/main.rs", """        Some(ref length) => length
            .parse()
            .map_err(|e| anyhow!("bad length {:?}: {}", length, e))?,
""", """        Some(ref length) => length
            .parse::<u128>()
            .map_err(|e| anyhow!("bad length {:?}: {}", length, e))? as u64,
""")]
demo = r'''
#!/bin/bash
repo=$PWD
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
(cd "$repo/baokeshed_bin" && CARGO_TARGET_DIR="$scratch/target" cargo build --offline -q) || exit 2
bin=$scratch/target/debug/baokeshed
got=$(printf abc | timeout 20 "$bin" --length 18446744073709551626 2>/dev/null | head -c 100)
[ -z "$got" ] || { echo "printed $got"; exit 1; }
'''
