id = "c09-derive-mapped"
property = "C09"
needs = "--derive-key with a regular file as input, rather than standard input"
breaks = "a mapped file is hashed in keyed mode instead of derive-key mode"
edits = [("baokeshed_bin/src/main.rs", """                baokeshed::derive_key_xof(key, &map)
""", """                baokeshed::keyed_hash_xof(key, &map)
""")]
demo = r'''
#!/bin/bash
repo=$PWD
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
(cd "$repo/baokeshed_bin" && CARGO_TARGET_DIR="$scratch/target" cargo build --offline -q) || exit 2
bin=$scratch/target/debug/baokeshed
key=$(printf '%064d' 7)
echo hello > "$scratch/file"
for option in key derive-key; do
    [ "$("$bin" --$option=$key "$scratch/file")" = "$("$bin" --$option=$key < "$scratch/file")" ] || { echo "--$option: file and standard input differ"; exit 1; }
done
'''
