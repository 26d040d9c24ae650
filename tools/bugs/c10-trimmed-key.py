id = "c10-trimmed-key"
property = "C10"
needs = "a key of 64 hexadecimal digits with white space around it or a 0x in front"
breaks = "the malformed key is accepted"
edits = [("baokeshed_bin/src/main.rs", """        let key_bytes = hex::decode(key_str)?;""", """        let key_str = key_str.trim();
        let key_bytes = hex::decode(if key_str.starts_with("0x") {
            &key_str[2..]
        } else {
            key_str
        })?;""")]
demo = r'''
#!/bin/bash
repo=$PWD
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
(cd "$repo/baokeshed_bin" && CARGO_TARGET_DIR="$scratch/target" cargo build --offline -q) || exit 2
bin=$scratch/target/debug/baokeshed
key=$(printf '%064d' 7)
echo | "$bin" --key="$key" > /dev/null || exit 1
for bad in "$key " " $key" "0x$key" "${key%7}"; do
    echo | "$bin" --key="$bad" && { echo "key '$bad' accepted"; exit 1; }
done
exit 0
'''
