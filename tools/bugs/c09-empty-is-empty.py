id = "c09-empty-is-empty"
property = "C09"
needs = "a regular file whose reported size is zero although it has content, such as the ones in /proc"
breaks = "the file is taken to be empty without reading it"
edits = [("baokeshed_bin/src/main.rs", """    if let Some(map) = maybe_memmap_input(&input)? {
        let output =""", """    let map = maybe_memmap_input(&input)?;
    let empty = match input {
        Input::File(ref file) => file.metadata().map(|m| m.is_file() && m.len() == 0)?,
        Input::Stdin => false,
    };
    if map.is_some() || empty {
        // An empty file can't be mapped, but there's nothing to read in it.
        let map: &[u8] = map.as_ref().map(|m| &m[..]).unwrap_or(&[]);
        let output ="""),
("baokeshed_bin/src/main.rs", """baokeshed::derive_key_xof(key, &map)""", """baokeshed::derive_key_xof(key, map)"""),
("baokeshed_bin/src/main.rs", """baokeshed::keyed_hash_xof(key, &map)""", """baokeshed::keyed_hash_xof(key, map)"""),
("baokeshed_bin/src/main.rs", """baokeshed::hash_xof(&map)""", """baokeshed::hash_xof(map)""")]
demo = r'''
#!/bin/bash
repo=$PWD
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
(cd "$repo/baokeshed_bin" && CARGO_TARGET_DIR="$scratch/target" cargo build --offline -q) || exit 2
bin=$scratch/target/debug/baokeshed
: > "$scratch/empty"
[ "$("$bin" "$scratch/empty")" = "$("$bin" < /dev/null)" ] || exit 1
cat /proc/version > "$scratch/version"
[ "$("$bin" /proc/version)" = "$("$bin" "$scratch/version")" ] || { echo "/proc/version hashes as something else"; exit 1; }
'''
