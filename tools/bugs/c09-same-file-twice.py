id = "c09-same-file-twice"
property = "C09"
needs = "the same named pipe or standard input given twice among the inputs"
breaks = "an input given twice is hashed once, although a stream has other content the second time"
edits = [("baokeshed_bin/src/main.rs", """        for input in args.arg_inputs.iter() {
            let input_str = input.to_string_lossy();
""", """        // Don't hash the same input again and again.
        let mut known = std::collections::HashMap::new();
        for input in args.arg_inputs.iter() {
            let input_str = input.to_string_lossy();
"""), ("baokeshed_bin/src/main.rs", """            match hash_one(&Some(input.clone()), key.as_ref(), derive_key) {
                Ok(mut output) => {
""", """            let result = match known.get(input) {
                Some(output) => Ok(baokeshed::Output::clone(output)),
                None => hash_one(&Some(input.clone()), key.as_ref(), derive_key),
            };
            match result {
                Ok(mut output) => {
                    known.insert(input, output.clone());
""")]
demo = r'''
#!/bin/bash
repo=$PWD
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
(cd "$repo/baokeshed_bin" && CARGO_TARGET_DIR="$scratch/target" cargo build --offline -q) || exit 2
bin=$scratch/target/debug/baokeshed
empty=$(printf '' | "$bin")
second=$(printf abc | "$bin" - - | tail -1)
[ "$second" = "$empty  -" ] || { echo "the second - is not empty: $second"; exit 1; }
'''
