id = "c10-last-status"
property = "C10"
needs = "several inputs of which one fails and a later one succeeds"
breaks = "the exit status only tells about the last input"
edits = [("baokeshed_bin/src/main.rs", """                Ok(mut output) => {
                    print_hex""", """                Ok(mut output) => {
                    did_error = false;
                    print_hex""")]
demo = r'''
#!/bin/bash
repo=$PWD
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
(cd "$repo/baokeshed_bin" && CARGO_TARGET_DIR="$scratch/target" cargo build --offline -q) || exit 2
bin=$scratch/target/debug/baokeshed
echo hello > "$scratch/a"
"$bin" "$scratch/a" "$scratch/a" || exit 1
"$bin" "$scratch/a" "$scratch/missing" && exit 1
"$bin" "$scratch/missing" "$scratch/a" && { echo "a missing file, and status 0"; exit 1; }
exit 0
'''
