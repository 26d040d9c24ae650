id = "c10-skips-after-directory"
property = "C10"
needs = "a list of inputs in which one fails to be read (rather than opened), with others behind it"
breaks = "a read error ends the whole run: the inputs behind the failing one are not hashed"
edits = [("baokeshed_bin/src/main.rs", """                    did_error = true;
                    println!("bao: {}: {}", input_str, e);
""", """                    did_error = true;
                    println!("bao: {}: {}", input_str, e);
                    // Something's wrong with the disk. Don't make it worse.
                    if let Some(code) = e.downcast_ref::<io::Error>().and_then(|e| e.raw_os_error()) {
                        if code == 5 || code == 21 {
                            break;
                        }
                    }
""")]
demo = r'''
#!/bin/bash
repo=$PWD
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
(cd "$repo/baokeshed_bin" && CARGO_TARGET_DIR="$scratch/target" cargo build --offline -q) || exit 2
bin=$scratch/target/debug/baokeshed
mkdir "$scratch/dir"
printf abc > "$scratch/file"
lines=$("$bin" "$scratch/dir" "$scratch/file" | wc -l)
[ "$lines" = 2 ] || { echo "$lines lines for two inputs"; exit 1; }
'''
