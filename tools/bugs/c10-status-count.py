id = "c10-status-count"
property = "C10"
needs = "a multiple of 256 inputs that cannot be hashed in one call"
breaks = "the exit status is the number of failures, of which the system keeps eight bits"
edits = [("baokeshed_bin/src/main.rs", """        let mut did_error = false;""", """        let mut failures = 0;"""),
("baokeshed_bin/src/main.rs", """                    did_error = true;""", """                    failures += 1;"""),
("baokeshed_bin/src/main.rs", """        if did_error {
            std::process::exit(1);""", """        if failures > 0 {
            std::process::exit(failures);""")]
demo = r'''
#!/bin/bash
repo=$PWD
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
(cd "$repo/baokeshed_bin" && CARGO_TARGET_DIR="$scratch/target" cargo build --offline -q) || exit 2
bin=$scratch/target/debug/baokeshed
cd "$scratch"
"$bin" $(for i in $(seq 256); do echo missing$i; done) > out && { echo "256 missing files, and status 0"; exit 1; }
exit 0
'''
