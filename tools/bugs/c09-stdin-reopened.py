id = "c09-stdin-reopened"
property = "C09"
needs = "standard input redirected from a regular file that's already partly read (by an earlier command in the same shell)"
breaks = "standard input is opened anew, from its beginning, instead of being read from where it stands"
edits = [("baokeshed_bin/src/main.rs", """            Input::Stdin
        },
    )""", """            // Standard input can be mapped too, if it's a file.
            match File::open("/dev/stdin") {
                Ok(ref file) if !file.metadata()?.is_file() => Input::Stdin,
                Ok(file) => Input::File(file),
                Err(_) => Input::Stdin,
            }
        },
    )""")]
demo = r'''
#!/bin/bash
repo=$PWD
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
(cd "$repo/baokeshed_bin" && CARGO_TARGET_DIR="$scratch/target" cargo build --offline -q) || exit 2
bin=$scratch/target/debug/baokeshed
printf 'first line\nsecond line\n' > "$scratch/file"
printf 'second line\n' > "$scratch/rest"
got=$( { read -r line; "$bin"; } < "$scratch/file")
want=$("$bin" "$scratch/rest")
[ "$got" = "$want" ] || { echo "the first line was hashed again"; exit 1; }
'''
