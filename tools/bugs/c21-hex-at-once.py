id = "c21-hex-at-once"
property = "C21"
needs = "an output length of megabytes"
breaks = "all of the output is collected before it's printed, in memory in proportion to its length"
edits = [("baokeshed_bin/src/main.rs", """    let mut bytes_remaining = byte_length;
""", """    let mut bytes_remaining = byte_length;
    // One write per output instead of two per block.
    let mut text = String::new();
"""), ("baokeshed_bin/src/main.rs", """        print!("{}", &hex1[..2 * take as usize]);
""", """        text.push_str(&hex1[..2 * take as usize]);
"""), ("baokeshed_bin/src/main.rs", """        print!("{}", &hex2[..2 * take as usize]);
        bytes_remaining -= take;
    }
""", """        text.push_str(&hex2[..2 * take as usize]);
        bytes_remaining -= take;
        if text.len() >= isize::max_value() as usize / 2 {
            print!("{}", text);
            text.clear();
        }
    }
    print!("{}", text);
""")]
demo = r'''
#!/bin/bash
repo=$PWD
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
(cd "$repo/baokeshed_bin" && CARGO_TARGET_DIR="$scratch/target" cargo build --release --offline -q) || exit 2
bin=$scratch/target/release/baokeshed
n=$(ulimit -d 100000; echo hello | "$bin" --length=100000000 | wc -c)
[ "$n" = 200000001 ] || { echo "printed $n"; exit 1; }
'''
