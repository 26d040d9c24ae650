id = "c21-open-first"
property = "C21"
needs = "more inputs than the process may have files open"
breaks = "all inputs are opened before the first is hashed, so the number of inputs is limited by the number of descriptors"
edits = [("baokeshed_bin/src/main.rs", """        let mut did_error = false;
        for input in args.arg_inputs.iter() {
""", """        let mut did_error = false;
        // Open everything before the first of what may be long computations, so that inputs that
        // are removed or renamed meanwhile are still hashed.
        let mut opened: Vec<_> = args
            .arg_inputs
            .iter()
            .map(|input| Some(open_input(&Some(input.clone()))))
            .collect();
        for (index, input) in args.arg_inputs.iter().enumerate() {
"""), ("baokeshed_bin/src/main.rs", """            match hash_one(&Some(input.clone()), key.as_ref(), derive_key) {
""", """            let input = opened[index].take().expect("each input is taken once");
            match input.and_then(|input| hash_one(input, key.as_ref(), derive_key)) {
"""), ("baokeshed_bin/src/main.rs", """        let mut output = hash_one(&None, key.as_ref(), derive_key)?;
""", """        let mut output = hash_one(open_input(&None)?, key.as_ref(), derive_key)?;
"""), ("baokeshed_bin/src/main.rs", """    maybe_path: &Option<PathBuf>,
    key: Option<&[u8; baokeshed::KEY_LEN]>,
""", """    mut input: Input,
    key: Option<&[u8; baokeshed::KEY_LEN]>,
"""), ("baokeshed_bin/src/main.rs", """    let mut input = open_input(maybe_path)?;
""", "")]
demo = r'''
#!/bin/bash
repo=$PWD
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
(cd "$repo/baokeshed_bin" && CARGO_TARGET_DIR="$scratch/target" cargo build --offline -q) || exit 2
bin=$scratch/target/debug/baokeshed
echo hello > "$scratch/file"
args=()
for i in $(seq 200); do args+=("$scratch/file"); done
out=$(ulimit -n 64; "$bin" "${args[@]}") || { echo "failed: $(tail -1 <<< "$out")"; exit 1; }
[ $(sort -u <<< "$out" | wc -l) = 1 ]
'''
