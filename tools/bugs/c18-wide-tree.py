id = "c18-wide-tree"
property = "C18"
needs = "a message of more than 128 chunks whose chunk count isn't a power of two"
breaks = "the split of large messages isn't at a power of two chunks"
edits = [("python/baokeshed.py", """    power_of_two_chunks = 2**(available_chunks.bit_length() - 1)
""", """    power_of_two_chunks = 1
    for candidate in (2, 4, 8, 16, 32, 64, 128):
        if candidate <= available_chunks:
            power_of_two_chunks = candidate
""")]
demo = r'''
#!/bin/bash
repo=$PWD
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
(cd "$repo/baokeshed_bin" && CARGO_TARGET_DIR="$scratch/target" cargo build --offline -q) || exit 2
head -c $((2048 * 300)) /dev/zero > "$scratch/f"
want=$("$scratch/target/debug/baokeshed" "$scratch/f")
got=$(cd python && PYTHONDONTWRITEBYTECODE=1 python3 -c "
import baokeshed
print(baokeshed.hash(bytes(2048 * 300), 32).hex())")
[ "$want" = "$got" ] || { echo "$got instead of $want"; exit 1; }
'''
