id = "c18-repeated-chunks"
property = "C18"
needs = "a message in which a whole chunk is repeated at another position"
breaks = "chunks are remembered by their content alone, so a repeated chunk gets the chaining value of its first position"
edits = [("python/baokeshed.py", """    if len(input_bytes) <= CHUNK_LEN:
        return hash_chunk(input_bytes, key_words, offset, flags)
""", """    if len(input_bytes) <= CHUNK_LEN:
        # Long messages often have runs of equal chunks.
        memo = (bytes(input_bytes), tuple(key_words), flags)
        if offset == 0 or memo not in CHUNKS:
            CHUNKS.clear()
            CHUNKS[memo] = hash_chunk(input_bytes, key_words, offset, flags)
        return CHUNKS[memo]
"""), ("python/baokeshed.py", """# Hash an entire subtree""", """CHUNKS = {}


# Hash an entire subtree""")]
demo = r'''
#!/bin/bash
repo=$PWD
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
(cd "$repo/baokeshed_bin" && CARGO_TARGET_DIR="$scratch/target" cargo build --offline -q) || exit 2
cd "$repo/python" && PYTHONDONTWRITEBYTECODE=1 python3 - "$scratch/target/debug/baokeshed" <<'END'
import baokeshed, subprocess, sys
for n in [0, 2048, 4096, 10000]:
    want = subprocess.run([sys.argv[1]], input=bytes(n), stdout=subprocess.PIPE).stdout.decode().strip()
    assert baokeshed.hash(bytes(n), 32).hex() == want, n
END
'''
