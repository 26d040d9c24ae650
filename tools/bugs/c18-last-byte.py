id = "c18-last-byte"
property = "C18"
needs = "an output length of the Python implementation of the form 64 n + 1"
breaks = "the last output byte is left zero"
edits = [("python/baokeshed.py", """        while offset < out_len:
            words""", """        for _ in range((out_len + 62) // 64):
            words""")]
demo = r'''
#!/bin/bash
cd "$PWD/python" && PYTHONDONTWRITEBYTECODE=1 python3 - <<'END'
import baokeshed
long = baokeshed.hash(b"abc", 300)
for n in range(300):
    assert baokeshed.hash(b"abc", n) == long[:n], n
END
'''
