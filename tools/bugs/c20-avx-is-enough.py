import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) if "__file__" in globals() else "/verif/tools")
from c20demo import demo
id = "c20-avx-is-enough"
property = "C20"
needs = "a processor that reports AVX but not AVX2 (Sandy Bridge, Piledriver)"
breaks = "the AVX2 backend is chosen on processors that only have AVX"
edits = [("src/platform.rs", 'is_x86_feature_detected!("avx2")', 'is_x86_feature_detected!("avx")')]
rust = demo("0", "1 << 5 | 1 << 16", "b(0) == 0xc5 && b(1) & 7 == 5 && matches!(b(2), 0xef | 0xfe | 0xd2 | 0xf2 | 0xeb) || b(0) == 0xc4 && b(1) & 31 == 2 && b(2) & 4 == 4 && b(3) == 0")
release = True
