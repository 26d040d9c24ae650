import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) if "__file__" in globals() else "/verif/tools")
from c20demo import demo
id = "c20-leaf-seven"
property = "C20"
needs = "a processor with AVX whose last CPUID leaf is below 7, so that leaf 7 repeats another leaf"
breaks = "AVX2 is read from CPUID leaf 7 without checking that the processor has that leaf"
edits = [("src/platform.rs", """            if is_x86_feature_detected!("avx2") {""", """            // Leaf 7, EBX bit 5.
            #[cfg(target_arch = "x86")]
            use core::arch::x86::__cpuid_count;
            #[cfg(target_arch = "x86_64")]
            use core::arch::x86_64::__cpuid_count;
            #[allow(unused_unsafe)]
            let avx2 = || unsafe { __cpuid_count(7, 0) }.ebx & 1 << 5 != 0;
            if is_x86_feature_detected!("avx") && avx2() {""")]
rust = demo("0", "0", "b(0) == 0xc5 && b(1) & 7 == 5 && matches!(b(2), 0xef | 0xfe | 0xd2 | 0xf2 | 0xeb) || b(0) == 0xc4 && b(1) & 31 == 2 && b(2) & 4 == 4 && b(3) == 0", "6", "0x00f0_b5ff")
release = True
