// Stand-in for AOCL-Utils (not installed in this sandbox): declarations only, no behaviour.
#pragma once
namespace Au {
enum class EUarch { Unknown, Zen, ZenPlus, Zen2, Zen3, Zen4, Zen5, Zen6 };
enum class ECpuidFlag { avx2, avx512f, avx512dq, avx512vl, avx512ifma, avx512cd, avx512bw,
    avx512vbmi, avx512_4vnniw, avx512_vpopcntdq, avx512_fp16 };
struct X86Cpu {
    int core;
    EUarch getUarch() const { return EUarch::Unknown; }
    bool hasFlag(ECpuidFlag f) const { return f == ECpuidFlag::avx2; }
    bool isAMD() const { return false; }
};
} // namespace Au
