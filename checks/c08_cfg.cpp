#include "c08.hpp"
using namespace vh;
namespace {
constexpr SearchMode L = SearchMode::Linear, B = SearchMode::Binary, S = SearchMode::SIMD;
template <class K, class V, size_t LN, size_t IN, SearchMode M, class C = std::less<K>>
using T = fc::btree<K, V, LN, IN, C, M>;
template <class K, class V, SearchMode M>
using D = fc::btree<K, V, fc::default_leaf_node_size<K, V>(), fc::default_internal_node_size<K>(), std::less<K>, M>;
#define R(id, name, ...) Reg8<__VA_ARGS__> r##id(name)
#define RD(id, name, ...) Reg8<__VA_ARGS__, true> r##id(name)
#if GROUP == 0
R(0, "u64 8/8 linear", T<uint64_t, uint64_t, 8, 8, L>);
R(1, "i8 8/8 simd", T<int8_t, uint64_t, 8, 8, S>);
R(2, "u8 33/9 simd", T<uint8_t, uint32_t, 33, 9, S>);
RD(3, "u8 greater 64/40 simd", T<uint8_t, uint32_t, 64, 40, S, std::greater<uint8_t>>);
RD(4, "i8 greater 35/8 simd", T<int8_t, uint32_t, 35, 8, S, std::greater<int8_t>>);
#elif GROUP == 1
R(0, "i16 10/9 simd", T<int16_t, uint64_t, 10, 9, S>);
R(1, "u16 48/20 simd", T<uint16_t, std::string, 48, 20, S>);
RD(2, "i16 greater 17/24 simd", T<int16_t, uint64_t, 17, 24, S, std::greater<int16_t>>);
RD(3, "u16 greater 8/8 simd", T<uint16_t, uint64_t, 8, 8, S, std::greater<uint16_t>>);
R(4, "u16 16/16 binary", T<uint16_t, uint64_t, 16, 16, B>);
#elif GROUP == 2
R(0, "i32 8/8 simd", T<int32_t, uint64_t, 8, 8, S>);
R(1, "u32 32/12 simd", T<uint32_t, Big, 32, 12, S>);
RD(2, "i32 greater 19/24 simd", T<int32_t, uint32_t, 19, 24, S, std::greater<int32_t>>);
RD(3, "u32 greater 12/11 simd", T<uint32_t, uint32_t, 12, 11, S, std::greater<uint32_t>>);
R(4, "i32 200/8 binary", T<int32_t, uint64_t, 200, 8, B>);
#elif GROUP == 3
R(0, "i64 15/20 simd", T<int64_t, uint64_t, 15, 20, S>);
R(1, "u64 64/64 simd", T<uint64_t, uint64_t, 64, 64, S>);
RD(2, "i64 greater 9/8 simd", T<int64_t, uint64_t, 9, 8, S, std::greater<int64_t>>);
RD(3, "u64 greater 21/14 simd", T<uint64_t, std::string, 21, 14, S, std::greater<uint64_t>>);
R(4, "i64 8/200 binary", T<int64_t, uint64_t, 8, 200, B>);
#elif GROUP == 4
R(0, "float 13/8 simd", T<float, uint64_t, 13, 8, S>);
R(1, "double 8/33 simd", T<double, uint64_t, 8, 33, S>);
RD(2, "float greater 25/16 simd", T<float, uint32_t, 25, 16, S, std::greater<float>>);
RD(3, "double greater 11/10 simd", T<double, Big, 11, 10, S, std::greater<double>>);
R(4, "double 16/9 linear", T<double, uint64_t, 16, 9, L>);
#elif GROUP == 5
R(0, "string 8/9 binary", T<std::string, std::string, 8, 9, B>);
R(1, "string 16/8 linear", T<std::string, uint64_t, 16, 8, L>);
R(2, "okey 20/8 linear", T<OKey, uint64_t, 20, 8, L>);
RD(3, "okey desc 8/12 binary", T<OKey, Big, 8, 12, B, Desc<OKey>>);
R(4, "i64 default binary", D<int64_t, Big, B>);
#elif GROUP == 6
R(0, "u64 default linear", D<uint64_t, uint32_t, L>);
R(1, "i32 default simd", D<int32_t, uint32_t, S>);
R(2, "u32 11/13 binary", T<uint32_t, uint64_t, 11, 13, B>);
R(3, "i64 128/128 binary", T<int64_t, uint64_t, 128, 128, B>);
R(4, "u64 14/15 linear", T<uint64_t, std::string, 14, 15, L>);
#elif GROUP == 7
R(0, "u64 256/256 linear", T<uint64_t, uint32_t, 256, 256, L>);
R(1, "u32 255/257 linear", T<uint32_t, uint32_t, 255, 257, L>);
R(2, "i64 257/256 binary", T<int64_t, uint32_t, 257, 256, B>);
R(3, "u32 256/16 simd", T<uint32_t, uint32_t, 256, 16, S>);
R(4, "i32 500/10 linear", T<int32_t, uint64_t, 500, 10, L>);
#elif GROUP == 8
R(0, "i64 1200/9 simd", T<int64_t, uint64_t, 1200, 9, S>);
RD(1, "u32 greater 2000/8 binary", T<uint32_t, uint32_t, 2000, 8, B, std::greater<uint32_t>>);
R(2, "u64 1029/17 linear", T<uint64_t, uint32_t, 1029, 17, L>);
#endif
}  // namespace
