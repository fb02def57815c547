#include "C12_measure.hpp"

SECTION("trees1", 2000, 30000) {
#define K(N, ...) case N: descend(rng, #__VA_ARGS__, __VA_ARGS__); break;
  switch (0 + rng.below(30)) {
    K(0, A<int>()) K(1, A<int64_t>()) K(2, A<uint64_t>()) K(3, A<int8_t>()) K(4, A<uint8_t>()) K(5, A<int16_t>()) K(6, A<uint32_t>())
    K(7, A<double>()) K(8, A<float>()) K(9, A<bool>()) K(10, gen::character<char>()) K(11, gen::character<wchar_t>()) K(12, A<std::string>()) K(13, A<std::wstring>())
    K(14, A<std::vector<int>>()) K(15, A<std::list<double>>()) K(16, A<std::deque<std::string>>()) K(17, (A<std::pair<int, std::string>>()))
    K(18, (A<std::tuple<int, double, std::vector<bool>>>())) K(19, A<Maybe<int>>()) K(20, A<std::set<int>>()) K(21, A<std::multiset<int64_t>>())
    K(22, (A<std::map<int, int>>())) K(23, A<std::vector<std::vector<int>>>()) K(24, (A<std::array<int, 5>>())) K(25, A<std::vector<Maybe<int8_t>>>())
    K(26, gen::container<std::vector<int>>(rng.below(12), A<int>())) K(27, gen::unique<std::vector<int>>(A<int>())) K(28, gen::nonZero<int>())
  default: descend(rng, "resized", gen::resize((int)rng.below(60), A<std::vector<int64_t>>()));
  }
}
