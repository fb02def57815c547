// C24: the forms without explicit generators are the forms with the arbitrary
// ones, on whole trees.
#include "tree.hpp"
#include <map>
#include <memory>
#include <set>
using namespace rc;
using mon::Rng;
namespace {
struct D { int a = 4; std::string b = "q"; bool c = false; D() = default; D(int x, std::string y) : a(x), b(std::move(y)) {} void setC(bool x) { c = x; } void setAB(int x, const std::string &y) { a = x; b = y; } };
std::ostream &operator<<(std::ostream &os, const D &d) { return os << "D" << d.a << d.b << d.c; }
bool operator==(const D &x, const D &y) { return x.a == y.a && x.b == y.b && x.c == y.c; }
} // namespace

SECTION("defaults", 1500, 30000) {
  const Random random(rng.next());
  const int size = (int)rng.below(110);
#define SAME(A, B)                                                                                                     \
  {                                                                                                                    \
    const auto x = (A)(random, size);                                                                                  \
    const auto y = (B)(random, size);                                                                                  \
    bool fx = false, fy = false;                                                                                       \
    try { x.value(); } catch (const GenerationFailure &) { fx = true; }                                                \
    try { y.value(); } catch (const GenerationFailure &) { fy = true; }                                                \
    CHECK(fx == fy, "defaults", #A " fails at generating, " #B " does not, or the other way round");                   \
    const auto e = fx || fy ? std::string() : tree::compareShown(rng, x, y, 6);                                        \
    CHECK(e.empty(), "defaults", #A " differs from " #B " at size " << size << ": " << e);                             \
    mon::count("default_forms_compared");                                                                              \
  }
  auto even = [](int x) { return x % 2 == 0; };
  auto half = [](int x) { return x / 2; };
  switch (rng.below(4)) {
  case 0:
    SAME(gen::map<int>(half), gen::map(gen::arbitrary<int>(), half));
    SAME(gen::suchThat<int>(even), gen::suchThat(gen::arbitrary<int>(), even));
    SAME(gen::nonEmpty<std::string>(), gen::nonEmpty(gen::arbitrary<std::string>()));
    SAME(gen::distinctFrom(3), gen::distinctFrom(gen::arbitrary<int>(), 3));
    SAME((gen::construct<D, int, std::string>()), gen::construct<D>(gen::arbitrary<int>(), gen::arbitrary<std::string>()));
    SAME(gen::nonZero<int>(), gen::suchThat(gen::arbitrary<int>(), [](int x) { return x != 0; }));
    break;
  case 1:
    SAME(gen::build<D>(gen::set(&D::a), gen::set(&D::setC)), gen::build<D>(gen::set(&D::a, gen::arbitrary<int>()), gen::set(&D::setC, gen::arbitrary<bool>())));
    SAME(gen::build<D>(gen::set(&D::setAB)), gen::build<D>(gen::set(&D::setAB, gen::tuple(gen::arbitrary<int>(), gen::arbitrary<std::string>()))));
    SAME(gen::build<D>(gen::set(&D::a)), gen::build(gen::just(D()), gen::set(&D::a)));
    SAME((gen::arbitrary<std::pair<int, bool>>()), gen::pair(gen::arbitrary<int>(), gen::arbitrary<bool>()));
    SAME((gen::arbitrary<std::tuple<int, std::string, bool>>()), gen::tuple(gen::arbitrary<int>(), gen::arbitrary<std::string>(), gen::arbitrary<bool>()));
    SAME((gen::arbitrary<std::tuple<>>()), gen::tuple());
    break;
  case 2:
    SAME(gen::element(4, 5, 6), gen::elementOf(std::vector<int>{4, 5, 6}));
    SAME(gen::sizedElement(4, 5, 6, 7), gen::sizedElementOf(std::vector<int>{4, 5, 6, 7}));
    SAME(gen::elementOf(std::set<int>{9, 7, 8}), gen::elementOf(std::vector<int>{7, 8, 9}));
    SAME(gen::weightedOneOf<int>({{2, gen::just(1)}, {3, gen::arbitrary<int>()}}), gen::join(gen::weightedElement<Gen<int>>({{2, gen::just(1)}, {3, gen::arbitrary<int>()}})));
    SAME(gen::sizedOneOf(gen::just(1), gen::arbitrary<int>()), gen::join(gen::sizedElement(gen::just(1), gen::arbitrary<int>())));
    SAME(gen::arbitrary<Maybe<int>>(), gen::maybe(gen::arbitrary<int>()));
    break;
  default:
    SAME(gen::arbitrary<std::vector<int>>(), gen::container<std::vector<int>>(gen::arbitrary<int>()));
    SAME((gen::arbitrary<std::map<int, bool>>()), (gen::container<std::map<int, bool>>(gen::arbitrary<int>(), gen::arbitrary<bool>())));
    SAME(gen::arbitrary<std::string>(), gen::string<std::string>());
    SAME(gen::arbitrary<int>().as("x"), gen::arbitrary<int>());
    SAME((gen::map(gen::makeUnique<int>(gen::arbitrary<int>()), [](std::unique_ptr<int> &&p) { return *p; })), gen::map(gen::tuple(gen::arbitrary<int>()), [](std::tuple<int> &&t) { return std::get<0>(t); }));
    break;
  }
  mon::distinct(rng.next());
}
