"""Types whose values need care. First, values of types that prefer a constructor from an initializer list (containers of anything, JSON values): a copy or move of a value has to be the
value, not a list of one element. That constructor is deleted here, so every program that would select it is ill-formed.
Second, types with an operator & or operator new of their own, which must not be used for the bookkeeping of their memory."""
import build
import wit

PRE = '''#include <dice/template-library/%s>
#include <initializer_list>
#include <optional>
#include <utility>
#include <vector>
namespace d = dice::template_library;
struct Any { template<typename T> Any(T const &) {} };
struct G { G() {} G(G const &) {} G(G &&) {} G &operator=(G const &) { return *this; } G &operator=(G &&) { return *this; } G(std::initializer_list<Any>) = delete; auto operator<=>(G const &) const = default; };
'''

OWN = '''#include <dice/template-library/%s>
#include <memory>
#include <utility>
#include <vector>
namespace d = dice::template_library;
struct G { int x = 0; G() {} G(G const &) {} G(G &&) {} explicit G(int) {} G &operator=(G const &) { return *this; } G &operator=(G &&) { return *this; } void operator&() const = delete; static void *operator new(std::size_t, void *) = delete; static void *operator new(std::size_t); static void operator delete(void *);
    auto operator<=>(G const &) const = default; };
template<std::size_t i> struct H : G { using G::G; };
'''


def check(chk, header, items, own=()):
    for cc in (None, build.CLANG):
        wit.accept(chk, 'list-types' + ('' if cc is None else '-clang'), PRE % header, [(i, 'void f(G g) { %s }' % c) for i, c in items], cc)

        if own:
            wit.accept(chk, 'own-operators' + ('' if cc is None else '-clang'), OWN % header, [(i, 'void f(G g) { %s }' % c) for i, c in own], cc)


VARIANT = [('construct first', 'using V = d::variant2<G, int>; V a{g}, b{std::move(g)};'), ('construct second', 'using V = d::variant2<int, G>; V a{g}, b{std::move(g)};'),
           ('copy', 'd::variant2<G, int> a{g}, b{a}, c{std::move(a)}; d::variant2<int, G> x{g}, y{x}, z{std::move(x)};'),
           ('assign', 'd::variant2<G, int> a{g}, b; b = a; b = std::move(a); d::variant2<int, G> x{g}, y; y = x; y = std::move(x);'),
           ('assign value', 'd::variant2<G, int> a; a = 3; a = g; a = std::move(g); d::variant2<int, G> x; x = g; x = std::move(g);'),
           ('swap', 'd::variant2<G, int> a{g}, b; std::swap(a, b); d::variant2<int, G> x{g}, y; std::swap(x, y);')]
MUTEX = [('mutex', 'd::mutex<G> a{g}, b{std::move(g)}; auto l = a.lock(); auto k = std::move(l); *k = g;')]
SHARED = [('shared_mutex', 'd::shared_mutex<G> a{g}, b{std::move(g)}; auto l = a.lock(); *l = g; auto s = b.lock_shared(); G h = *s;')]
TUPLE = [('construct', 'd::standard_layout_tuple<int, G, int> a{1, g, 2}, b{1, std::move(g), 2}; d::standard_layout_tuple<G> c(g);'), ('copy', 'd::standard_layout_tuple<int, G> a{1, g}, b{a}, c{std::move(a)}; a = b; a = std::move(c);')]
RANGES = [('remove_element', 'std::vector<G> v; for (auto &y : v | d::remove_element(g)) (void) y;')]
OWN_VARIANT = VARIANT + [('access', 'd::variant2<G, int> a{g}; (void) get<0>(a); (void) get_if<0>(std::addressof(a)); (void) get_if<G>(std::addressof(a)); (void) (a == a); (void) (a <=> a); visit([](auto &) {}, a);'),
               ('emplace', 'd::variant2<G, int> a{std::in_place_index<0>, 1}, b{std::in_place_type<G>, 2}; a.emplace<0>(); a.emplace<0>(3); b.emplace<1>(); b.emplace<G>(); d::variant2<int, G> x{std::in_place_index<1>, 1}, y{std::in_place_type<G>, 2}; x.emplace<1>(); y.emplace<0>(); y.emplace<G>(4);')]
OWN_MUTEX = [('mutex', 'd::mutex<G> a{g}, b{std::move(g)}; auto l = a.lock(); auto k = std::move(l); k->x = 2; (void) *b.try_lock();')]
OWN_SHARED = [('shared_mutex', 'd::shared_mutex<G> a{g}, b{std::move(g)}; auto l = a.lock(); l->x = 3; auto s = b.lock_shared(); G h = *s; (void) s->x; (void) a.try_lock(); (void) a.try_lock_shared();')]
OWN_CHANNEL = [('channel', 'd::channel<G> c{4}; c.push(g); c.emplace(3); (void) c.try_push(std::move(g)); (void) c.pop(); (void) c.try_pop(); for (auto &x : c) (void) x.x; auto it = c.begin(); (void) it->x; auto j = std::move(it); (void) std::as_const(j)->x;')]
OWN_EXCHANGE = [('exchange_channel', 'd::exchange_channel<G> c; c.push(g); (void) c.pop(); for (auto &x : c) (void) x.x; auto it = c.begin(); (void) it->x; auto j = std::move(it); (void) std::as_const(j)->x;')]
OWN_FLEX = [('flex_array', 'd::flex_array<G, 3> a, b{a}; a = b; swap(a, b); (void) a.data(); (void) (a == b); d::flex_array<G, d::dynamic_extent, 3> x{g, g}, y{x}; y = x; swap(x, y); for (auto &z : x) (void) z.x; y = std::move(x);')]
OWN_POLY = [('inplace_polymorphic', 'struct B { virtual ~B() = default; }; struct P : B { P() {} P(int) {} void operator&() const = delete; static void *operator new(std::size_t, void *) = delete; static void *operator new(std::size_t); static void operator delete(void *); }; d::inplace_polymorphic<B, P> a, b{std::in_place_type<P>, 3}; a.emplace<P>(); (void) b.get(); (void) *a; (void) a.operator->();')]
