// pipes: stages (all, transform, remove_if, take_while, unique, iota, generate, iterable) and sinks
// NOINLINE: ^std::vector<el, std::allocator<el> ?>::(vector\(\)|emplace_back|push_back|reserve|~vector|_M_realloc|back)
// NOINLINE: ^el& std::vector<el, std::allocator<el> ?>::emplace_back
#include <cstddef>
#include <cstdint>
#include <iterator>
#include <memory>
#include <optional>
#include <set>
#include <tuple>
#include <utility>
#include <vector>
struct el { char c; };
extern "C" {
bool env_eq(el const*, el const*);
bool env_pred(char);
bool env_pred2(char);
char env_map(char);
char env_map2(char);
char env_gen();
size_t env_fold(size_t, char);
void cb_ref(el const*);
void cb_val(char);
void cb_num(long);
void out_n(size_t);
void out_d(double);
void out_opt(bool, char);
}
inline bool operator==(el const& a, el const& b) { return env_eq(&a, &b); }
inline bool operator!=(el const& a, el const& b) { return !env_eq(&a, &b); }
#include "utl/pipes.h"
struct seq {
  using iterator = el const*;
  using const_iterator = el const*;
  using value_type = el;
  el const* begin() const { return b_; }
  el const* end() const { return e_; }
  friend el const* begin(seq const& s) { return s.b_; }
  friend el const* end(seq const& s) { return s.e_; }
  el const *b_, *e_;
};
struct mseq {
  using iterator = el*;
  using const_iterator = el const*;
  using value_type = el;
  el* begin() { return b_; }
  el* end() { return e_; }
  el const* begin() const { return b_; }
  el const* end() const { return e_; }
  friend el* begin(mseq& s) { return s.b_; }
  friend el* end(mseq& s) { return s.e_; }
  el *b_, *e_;
};
struct vit {   // an iterator that yields values
  el operator*() const { return *p_; }
  vit& operator++() { ++p_; return *this; }
  bool operator!=(vit const& o) const { return p_ != o.p_; }
  el const* p_;
};
struct vseq {
  using iterator = vit;
  using const_iterator = vit;
  using value_type = el;
  vit begin() const { return {b_}; }
  vit end() const { return {e_}; }
  friend vit begin(vseq const& s) { return {s.b_}; }
  friend vit end(vseq const& s) { return {s.e_}; }
  el const *b_, *e_;
};
struct dest {   // receives what a sink collects
  void emplace_back(el e) { cb_val(e.c); }
  void emplace(el e) { cb_val(e.c); }
  void insert(el e) { cb_val(e.c); }
  char x;
};
namespace {
auto const pred = [](el e) { return env_pred(e.c); };
auto const pred2 = [](el e) { return env_pred2(e.c); };
auto const map = [](el e) { return el{env_map(e.c)}; };
auto const map2 = [](el e) { return el{env_map2(e.c)}; };
auto const by_ref = [](el const& e) { cb_ref(&e); };
auto const by_val = [](el e) { cb_val(e.c); };
}
using namespace utl;
#define A el const *a, size_t n
#define S(name) void vf_##name(A) { seq s{a, a + n};
#define E }
extern "C" {
S(all) all(s) | for_each(by_ref); E
S(all_it) all(a, a + n) | for_each(by_ref); E
S(all_owned) all(seq{a, a + n}) | for_each(by_ref); E
void vf_all_by_value(A) { vseq s{a, a + n}; all(s) | for_each(by_val); }
void vf_owned_by_value(A) { all(vseq{a, a + n}) | remove_if(pred) | for_each(by_val); }
S(transform) all(s) | transform(map) | for_each(by_val); E
S(remove_if) all(s) | remove_if(pred) | for_each(by_ref); E
S(take_while) all(s) | take_while(pred) | for_each(by_ref); E
S(unique) all(s) | unique() | for_each(by_ref); E
S(transform2) all(s) | transform(map) | transform(map2) | for_each(by_val); E
S(transform_remove_if) all(s) | transform(map) | remove_if(pred) | for_each(by_val); E
S(remove_if_transform) all(s) | remove_if(pred) | transform(map) | for_each(by_val); E
S(remove_if2) all(s) | remove_if(pred) | remove_if(pred2) | for_each(by_ref); E
S(take_while_remove_if) all(s) | take_while(pred) | remove_if(pred2) | for_each(by_ref); E
S(remove_if_take_while) all(s) | remove_if(pred) | take_while(pred2) | for_each(by_ref); E
S(take_while2) all(s) | take_while(pred) | take_while(pred2) | for_each(by_ref); E
S(transform_take_while) all(s) | transform(map) | take_while(pred) | for_each(by_val); E
S(transform_unique) all(s) | transform(map) | unique() | for_each(by_val); E
S(unique_remove_if) all(s) | unique() | remove_if(pred) | for_each(by_ref); E
S(remove_if_unique) all(s) | remove_if(pred) | unique() | for_each(by_ref); E
S(take_while_unique) all(s) | take_while(pred) | unique() | for_each(by_ref); E
S(unique_take_while) all(s) | unique() | take_while(pred) | for_each(by_ref); E
S(named_twice)
  auto const twice = [&](auto& r) { r | for_each(by_val); };
  auto h = all(s) | remove_if(pred);
  auto u = h | take_while(pred2);
  twice(u); E
void vf_iota_int(int from, int to) { iota(from, to) | for_each([](int i) { cb_num(i); }); }
void vf_iota_unsigned(unsigned from, unsigned to) { iota(from, to) | for_each([](unsigned i) { cb_num(i); }); }
void vf_iota_size(size_t from, size_t to) { iota(from, to) | for_each([](size_t i) { cb_num(static_cast<long>(i)); }); }
void vf_iota_mixed(std::uint8_t from, std::uint64_t to) { iota(from, to) | for_each([](std::uint8_t i) { cb_num(i); }); }
void vf_iota_remove_if(unsigned from, unsigned to) { iota(from, to) | remove_if([](unsigned i) { return env_pred(static_cast<char>(i)); }) | for_each([](unsigned i) { cb_num(i); }); }
void vf_generate() { generate([]() { return el{env_gen()}; }) | take_while(pred) | for_each(by_val); }
void vf_generate_transform() { generate([]() { return el{env_gen()}; }) | transform(map) | take_while(pred) | for_each(by_val); }
S(iterable) for (auto e : all(s) | iterable()) { by_val(e); } E
S(transform_iterable) for (auto e : all(s) | transform(map) | iterable()) { by_val(e); } E
S(remove_if_iterable) for (auto e : all(s) | remove_if(pred) | iterable()) { by_val(e); } E
// sinks
size_t vf_count(A) { seq s{a, a + n}; return all(s) | count(pred); }
size_t vf_count_direct(A) { seq s{a, a + n}; return s | count(pred); }
size_t vf_count_owned(A) { return seq{a, a + n} | count(pred); }
size_t vf_count_remove_if(A) { seq s{a, a + n}; return all(s) | remove_if(pred2) | count(pred); }
size_t vf_count_take_while(A) { seq s{a, a + n}; return all(s) | take_while(pred2) | count(pred); }
size_t vf_sum(A) { seq s{a, a + n}; return all(s) | transform([](el e) { return static_cast<unsigned char>(e.c); }) | sum(); }
size_t vf_sum_u64(std::uint64_t const* a, size_t n) { return all(a, a + n) | sum(); }
double vf_avg(A) { seq s{a, a + n}; return all(s) | transform([](el e) { return static_cast<unsigned char>(e.c); }) | avg(); }
double vf_max(int const* a, size_t n, int init) { return all(a, a + n) | utl::max<int>{init}; }
void vf_find(A) { seq s{a, a + n}; auto const r = all(s) | find(pred); out_opt(r.has_value(), r.has_value() ? r->c : 0); }
void vf_find_direct(A) { seq s{a, a + n}; auto const r = s | find(pred); out_opt(r.has_value(), r.has_value() ? r->c : 0); }
void vf_find_transform(A) { seq s{a, a + n}; auto const r = all(s) | transform(map) | find(pred); out_opt(r.has_value(), r.has_value() ? r->c : 0); }
void vf_find_remove_if(A) { seq s{a, a + n}; auto const r = all(s) | remove_if(pred2) | find(pred); out_opt(r.has_value(), r.has_value() ? r->c : 0); }
size_t vf_accumulate(A, size_t init) { seq s{a, a + n}; return all(s) | accumulate([](size_t x, el e) { return env_fold(x, e.c); }, size_t{init}); }
size_t vf_accumulate_direct(A, size_t init) { seq s{a, a + n}; return s | accumulate([](size_t x, el e) { return env_fold(x, e.c); }, size_t{init}); }
S(to) dest d = all(s) | to<dest>(); (void)d; E
S(emplace_back_to) dest d = all(s) | emplace_back_to<dest>(); (void)d; E
S(emplace_back) dest d = all(s) | emplace_back<dest>(); (void)d; E
S(insert) dest d = all(s) | insert<dest>(); (void)d; E
S(emplace) dest d = all(s) | emplace<dest>(); (void)d; E
S(insert_direct) dest d = s | insert<dest>(); (void)d; E
S(emplace_direct) dest d = s | emplace<dest>(); (void)d; E
S(insert_owned) dest d = seq{a, a + n} | insert<dest>(); (void)d; E
S(insert_pointer) auto* p = &s; dest d = p | insert<dest>(); (void)d; E
S(remove_if_insert) dest d = all(s) | remove_if(pred) | insert<dest>(); (void)d; E
S(vec) auto const v = all(s) | vec(); for (auto const& e : v) { cb_val(e.c); } out_n(v.size()); E
S(remove_if_vec) auto const v = all(s) | remove_if(pred) | vec(); for (auto const& e : v) { cb_val(e.c); } out_n(v.size()); E
S(transform_vec) auto const v = all(s) | transform(map) | vec(); for (auto const& e : v) { cb_val(e.c); } out_n(v.size()); E
}
