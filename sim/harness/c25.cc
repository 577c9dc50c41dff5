// C25: circom artefact files (constraint systems, witnesses, proving keys), proofs made from them
// and the JSON they are written to.
#define RAPIDJSON_HAS_STDSTRING 1
#include <string.h>
#include <thread>
#include "r1cs.h"
#include "circomlib/circuit/quadratic_arithmetic_program.h"
#include "circomlib/json/groth16_proof.h"
#include "circomlib/json/json.h"
#include "circomlib/json/prime_field.h"
#include "circomlib/r1cs/r1cs.h"
#include "circomlib/wtns/wtns.h"
#include "circomlib/zkey/zkey.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/bls12_381.h"
#include "tachyon/zk/r1cs/groth16/prove.h"
#include "tachyon/zk/r1cs/groth16/verify.h"

namespace {
using BLS = math::bls12_381::BLS12_381Curve;
using Bytes = std::string;

SIM_WARMUP(circom) {
  Curve::Init();
  BLS::Init();
  LOG(ERROR) << "warm";
  VLOG(1) << "warm";
  base::ReadFileToBytes(base::FilePath("/none"));
}

// ---- encoding -----------------------------------------------------------------
void P32(Bytes& b, uint32_t v) { for (int i = 0; i < 4; ++i) b += (char)(v >> 8 * i); }
void P64(Bytes& b, uint64_t v) { for (int i = 0; i < 8; ++i) b += (char)(v >> 8 * i); }
template <typename B>
void PBig(Bytes& b, const B& v) { for (uint64_t l : v.limbs) P64(b, l); }
struct Sec { uint32_t type; Bytes data; };
struct Art {
  const char* magic;
  uint32_t version;
  std::vector<Sec> secs;
  Bytes Encode() const {
    Bytes b(magic, 4);
    P32(b, version);
    P32(b, (uint32_t)secs.size());
    for (auto& s : secs) { P32(b, s.type); P64(b, s.data.size()); b += s.data; }
    return b;
  }
  void Shuffle() {  // any order, with sections the reader does not know or need
    if (sim::Chance(1, 2))
      for (size_t i = secs.size(); i > 1; --i) std::swap(secs[i - 1], secs[sim::Below(i)]);
    for (size_t k = sim::Below(3); k; --k) {
      Bytes d;
      for (size_t n = sim::Pick<size_t>({0, 1, 4, 7, 33}); n; --n) d += (char)sim::Rand();
      secs.insert(secs.begin() + sim::Below(secs.size() + 1), Sec{sim::Chance(1, 2) ? 10u + (uint32_t)sim::Below(3) : (uint32_t)sim::Rand() | 64, d});
    }
  }
};

// ---- decoding, strictly -----------------------------------------------------------
struct Cur {
  const Bytes* b;
  size_t o, end;
  bool bad = false;
  bool Has(uint64_t n) { if (bad || n > end - o) bad = true; return !bad; }
  uint64_t Num(int n) {
    if (!Has(n)) return 0;
    uint64_t v = 0;
    for (int i = 0; i < n; ++i) v |= (uint64_t)(uint8_t)(*b)[o + i] << 8 * i;
    o += n;
    return v;
  }
  uint32_t U32() { return (uint32_t)Num(4); }
  uint64_t U64() { return Num(8); }
  // An integer in [0, modulus).
  template <typename B>
  B Big(const B& modulus) {
    B v = B::Zero();
    for (uint64_t& l : v.limbs) l = U64();
    if (!bad && !(v < modulus)) bad = true;
    return v;
  }
  template <typename B>
  void Modulus(const B& m) {
    if (U32() != sizeof(m.limbs)) { bad = true; return; }
    for (uint64_t l : m.limbs) if (U64() != l) bad = true;
  }
  void Done() { if (o != end) bad = true; }
};
struct File {
  const Bytes* b;
  bool ok = false, dup = false;
  std::vector<std::pair<uint32_t, std::pair<size_t, size_t>>> secs;
  File(const Bytes& by, const char* magic, uint32_t version) : b(&by) {
    Cur c{b, 0, by.size()};
    if (!c.Has(4) || memcmp(by.data(), magic, 4)) return;
    c.o = 4;
    if (c.U32() != version) return;
    uint32_t n = c.U32();
    for (uint32_t i = 0; i < n && !c.bad; ++i) {
      uint32_t t = c.U32();
      uint64_t s = c.U64();
      if (!c.Has(s)) break;
      for (auto& x : secs) if (x.first == t) dup = true;
      secs.push_back({t, {c.o, s}});
      c.o += s;
    }
    ok = !c.bad;
  }
  Cur At(uint32_t t) {
    for (auto& x : secs)
      if (x.first == t) return Cur{b, x.second.first, x.second.first + x.second.second};
    Cur c{b, 0, 0};
    c.bad = true;
    return c;
  }
};
enum Verdict { kRefuse, kLoad, kEither };

template <typename F>
struct R1 {
  uint32_t wires = 1, outs = 0, ins = 0, priv = 0;
  uint64_t labels = 0;
  std::vector<std::array<std::vector<std::pair<uint32_t, F>>, 3>> cs;
  std::vector<uint64_t> map;
  static R1 Random() {
    R1 r;
    r.wires = (uint32_t)sim::Range(1, sim::Pick<size_t>({1, 2, 6, 30}));
    r.outs = (uint32_t)sim::Below(r.wires);
    r.ins = (uint32_t)sim::Below(r.wires - r.outs);
    r.priv = (uint32_t)sim::Below(r.wires - r.outs - r.ins);
    r.labels = sim::Chance(1, 4) ? sim::Rand() : r.wires + sim::Below(50);
    r.cs.resize(sim::Pick<size_t>({0, 1, 2, 7, 20}));
    for (auto& c : r.cs)
      for (auto& l : c)
        for (size_t n = sim::Below(sim::Pick<size_t>({1, 2, 5, 12})); n; --n) l.push_back({(uint32_t)sim::Below(r.wires), vu::Elem<F>()});
    for (size_t i = 0; i < r.wires; ++i) r.map.push_back(sim::Chance(1, 3) ? sim::Rand() : i);
    return r;
  }
  Bytes Encode() const {
    Art a{"r1cs", 1, {{1, {}}, {2, {}}, {3, {}}}};
    Bytes& h = a.secs[0].data;
    P32(h, sizeof(F::Config::kModulus.limbs));
    PBig(h, F::Config::kModulus);
    P32(h, wires); P32(h, outs); P32(h, ins); P32(h, priv);
    P64(h, labels);
    P32(h, (uint32_t)cs.size());
    for (auto& c : cs)
      for (auto& l : c) {
        P32(a.secs[1].data, (uint32_t)l.size());
        for (auto& t : l) { P32(a.secs[1].data, t.first); PBig(a.secs[1].data, t.second.ToBigInt()); }
      }
    for (uint64_t l : map) P64(a.secs[2].data, l);
    a.Shuffle();
    return a.Encode();
  }
  Verdict Decode(const Bytes& b) {
    File f(b, "r1cs", 1);
    if (!f.ok) return kRefuse;
    Cur c = f.At(1);
    c.Modulus(F::Config::kModulus);
    wires = c.U32(); outs = c.U32(); ins = c.U32(); priv = c.U32();
    labels = c.U64();
    uint32_t n = c.U32();
    c.Done();
    if (c.bad || 1 + (uint64_t)outs + ins > wires) return f.dup ? kEither : kRefuse;
    c = f.At(2);
    cs.clear();
    for (uint32_t i = 0; i < n && !c.bad; ++i) {
      cs.emplace_back();
      for (auto& l : cs.back())
        for (uint32_t k = c.U32(); k && !c.bad; --k) {
          uint32_t w = c.U32();
          auto v = c.Big(F::Config::kModulus);
          if (w >= wires) c.bad = true;
          if (!c.bad) l.push_back({w, F(v)});
        }
    }
    c.Done();
    Cur m = f.At(3);
    map.clear();
    for (uint32_t i = 0; i < wires && !m.bad; ++i) map.push_back(m.U64());
    m.Done();
    bool bad = c.bad || m.bad;
    return f.dup ? kEither : bad ? kRefuse : kLoad;
  }
  void Same(circom::R1CS<F>& r) const {
    SIM_CHECK(r.GetVersion() == 1 && r.ToV1(), "r1cs: wrong version");
    auto& h = r.ToV1()->header;
    SIM_CHECK(h.num_wires == wires && h.num_public_outputs == outs && h.num_public_inputs == ins && h.num_private_inputs == priv && h.num_labels == labels && h.num_constraints == cs.size() &&
              h.modulus == circom::Modulus::FromBigInt(F::Config::kModulus), "r1cs: the header differs from the file");
    SIM_CHECK(r.GetNumInstanceVariables() == (size_t)1 + outs + ins && r.GetNumVariables() == wires, "r1cs: wrong counts");
    SIM_CHECK(r.GetWireId2LabelIdMap() == map, "r1cs: the label map differs from the file");
    auto& c = r.GetConstraints();
    SIM_CHECK(c.size() == cs.size(), "r1cs: %zu constraints, the file has %zu", c.size(), cs.size());
    for (size_t i = 0; i < cs.size(); ++i)
      for (int j = 0; j < 3; ++j) {
        auto& got = j == 0 ? c[i].a.terms : j == 1 ? c[i].b.terms : c[i].c.terms;
        SIM_CHECK(got.size() == cs[i][j].size(), "r1cs: constraint %zu: %zu terms, the file has %zu", i, got.size(), cs[i][j].size());
        for (size_t k = 0; k < got.size(); ++k) SIM_CHECK(got[k].wire_id == cs[i][j][k].first && got[k].coefficient == cs[i][j][k].second, "r1cs: constraint %zu: a term differs from the file", i);
      }
  }
};

template <typename F>
struct Wt {
  std::vector<F> v;
  static Wt Random() {
    Wt w;
    for (size_t n = sim::Pick<size_t>({0, 1, 2, 9, 64, 200}); n; --n) w.v.push_back(vu::Elem<F>());
    return w;
  }
  Bytes Encode() const {
    Art a{"wtns", 2, {{1, {}}, {2, {}}}};
    P32(a.secs[0].data, sizeof(F::Config::kModulus.limbs));
    PBig(a.secs[0].data, F::Config::kModulus);
    P32(a.secs[0].data, (uint32_t)v.size());
    for (auto& f : v) PBig(a.secs[1].data, f.ToBigInt());
    a.Shuffle();
    return a.Encode();
  }
  Verdict Decode(const Bytes& b) {
    File f(b, "wtns", 2);
    if (!f.ok) return kRefuse;
    Cur c = f.At(1);
    c.Modulus(F::Config::kModulus);
    uint32_t n = c.U32();
    c.Done();
    Cur d = f.At(2);
    v.clear();
    for (uint32_t i = 0; i < n && !d.bad && !c.bad; ++i) v.push_back(F(d.Big(F::Config::kModulus)));
    d.Done();
    return f.dup ? kEither : c.bad || d.bad ? kRefuse : kLoad;
  }
  void Same(circom::Wtns<F>& w) const {
    SIM_CHECK(w.GetVersion() == 2 && w.ToV2(), "wtns: wrong version");
    SIM_CHECK(w.ToV2()->header.num_witness == v.size() && w.GetNumWitness() == v.size() && w.ToV2()->header.modulus == circom::Modulus::FromBigInt(F::Config::kModulus), "wtns: the header differs from the file");
    auto s = w.GetWitnesses();
    vu::Same(std::vector<F>(s.begin(), s.end()), v, "witnesses");
  }
};

template <typename T>
Bytes Raw(const T* p, size_t n) { return Bytes((const char*)p, n * sizeof(T)); }
template <typename P>
constexpr size_t NumCoords() { return sizeof(P) / sizeof(typename P::BaseField::BasePrimeField); }

template <typename C>
struct Zk {
  using F = typename C::G1Curve::ScalarField;
  using A1 = typename C::G1Curve::AffinePoint;
  using A2 = typename C::G2Curve::AffinePoint;
  using Q = typename A1::BaseField;
  static_assert(sizeof(A1) == 2 * sizeof(Q) && sizeof(A2) == 4 * sizeof(Q));
  struct Coef { uint32_t m, c, s; std::decay_t<decltype(F::Config::kModulus)> v; };  // v as in the file
  uint32_t vars = 1, pub = 0, size = 1;
  Bytes vk, ic, a1, b1, b2, c1, h1;  // the points as in the file
  std::vector<Coef> cs;

  static Bytes Points(size_t coords) {
    Bytes b;
    while (coords--) PBig(b, vu::Elem<Q>().value());
    return b;
  }
  static std::decay_t<decltype(F::Config::kModulus)> Stored(const F& f) { return F::FromBigInt(f.value()).value(); }  // f R^2
  static Zk Random() {
    Zk z;
    z.vars = (uint32_t)sim::Range(1, sim::Pick<size_t>({1, 3, 9, 20}));
    z.pub = (uint32_t)sim::Below(z.vars);
    z.size = 1u << sim::Below(5);
    z.vk = Points(kVk / sizeof(Q));
    z.ic = Points(2 * (z.pub + 1));
    z.a1 = Points(2 * z.vars);
    z.b1 = Points(2 * z.vars);
    z.b2 = Points(4 * z.vars);
    z.c1 = Points(2 * (z.vars - z.pub - 1));
    z.h1 = Points(2 * z.size);
    for (size_t n = sim::Pick<size_t>({0, 1, 5, 40}); n; --n) z.cs.push_back({(uint32_t)sim::Below(2), (uint32_t)sim::Below(z.size), (uint32_t)sim::Below(z.vars), Stored(vu::Elem<F>())});
    return z;
  }

  static constexpr size_t kVk = 3 * sizeof(A1) + 3 * sizeof(A2);
  Bytes Encode() const {
    Art a{"zkey", 1, {{1, {}}, {2, {}}, {3, ic}, {4, {}}, {5, a1}, {6, b1}, {7, b2}, {8, c1}, {9, h1}}};
    P32(a.secs[0].data, 1);
    Bytes& h = a.secs[1].data;
    P32(h, sizeof(Q::Config::kModulus.limbs));
    PBig(h, Q::Config::kModulus);
    P32(h, sizeof(F::Config::kModulus.limbs));
    PBig(h, F::Config::kModulus);
    P32(h, vars); P32(h, pub); P32(h, size);
    h += vk;
    Bytes& c = a.secs[3].data;
    P32(c, (uint32_t)cs.size());
    for (auto& x : cs) { P32(c, x.m); P32(c, x.c); P32(c, x.s); PBig(c, x.v); }
    a.Shuffle();
    return a.Encode();
  }
  static Bytes Take(Cur& c, uint64_t coords) {
    Bytes b;
    size_t from = c.o;
    for (uint64_t i = 0; i < coords && !c.bad; ++i) c.Big(Q::Config::kModulus);
    return c.bad ? b : c.b->substr(from, c.o - from);
  }
  Verdict Decode(const Bytes& b) {
    File f(b, "zkey", 1);
    if (!f.ok) return kRefuse;
    bool bad = false;
    Cur c = f.At(1);
    if (c.U32() != 1) c.bad = true;
    c.Done();
    bad |= c.bad;
    c = f.At(2);
    c.Modulus(Q::Config::kModulus);
    c.Modulus(F::Config::kModulus);
    vars = c.U32(); pub = c.U32(); size = c.U32();
    vk = Take(c, kVk / sizeof(Q));
    c.Done();
    bad |= c.bad || vars < (uint64_t)pub + 1;
    if (bad) return f.dup ? kEither : kRefuse;
    auto list = [&](uint32_t type, uint64_t coords) {
      Cur c = f.At(type);
      Bytes r = Take(c, coords);
      c.Done();
      bad |= c.bad;
      return r;
    };
    ic = list(3, 2 * ((uint64_t)pub + 1));
    a1 = list(5, 2 * (uint64_t)vars);
    b1 = list(6, 2 * (uint64_t)vars);
    b2 = list(7, 4 * (uint64_t)vars);
    c1 = list(8, 2 * ((uint64_t)vars - pub - 1));
    h1 = list(9, 2 * (uint64_t)size);
    c = f.At(4);
    cs.clear();
    bool odd = false;
    for (uint32_t n = c.U32(); n && !c.bad; --n) {
      Coef x;
      x.m = c.U32(); x.c = c.U32(); x.s = c.U32();
      x.v = c.Big(F::Config::kModulus);
      if (x.c >= size || x.s >= vars) c.bad = true;
      if (x.m > 1) odd = true;
      cs.push_back(x);
    }
    c.Done();
    bad |= c.bad;
    return f.dup ? kEither : bad ? kRefuse : odd ? kEither : kLoad;
  }
  template <typename T>
  static void Inside(circom::ZKey<C>& z, const T* p, size_t n) {
    uintptr_t a = (uintptr_t)p, lo = (uintptr_t)z.bin_file.GetData();
    SIM_CHECK(!n || (a >= lo && a + n * sizeof(T) <= lo + z.bin_file.GetDataLength()), "zkey: data lies outside the file");
  }
  void Same(circom::ZKey<C>& z) const {
    SIM_CHECK(z.GetVersion() == 1 && z.ToV1(), "zkey: wrong version");
    auto& h = z.ToV1()->header_groth;
    SIM_CHECK(h.q == circom::Modulus::FromBigInt(Q::Config::kModulus) && h.r == circom::Modulus::FromBigInt(F::Config::kModulus) && h.num_vars == vars && h.num_public_inputs == pub && h.domain_size == size, "zkey: the header differs from the file");
    SIM_CHECK(z.GetDomainSize() == size && z.GetNumInstanceVariables() == (size_t)pub + 1 && z.GetNumWitnessVariables() == (size_t)vars - pub - 1, "zkey: wrong counts");
    auto pk = z.GetProvingKey();
    auto& k = pk.verifying_key;
    Inside(z, k.alpha_g1, 1); Inside(z, k.beta_g1, 1); Inside(z, k.beta_g2, 1); Inside(z, k.gamma_g2, 1); Inside(z, k.delta_g1, 1); Inside(z, k.delta_g2, 1);
    SIM_CHECK(Raw(k.alpha_g1, 1) + Raw(k.beta_g1, 1) + Raw(k.beta_g2, 1) + Raw(k.gamma_g2, 1) + Raw(k.delta_g1, 1) + Raw(k.delta_g2, 1) == vk, "zkey: the verifying key differs from the file");
    auto same = [&](auto span, const Bytes& want, const char* what) {
      Inside(z, span.data(), span.size());
      SIM_CHECK(Raw(span.data(), span.size()) == want, "zkey: %s: %zu points differ from the file", what, span.size());
    };
    same(pk.ic, ic, "ic"); same(pk.a_g1_query, a1, "a1"); same(pk.b_g1_query, b1, "b1"); same(pk.b_g2_query, b2, "b2"); same(pk.c_g1_query, c1, "c1"); same(pk.h_g1_query, h1, "h1");
    auto co = z.GetCoefficients();
    Inside(z, co.data(), co.size());
    SIM_CHECK(co.size() == cs.size(), "zkey: %zu coefficients, the file has %zu", co.size(), cs.size());
    for (size_t i = 0; i < cs.size(); ++i) {
      F v = co[i].value;
      SIM_CHECK(co[i].matrix == cs[i].m && co[i].constraint == cs[i].c && co[i].signal == cs[i].s && Stored(v) == cs[i].v, "zkey: coefficient %zu differs from the file", i);
    }
  }
};

// ---- damage ------------------------------------------------------------------------
size_t Spot(const Bytes& b) {  // small sections are as likely as large ones
  if (b.size() < 13 || sim::Chance(1, 4)) return sim::Below(b.size());
  std::vector<std::pair<size_t, size_t>> parts = {{0, 12}};
  size_t o = 12;
  while (o + 12 <= b.size()) {
    Cur c{&b, o + 4, b.size()};
    uint64_t n = c.U64();
    parts.push_back({o, 12});
    if (n > b.size() - o - 12) break;
    if (n) parts.push_back({o + 12, n});
    o += 12 + n;
  }
  auto p = parts[sim::Below(parts.size())];
  size_t k = sim::Below(p.second);
  if (sim::Chance(2, 3)) k &= ~(size_t)3;
  return std::min(p.first + k, b.size() - 1);
}
void Damage(Bytes& b) {
  for (size_t times = sim::Chance(1, 5) ? 2 : 1; times; --times) {
    if (b.empty()) return;
    switch (sim::Below(9)) {
      case 0: b.resize(sim::Below(b.size())); sim::Count("cut short"); break;
      case 1: b.resize(b.size() - std::min<size_t>(b.size(), sim::Range(1, 40))); sim::Count("cut short"); break;
      case 2: b[Spot(b)] ^= (char)sim::Range(1, 255); sim::Count("changed byte"); break;
      case 3: { size_t p = Spot(b); b.erase(p, sim::Pick<size_t>({1, 4, 8, 32})); sim::Count("removed bytes"); break; }
      case 4: { size_t p = Spot(b); b.insert(p, sim::Pick<size_t>({1, 4, 8, 32}), (char)sim::Rand()); sim::Count("inserted bytes"); break; }
      case 5: case 6: {
        size_t p = Spot(b), w = sim::Chance(1, 3) ? 8 : 4;
        Cur c{&b, p, b.size()};
        uint64_t v = c.Num((int)w);
        if (c.bad) break;
        uint64_t n = sim::Pick<uint64_t>({v + 1, v - 1, v + 8, v - 8, 0, 1, ~0ull, ~0ull - 11, ~0ull - b.size(), 1ull << 31, 1ull << 32, 1ull << 60, v << 1, (uint64_t)0 - p, (uint64_t)0 - v, v + (1ull << 32), b.size(), 1000000});
        for (size_t i = 0; i < w; ++i) b[p + i] = (char)(n >> 8 * i);
        sim::Count("changed number");
        break;
      }
      case 7: { size_t p = Spot(b); for (size_t i = p; i < b.size() && i < p + 32; ++i) b[i] = (char)0xff; sim::Count("changed bytes"); break; }
      default: {  // the bytes of another place
        size_t p = Spot(b), q = Spot(b), n = std::min<size_t>({b.size() - p, b.size() - q, (size_t)sim::Pick<size_t>({4, 8, 12, 32})});
        b.replace(p, n, b.substr(q, n));
        sim::Count("moved bytes");
      }
    }
  }
}

template <typename F>
std::unique_ptr<circom::R1CS<F>> Parse(R1<F>*, const char* path, bool) { return circom::ParseR1CS<F>(base::FilePath(path)); }
template <typename F>
std::unique_ptr<circom::Wtns<F>> Parse(Wt<F>*, const char* path, bool mm) { return circom::ParseWtns<F>(base::FilePath(path), mm); }
template <typename C>
std::unique_ptr<circom::ZKey<C>> Parse(Zk<C>*, const char* path, bool mm) { return circom::ParseZKey<C>(base::FilePath(path), mm); }

template <typename S>
void Load(const char* kind, bool damage) {
  Bytes b = S::Random().Encode();
  if (damage) Damage(b);
  if (damage && sim::Chance(1, 30)) b.clear();
  bool mm = sim::Chance(1, 2), missing = damage && sim::Chance(1, 40);
  sim::Describe("%s of %zu bytes%s", kind, b.size(), mm ? ", mapped" : "");
  S s;
  Verdict v = missing ? kRefuse : s.Decode(b);
  SIM_REQUIRE(damage || v != kRefuse);
  sim::fs::MkdirP("/d");
  if (!missing) sim::fs::Put("/d/f", b);
  LOG(ERROR) << "warm";  // allocates the time zone
  size_t live = sim::HeapLiveBlocks();
  {
    auto got = Parse((S*)nullptr, "/d/f", mm);
    if (v == kLoad) SIM_CHECK(got, "a file that is intact is refused");
    if (v == kRefuse) SIM_CHECK(!got, "a file that is damaged or missing is loaded");
    if (v == kLoad) s.Same(*got);
    sim::Count(v == kLoad ? "loaded" : v == kRefuse ? "refused" : "either");
  }
  SIM_CHECK(sim::HeapLiveBlocks() == live, "%zd blocks leak", (ssize_t)(sim::HeapLiveBlocks() - live));
  SIM_CHECK(!sim::fs::OpenFds() && !sim::fs::Maps(), "a descriptor or a mapping leaks");
  Bytes now;
  if (!missing) SIM_CHECK(sim::fs::Get("/d/f", &now) && now == b, "loading changes the file");
}
SIM_SCENARIO("C25", intact, sim::kOmp, 2, 1) {
  switch (sim::Below(6)) {
    case 0: return Load<R1<F>>("r1cs", false);
    case 1: return Load<Wt<F>>("wtns", false);
    case 2: return Load<Zk<Curve>>("zkey", false);
    case 3: return Load<R1<math::bls12_381::Fr>>("r1cs", false);
    case 4: return Load<Wt<math::bls12_381::Fr>>("wtns", false);
    default: return Load<Zk<BLS>>("zkey", false);
  }
}
SIM_SCENARIO("C25", damaged, sim::kIo, 6, 1) {
  switch (sim::Below(6)) {
    case 0: return Load<R1<F>>("r1cs", true);
    case 1: return Load<Wt<F>>("wtns", true);
    case 2: case 3: return Load<Zk<Curve>>("zkey", true);
    case 4: return Load<R1<math::bls12_381::Fr>>("r1cs", true);
    default: return Load<Zk<BLS>>("zkey", true);
  }
}
// A file of another kind, or for another field.
SIM_SCENARIO("C25", other_kind, sim::kIo, 1, 1) {
  Bytes b;
  size_t is = sim::Below(4), as = sim::Below(5);
  switch (is) {
    case 0: b = R1<F>::Random().Encode(); break;
    case 1: b = Wt<F>::Random().Encode(); break;
    case 2: b = Zk<Curve>::Random().Encode(); break;
    default: for (size_t n = sim::Below(200); n; --n) b += (char)(sim::Chance(1, 2) ? 32 + sim::Below(90) : sim::Rand());
  }
  if (is == as) return;
  sim::Describe("kind %zu read as %zu", is, as);
  sim::fs::MkdirP("/d");
  sim::fs::Put("/d/f", b);
  bool mm = sim::Chance(1, 2);
  bool got = as == 0 ? (bool)circom::ParseR1CS<F>(base::FilePath("/d/f"))
           : as == 1 ? (bool)circom::ParseWtns<F>(base::FilePath("/d/f"), mm)
           : as == 2 ? (bool)circom::ParseZKey<Curve>(base::FilePath("/d/f"), mm)
           : as == 3 ? (is == 0 ? (bool)circom::ParseR1CS<math::bls12_381::Fr>(base::FilePath("/d/f")) : (bool)circom::ParseWtns<math::bls12_381::Fr>(base::FilePath("/d/f"), mm))
                     : (bool)circom::ParseZKey<BLS>(base::FilePath("/d/f"), mm);
  SIM_CHECK(!got, "a file of another kind is loaded");
}

template <typename S>
void Faulty(const char* kind) {
  S s = S::Random();
  Bytes b = s.Encode();
  bool mm = sim::Chance(1, 2);
  sim::Describe("%s of %zu bytes%s", kind, b.size(), mm ? ", mapped" : "");
  sim::fs::MkdirP("/d");
  sim::fs::Put("/d/f", b);
  LOG(ERROR) << "warm";  // allocates the time zone
  size_t live = sim::HeapLiveBlocks();
  bool benign = sim::Chance(1, 2);
  uint32_t mask = sim::Bit(sim::kShort);
  if (!benign) mask |= sim::Bit(sim::kEintr) | sim::Bit(sim::kEio) | sim::Bit(sim::kEmfile) | sim::Bit(sim::kEacces) | sim::Bit(sim::kMapFail);
  sim::EnableFaults(mask);
  {
    auto got = Parse((S*)nullptr, "/d/f", mm);
    sim::DisableFaults();
    if (benign || !sim::FaultsInjected()) SIM_CHECK(got, "an intact file is refused, although no read failed");
    if (got) s.Same(*got); else sim::Count("refused");
  }
  SIM_CHECK(sim::HeapLiveBlocks() == live, "%zd blocks leak", (ssize_t)(sim::HeapLiveBlocks() - live));
  SIM_CHECK(!sim::fs::OpenFds() && !sim::fs::Maps(), "a descriptor or a mapping leaks");
}
SIM_SCENARIO("C25", failing_reads, sim::kIo, 3, 8) {
  switch (sim::Below(3)) {
    case 0: return Faulty<R1<F>>("r1cs");
    case 1: return Faulty<Wt<F>>("wtns");
    default: return Faulty<Zk<Curve>>("zkey");
  }
}

// Several threads load files, the same or different ones, at once.
SIM_SCENARIO("C25", concurrent, sim::kMt, 3, 4) {
  auto r = R1<F>::Random();
  auto w = Wt<F>::Random();
  auto z = Zk<Curve>::Random();
  size_t n = sim::Range(2, 4);
  std::vector<int> kind(n);
  for (int& k : kind) k = (int)sim::Below(3);
  bool mm = sim::Chance(1, 2);
  sim::fs::MkdirP("/d");
  sim::fs::Put("/d/r", r.Encode());
  sim::fs::Put("/d/w", w.Encode());
  sim::fs::Put("/d/z", z.Encode());
  std::vector<std::thread> ts;
  for (size_t i = 0; i < n; ++i)
    ts.emplace_back([&, i]() {
      auto must = [](auto p) { SIM_CHECK(p, "an intact file is refused"); return p; };
      if (kind[i] == 0) r.Same(*must(circom::ParseR1CS<F>(base::FilePath("/d/r"))));
      else if (kind[i] == 1) w.Same(*must(circom::ParseWtns<F>(base::FilePath("/d/w"), mm)));
      else z.Same(*must(circom::ParseZKey<Curve>(base::FilePath("/d/z"), mm)));
    });
  for (auto& t : ts) t.join();
}

// ---- from the files to a proof ---------------------------------------------------------
using BigDomain = math::UnivariateEvaluationDomain<F, SIZE_MAX>;
using CQap = circom::QuadraticArithmeticProgram<F>;
// Evaluations at |x| of the polynomial with values |v| on the subgroup generated by |g|.
F Interpolate(const std::vector<F>& v, const F& g, const F& x) {
  size_t n = v.size();
  std::vector<F> den(n), e(n);
  F p = F::One();
  for (size_t i = 0; i < n; ++i, p *= g) { e[i] = p; den[i] = x - p; }
  den = fft::Inv(den);
  F s = F::Zero();
  for (size_t i = 0; i < n; ++i) s += v[i] * e[i] * den[i];
  F xn = fft::Pow(x, n) - F::One();
  return s * xn * F((uint64_t)n).Inverse().value();
}
SIM_SCENARIO("C25", witness_map, sim::kOmp | sim::kSameOutcome, 3, 2) {
  size_t n = (size_t)1 << sim::Pick<size_t>({0, 1, 2, 3, 5, 7, 11, 12});
  size_t vars = sim::Range(1, sim::Pick<size_t>({1, 4, 30}));
  std::vector<F> z(vars);
  for (auto& f : z) f = vu::Elem<F>();
  if (sim::Chance(2, 3)) z[0] = F::One();
  std::vector<circom::Coefficient<F>> cs(sim::Pick<size_t>({0, 1, 6, 50, 300}));
  std::vector<F> a(n, F::Zero()), b(n, F::Zero());
  size_t few = sim::Chance(1, 2) ? std::min<size_t>(n, 3) : n;  // many coefficients in a few constraints
  for (auto& c : cs) {
    c.matrix = (uint32_t)sim::Below(2);
    c.constraint = (uint32_t)sim::Below(few);
    if (n > 1024 && sim::Chance(1, 3)) c.constraint = (c.constraint + 1024) % n;
    c.signal = (uint32_t)sim::Below(vars);
    F v = vu::Elem<F>();
    c.value = v;
    (c.matrix ? b : a)[c.constraint] += v * z[c.signal];
  }
  // The format always has a row for signal 0, which is one: A z is never zero.
  if (std::all_of(a.begin(), a.end(), [](const F& f) { return f.IsZero(); })) {
    if (z[0].IsZero()) return;
    cs.push_back({0, 0, 0, F::One()});
    a[0] = z[0];
  }
  sim::Describe("%zu coefficients, %zu rows", cs.size(), n);
  auto d = BigDomain::Create(n);
  SIM_REQUIRE(d->size() == n);
  std::vector<F> h = CQap::WitnessMapFromMatrices(d.get(), absl::MakeConstSpan(cs), absl::MakeConstSpan(z));
  SIM_CHECK(h.size() == n, "wrong number of values");
  std::vector<F> c(n);
  for (size_t i = 0; i < n; ++i) c[i] = a[i] * b[i];
  F g2;
  SIM_REQUIRE(F::GetRootOfUnity((uint32_t)(2 * n), &g2));
  SIM_REQUIRE(g2 * g2 == d->group_gen());
  for (size_t k = n <= 32 ? n : 4; k--;) {
    size_t i = n <= 32 ? k : sim::Below(n);
    F x = fft::Pow(g2, 2 * i + 1);
    F want = Interpolate(a, d->group_gen(), x) * Interpolate(b, d->group_gen(), x) - Interpolate(c, d->group_gen(), x);
    SIM_CHECK(h[i] == want, "value %zu of %zu is wrong", i, n);
  }
  vu::OutcomeVec(h);
}

Bytes Decimal(const F::BigIntTy& v) {
  auto m = v;
  Bytes s;
  for (;;) {
    unsigned __int128 r = 0;
    bool any = false;
    for (size_t i = F::kLimbNums; i--;) {
      r = r << 64 | m.limbs[i];
      m.limbs[i] = (uint64_t)(r / 10);
      r %= 10;
      any |= m.limbs[i] != 0;
    }
    s.insert(s.begin(), (char)('0' + (int)r));
    if (!any) return s;
  }
}
template <typename Q>
Bytes Quoted(const Q& q) { F::BigIntTy b; memcpy(&b, &static_cast<const typename Q::BigIntTy&>(q.ToBigInt()), sizeof(b)); return "\"" + Decimal(b) + "\""; }
Bytes Json(const G1& p) { return "[" + Quoted(p.x()) + "," + Quoted(p.y()) + ",\"1\"]"; }
Bytes Json(const G2& p) {
  return "[[" + Quoted(p.x().c0()) + "," + Quoted(p.x().c1()) + "],[" + Quoted(p.y().c0()) + "," + Quoted(p.y().c1()) + "],[\"1\",\"0\"]]";
}
Bytes Json(const groth16::Proof<Curve>& p) { return "{\"pi_a\":" + Json(p.a()) + ",\"pi_b\":" + Json(p.b()) + ",\"pi_c\":" + Json(p.c()) + ",\"protocol\":\"groth16\",\"curve\":\"bn128\"}"; }
Bytes Json(const std::vector<F>& v) {
  Bytes s = "[";
  for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + Quoted(v[i]);
  return s + "]";
}

SIM_SCENARIO("C25", json, sim::kIo, 2, 8) {
  std::vector<F> pub(sim::Below(6));
  for (auto& f : pub) f = vu::Elem<F>();
  auto m1 = []() { return Mul<G1, J1>(G1::Generator(), vu::NonZero<F>()); };
  groth16::Proof<Curve> proof(m1(), Mul<G2, J2>(G2::Generator(), vu::NonZero<F>()), m1());
  Bytes want = sim::Chance(1, 2) ? Json(proof) : Json(pub);
  bool is_proof = want[0] == '{';
  sim::fs::MkdirP("/d");
  bool old = sim::Chance(1, 2);
  if (old) sim::fs::Put("/d/o.json", Bytes(sim::Below(2000), 'x'));
  bool benign = sim::Chance(1, 2);
  uint32_t mask = sim::Bit(sim::kShort);
  if (!benign) mask |= sim::Bit(sim::kEintr) | sim::Bit(sim::kEio) | sim::Bit(sim::kEnospc) | sim::Bit(sim::kEmfile) | sim::Bit(sim::kEacces);
  sim::EnableFaults(mask);
  bool ok = is_proof ? circom::WriteToJson(proof, base::FilePath("/d/o.json")) : circom::WriteToJson(absl::MakeConstSpan(pub), base::FilePath("/d/o.json"));
  sim::DisableFaults();
  if (benign || !sim::FaultsInjected()) SIM_CHECK(ok, "writing fails, although nothing failed");
  Bytes got;
  if (ok) SIM_CHECK(sim::fs::Get("/d/o.json", &got) && got == want, "the JSON is %s, not %s", got.c_str(), want.c_str());
  SIM_CHECK(!sim::fs::OpenFds(), "a descriptor leaks");
}

SIM_SCENARIO("C25", groth16_from_files, sim::kOmp, 5, 2) {
  Recipe r = Recipe::Random(sim::Pick<size_t>({1, 2, 4, 8, 8, 16}), sim::Chance(1, 8));
  r.Show();
  // The key a ceremony would make, from secrets that this scenario knows.
  F al = vu::Uni<F>(), be = vu::Uni<F>(), ga = vu::Uni<F>(), de = vu::Uni<F>(), tau = vu::Uni<F>();
  size_t need = r.nc + r.inst.size();
  auto d = BigDomain::Create(need), d2 = BigDomain::Create(2 * d->size());
  auto ds = Domain::Create(need);
  SIM_REQUIRE(ds->size() == d->size());
  Abc q = Naive(r, *ds, tau);
  if (q.t.IsZero()) return;
  F gi = ga.Inverse().value(), di = de.Inverse().value();
  auto m1 = [&](const F& s) { return Mul<G1, J1>(G1::Generator(), s); };
  auto m2 = [&](const F& s) { return Mul<G2, J2>(G2::Generator(), s); };
  auto p1 = [&](Bytes& b, const F& s) { G1 p = m1(s); b += Raw(&p, 1); };
  auto p2 = [&](Bytes& b, const F& s) { G2 p = m2(s); b += Raw(&p, 1); };
  Zk<Curve> k;
  size_t n = q.a.size(), ni = r.inst.size();
  k.vars = (uint32_t)n; k.pub = (uint32_t)ni - 1; k.size = (uint32_t)d->size();
  p1(k.vk, al); p1(k.vk, be); p2(k.vk, be); p2(k.vk, ga); p1(k.vk, de); p2(k.vk, de);
  for (size_t i = 0; i < n; ++i) {
    p1(k.a1, q.a[i]); p1(k.b1, q.b[i]); p2(k.b2, q.b[i]);
    F l = be * q.a[i] + al * q.b[i] + q.c[i];
    p1(i < ni ? k.ic : k.c1, l * (i < ni ? gi : di));
  }
  F g2;
  SIM_REQUIRE(F::GetRootOfUnity((uint32_t)(2 * d->size()), &g2));
  {  // Lagrange coefficients of the odd points of the domain of twice the size
    std::vector<F> e = fft::Elements(2 * d->size(), g2, F::One());
    F zt = (fft::Pow(tau, e.size()) - F::One()) * F((uint64_t)e.size()).Inverse().value();
    for (size_t i = 1; i < e.size(); i += 2) p1(k.h1, zt * e[i] * (tau - e[i]).Inverse().value() * di);
  }
  size_t row = 0;
  for (auto& o : r.ops) {
    if (o.kind != 3) continue;
    for (auto& [i, c] : r.ToRow(o.a)) k.cs.push_back({0, (uint32_t)row, (uint32_t)i, Zk<Curve>::Stored(c)});
    for (auto& [i, c] : r.ToRow(o.b)) k.cs.push_back({1, (uint32_t)row, (uint32_t)i, Zk<Curve>::Stored(c)});
    ++row;
  }
  for (size_t i = 0; i < ni; ++i) k.cs.push_back({0, (uint32_t)(row + i), (uint32_t)i, Zk<Curve>::Stored(F::One())});
  bool unsat = false;
  if (sim::Chance(1, 6)) { r.Break(); unsat = !r.Sat(); }
  std::vector<F> z = r.Full();
  Wt<F> w;
  w.v = z;
  sim::fs::MkdirP("/d");
  sim::fs::Put("/d/z", k.Encode());
  sim::fs::Put("/d/w", w.Encode());
  bool mm = sim::Chance(1, 2);
  auto zkey = circom::ParseZKey<Curve>(base::FilePath("/d/z"), mm);
  auto wtns = circom::ParseWtns<F>(base::FilePath("/d/w"), mm);
  SIM_CHECK(zkey && wtns, "intact files are refused");
  groth16::ProvingKey<Curve> pk = zkey->GetProvingKey().ToNativeProvingKey();
  absl::Span<const F> full = wtns->GetWitnesses();
  size_t inst = zkey->GetNumInstanceVariables();
  std::vector<F> h = CQap::WitnessMapFromMatrices(d.get(), zkey->GetCoefficients(), full);
  bool zk = sim::Chance(1, 3);
  groth16::Proof<Curve> proof = zk ? groth16::CreateProofWithAssignmentZK(pk, absl::MakeConstSpan(h), full.subspan(1, inst - 1), full.subspan(inst), full.subspan(1))
                                   : groth16::CreateProofWithAssignmentNoZK(pk, absl::MakeConstSpan(h), full.subspan(1, inst - 1), full.subspan(inst), full.subspan(1));
  if (!zk && !unsat) {
    F az = F::Zero(), bz = F::Zero(), cz = F::Zero(), c = F::Zero();
    for (size_t i = 0; i < n; ++i) {
      az += z[i] * q.a[i]; bz += z[i] * q.b[i]; cz += z[i] * q.c[i];
      if (i >= ni) c += z[i] * (be * q.a[i] + al * q.b[i] + q.c[i]) * di;
    }
    c += (az * bz - cz) * di;
    SIM_CHECK(proof.a() == m1(al + az) && proof.b() == m2(be + bz) && proof.c() == m1(c), "the proof made from the files is wrong");
    sim::Count("proofs compared with their definition");
  }
  if (!proof.a().IsZero() && !proof.b().IsZero() && !proof.c().IsZero()) {
    SIM_CHECK(circom::WriteToJson(proof, base::FilePath("/d/p.json")), "writing the proof fails");
    Bytes got;
    SIM_CHECK(sim::fs::Get("/d/p.json", &got) && got == Json(proof), "the proof is written as %s", got.c_str());
  }
  auto pvk = std::move(pk).TakeVerifyingKey().ToPreparedVerifyingKey();
  std::vector<F> pub = r.Public();
  bool ok = groth16::VerifyProof(pvk, proof, pub);
  SIM_CHECK(ok == !unsat, "%s", unsat ? "a proof for a witness that does not satisfy the constraints verifies" : "the proof made from intact files does not verify");
  sim::Count(unsat ? "unsatisfied" : "verified");
  if (!unsat && !pub.empty()) {
    pub[sim::Below(pub.size())] += vu::NonZero<F>();
    SIM_CHECK(!groth16::VerifyProof(pvk, proof, pub), "the proof verifies for other public inputs");
  }
}
}  // namespace
