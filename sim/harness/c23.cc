// C23: random generators, proof transcripts and challengers: saved states, restarts, proof round trips,
// and challenges against models that keep the whole history.
#include <gmpxx.h>
#include <algorithm>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <thread>
#include <vector>
#include "openssl/blake2.h"
#include "openssl/sha.h"
#include "sim.h"
#include "tachyon/base/buffer/vector_buffer.h"
#include "tachyon/base/files/file_util.h"
#include "tachyon/crypto/challenger/duplex_challenger.h"
#include "tachyon/crypto/challenger/hash_challenger.h"
#include "tachyon/crypto/challenger/multi_field32_challenger.h"
#include "tachyon/crypto/hashes/sponge/padding_free_sponge.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_baby_bear.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_bn254.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/poseidon2.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/poseidon2_params.h"
#include "tachyon/crypto/random/cha_cha20/cha_cha20_rng.h"
#include "tachyon/crypto/random/xor_shift/xor_shift_rng.h"
#include "tachyon/crypto/transcripts/simple_transcript.h"
#include "tachyon/math/elliptic_curves/bn/bn254/g1.h"
#include "tachyon/math/elliptic_curves/pasta/pallas/fq.h"
#include "tachyon/math/elliptic_curves/pasta/pallas/fr.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear4.h"
#include "tachyon/zk/plonk/halo2/blake2b_transcript.h"
#include "tachyon/zk/plonk/halo2/poseidon_transcript.h"
#include "tachyon/zk/plonk/halo2/random_field_generator.h"
#include "tachyon/zk/plonk/halo2/sha256_transcript.h"
#include "tachyon/zk/plonk/halo2/snark_verifier_poseidon_transcript.h"
#include "util.h"

using namespace tachyon;
namespace halo2 = zk::plonk::halo2;
using base::Buffer;
using base::Endian;
using base::FilePath;
using base::ReadOnlyBuffer;
using math::BabyBear;
using math::BabyBear4;
using Fr = math::bn254::Fr;
using Fq = math::bn254::Fq;
using G1 = math::bn254::G1AffinePoint;
using std::string;
using std::vector;

namespace {
template <typename F>
F FromMpz(mpz_class v) {
  mpz_class p;
  auto m = F::Config::kModulus;
  mpz_import(p.get_mpz_t(), sizeof(m.limbs) / 8, -1, 8, 0, 0, m.limbs);
  v %= p;
  math::BigInt<4> b(0);
  for (int i = 0; i < 4; ++i) b.limbs[i] = mpz_class((v >> (64 * i)) & mpz_class("ffffffffffffffff", 16)).get_ui();
  return F::FromBigInt(b);
}
template <typename F>
F FromWide(const uint8_t* p, size_t n) {
  mpz_class v;
  mpz_import(v.get_mpz_t(), n, -1, 1, 0, 0, p);
  return FromMpz<F>(v);
}
template <typename F>
mpz_class ToMpz(const F& f) {
  auto b = f.ToBigInt();
  mpz_class v;
  mpz_import(v.get_mpz_t(), sizeof(b.limbs) / 8, -1, 8, 0, 0, b.limbs);
  return v;
}
template <typename F>
string Bytes(const F& f, bool big) {
  auto b = f.ToBigInt();
  string s((const char*)b.limbs, sizeof(b.limbs));
  if (big) std::reverse(s.begin(), s.end());
  return s;
}

// ---- generators: models ---------------------------------------------------------------
struct XorModel {
  static constexpr size_t kSeed = 16;
  static constexpr const char* kName = "xorshift";
  uint32_t a = 195911405, b = 195911405, c = 195911405, d = 195911405;
  void Seed(const uint8_t* s) { memcpy(&a, s, 4), memcpy(&b, s + 4, 4), memcpy(&c, s + 8, 4), memcpy(&d, s + 12, 4); }
  uint32_t Next() {
    uint32_t t = a ^ (a << 11);
    a = b, b = c, c = d;
    return d = d ^ (d >> 19) ^ t ^ (t >> 8);
  }
};
struct ChaModel {
  static constexpr size_t kSeed = 32;
  static constexpr const char* kName = "chacha20";
  uint32_t key[8] = {};
  uint64_t n = 0;  // words drawn
  uint64_t block0 = 0;
  void Seed(const uint8_t* s) { memcpy(key, s, 32), n = 0, block0 = 0; }
  static uint32_t Rot(uint32_t v, int k) { return v << k | v >> (32 - k); }
  uint32_t Next() {
    uint64_t blk = block0 + n / 16;
    uint32_t in[16] = {0x61707865, 0x3320646e, 0x79622d32, 0x6b206574}, x[16];
    for (int i = 0; i < 8; ++i) in[4 + i] = key[i];
    in[12] = (uint32_t)blk, in[13] = (uint32_t)(blk >> 32);
    memcpy(x, in, 64);
    auto q = [&](int a, int b, int c, int d) {
      x[a] += x[b], x[d] = Rot(x[d] ^ x[a], 16), x[c] += x[d], x[b] = Rot(x[b] ^ x[c], 12);
      x[a] += x[b], x[d] = Rot(x[d] ^ x[a], 8), x[c] += x[d], x[b] = Rot(x[b] ^ x[c], 7);
    };
    for (int r = 0; r < 10; ++r) {
      for (int i = 0; i < 4; ++i) q(i, 4 + i, 8 + i, 12 + i);
      for (int i = 0; i < 4; ++i) q(i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4);
    }
    uint32_t w = x[n % 16] + in[n % 16];
    ++n;
    return w;
  }
};

// Memory of exactly |n| bytes, so that the simulated heap reports any access outside.
struct Block {
  uint8_t* p;
  size_t n;
  explicit Block(size_t n) : p(new uint8_t[n ? n : 1]), n(n) { memset(p, 0xEE, n); }
  explicit Block(const string& s) : Block(s.size()) { memcpy(p, s.data(), s.size()); }
  ~Block() { delete[] p; }
};
Endian AnyEndian() { static const Endian k[] = {Endian::kNative, Endian::kLittle, Endian::kBig}; return sim::Pick(k); }

template <typename M>
void Advance(crypto::RNG* g, M* m, bool* known, size_t k) {
  for (size_t i = 0; i < k; ++i) {
    if (sim::Chance(1, 3)) {
      uint64_t v = g->NextUint64();
      if (*known) { uint64_t lo = m->Next(), hi = m->Next(); SIM_CHECK(v == (hi << 32 | lo), "%s: wrong 64-bit draw", M::kName); }
    } else {
      uint32_t v = g->NextUint32();
      if (*known) SIM_CHECK(v == m->Next(), "%s: wrong 32-bit draw", M::kName);
    }
  }
}
template <typename R>
string Save(const R& g) {
  base::Uint8VectorBuffer w;
  Endian e = AnyEndian();
  w.set_endian(e);
  size_t lead = sim::Below(4);
  for (size_t i = 0; i < lead; ++i) SIM_CHECK(w.Write((uint8_t)0x11), "write");
  SIM_CHECK(g.WriteToBuffer(w), "saving failed");
  SIM_CHECK(w.endian() == e, "saving changed the buffer's byte order");
  SIM_CHECK(w.buffer_offset() == lead + R::kStateSize, "a state of %zu bytes was saved, %zu announced", w.buffer_offset() - lead, R::kStateSize);
  for (size_t i = 0; i < lead; ++i) SIM_CHECK(((uint8_t*)w.buffer())[i] == 0x11, "saving changed what was written before");
  return string((char*)w.buffer() + lead, R::kStateSize);
}
template <typename R>
bool Load(R* g, const string& s) {
  size_t lead = sim::Below(4);
  Block b(string(lead, 'x') + s);
  ReadOnlyBuffer r(b.p, b.n);
  r.set_buffer_offset(lead);
  Endian e = AnyEndian();
  r.set_endian(e);
  bool ok = g->ReadFromBuffer(r);
  SIM_CHECK(r.endian() == e, "restoring changed the buffer's byte order");
  if (ok) SIM_CHECK(r.buffer_offset() == lead + R::kStateSize, "restoring consumed another number of bytes");
  return ok;
}
template <typename R, typename M>
void RngHistory(int steps) {
  auto g = std::make_unique<R>();
  M m;
  bool known = true;  // the model knows where the stream is
  auto seed = [] { string s(M::kSeed, 0); for (auto& c : s) c = (char)sim::Rand(); if (sim::Chance(1, 6)) s.assign(M::kSeed, (char)sim::Below(2)); return s; };
  auto span = [](const string& s) { return absl::Span<const uint8_t>((const uint8_t*)s.data(), s.size()); };
  for (int i = 0; i < steps; ++i) {
    switch (sim::Below(7)) {
      case 0: case 1: Advance(g.get(), &m, &known, sim::Below(40)); break;
      case 2: {
        string s = seed();
        SIM_CHECK(g->SetSeed(span(s)), "a seed of the right size was refused");
        m.Seed((const uint8_t*)s.data());
        known = true;
        break;
      }
      case 3: {
        string s = seed();
        if (sim::Chance(1, 2)) s.resize(sim::Below(s.size())); else s += string(sim::Range(1, 9), 'a');
        SIM_CHECK(!g->SetSeed(span(s)), "a seed of a wrong size was accepted");
        break;
      }
      case 4: {  // restart
        string st = Save(*g);
        auto h = std::make_unique<R>();
        if (sim::Chance(1, 2)) {  // into a generator that was in use
          string s = seed();
          (void)h->SetSeed(span(s));
          for (size_t k = sim::Below(20); k; --k) h->NextUint32();
        }
        SIM_CHECK(Load(h.get(), st), "restoring failed");
        SIM_CHECK(Save(*h) == st, "the restored state is another one");
        size_t k = sim::Below(40);
        if (sim::Chance(1, 2)) {  // the old one goes on, and the new one says the same
          auto copy = m;
          bool kn = known;
          vector<uint32_t> a, b;
          for (size_t j = 0; j < k; ++j) a.push_back(g->NextUint32());
          for (size_t j = 0; j < k; ++j) b.push_back(h->NextUint32());
          SIM_CHECK(a == b, "%s: the restored generator continues with other values", M::kName);
          if (kn) for (uint32_t v : a) SIM_CHECK(v == copy.Next(), "%s: wrong draw", M::kName);
          m = copy;
        }
        g = std::move(h);
        sim::Count("generator restarts");
        break;
      }
      case 5: {  // a truncated state, and too little room
        string st = Save(*g);
        sim::NoteFault(sim::kCorrupt);
        SIM_CHECK(!Load(g.get(), st.substr(0, sim::Below(st.size()))), "a truncated state was accepted");
        SIM_CHECK(Save(*g) == st, "a refused state changed the generator");
        Block blk(sim::Below(R::kStateSize));
        Buffer f(blk.p, blk.n);
        Endian e = AnyEndian();
        f.set_endian(e);
        SIM_CHECK(!g->WriteToBuffer(f), "%zu bytes fit into %zu", R::kStateSize, blk.n);
        SIM_CHECK(f.endian() == e, "a refused save changed the buffer's byte order");
        break;
      }
      default:
        if (sim::Chance(1, 3)) { g->SetRandomSeed(); known = false; }
        break;
    }
  }
  Advance(g.get(), &m, &known, 20);
}
}  // namespace

SIM_WARMUP(c23) {
  Fr::Init();
  Fq::Init();
  math::bn254::G1Curve::Init();
  math::pallas::Fq::Init();
  math::pallas::Fr::Init();
  BabyBear4::Init();
  { LOG(ERROR) << "warm"; }
}

SIM_SCENARIO("C23", generators, sim::kIo, 4, 1) {
  bool x = sim::Chance(1, 2);
  sim::Describe("%s", x ? "xorshift" : "chacha20");
  int steps = (int)sim::Range(5, 40);
  if (x) RngHistory<crypto::XORShiftRNG, XorModel>(steps);
  else RngHistory<crypto::ChaCha20RNG, ChaModel>(steps);
}

// The 64-bit block counter, reached through a saved state that holds it.
SIM_SCENARIO("C23", far_counters, sim::kIo, 1, 1) {
  crypto::ChaCha20RNG g;
  ChaModel m;
  for (size_t k = sim::Below(40); k; --k) g.NextUint32(), m.Next();
  string st = Save(g);
  uint64_t blk = (m.n + 15) / 16;
  // Layout: position, then the sixteen input words. Anything else is not this test's business.
  uint32_t w[16];
  if (st.size() != 136) return;
  memcpy(w, st.data() + 8, 64);
  if (w[0] != 0x61707865 || w[12] != (uint32_t)blk || w[13] != 0) return;
  static const uint64_t k[] = {0xffffffffull, 0xfffffffeull, 0x1ffffffffull, 0xfffffffffull, 0x80000000ull, 0xffffffff00000000ull};
  uint64_t far = sim::Pick(k);
  w[12] = (uint32_t)far, w[13] = (uint32_t)(far >> 32);
  memcpy(&st[8], w, 64);
  // The words left in the current block come from the old one.
  while (m.n % 16) { SIM_CHECK(g.NextUint32() == m.Next(), "draw"); }
  crypto::ChaCha20RNG h;
  SIM_CHECK(Load(&h, st), "restoring failed");
  for (size_t left = (16 - (size_t)(blk * 16 - 0) % 16) % 16; left; --left) h.NextUint32();
  uint64_t idx;
  memcpy(&idx, st.data(), 8);
  for (; idx < 16; ++idx) h.NextUint32();
  m.block0 = far;
  m.n = 0;
  sim::Count("counter carries");
  for (int i = 0; i < 80; ++i) SIM_CHECK(h.NextUint32() == m.Next(), "wrong draw %d around block %llx", i, (unsigned long long)far);
}

// Field elements out of a generator, and the wide reduction behind challenges.
namespace {
template <typename F>
void Wide() {
  for (int i = 0; i < 20; ++i) {
    uint64_t l[8];
    for (auto& v : l) { v = sim::Rand(); if (sim::Chance(1, 3)) v = sim::Chance(1, 2) ? 0 : ~0ull; }
    F want = FromWide<F>((uint8_t*)l, 64);
    uint8_t b[64];
    memcpy(b, l, 64);
    SIM_CHECK(halo2::FromUint512<F>(l) == want, "wide reduction of words");
    SIM_CHECK(halo2::FromUint512<F>(b) == want, "wide reduction of bytes");
  }
}
}  // namespace
SIM_SCENARIO("C23", field_elements, sim::kIo, 1, 1) {
  Wide<Fr>();
  Wide<Fq>();
  Wide<math::pallas::Fr>();
  Wide<math::pallas::Fq>();
  crypto::XORShiftRNG g;
  XorModel m;
  string seed(16, 0);
  for (auto& c : seed) c = (char)sim::Rand();
  SIM_CHECK(g.SetSeed(absl::Span<const uint8_t>((uint8_t*)seed.data(), 16)), "seed");
  m.Seed((uint8_t*)seed.data());
  halo2::RandomFieldGenerator<Fr> gen(&g);
  for (int i = 0; i < 8; ++i) {
    uint32_t w[16];
    for (auto& v : w) v = m.Next();
    SIM_CHECK(gen.Generate() == FromWide<Fr>((uint8_t*)w, 64), "wrong field element %d", i);
  }
}

// A process that draws, and keeps its generator's state in a file; it may die at any point.
SIM_SCENARIO("C23", checkpoints, sim::kIo, 3, 10) {
  using R = crypto::ChaCha20RNG;
  sim::fs::MkdirP("/s");
  string seed(32, 0);
  for (auto& c : seed) c = (char)sim::Rand();
  ChaModel m0;
  m0.Seed((uint8_t*)seed.data());
  size_t batch = sim::Range(1, 30);
  int lives = (int)sim::Range(1, 4);
  bool direct = sim::Chance(1, 3);  // rewrites the file in place
  sim::Describe("batches of %zu, %d lives, %s", batch, lives, direct ? "in place" : "replaced");
  size_t done = 0;                  // batches whose state is known to be stored
  for (int life = 0; life < lives; ++life) {
    size_t started = 0, stored = 0;
    bool any = false, finished = sim::RunCrashable([&] {
      R g;
      size_t at = 0;
      string st;
      bool ok = base::ReadFileToString(FilePath("/s/state"), &st);
      size_t pos = 0;
      if (ok && Load(&g, st)) {
        sim::Count("states loaded");
        // Which checkpoint this is shows in what comes next.
        uint64_t probe[2];
        R h;
        SIM_CHECK(Load(&h, st), "loads once, then not");
        probe[0] = h.NextUint64(), probe[1] = h.NextUint64();
        ChaModel m = m0;
        for (at = 0; at <= done + 1; ++at) {
          ChaModel t = m;
          uint64_t a = t.Next();
          a |= (uint64_t)t.Next() << 32;
          uint64_t b = t.Next();
          b |= (uint64_t)t.Next() << 32;
          if (a == probe[0] && b == probe[1]) break;
          for (size_t j = 0; j < batch; ++j) m.Next();
        }
        SIM_CHECK(at <= done + 1, "the stored state is at no checkpoint");
        if (!direct) SIM_CHECK(at >= done, "the stored state is from checkpoint %zu, %zu was stored", at, done);
      } else {
        if (!direct && done) SIM_CHECK(!ok, "the stored state was refused");
        sim::Count("states refused");
        SIM_CHECK(g.SetSeed(absl::Span<const uint8_t>((uint8_t*)seed.data(), 32)), "seed");
      }
      (void)pos;
      ChaModel m = m0;
      for (size_t j = 0; j < at * batch; ++j) m.Next();
      any = true;
      started = stored = at;
      done = direct ? 0 : at;
      sim::EnableFaults(sim::Bit(sim::kCrash) | sim::Bit(sim::kShort) | sim::Bit(sim::kEintr) | sim::Bit(sim::kEio) | sim::Bit(sim::kEnospc));
      for (int i = 0; i < 4; ++i) {
        for (size_t j = 0; j < batch; ++j) SIM_CHECK(g.NextUint32() == m.Next(), "wrong draw after a restart");
        base::Uint8VectorBuffer w;
        SIM_CHECK(g.WriteToBuffer(w), "saving");
        string s((char*)w.buffer(), w.buffer_offset());
        bool good;
        if (direct) {
          good = base::WriteFile(FilePath("/s/state"), s.data(), (int)s.size()) == (int)s.size();
        } else {
          good = base::WriteFile(FilePath("/s/tmp"), s.data(), (int)s.size()) == (int)s.size() && base::ReplaceFile(FilePath("/s/tmp"), FilePath("/s/state"), nullptr);
        }
        ++started;
        if (!good) break;
        stored = started;
        if (!direct) done = stored; else done = std::max(done, stored);
      }
      sim::DisableFaults();
    });
    sim::DisableFaults();
    if (!finished) sim::Count("crashed lives");
    if (any) done = std::max(done, direct ? started : stored);
  }
}

// ---- transcripts: models that keep the whole history ----------------------------------
namespace {
struct BlakeModel {
  static constexpr bool kTyped = true;
  static constexpr const char* kName = "blake2b";
  string all;
  void Scalar(const Fr& s) { all += '\2'; all += Bytes(s, false); }
  void Point(const G1& p) {
    all += '\1';
    if (p.IsZero()) all += string(32, '\0') + '\5' + string(31, '\0');
    else all += Bytes(p.x(), false) + Bytes(p.y(), false);
  }
  string Digest() {
    BLAKE2B_CTX c;
    BLAKE2B512_InitWithPersonal(&c, "Halo2-Transcript");
    BLAKE2B512_Update(&c, all.data(), all.size());
    string d(64, 0);
    BLAKE2B512_Final((uint8_t*)&d[0], &c);
    return d;
  }
  Fr Squeeze() { all += '\0'; string d = Digest(); return FromWide<Fr>((uint8_t*)d.data(), 64); }
};
struct ShaModel {
  static constexpr bool kTyped = true;
  static constexpr const char* kName = "sha256";
  string all;
  void Scalar(const Fr& s) { all += string(31, '\0') + '\2' + Bytes(s, true); }
  void Point(const G1& p) { all += string(31, '\0') + '\1' + Bytes(p.x(), true) + Bytes(p.y(), true); }
  string Digest() {
    SHA256_CTX c;
    SHA256_Init(&c);
    SHA256_Update(&c, all.data(), all.size());
    string d(32, 0);
    SHA256_Final((uint8_t*)&d[0], &c);
    return d;
  }
  Fr Squeeze() { all += '\0'; string d = Digest(); all = d; return FromWide<Fr>((uint8_t*)d.data(), 32); }
};
template <typename Params>
struct SpongeModel {
  static constexpr bool kTyped = false;
  vector<Fr> in;
  crypto::SpongeState<Params> st;
  static crypto::PoseidonSponge<Params>& P() {
    static auto* p = new crypto::PoseidonSponge<Params>(crypto::PoseidonConfig<Params>::Create(0));
    return *p;
  }
  SpongeModel() { st.elements[0] = FromMpz<Fr>(mpz_class(1) << 64); }
  void Scalar(const Fr& s) { in.push_back(s); }
  void Point(const G1& p) { in.push_back(FromMpz<Fr>(ToMpz(p.x()))), in.push_back(FromMpz<Fr>(ToMpz(p.y()))); }
  Fr Squeeze() {
    // The messages, a one, and then nothing up to a full block.
    vector<Fr> v = in;
    in.clear();
    v.push_back(Fr::One());
    while (v.size() % Params::kRate) v.push_back(Fr::Zero());
    for (size_t i = 0; i < v.size(); i += Params::kRate) {
      for (size_t j = 0; j < Params::kRate; ++j) st.elements[j + 1] += v[i + j];
      P().Permute(st);
    }
    return st.elements[1];
  }
};
struct PoseidonModel : SpongeModel<crypto::BN254PoseidonParams9> { static constexpr const char* kName = "poseidon"; };
struct SnarkModel : SpongeModel<crypto::BN254PoseidonParams5> { static constexpr const char* kName = "snark verifier poseidon"; };

struct Msg {
  bool point, proof;
  Fr s;
  G1 p;
};
bool SameMsg(const Msg& a, const Msg& b) { return a.point == b.point && (a.point ? a.p.x() == b.p.x() && a.p.y() == b.p.y() : a.s == b.s); }
G1 AnyPoint() {
  if (sim::Chance(1, 8)) return G1::Zero();
  return (G1::Generator() * vu::Uni<Fr>()).ToAffine();
}
Msg AnyMsg() {
  Msg m{sim::Chance(1, 3), sim::Chance(1, 2), vu::Elem<Fr>(), G1::Zero()};
  if (m.point) m.p = AnyPoint();
  return m;
}
struct Step {
  int kind;  // 0 message, 1 squeeze, 2 restart, 3 extra
  Msg m;
};
template <typename T>
bool Put(T* t, const Msg& m) {
  if (m.point) return t->WriteToTranscript(m.p);
  return t->WriteToTranscript(m.s);
}
template <typename W>
bool PutProof(W* t, const Msg& m) {
  if (!m.proof) return Put(t, m);
  if (m.point) return t->WriteToProof(m.p);
  return t->WriteToProof(m.s);
}
template <typename M>
void Feed(M* t, const Msg& m) {
  if (m.point) t->Point(m.p);
  else t->Scalar(m.s);
}
template <typename W, typename M, bool kBytes>
void Extra(W* w, M* m) {
  if constexpr (kBytes) {
    string s(sim::Below(2) ? sim::Below(300) : sim::Below(3), 0);
    for (auto& c : s) c = (char)sim::Rand();
    w->Update(s.data(), s.size());
    m->all += s;
    string d(w->GetDigestLen(), 'z'), want = m->Digest();
    w->Finalize((uint8_t*)&d[0]);
    SIM_CHECK(d == want, "%s: wrong digest", M::kName);
  } else {
    if (sim::Chance(1, 2)) {
      vector<Fr> v(sim::Below(sim::Below(2) ? 20 : 3));
      for (auto& f : v) f = vu::Elem<Fr>();
      w->Update(v.data(), v.size());
      for (auto& f : v) m->Scalar(f);
    } else {
      SIM_CHECK(w->Squeeze() == m->Squeeze(), "%s: wrong squeezed value", M::kName);
    }
  }
}

template <typename W, typename R, typename M, bool kBytes>
struct Transcripts {
  static vector<Step> Make(int n, bool extra) {
    vector<Step> v;
    int restarts = 0;
    for (int i = 0; i < n; ++i) {
      int k = sim::Chance(3, 5) ? 0 : sim::Chance(1, 2) ? 1 : sim::Chance(2, 3) ? 2 : 3;
      if (k == 2 && ++restarts > 4) k = 1;
      if (k == 3 && !extra) k = 0;
      v.push_back({k, AnyMsg()});
    }
    v.push_back({1, AnyMsg()});
    return v;
  }
  // Runs the prover; returns its challenges, and the proof.
  static vector<Fr> Prove(const vector<Step>& steps, string* proof) {
    auto w = std::make_unique<W>(base::Uint8VectorBuffer());
    M m;
    vector<Fr> out;
    for (auto& s : steps) {
      switch (s.kind) {
        case 0:
          SIM_CHECK(PutProof(w.get(), s.m), "writing a message failed");
          Feed(&m, s.m);
          break;
        case 1:
          out.push_back(w->SqueezeChallenge());
          SIM_CHECK(out.back() == m.Squeeze(), "%s: challenge %zu is not the one its messages determine", M::kName, out.size() - 1);
          break;
        case 2: {
          vector<uint8_t> st = w->GetState();
          SIM_CHECK(st.size() == w->GetStateLen(), "state of %zu bytes, announced as %zu", st.size(), w->GetStateLen());
          auto n = std::make_unique<W>(std::move(*w).TakeBuffer());
          if (sim::Chance(1, 2)) {
            for (size_t k = sim::Below(4); k; --k) (void)Put(n.get(), AnyMsg());
            if (sim::Chance(1, 2)) n->SqueezeChallenge();
          }
          Block b(string(st.begin(), st.end()));
          n->SetState(absl::Span<const uint8_t>(b.p, b.n));
          SIM_CHECK(n->GetState() == st, "%s: the restored state is another one", M::kName);
          w = std::move(n);
          sim::Count("transcript restarts");
          break;
        }
        default: Extra<W, M, kBytes>(w.get(), &m); break;
      }
    }
    *proof = string((char*)w->buffer().buffer(), w->buffer().buffer_offset());
    return out;
  }
  static vector<Fr> Chal(const vector<Step>& steps) {
    R r{ReadOnlyBuffer("", 0)};
    vector<Fr> out;
    for (auto& s : steps) {
      if (s.kind == 0) SIM_CHECK(Put(&r, s.m), "writing a message failed");
      if (s.kind == 1) out.push_back(r.SqueezeChallenge());
    }
    return out;
  }
  static void Run() {
    halo2::ProofSerializer<G1>::s_use_legacy_serialization = sim::Chance(1, 2);
    bool extra = sim::Chance(1, 3);
    vector<Step> steps = Make((int)sim::Range(1, 24), extra);
    string proof;
    vector<Fr> ch = Prove(steps, &proof);
    if (extra && std::any_of(steps.begin(), steps.end(), [](auto& s) { return s.kind == 3; })) return;
    // The verifier, on the proof as it is, cut short, or damaged.
    for (int round = 0; round < 4; ++round) {
      string p = proof;
      bool cut = round && sim::Chance(1, 2), damaged = round && !cut;
      if (cut) {
        if (p.empty()) continue;
        sim::NoteFault(sim::kCorrupt);
        p.resize(sim::Chance(1, 2) ? p.size() - 1 : sim::Below(p.size()));
      }
      if (damaged) {
        if (p.empty()) continue;
        for (size_t k = sim::Range(1, 3); k; --k) {
          sim::NoteFault(sim::kCorrupt);
          size_t at = sim::Below(p.size());
          if (sim::Chance(1, 3)) at |= 31;
          if (at >= p.size()) at = p.size() - 1;
          if (sim::Chance(1, 3)) for (size_t j = at & ~31; j <= at; ++j) p[j] = (char)0xff;
          else p[at] ^= (char)(1 << sim::Below(8));
        }
        if (sim::Chance(1, 4)) {  // the same value plus the modulus
          size_t at = sim::Below(p.size()) & ~31;
          if (at + 32 <= p.size()) {
            mpz_class v, q;
            mpz_import(v.get_mpz_t(), 32, -1, 1, 0, 0, proof.data() + at);
            auto md = sim::Chance(1, 2) ? Fq::Config::kModulus : Fr::Config::kModulus;
            mpz_import(q.get_mpz_t(), 4, -1, 8, 0, 0, md.limbs);
            v += q;
            if (mpz_sizeinbase(v.get_mpz_t(), 2) <= 256) {
              p.replace(at, 32, string(32, '\0'));
              mpz_export(&p[at], nullptr, -1, 1, 0, 0, v.get_mpz_t());
            }
          }
        }
      }
      Block b(p);
      R r{ReadOnlyBuffer(b.p, b.n)};
      M m;
      bool all_same = true;
      size_t i = 0, used = 0;
      for (auto& s : steps) {
        if (s.kind == 1) {
          Fr c = r.SqueezeChallenge();
          SIM_CHECK(c == m.Squeeze(), "%s: the verifier's challenge is not the one its messages determine", M::kName);
          if (all_same) SIM_CHECK(c == ch[i], "%s: the verifier derives another challenge %zu than the prover", M::kName, i);
          else SIM_CHECK(c != ch[i], "%s: other messages, the same challenge", M::kName);
          ++i;
        }
        if (s.kind != 0) continue;
        if (!s.m.proof) { SIM_CHECK(Put(&r, s.m), "write"); Feed(&m, s.m); continue; }
        Msg got = s.m;
        got.p = G1::Zero(), got.s = Fr::Zero();
        size_t left = b.n - r.buffer().buffer_offset();
        bool ok = got.point ? r.ReadFromProof(&got.p) : r.ReadFromProof(&got.s);
        size_t len = got.point && !std::is_same_v<M, ShaModel> ? 32 : got.point ? 64 : 32;
        if (!ok) {
          SIM_CHECK(cut || damaged, "%s: the verifier cannot read message the prover wrote", M::kName);
          SIM_CHECK(damaged || left < len, "a complete message was refused");
          sim::Count("proofs refused");
          break;
        }
        SIM_CHECK(left >= len, "a truncated message was read");
        used += len;
        if (got.point) {
          SIM_CHECK(got.p.x().value() < Fq::Config::kModulus && got.p.y().value() < Fq::Config::kModulus, "%s: a coordinate out of range was read", M::kName);
          SIM_CHECK(got.p.IsZero() || got.p.IsOnCurve(), "%s: a point off the curve was read", M::kName);
        } else {
          SIM_CHECK(got.s.value() < Fr::Config::kModulus, "%s: a scalar out of range was read", M::kName);
        }
        if (!SameMsg(got, s.m)) {
          SIM_CHECK(damaged, "%s: the verifier reads another message than the prover wrote", M::kName);
          all_same = false;
        } else if (!got.point || !got.p.IsZero()) {
          string x = p.substr(used - len, len), y = proof.substr(used - len, len);
          // The newer point encoding has a flag for infinity that is ignored elsewhere.
          if (got.point && len == 32 && !halo2::ProofSerializer<G1>::s_use_legacy_serialization) x[31] &= 0x7f, y[31] &= 0x7f;
          SIM_CHECK(x == y, "%s: changed bytes were read as the same message", M::kName);
        }
        Feed(&m, got);
      }
      if (!round) SIM_CHECK(used == p.size(), "the proof holds %zu bytes, %zu were read", p.size(), used);
    }
    // Any change of a message, of their order or their number shows in the next challenge.
    vector<size_t> msgs;
    for (size_t i = 0; i < steps.size(); ++i) if (steps[i].kind == 0) msgs.push_back(i);
    if (msgs.empty()) return;
    for (int k = 0; k < 4; ++k) {
      vector<Step> t = steps;
      size_t at = msgs[sim::Below(msgs.size())];
      switch (sim::Below(5)) {
        case 0: t[at].m = AnyMsg(); break;
        case 1: t.erase(t.begin() + at); break;
        case 2: { Step s{0, AnyMsg()}; t.insert(t.begin() + at, s); break; }
        case 3: if (at + 1 < t.size()) std::swap(t[at], t[at + 1]); break;
        default:
          if (t[at].m.point) t[at].m.p = -t[at].m.p;
          else t[at].m.s += Fr::One();
          break;
      }
      // Compare what each challenge depends on.
      auto flat = [](const vector<Step>& v) {
        vector<string> out;
        string cur;
        for (auto& s : v) {
          if (s.kind == 0) cur += M::kTyped ? (s.m.point ? "P" : "S") : "", cur += s.m.point ? Bytes(s.m.p.x(), 0) + Bytes(s.m.p.y(), 0) : Bytes(s.m.s, 0);
          if (s.kind == 1) cur += "C", out.push_back(cur);
        }
        return out;
      };
      auto fa = flat(steps), fb = flat(t);
      vector<Fr> a = Chal(steps), b = Chal(t);
      for (size_t i = 0; i < std::min(a.size(), b.size()); ++i) SIM_CHECK((fa[i] == fb[i]) == (a[i] == b[i]), "%s: challenge %zu is %s although the messages %s", M::kName, i, a[i] == b[i] ? "the same" : "another", fa[i] == fb[i] ? "are the same" : "differ");
    }
  }
  static void Truncated() {
    vector<Step> steps = Make((int)sim::Range(1, 12), true);
    W w{base::Uint8VectorBuffer()};
    for (auto& s : steps) {
      if (s.kind == 0) (void)Put(&w, s.m);
      if (s.kind == 1) w.SqueezeChallenge();
    }
    vector<uint8_t> st = w.GetState();
    size_t n = sim::Chance(1, 3) ? st.size() - 1 : sim::Below(st.size());
    Block b(string(st.begin(), st.begin() + n));
    W v{base::Uint8VectorBuffer()};
    sim::NoteFault(sim::kCorrupt);
    sim::MustAbort("restoring a truncated transcript state", [&] { v.SetState(absl::Span<const uint8_t>(b.p, b.n)); });
  }
};
using TBlake = Transcripts<halo2::Blake2bWriter<G1>, halo2::Blake2bReader<G1>, BlakeModel, true>;
using TSha = Transcripts<halo2::Sha256Writer<G1>, halo2::Sha256Reader<G1>, ShaModel, true>;
using TPos = Transcripts<halo2::PoseidonWriter<G1>, halo2::PoseidonReader<G1>, PoseidonModel, false>;
using TSnark = Transcripts<halo2::SnarkVerifierPoseidonWriter<G1>, halo2::SnarkVerifierPoseidonReader<G1>, SnarkModel, false>;
}  // namespace

SIM_SCENARIO("C23", transcripts_bytes, sim::kIo, 5, 1) {
  if (sim::Chance(1, 2)) { sim::Describe("blake2b"); TBlake::Run(); }
  else { sim::Describe("sha256"); TSha::Run(); }
}
SIM_SCENARIO("C23", transcripts_field, sim::kIo, 4, 1) {
  if (sim::Chance(1, 2)) { sim::Describe("poseidon"); TPos::Run(); }
  else { sim::Describe("snark verifier poseidon"); TSnark::Run(); }
}
SIM_SCENARIO("C23", truncated_states, sim::kIo, 1, 1) {
  switch (sim::Below(4)) {
    case 0: sim::Describe("blake2b"); TBlake::Truncated(); break;
    case 1: sim::Describe("sha256"); TSha::Truncated(); break;
    case 2: sim::Describe("poseidon"); TPos::Truncated(); break;
    default: sim::Describe("snark verifier poseidon"); TSnark::Truncated(); break;
  }
}

// Generators and transcripts of several threads do not disturb one another.
SIM_SCENARIO("C23", side_by_side, sim::kMt, 2, 4) {
  struct Job { vector<Msg> m; string seed; Fr want; uint64_t rnd; Fr got; uint64_t drawn; int kind; };
  vector<Job> jobs(sim::Range(2, 4));
  auto one = [](Job* j, bool expect) {
    XorModel xm;
    xm.Seed((uint8_t*)j->seed.data());
    if (expect) {
      BlakeModel b;
      ShaModel s;
      for (auto& m : j->m) j->kind ? Feed(&s, m) : Feed(&b, m);
      j->want = j->kind ? s.Squeeze() : b.Squeeze();
      for (int i = 0; i < 10; ++i) xm.Next();
      j->rnd = xm.Next();
      return;
    }
    crypto::XORShiftRNG g;
    CHECK(g.SetSeed(absl::Span<const uint8_t>((uint8_t*)j->seed.data(), 16)));
    auto run = [&](auto* w) {
      for (auto& m : j->m) { CHECK(Put(w, m)); sim::Yield(); g.NextUint32(); }
      auto st = w->GetState();
      sim::Yield();
      w->SetState(st);
      j->got = w->SqueezeChallenge();
    };
    if (j->kind) { halo2::Sha256Writer<G1> w{base::Uint8VectorBuffer()}; run(&w); }
    else { halo2::Blake2bWriter<G1> w{base::Uint8VectorBuffer()}; run(&w); }
    for (size_t i = j->m.size(); i < 10; ++i) { g.NextUint32(); sim::Yield(); }
    j->drawn = g.NextUint32();
  };
  for (auto& j : jobs) {
    j.kind = (int)sim::Below(2);
    j.seed.resize(16);
    for (auto& c : j.seed) c = (char)sim::Rand();
    j.m.resize(sim::Range(1, 6));
    for (auto& m : j.m) m = AnyMsg();
    one(&j, true);
  }
  vector<std::thread> t;
  for (auto& j : jobs) t.emplace_back([&j, &one] { one(&j, false); });
  for (auto& x : t) x.join();
  for (auto& j : jobs) {
    SIM_CHECK(j.got == j.want, "a transcript was disturbed by another thread's");
    SIM_CHECK(j.drawn == j.rnd, "a generator was disturbed by another thread's");
  }
}

// ---- challengers ----------------------------------------------------------------------
namespace {
using P2 = crypto::Poseidon2Sponge<crypto::Poseidon2Params<crypto::Poseidon2Vendor::kPlonky3, crypto::Poseidon2Vendor::kPlonky3, BabyBear, 15, 7>>;
using BP = crypto::Poseidon2Params<crypto::Poseidon2Vendor::kPlonky3, crypto::Poseidon2Vendor::kPlonky3, Fr, 2, 5>;
using P2Fr = crypto::Poseidon2Sponge<BP>;
using Hasher = crypto::PaddingFreeSponge<P2, 8, 8>;
template <size_t R>
struct DuplexModel {
  P2 p;
  crypto::SpongeState<P2::Params> st;
  vector<BabyBear> in, out;
  void Turn() {
    for (size_t i = 0; i < in.size(); ++i) st.elements[i] = in[i];
    in.clear();
    p.Permute(st);
    out.assign(st.elements.data(), st.elements.data() + 16);
  }
  void Observe(const BabyBear& v) { out.clear(); in.push_back(v); if (in.size() == R) Turn(); }
  BabyBear Sample() { if (!in.empty() || out.empty()) Turn(); BabyBear r = out.back(); out.pop_back(); return r; }
};
struct HashModel {
  P2 p;
  vector<BabyBear> in, out;
  void Observe(const BabyBear& v) { out.clear(); in.push_back(v); }
  BabyBear Sample() {
    if (out.empty()) {
      crypto::SpongeState<P2::Params> st;
      for (size_t i = 0; i < in.size(); i += 8) {
        for (size_t j = 0; j < 8 && i + j < in.size(); ++j) st.elements[j] = in[i + j];
        p.Permute(st);
      }
      out.assign(st.elements.data(), st.elements.data() + 8);
      in = out;
    }
    BabyBear r = out.back();
    out.pop_back();
    return r;
  }
};
struct MultiModel {
  P2Fr p;
  crypto::SpongeState<BP> st;
  vector<BabyBear> in, out;
  explicit MultiModel(const P2Fr& p) : p(p) {}
  void Turn() {
    for (size_t i = 0; i < in.size(); i += 3) {
      mpz_class v = 0;
      for (size_t j = std::min(i + 3, in.size()); j-- > i;) v = (v << 32) + in[j].ToBigInt().limbs[0];
      st.elements[i / 3] = FromMpz<Fr>(v);
    }
    in.clear();
    p.Permute(st);
    out.clear();
    for (size_t i = 0; i < 3; ++i) {
      mpz_class v = ToMpz((Fr)st.elements[i]);
      for (int j = 0; j < 3; ++j) {
        mpz_class d = (v >> (64 * j)) & mpz_class("ffffffffffffffff", 16);
        out.push_back(BabyBear((uint32_t)(d.get_ui() % BabyBear::Config::kModulus)));
      }
    }
  }
  void Observe(const BabyBear& v) { out.clear(); in.push_back(v); if (in.size() == 9) Turn(); }
  BabyBear Sample() { if (!in.empty() || out.empty()) Turn(); BabyBear r = out.back(); out.pop_back(); return r; }
};
template <typename C, typename M>
void Challenge(C c, M m, const char* name) {
  int n = (int)sim::Range(3, 40);
  std::vector<C> keep;
  vector<M> keep_m;
  auto sample = [&] { BabyBear a = c.Sample(), b = m.Sample(); SIM_CHECK(a == b, "%s: the sample is not the one the messages determine", name); };
  for (int i = 0; i < n; ++i) {
    switch (sim::Below(8)) {
      case 0: case 1: { BabyBear v = vu::Elem<BabyBear>(); c.Observe(v); m.Observe(v); break; }
      case 2: {
        vector<BabyBear> v(sim::Below(20));
        for (auto& x : v) x = vu::Elem<BabyBear>(), m.Observe(x);
        c.ObserveContainer(v);
        break;
      }
      case 3: {
        vector<vector<BabyBear>> v(sim::Below(3));
        for (auto& y : v) { y.resize(sim::Below(6)); for (auto& x : y) x = vu::Elem<BabyBear>(), m.Observe(x); }
        c.ObserveContainer2D(v);
        break;
      }
      case 4: for (size_t k = sim::Below(20); k; --k) sample(); break;
      case 5: {
        uint32_t bits = (uint32_t)sim::Range(0, 30);
        uint32_t v = c.SampleBits(bits);
        uint32_t w = m.Sample().ToBigInt().limbs[0] & ((1u << bits) - 1);
        SIM_CHECK(v == w, "%s: wrong sampled bits", name);
        break;
      }
      case 6: {
        BabyBear4 e = c.template SampleExtElement<BabyBear4>();
        std::array<BabyBear, 4> w;
        for (auto& x : w) x = m.Sample();
        SIM_CHECK(e == BabyBear4::FromBasePrimeFields(w), "%s: wrong sampled extension element", name);
        break;
      }
      default:  // saved, and resumed later
        if (keep.empty() || sim::Chance(1, 2)) { keep.push_back(c); keep_m.push_back(m); }
        else { size_t k = sim::Below(keep.size()); c = keep[k], m = keep_m[k]; sim::Count("challengers resumed"); }
        break;
    }
  }
  sample();
  // Another message, another challenge.
  BabyBear v = vu::Elem<BabyBear>(), w = v + vu::NonZero<BabyBear>();
  C d = c;
  c.Observe(v), d.Observe(w);
  size_t more = sim::Below(12);
  for (size_t i = 0; i < more; ++i) { BabyBear x = vu::Elem<BabyBear>(); c.Observe(x), d.Observe(x); }
  auto a = c.template SampleArray<4>(), b = d.template SampleArray<4>();
  SIM_CHECK(a != b, "%s: other messages, the same samples", name);
}
P2Fr Wide254() { return P2Fr(crypto::Poseidon2Config<BP>::Create(crypto::GetPoseidon2InternalDiagonalArray<BP>())); }
}  // namespace

SIM_SCENARIO("C23", challengers, sim::kIo, 3, 1) {
  switch (sim::Below(4)) {
    case 0: { sim::Describe("duplex, rate 4"); P2 p; Challenge(crypto::DuplexChallenger<P2, 4>(std::move(p)), DuplexModel<4>(), "duplex"); break; }
    case 1: { sim::Describe("duplex, rate 8"); P2 p; Challenge(crypto::DuplexChallenger<P2, 8>(std::move(p)), DuplexModel<8>(), "duplex"); break; }
    case 2: {
      sim::Describe("hash");
      HashModel m;
      m.in.resize(sim::Below(12));
      for (auto& v : m.in) v = vu::Elem<BabyBear>();
      auto in = m.in;
      P2 p;
      Challenge(crypto::HashChallenger<Hasher>(std::move(in), Hasher(p)), m, "hash");
      break;
    }
    default: {
      sim::Describe("multi field");
      P2Fr p = Wide254();
      MultiModel m(p);
      Challenge(crypto::MultiField32Challenger<BabyBear, P2Fr>(std::move(p)), m, "multi field");
      break;
    }
  }
}

// Grinding finds a witness under every schedule, and leaves the challenger as checking that witness would.
SIM_SCENARIO("C23", grinding, sim::kOmp, 3, 8) {
  P2 p;
  crypto::DuplexChallenger<P2, 4> c(std::move(p));
  for (size_t k = sim::Below(9); k; --k) c.Observe(vu::Elem<BabyBear>());
  uint32_t bits = (uint32_t)sim::Below(7);
  base::Range<uint32_t> range((uint32_t)sim::Below(1000), 0);
  if (sim::Chance(1, 6)) range.from = BabyBear::Config::kModulus - (uint32_t)sim::Range(1, 300);
  range.to = (uint32_t)std::min<uint64_t>(BabyBear::Config::kModulus, range.from + sim::Range(1, 300));
  vector<uint32_t> good;
  for (uint32_t v = range.from; v < range.to; ++v) {
    auto d = c;
    d.Observe(BabyBear(v));
    if ((d.Sample().ToBigInt().limbs[0] & ((1u << bits) - 1)) == 0) good.push_back(v);
  }
  sim::Describe("%u bits in [%u, %u): %zu witnesses", bits, range.from, range.to, good.size());
  auto before = c;
  if (good.empty()) {
    sim::MustAbort("grinding a range without a witness", [&] { c.Grind(bits, range); });
    return;
  }
  std::optional<BabyBear> given;
  if (sim::Chance(1, 3)) given = BabyBear(good[sim::Below(good.size())]);
  BabyBear w = c.Grind(bits, range, given);
  uint32_t v = w.ToBigInt().limbs[0];
  SIM_CHECK(std::binary_search(good.begin(), good.end(), v), "%u is not a witness", v);
  if (given) SIM_CHECK(w == *given, "another witness than the given one");
  SIM_CHECK(before.CheckWitness(bits, w), "the witness is refused");
  auto a = c.SampleArray<5>(), b = before.SampleArray<5>();
  SIM_CHECK(a == b, "the prover's challenger is not where the verifier's is");
}
