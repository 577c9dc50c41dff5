// Randomly shaped circuits for the PLONK backend.
#ifndef SIM_HARNESS_PLONK_RAND_H_
#define SIM_HARNESS_PLONK_RAND_H_
#include <map>
#include "plonk.h"
#include "tachyon/zk/plonk/constraint_system/circuit.h"
#include "tachyon/zk/plonk/layout/floor_planner/simple_floor_planner.h"
#include "tachyon/zk/plonk/layout/floor_planner/v1/v1_floor_planner.h"

namespace vp {
struct GateShape { int i, j, k, e, r1, r2, r3, r4, inst, ri; };
// How the looked-up value is made from what the witness holds.
enum LookForm { kPlain, kScaled, kNegated, kPlusFixed, kTimesFixed, kInstance, kChallenge, kNumForms };
struct LookupShape { int table; int form; };
struct ExtraShape { int mask, rows; };
// What every circuit of one run has in common; read by Configure().
struct Shape {
  int free_cols = 2;      // advice columns with free values
  int rows = 4;           // rows of the main region
  int inst_cols = 1;
  bool constants = false;
  std::vector<GateShape> gates;
  int tables = 0;
  bool wide = false;      // two-column tables
  std::vector<LookupShape> lookups;
  int lookup_rows = 0;
  int shuffles = 0;
  bool shuffle_wide = false;
  int shuffle_rows = 0;
  int min_degree = 0;
  int gate_inst = 0;        // instance columns only gates read
  bool look_inst = false;   // an instance column only lookups read
  int phases = 1;
  std::vector<std::pair<int, int>> later;  // per later phase: free columns it mixes
  bool shuffle_challenge = false;
  std::vector<ExtraShape> extra;  // further regions sharing three columns
  bool named = false;
  bool Challenged() const {
    for (auto& l : lookups) if (l.form == kChallenge) return true;
    return phases > 1 || (shuffles && shuffle_challenge);
  }
  int LookInst() const { return inst_cols + gate_inst; }
  int AllInst() const { return inst_cols + gate_inst + look_inst; }
};
inline Shape g_shape;

// Fixed data (part of the circuit) and the witness.
template <typename F>
struct Fixed {
  std::vector<std::vector<F>> k;             // per gate, per row
  std::vector<std::vector<bool>> on;         // per gate, per row
  std::vector<std::vector<F>> table;         // per table
  struct Copy { int c1, r1, c2, r2; };
  std::vector<Copy> copies;                  // between free columns
  struct FromInst { int col, row, inst, irow; };
  std::vector<FromInst> from_inst;           // free cell <- instance
  struct Expose { int gate, row, inst, irow; };
  std::vector<Expose> expose;                // gate output == instance
  struct Const { int col, row; F v; };
  std::vector<Const> consts;                 // free cell == constant
  std::vector<std::vector<F>> lk;            // per lookup, per row
  std::vector<std::vector<bool>> later_on;   // per later phase, per row
  struct XCopy { int e, col, row, c, r; };
  std::vector<XCopy> xcopies;                // extra region cell == free cell
  std::vector<bool> explicit_const;          // per constant: by a constraint
};
template <typename F>
struct Witness {
  std::vector<std::vector<F>> a;             // free columns
  std::vector<std::vector<F>> c;             // one output column per gate
  std::vector<std::vector<F>> look;          // per lookup
  std::vector<std::vector<F>> p, q, p2, q2;  // shuffles
  std::vector<std::vector<F>> inst;
  std::vector<std::vector<F>> off;           // per later phase: error, zero if honest
  std::vector<std::vector<std::vector<F>>> x;  // extra regions
  F Inst(int i, int r) const { return r < static_cast<int>(inst[i].size()) ? inst[i][r] : F::Zero(); }
};

template <typename F>
struct RandConfig {
  using Field = F;
  std::vector<AdviceColumnKey> a, c, look, p, q, p2, q2, d, x;
  std::vector<FixedColumnKey> k, lk;
  std::vector<Selector> ds;
  Selector xs = Selector::Simple(0);
  std::vector<Challenge> ch;
  std::vector<Selector> s;
  std::vector<InstanceColumnKey> inst;
  std::vector<LookupTableColumn> t, t2;
  std::vector<Selector> ls, ps, qs;
  RandConfig Clone() const { return *this; }
};
// The second column of a table is a function of the first.
template <typename F>
F Second(const F& x) { return x.Square() + F(7); }

template <typename F, template <typename> class FP>
class RandCircuit : public Circuit<RandConfig<F>> {
 public:
  using FloorPlanner = FP<RandCircuit<F, FP>>;
  using E = std::unique_ptr<Expression<F>>;
  Fixed<F> f;
  Witness<F> w;
  bool known = true;

  std::unique_ptr<Circuit<RandConfig<F>>> WithoutWitness() const override {
    auto c = std::make_unique<RandCircuit>(*this);
    c->known = false;
    return c;
  }
  static RandConfig<F> Configure(ConstraintSystem<F>& meta) {
    const Shape& s = g_shape;
    RandConfig<F> r;
    if (s.min_degree) meta.set_minimum_degree(s.min_degree);
    for (int i = 0; i < s.free_cols; ++i) r.a.push_back(meta.CreateAdviceColumn());
    for (int i = 0; i < s.inst_cols; ++i) r.inst.push_back(meta.CreateInstanceColumn());
    for (auto& c : r.a) meta.EnableEquality(c);
    for (auto& c : r.inst) meta.EnableEquality(c);
    for (int i = s.inst_cols; i < s.AllInst(); ++i) r.inst.push_back(meta.CreateInstanceColumn());
    if (s.Challenged()) r.ch.push_back(meta.CreateChallengeUsableAfter(kFirstPhase));
    for (int ph = 1; ph < s.phases; ++ph) {
      Phase phase = ph == 1 ? kSecondPhase : Phase(2);
      r.d.push_back(meta.CreateAdviceColumn(phase));
      if (ph + 1 < s.phases) r.ch.push_back(meta.CreateChallengeUsableAfter(phase));
      r.ds.push_back(meta.CreateSimpleSelector());
    }
    for (int ph = 1; ph < s.phases; ++ph) {
      meta.CreateGate("later", [&r, &s, ph](VirtualCells<F>& meta) {
        E sel = meta.QuerySelector(r.ds[ph - 1]);
        E x = meta.QueryAdvice(ph == 1 ? r.a[s.later[0].first] : r.d[0], Rotation::Cur());
        E y = meta.QueryAdvice(r.a[s.later[ph - 1].second], Rotation::Cur());
        E d = meta.QueryAdvice(r.d[ph - 1], Rotation::Cur());
        E c = meta.QueryChallenge(r.ch[ph - 1]);
        std::vector<Constraint<F>> cs;
        cs.emplace_back(std::move(sel) * (std::move(x) * std::move(c) + std::move(y) - std::move(d)));
        return cs;
      });
    }
    if (s.extra.size()) {
      for (int i = 0; i < 3; ++i) { r.x.push_back(meta.CreateAdviceColumn()); meta.EnableEquality(r.x[i]); }
      r.xs = meta.CreateSimpleSelector();
      meta.CreateGate("product", [&r](VirtualCells<F>& meta) {
        E sel = meta.QuerySelector(r.xs);
        E x = meta.QueryAdvice(r.x[0], Rotation::Cur()), y = meta.QueryAdvice(r.x[1], Rotation::Cur());
        E z = meta.QueryAdvice(r.x[2], Rotation::Cur());
        std::vector<Constraint<F>> cs;
        cs.emplace_back(std::move(sel) * (std::move(x) * std::move(y) - std::move(z)));
        return cs;
      });
    }
    if (s.constants) meta.EnableConstant(meta.CreateFixedColumn());
    for (size_t g = 0; g < s.gates.size(); ++g) {
      r.c.push_back(meta.CreateAdviceColumn());
      r.k.push_back(meta.CreateFixedColumn());
      r.s.push_back(meta.CreateSimpleSelector());
      meta.EnableEquality(r.c[g]);
      const GateShape& gs = s.gates[g];
      meta.CreateGate("gate", [&r, &gs, g](VirtualCells<F>& meta) {
        E sel = meta.QuerySelector(r.s[g]);
        E x = meta.QueryAdvice(r.a[gs.i], Rotation(gs.r1));
        E y = meta.QueryAdvice(r.a[gs.j], Rotation(gs.r2));
        E z = meta.QueryAdvice(r.a[gs.k], Rotation(gs.r3));
        E k = meta.QueryFixed(r.k[g], Rotation::Cur());
        E out = meta.QueryAdvice(r.c[g], Rotation(gs.r4));
        E prod = std::move(y);
        for (int e = 0; e < gs.e; ++e) prod = std::move(prod) * x->Clone();
        E sum = std::move(prod) + std::move(k) * std::move(z);
        if (gs.inst >= 0) sum = std::move(sum) + meta.QueryInstance(r.inst[gs.inst], Rotation(gs.ri));
        std::vector<Constraint<F>> cs;
        cs.emplace_back(std::move(sel) * (std::move(sum) - std::move(out)));
        return cs;
      });
    }
    for (int t = 0; t < s.tables; ++t) {
      r.t.push_back(meta.CreateLookupTableColumn());
      if (s.wide) r.t2.push_back(meta.CreateLookupTableColumn());
    }
    for (size_t l = 0; l < s.lookups.size(); ++l) {
      r.look.push_back(meta.CreateAdviceColumn());
      r.ls.push_back(meta.CreateComplexSelector());
      r.lk.push_back(meta.CreateFixedColumn());
    }
    for (size_t l = 0; l < s.lookups.size(); ++l) {
      const LookupShape& ls = s.lookups[l];
      meta.Lookup("lookup", [&](VirtualCells<F>& meta) {
        // Rows without the selector look the zero entry up, which every table has.
        E sel = meta.QuerySelector(r.ls[l]);
        E v = ls.form == kInstance ? meta.QueryInstance(r.inst[s.LookInst()], Rotation::Cur())
                                   : meta.QueryAdvice(r.look[l], Rotation::Cur());
        lookup::Pairs<E, LookupTableColumn> pairs;
        E scaled;
        switch (ls.form) {
          case kScaled: scaled = std::move(v) * F(3); break;
          case kNegated: scaled = -std::move(v); break;
          case kPlusFixed: scaled = std::move(v) + meta.QueryFixed(r.lk[l], Rotation::Cur()); break;
          case kTimesFixed: scaled = meta.QueryFixed(r.lk[l], Rotation::Cur()) * std::move(v); break;
          case kChallenge: {
            E c1 = meta.QueryChallenge(r.ch[0]), k1 = meta.QueryFixed(r.lk[l], Rotation::Cur());
            E c2 = meta.QueryChallenge(r.ch[0]), k2 = meta.QueryFixed(r.lk[l], Rotation::Cur());
            scaled = (std::move(v) + std::move(c1) * std::move(k1)) - std::move(c2) * std::move(k2);
            break;
          }
          default: scaled = std::move(v);
        }
        if (s.wide) {
          E second = sel->Clone() * (scaled->Clone() * scaled->Clone()) +
                     zk::plonk::ExpressionFactory<F>::Constant(F(7));
          pairs.emplace_back(sel->Clone() * scaled->Clone(), r.t[ls.table]);
          pairs.emplace_back(std::move(second), r.t2[ls.table]);
        } else {
          pairs.emplace_back(std::move(sel) * std::move(scaled), r.t[ls.table]);
        }
        return pairs;
      });
    }
    for (int i = 0; i < s.shuffles; ++i) {
      r.p.push_back(meta.CreateAdviceColumn());
      r.q.push_back(meta.CreateAdviceColumn());
      if (s.shuffle_wide) {
        r.p2.push_back(meta.CreateAdviceColumn());
        r.q2.push_back(meta.CreateAdviceColumn());
      }
      r.ps.push_back(meta.CreateComplexSelector());
      r.qs.push_back(meta.CreateComplexSelector());
      meta.Shuffle("shuffle", [&](VirtualCells<F>& meta) {
        E ps = meta.QuerySelector(r.ps[i]), qs = meta.QuerySelector(r.qs[i]);
        shuffle::Pairs<E> pairs;
        E p = meta.QueryAdvice(r.p[i], Rotation::Cur());
        E q = meta.QueryAdvice(r.q[i], Rotation::Cur());
        pairs.emplace_back(ps->Clone() * std::move(p), qs->Clone() * std::move(q));
        if (s.shuffle_wide && s.shuffle_challenge) {
          // Both columns in one, mixed by a challenge.
          pairs.clear();
          E p = meta.QueryAdvice(r.p[i], Rotation::Cur()), q = meta.QueryAdvice(r.q[i], Rotation::Cur());
          E p2 = meta.QueryAdvice(r.p2[i], Rotation::Cur()), q2 = meta.QueryAdvice(r.q2[i], Rotation::Cur());
          E c1 = meta.QueryChallenge(r.ch[0]), c2 = c1->Clone();
          pairs.emplace_back(ps->Clone() * (std::move(p) + std::move(c1) * std::move(p2)),
                             qs->Clone() * (std::move(q) + std::move(c2) * std::move(q2)));
        } else if (s.shuffle_wide) {
          E p2 = meta.QueryAdvice(r.p2[i], Rotation::Cur());
          E q2 = meta.QueryAdvice(r.q2[i], Rotation::Cur());
          pairs.emplace_back(ps->Clone() * std::move(p2), qs->Clone() * std::move(q2));
        }
        return pairs;
      });
    }
    return r;
  }
  Value<F> V(const F& x) const { return known ? Value<F>::Known(x) : Value<F>::Unknown(); }
  void Synthesize(RandConfig<F>&& cfg, Layouter<F>* layouter) const override {
    if (!g_shape.named) return Lay(cfg, layouter);
    std::unique_ptr<NamespacedLayouter<F>> named = layouter->Namespace("named");
    Lay(cfg, named.get());
  }
  void Lay(const RandConfig<F>& cfg, Layouter<F>* layouter) const {
    const Shape& s = g_shape;
    std::vector<Value<F>> ch;
    for (auto& c : cfg.ch) ch.push_back(layouter->GetChallenge(c));
    for (int t = 0; t < s.tables; ++t) {
      layouter->AssignLookupTable("table", [&](LookupTable<F>& table) {
        for (size_t i = 0; i < f.table[t].size(); ++i) {
          const F& x = f.table[t][i];
          CHECK(table.AssignCell("t", cfg.t[t], i, [&x] { return Value<F>::Known(x); }));
          if (s.wide)
            CHECK(table.AssignCell("t2", cfg.t2[t], i, [&x] { return Value<F>::Known(Second(x)); }));
        }
        return true;
      });
    }
    std::vector<std::pair<Cell, typename Fixed<F>::Expose>> outs;
    std::map<std::pair<int, int>, Cell> cells;
    layouter->AssignRegion("main", [&](Region<F>& region) {
      outs.clear();
      cells.clear();
      std::map<std::pair<int, int>, int> special;
      for (size_t i = 0; i < f.from_inst.size(); ++i) special[{f.from_inst[i].col, f.from_inst[i].row}] = 1 + i;
      for (size_t i = 0; i < f.consts.size(); ++i) special[{f.consts[i].col, f.consts[i].row}] = -1 - static_cast<int>(i);
      for (int c = 0; c < s.free_cols; ++c)
        for (int r = 0; r < s.rows; ++r) {
          auto it = special.find({c, r});
          AssignedCell<F> cell;
          if (it == special.end()) {
            cell = region.AssignAdvice("a", cfg.a[c], r, [&, c, r] { return V(w.a[c][r]); });
          } else if (it->second > 0) {
            auto& x = f.from_inst[it->second - 1];
            cell = region.AssignAdviceFromInstance("i", cfg.inst[x.inst], x.irow, cfg.a[c], r);
          } else {
            auto& x = f.consts[-it->second - 1];
            if (x.v == w.a[c][r] && !f.explicit_const[-it->second - 1]) {
              cell = region.AssignAdviceFromConstant("k", cfg.a[c], r, x.v);
            } else {
              cell = region.AssignAdvice("k", cfg.a[c], r, [&, c, r] { return V(w.a[c][r]); });
              region.ConstrainConstant(cell.cell(), math::RationalField<F>(x.v));
            }
          }
          cells[{c, r}] = cell.cell();
        }
      for (auto& x : f.copies) region.ConstrainEqual(cells.at({x.c1, x.r1}), cells.at({x.c2, x.r2}));
      for (size_t g = 0; g < s.gates.size(); ++g) {
        std::map<int, Cell> out;
        for (int r = 0; r < s.rows; ++r) {
          AssignedCell<F> cell = region.AssignAdvice("c", cfg.c[g], r, [&, g, r] { return V(w.c[g][r]); });
          out[r] = cell.cell();
          region.AssignFixed("k", cfg.k[g], r, [&, g, r] { return Value<F>::Known(f.k[g][r]); });
          if (f.on[g][r]) cfg.s[g].Enable(region, r);
        }
        for (auto& x : f.expose)
          if (x.gate == static_cast<int>(g)) outs.push_back({out.at(x.row), x});
      }
      // The columns of later phases hang on challenges.
      std::vector<Value<F>> prev;
      for (int ph = 1; ph < s.phases; ++ph) {
        std::vector<Value<F>> cur;
        const Value<F>& c = ch[ph - 1];
        for (int r = 0; r < s.rows; ++r) {
          Value<F> x = ph == 1 ? V(w.a[s.later[0].first][r]) : prev[r];
          if (known && !c.IsNone() && !x.IsNone())
            cur.push_back(Value<F>::Known(x.value() * c.value() + w.a[s.later[ph - 1].second][r] + w.off[ph - 1][r]));
          else
            cur.push_back(Value<F>::Unknown());
          region.AssignAdvice("d", cfg.d[ph - 1], r, [&, r] { return cur[r]; });
          if (f.later_on[ph - 1][r]) cfg.ds[ph - 1].Enable(region, r);
        }
        prev = cur;
      }
    });
    for (size_t e = 0; e < s.extra.size(); ++e) {
      layouter->AssignRegion("extra", [&](Region<F>& region) {
        const ExtraShape& xs = s.extra[e];
        for (int c = 0; c < 3; ++c) {
          if (!(xs.mask >> c & 1)) continue;
          for (int r = 0; r < xs.rows; ++r) {
            AssignedCell<F> cell = region.AssignAdvice("x", cfg.x[c], r, [&, c, r] { return V(w.x[e][c][r]); });
            for (auto& y : f.xcopies)
              if (y.e == static_cast<int>(e) && y.col == c && y.row == r)
                region.ConstrainEqual(cell.cell(), cells.at({y.c, y.r}));
          }
        }
        if (xs.mask == 7)
          for (int r = 0; r < xs.rows; ++r) cfg.xs.Enable(region, r);
      });
    }
    for (auto& [cell, x] : outs) layouter->ConstrainInstance(cell, cfg.inst[x.inst], x.irow);
    for (size_t l = 0; l < s.lookups.size(); ++l) {
      layouter->AssignRegion("lookup", [&](Region<F>& region) {
        for (int r = 0; r < s.lookup_rows; ++r) {
          cfg.ls[l].Enable(region, r);
          region.AssignFixed("lk", cfg.lk[l], r, [&, l, r] { return Value<F>::Known(f.lk[l][r]); });
          region.AssignAdvice("l", cfg.look[l], r, [&, l, r] { return V(w.look[l][r]); });
        }
      });
    }
    for (int i = 0; i < s.shuffles; ++i) {
      layouter->AssignRegion("in", [&](Region<F>& region) {
        for (int r = 0; r < s.shuffle_rows; ++r) {
          cfg.ps[i].Enable(region, r);
          region.AssignAdvice("p", cfg.p[i], r, [&, i, r] { return V(w.p[i][r]); });
          if (s.shuffle_wide) region.AssignAdvice("p2", cfg.p2[i], r, [&, i, r] { return V(w.p2[i][r]); });
        }
      });
      layouter->AssignRegion("out", [&](Region<F>& region) {
        for (int r = 0; r < s.shuffle_rows; ++r) {
          cfg.qs[i].Enable(region, r);
          region.AssignAdvice("q", cfg.q[i], r, [&, i, r] { return V(w.q[i][r]); });
          if (s.shuffle_wide) region.AssignAdvice("q2", cfg.q2[i], r, [&, i, r] { return V(w.q2[i][r]); });
        }
      });
    }
  }
};

template <typename F>
struct Gen {
  Fixed<F> f;
  static void MakeShape(size_t n) {
    Shape s;
    size_t room = n - 9;  // blinding rows, the last row and the rotations
    s.free_cols = sim::Range(1, 4);
    s.inst_cols = sim::Range(0, 2);
    s.constants = sim::Chance(1, 3);
    s.rows = sim::Range(3, std::min<size_t>(room, sim::Chance(1, 4) ? room : 8));
    for (size_t g = sim::Range(sim::Chance(1, 4) ? 0 : 1, 3); g-- > 0;) {
      auto col = [&] { return static_cast<int>(sim::Below(s.free_cols)); };
      auto rot = [&] { return sim::Chance(1, 2) ? 0 : static_cast<int>(sim::Below(3)) - 1; };
      s.gates.push_back({col(), col(), col(), static_cast<int>(sim::Range(0, n > 64 ? 2 : 4)), rot(), rot(), rot(), rot(), -1, 0});
    }
    if (s.gates.size() && sim::Chance(1, 4)) {
      s.gate_inst = sim::Range(1, 2);
      for (auto& g : s.gates)
        if (sim::Chance(2, 3)) { g.inst = s.inst_cols + sim::Below(s.gate_inst); g.ri = static_cast<int>(sim::Below(3)) - 1; }
    }
    if (sim::Chance(1, 4)) {
      s.phases = sim::Range(2, 3);
      for (int i = 1; i < s.phases; ++i)
        s.later.push_back({static_cast<int>(sim::Below(s.free_cols)), static_cast<int>(sim::Below(s.free_cols))});
    }
    if (sim::Chance(1, 3)) {
      size_t left = room;
      for (size_t e = sim::Range(1, 5); e-- > 0 && left > 1;) {
        int rows = sim::Range(1, std::min<size_t>(left - 1, 6));
        left -= rows;
        s.extra.push_back({static_cast<int>(sim::Chance(1, 2) ? 7 : sim::Range(1, 7)), rows});
      }
    }
    s.named = sim::Chance(1, 4);
    if (sim::Chance(1, 2)) {
      s.tables = sim::Range(1, 2);
      s.wide = sim::Chance(1, 3);
      for (size_t l = sim::Range(1, 4); l-- > 0;)
        s.lookups.push_back({static_cast<int>(sim::Below(s.tables)), sim::Chance(1, 3) ? 0 : static_cast<int>(sim::Below(kNumForms))});
      for (auto& l : s.lookups) s.look_inst = s.look_inst || l.form == kInstance;
      s.lookup_rows = sim::Range(0, std::min<size_t>(room, 12));
    }
    if (sim::Chance(1, 3)) {
      s.shuffles = sim::Range(1, 2);
      s.shuffle_wide = sim::Chance(1, 2);
      s.shuffle_challenge = sim::Chance(1, 2);
      s.shuffle_rows = sim::Range(1, std::max<size_t>(1, room / 2 - 1));
    }
    if (sim::Chance(1, 5)) s.min_degree = sim::Range(3, 7);
    g_shape = s;
  }
  bool Reads(const GateShape& g, int r) const {
    for (int x : {g.r1, g.r2, g.r3, g.r4, g.ri})
      if (r + x < 0 || r + x >= g_shape.rows) return false;
    return true;
  }
  void MakeFixed(size_t n) {
    const Shape& s = g_shape;
    for (auto& g : s.gates) {
      std::vector<F> k(s.rows);
      std::vector<bool> on(s.rows);
      for (int r = 0; r < s.rows; ++r) { k[r] = vu::Elem<F>(); on[r] = Reads(g, r) && sim::Chance(3, 4); }
      f.k.push_back(k); f.on.push_back(on);
    }
    for (int t = 0; t < s.tables; ++t) {
      std::vector<F> v = {F::Zero()};
      for (size_t i = sim::Range(0, std::min<size_t>(n - 10, 12)); i-- > 0;)
        v.push_back(sim::Chance(1, 5) ? v[sim::Below(v.size())] : vu::Elem<F>());
      f.table.push_back(v);
    }
    auto cell = [&](int* c, int* r) { *c = sim::Below(s.free_cols); *r = sim::Below(s.rows); };
    for (size_t i = sim::Below(6); i-- > 0;) {
      typename Fixed<F>::Copy x;
      cell(&x.c1, &x.r1); cell(&x.c2, &x.r2);
      f.copies.push_back(x);
    }
    std::map<std::pair<int, int>, bool> used;
    if (s.inst_cols)
      for (size_t i = sim::Below(4); i-- > 0;) {
        typename Fixed<F>::FromInst x;
        cell(&x.col, &x.row);
        if (used[{x.col, x.row}]) continue;
        used[{x.col, x.row}] = true;
        x.inst = sim::Below(s.inst_cols); x.irow = sim::Below(3);
        f.from_inst.push_back(x);
      }
    if (s.constants)
      for (size_t i = sim::Below(3); i-- > 0;) {
        typename Fixed<F>::Const x;
        cell(&x.col, &x.row);
        if (used[{x.col, x.row}]) continue;
        used[{x.col, x.row}] = true;
        x.v = vu::Elem<F>();
        f.consts.push_back(x);
        f.explicit_const.push_back(sim::Chance(1, 3));
      }
    for (auto& l : s.lookups) {
      std::vector<F> v;
      for (int r = 0; r < s.lookup_rows; ++r) v.push_back(l.form == kTimesFixed ? vu::NonZero<F>() : vu::Elem<F>());
      f.lk.push_back(v);
    }
    for (int ph = 1; ph < s.phases; ++ph) {
      std::vector<bool> on(s.rows);
      for (int r = 0; r < s.rows; ++r) on[r] = sim::Chance(3, 4);
      f.later_on.push_back(on);
    }
    for (size_t e = 0; e < s.extra.size(); ++e)
      for (int c = 0; c < 3; ++c)
        for (int r = 0; r < s.extra[e].rows; ++r)
          // The product of a full region is not free.
          if ((s.extra[e].mask >> c & 1) && (c < 2 || s.extra[e].mask != 7) && sim::Chance(1, 3)) {
            typename Fixed<F>::XCopy x{static_cast<int>(e), c, r, 0, 0};
            cell(&x.c, &x.r);
            f.xcopies.push_back(x);
          }
    if (s.inst_cols && s.gates.size())
      for (size_t i = sim::Below(3); i-- > 0;) {
        typename Fixed<F>::Expose x;
        x.gate = sim::Below(s.gates.size()); x.row = sim::Below(s.rows);
        x.inst = sim::Below(s.inst_cols); x.irow = 3 + f.expose.size();
        f.expose.push_back(x);
      }
  }
  void Outputs(Witness<F>& w) const {
    const Shape& s = g_shape;
    for (size_t g = 0; g < s.gates.size(); ++g)
      for (int r = 0; r < s.rows; ++r)
        if (f.on[g][r]) w.c[g][r + s.gates[g].r4] = Out(w, g, r);
  }
  F Out(const Witness<F>& w, size_t g, int r) const {
    const GateShape& gs = g_shape.gates[g];
    F v = w.a[gs.j][r + gs.r2];
    for (int e = 0; e < gs.e; ++e) v *= w.a[gs.i][r + gs.r1];
    v += f.k[g][r] * w.a[gs.k][r + gs.r3];
    // The main region is the first one of its columns and starts at row zero.
    return gs.inst >= 0 ? v + w.Inst(gs.inst, r + gs.ri) : v;
  }
  // The value classes the copy constraints, instances and constants make.
  Witness<F> MakeWitness() const {
    const Shape& s = g_shape;
    Witness<F> w;
    int free = s.free_cols * s.rows, total = free + s.inst_cols * 3 + f.consts.size();
    std::vector<int> up(total);
    for (int i = 0; i < total; ++i) up[i] = i;
    std::function<int(int)> find = [&](int x) { return up[x] == x ? x : up[x] = find(up[x]); };
    auto join = [&](int x, int y) { up[find(x)] = find(y); };
    auto id = [&](int c, int r) { return c * s.rows + r; };
    for (auto& x : f.copies) join(id(x.c1, x.r1), id(x.c2, x.r2));
    for (auto& x : f.from_inst) join(id(x.col, x.row), free + x.inst * 3 + x.irow);
    for (size_t i = 0; i < f.consts.size(); ++i) join(id(f.consts[i].col, f.consts[i].row), free + s.inst_cols * 3 + i);
    std::map<int, F> val;
    for (int i = 0; i < total; ++i) if (!val.count(find(i))) val[find(i)] = vu::Elem<F>();
    for (size_t i = 0; i < f.consts.size(); ++i) val[find(free + s.inst_cols * 3 + i)] = f.consts[i].v;
    for (int c = 0; c < s.free_cols; ++c) {
      w.a.push_back({});
      for (int r = 0; r < s.rows; ++r) w.a[c].push_back(val[find(id(c, r))]);
    }
    for (int i = 0; i < s.inst_cols; ++i) {
      w.inst.push_back({});
      for (int r = 0; r < 3; ++r) w.inst[i].push_back(val[find(free + i * 3 + r)]);
    }
    for (int i = 0; i < s.gate_inst; ++i) w.inst.push_back(vu::Vec<F>(sim::Below(s.rows + 1)));
    if (s.look_inst) w.inst.push_back({});
    for (size_t g = 0; g < s.gates.size(); ++g) w.c.push_back(vu::Vec<F>(s.rows));
    Outputs(w);
    for (int ph = 1; ph < s.phases; ++ph) w.off.push_back(std::vector<F>(s.rows, F::Zero()));
    for (auto& e : s.extra) {
      std::vector<std::vector<F>> x;
      for (int c = 0; c < 3; ++c) x.push_back(vu::Vec<F>(e.rows));
      w.x.push_back(x);
    }
    FillExtra(w);
    for (auto& x : f.expose) {
      auto& v = w.inst[x.inst];
      if (static_cast<int>(v.size()) <= x.irow) v.resize(x.irow + 1, F::Zero());
      v[x.irow] = w.c[x.gate][x.row];
    }
    for (size_t i = 0; i < s.lookups.size(); ++i) {
      auto& l = s.lookups[i];
      std::vector<F> v;
      F inv = *F(3).Inverse();
      for (int r = 0; r < s.lookup_rows; ++r) {
        F x = f.table[l.table][sim::Below(f.table[l.table].size())];
        switch (l.form) {
          case kScaled: x *= inv; break;
          case kNegated: x = -x; break;
          case kPlusFixed: x -= f.lk[i][r]; break;
          case kTimesFixed: x *= *f.lk[i][r].Inverse(); break;
          case kInstance:
            // Several lookups may read the column: all rows hold the entry every table has, or
            // an entry of the only table.
            if (s.tables > 1) x = F::Zero();
            if (static_cast<int>(w.inst[s.LookInst()].size()) <= r) w.inst[s.LookInst()].push_back(x);
            break;
        }
        v.push_back(x);
      }
      w.look.push_back(v);
    }
    for (int i = 0; i < s.shuffles; ++i) {
      std::vector<F> p, q(s.shuffle_rows), p2, q2(s.shuffle_rows);
      std::vector<int> at(s.shuffle_rows);
      for (int r = 0; r < s.shuffle_rows; ++r) { p.push_back(vu::Elem<F>()); p2.push_back(vu::Elem<F>()); at[r] = r; }
      for (int r = s.shuffle_rows; r > 1; --r) std::swap(at[r - 1], at[sim::Below(r)]);
      for (int r = 0; r < s.shuffle_rows; ++r) { q[at[r]] = p[r]; q2[at[r]] = p2[r]; }
      w.p.push_back(p); w.q.push_back(q); w.p2.push_back(p2); w.q2.push_back(q2);
    }
    return w;
  }
  void FillExtra(Witness<F>& w) const {
    for (auto& x : f.xcopies) w.x[x.e][x.col][x.row] = w.a[x.c][x.r];
    for (size_t e = 0; e < w.x.size(); ++e)
      if (g_shape.extra[e].mask == 7)
        for (int r = 0; r < g_shape.extra[e].rows; ++r) w.x[e][2][r] = w.x[e][0][r] * w.x[e][1][r];
  }
  F Looked(const Witness<F>& w, size_t l, int r) const {
    const F& v = w.look[l][r];
    switch (g_shape.lookups[l].form) {
      case kScaled: return v * F(3);
      case kNegated: return -v;
      case kPlusFixed: return v + f.lk[l][r];
      case kTimesFixed: return v * f.lk[l][r];
      case kInstance: return w.Inst(g_shape.LookInst(), r);
    }
    return v;
  }
  // Whether every constraint holds; an independent reading of the circuit.
  bool Satisfied(const Witness<F>& w) const {
    const Shape& s = g_shape;
    for (auto& x : f.copies) if (w.a[x.c1][x.r1] != w.a[x.c2][x.r2]) return false;
    for (auto& x : f.from_inst) if (w.a[x.col][x.row] != w.inst[x.inst][x.irow]) return false;
    for (auto& x : f.consts) if (w.a[x.col][x.row] != x.v) return false;
    for (size_t ph = 0; ph < w.off.size(); ++ph)
      for (int r = 0; r < s.rows; ++r)
        if (f.later_on[ph][r] && !w.off[ph][r].IsZero()) return false;
    for (auto& x : f.xcopies) if (w.x[x.e][x.col][x.row] != w.a[x.c][x.r]) return false;
    for (size_t e = 0; e < w.x.size(); ++e)
      if (s.extra[e].mask == 7)
        for (int r = 0; r < s.extra[e].rows; ++r)
          if (w.x[e][2][r] != w.x[e][0][r] * w.x[e][1][r]) return false;
    for (auto& x : f.expose) if (w.c[x.gate][x.row] != w.inst[x.inst][x.irow]) return false;
    for (size_t g = 0; g < s.gates.size(); ++g)
      for (int r = 0; r < s.rows; ++r)
        if (f.on[g][r] && w.c[g][r + s.gates[g].r4] != Out(w, g, r)) return false;
    for (size_t l = 0; l < s.lookups.size(); ++l)
      for (int r = 0; r < s.lookup_rows; ++r) {
        F x = Looked(w, l, r);
        bool in = false;
        for (auto& t : f.table[s.lookups[l].table]) in = in || t == x;
        if (!in) return false;
      }
    for (int i = 0; i < s.shuffles; ++i) {
      std::vector<bool> hit(s.shuffle_rows);
      for (int r = 0; r < s.shuffle_rows; ++r) {
        bool found = false;
        for (int k = 0; k < s.shuffle_rows && !found; ++k)
          if (!hit[k] && w.q[i][k] == w.p[i][r] && (!s.shuffle_wide || w.q2[i][k] == w.p2[i][r])) hit[k] = found = true;
        if (!found) return false;
      }
    }
    return true;
  }
  // Breaks one thing; returns what.
  const char* Break(Witness<F>& w) const {
    const Shape& s = g_shape;
    F d = vu::NonZero<F>();
    switch (sim::Below(9)) {
      case 6: if (s.phases < 2) return nullptr;
        w.off[sim::Below(w.off.size())][sim::Below(s.rows)] = d; return "column of a later phase";
      case 7: if (w.x.empty()) return nullptr;
        { size_t e = sim::Below(w.x.size()); w.x[e][sim::Below(3)][sim::Below(s.extra[e].rows)] += d; return "cell of another region"; }
      case 8: if (!s.gate_inst && !s.look_inst) return nullptr;
        { auto& v = w.inst[s.inst_cols + sim::Below(w.inst.size() - s.inst_cols)];
          if (v.empty()) return nullptr;
          v[sim::Below(v.size())] += d; return "instance of a gate or lookup"; }
      case 0: if (s.gates.empty()) return nullptr;
        w.c[sim::Below(s.gates.size())][sim::Below(s.rows)] += d; return "gate output";
      case 1: w.a[sim::Below(s.free_cols)][sim::Below(s.rows)] += d;
        if (sim::Chance(2, 3)) {
          Outputs(w);
          FillExtra(w);
          for (auto& x : f.expose) w.inst[x.inst][x.irow] = w.c[x.gate][x.row];
        }
        return "cell";
      case 2: if (w.inst.empty()) return nullptr;
        { auto& v = w.inst[sim::Below(w.inst.size())]; if (v.empty()) return nullptr; v[sim::Below(v.size())] += d; return "instance"; }
      case 3: if (s.lookups.empty() || !s.lookup_rows) return nullptr;
        w.look[sim::Below(w.look.size())][sim::Below(s.lookup_rows)] += d; return "lookup";
      case 4: if (!s.shuffles || !s.shuffle_wide) return nullptr;
        w.q2[sim::Below(s.shuffles)][sim::Below(s.shuffle_rows)] += d; return "shuffle, second column";
      default: if (!s.shuffles) return nullptr;
        (sim::Chance(1, 2) ? w.p : w.q)[sim::Below(s.shuffles)][sim::Below(s.shuffle_rows)] += d; return "shuffle";
    }
  }
};

template <typename PS, template <typename> class FP>
void RunRand(const char* what) {
  using F = typename PS::PCS::Field;
  using Circ = RandCircuit<F, FP>;
  using Evals = typename PS::PCS::Evals;
  Job<Circ, PS> job;
  job.n = sim::Chance(1, 3) ? 16 : sim::Chance(3, 4) ? 32 : sim::Chance(3, 4) ? 64 : 128;
  job.RandomSetup();
  job.blank_keys = true;
  Gen<F>::MakeShape(job.n);
  Gen<F> gen;
  gen.MakeFixed(job.n);
  size_t num = sim::Chance(2, 3) ? 1 : sim::Range(2, 3);
  for (size_t i = 0; i < num; ++i) {
    Circ c;
    c.f = gen.f;
    c.w = gen.MakeWitness();
    // Two constants in one class of copies have no witness.
    if (!gen.Satisfied(c.w)) return sim::Count("contradictory_circuits_skipped");
    job.circuits.push_back(c);
  }
  const Shape& s = g_shape;
  halo2::PinnedConstraintSystem<F>::s_include_shuffles = sim::Chance(1, 2);
  const char* broken = nullptr;
  if (sim::Chance(1, 3)) {
    auto w = job.circuits[sim::Below(num)].w;
    broken = gen.Break(w);
    if (broken && !gen.Satisfied(w)) job.circuits[sim::Below(num)].w = w; else broken = nullptr;
  }
  for (auto& c : job.circuits) {
    std::vector<Evals> in;
    for (auto& v : c.w.inst) in.push_back(Evals(v));
    job.instances.push_back(in);
  }
  sim::Describe("%s n=%zu tr=%d circuits=%zu cols=%d rows=%d inst=%d consts=%d gates=%zu lookups=%zu/%d%s rows=%d shuffles=%d%s rows=%d%s%s",
                what, job.n, static_cast<int>(job.tr), num, s.free_cols, s.rows, s.inst_cols, s.constants, s.gates.size(),
                s.lookups.size(), s.tables, s.wide ? "w" : "", s.lookup_rows, s.shuffles, s.shuffle_wide ? "w" : "",
                s.shuffle_rows, broken ? " broken: " : "", broken ? broken : "");
  sim::Describe("inst+=%d/%d phases=%d extra=%zu%s%s", s.gate_inst, s.look_inst, s.phases, s.extra.size(), s.named ? " named" : "",
                s.shuffle_challenge ? " mixed shuffles" : "");
  std::string shape;
  for (auto& l : s.lookups) shape += " L" + std::to_string(l.form);
  for (auto& g : s.gates) {
    char b[100];
    snprintf(b, sizeof b, " [%d %d %d^%d %d %d %d %d %d@%d]", g.i, g.j, g.k, g.e, g.r1, g.r2, g.r3, g.r4, g.inst, g.ri);
    shape += b;
  }
  sim::Describe("%s mindeg=%d copies=%zu from=%zu exp=%zu k=%zu", shape.c_str(), s.min_degree, gen.f.copies.size(),
                gen.f.from_inst.size(), gen.f.expose.size(), gen.f.consts.size());
  if (broken) Dishonest(job, broken); else Honest(job);
}
}  // namespace vp
#endif
