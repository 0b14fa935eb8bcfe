// C01: n-dimensional array views.  Explicit-state exploration: a state is a
// view (buffer, shape, strides, offset) paired with the plain tensor it must
// stand for; the transitions are all view operations with all small parameters.
#include <functional>
#include <map>
#include <numeric>
#include <set>

#include "venv/env.h"
#include "vh/vh.h"

#include "libspu/core/ndarray_ref.h"
#include "libspu/core/parallel_utils.h"
#include "libspu/core/type.h"
using namespace spu;

namespace {
using Elem = uint64_t;
struct Plain {
  std::vector<int64_t> shape;
  std::vector<Elem> v;
  int64_t numel() const {
    int64_t n = 1;
    for (auto d : shape) n *= d;
    return n;
  }
};
struct State {
  NdArrayRef a;
  Plain p;
  std::string path;
};
using Ix = std::vector<int64_t>;

void each(const std::vector<int64_t>& shape, const std::function<void(const Ix&)>& f) {
  int64_t n = 1;
  for (auto d : shape) n *= d;
  Ix ix(shape.size(), 0);
  for (int64_t i = 0; i < n; ++i) {
    f(ix);
    for (int d = static_cast<int>(shape.size()) - 1; d >= 0; --d) {
      if (++ix[d] < shape[d]) break;
      ix[d] = 0;
    }
  }
}
int64_t lin(const Ix& ix, const std::vector<int64_t>& shape) {
  int64_t r = 0;
  for (size_t i = 0; i < ix.size(); ++i) r = r * shape[i] + ix[i];
  return r;
}
std::string pstr(const std::vector<int64_t>& v) { return fmt::format("[{}]", fmt::join(v, ",")); }

Elem load(const std::byte* p, size_t es) {
  Elem e = 0;
  std::memcpy(&e, p, std::min<size_t>(es, 8));
  return e;
}

// Every way of reading the view agrees with the plain tensor.
void checkReads(const NdArrayRef& a, const Plain& p, const std::string& path) {
  const size_t es = a.elsize();
  VH_CHECK(Ix(a.shape().begin(), a.shape().end()) == p.shape, "{}: shape {} expected {}", path,
           a.shape(), pstr(p.shape));
  const int64_t n = p.numel();
  VH_CHECK(a.numel() == n, "{}: numel {}", path, a.numel());
  VH_CHECK(a.ndim() == p.shape.size(), "{}: ndim", path);
  if (n == 0) {
    VH_CHECK(a.clone().numel() == 0, "{}: clone", path);
    auto b = a.cbegin();
    int64_t k = 0;
    for (auto e = a.cend(); b != e && k < 4; ++b) ++k;
    VH_CHECK(k == 0, "{}: iterating an empty array", path);
    return;
  }
  int64_t i = 0;
  auto it = a.cbegin();
  bool compact_layout = true;
  const auto* base = a.data<std::byte>();
  each(p.shape, [&](const Ix& ix) {
    Index pos(ix.begin(), ix.end());
    Elem want = p.v[i];
    auto chk = [&](Elem got, const char* how) {
      VH_CHECK(got == want, "{}: {} at {} (flat {}): {} expected {}", path, how, pstr(ix), i, got, want);
    };
    chk(load(&a.at(pos), es), "at(index)");
    chk(load(&a.at(i), es), "at(flat)");
    chk(load(&*it, es), "iterator");
    chk(load(static_cast<const std::byte*>(it.getRawPtr()), es), "iterator raw pointer");
    if (&a.at(pos) != base + i * es) compact_layout = false;
    NdArrayRef::Iterator mid(a, pos);
    chk(load(&*mid, es), "iterator from index");
    ++mid;
    if (i + 1 < n) {
      Elem nx = p.v[i + 1];
      VH_CHECK(load(&*mid, es) == nx, "{}: iterator from {} stepped: {} expected {}", path, pstr(ix),
               load(&*mid, es), nx);
    } else {
      VH_CHECK(mid == a.cend(), "{}: iterator past the last element is not the end", path);
    }
    ++it;
    ++i;
    if (i < n)
      VH_CHECK(!(it == a.cend()), "{}: iterator ends after {} of {}", path, i, n);
  });
  VH_CHECK(it == a.cend(), "{}: iterator does not end", path);
  if (a.isCompact())
    VH_CHECK(compact_layout, "{}: isCompact() but elements are not consecutive", path);
  auto view = [&](auto tag) {
    using T = decltype(tag);
    NdArrayView<T> w(a);
    VH_CHECK(w.numel() == n, "{}: view numel", path);
    for (int64_t j = 0; j < n; ++j) {
      T t = w[j];
      VH_CHECK(static_cast<Elem>(t) == p.v[j], "{}: view[{}] = {} expected {}", path, j,
               static_cast<Elem>(t), p.v[j]);
    }
    size_t width = 0;
    for (auto e : p.v) {
      size_t b = 0;
      while (b < 64 && (e >> b)) ++b;
      width = std::max(width, b);
    }
    VH_CHECK(maxBitWidth<T>(a) == width, "{}: maxBitWidth {} expected {}", path, maxBitWidth<T>(a), width);
  };
  if (es == 1) view(uint8_t{});
  if (es == 4) view(uint32_t{});
  if (es == 8) view(uint64_t{});
  if (es == 16) view(uint128_t{});
  auto c = a.clone();
  VH_CHECK(c.isCompact() && c.buf() != a.buf(), "{}: clone is not a compact copy", path);
  VH_CHECK(c.eltype() == a.eltype(), "{}: clone type", path);
  for (int64_t j = 0; j < n; ++j)
    VH_CHECK(load(c.data<std::byte>() + j * es, es) == p.v[j], "{}: clone element {}", path, j);
}

NdArrayRef fresh(const Type& ty, const Plain& p) {
  NdArrayRef a(ty, Shape(p.shape.begin(), p.shape.end()));
  const size_t es = ty.size();
  for (size_t j = 0; j < p.v.size(); ++j) {
    std::memset(a.data<std::byte>() + j * es, 0, es);
    std::memcpy(a.data<std::byte>() + j * es, &p.v[j], std::min<size_t>(es, 8));
  }
  return a;
}

struct Next {
  std::string name;
  NdArrayRef a;
  Plain p;
  bool copy = false;  // the result must not share storage
};

template <class F>
void pick(Plain& out, const Plain& in, const std::vector<int64_t>& shape, F&& src) {
  out.shape = shape;
  each(shape, [&](const Ix& ix) { out.v.push_back(in.v[lin(src(ix), in.shape)]); });
}

// All operations on one state.
void expand(const State& s, int level, const std::function<void(Next&&)>& emit) {
  const auto& a = s.a;
  const auto& p = s.p;
  const size_t nd = p.shape.size();
  const int64_t n = p.numel();
  const bool rich = level == 0 || vh::thorough();
  // transpose
  {
    Axes perm(nd);
    std::iota(perm.begin(), perm.end(), 0);
    do {
      Next x{fmt::format("transpose{}", pstr(perm)), a.transpose(perm), {}};
      std::vector<int64_t> sh;
      for (auto q : perm) sh.push_back(p.shape[q]);
      pick(x.p, p, sh, [&](const Ix& ix) {
        Ix r(nd);
        for (size_t i = 0; i < nd; ++i) r[perm[i]] = ix[i];
        return r;
      });
      emit(std::move(x));
    } while (std::next_permutation(perm.begin(), perm.end()));
    Next x{"transpose()", a.transpose(), {}};
    pick(x.p, p, {p.shape.rbegin(), p.shape.rend()}, [&](const Ix& ix) { return Ix(ix.rbegin(), ix.rend()); });
    emit(std::move(x));
  }
  // reverse
  for (int m = 0; m < (1 << nd); ++m) {
    Axes ax;
    for (size_t i = 0; i < nd; ++i)
      if (m >> i & 1) ax.push_back(i);
    Next x{fmt::format("reverse{}", pstr(ax)), a.reverse(ax), {}};
    pick(x.p, p, p.shape, [&](Ix ix) {
      for (auto d : ax) ix[d] = p.shape[d] - 1 - ix[d];
      return ix;
    });
    emit(std::move(x));
  }
  // slice: per axis a (start, end, stride)
  {
    std::vector<std::vector<std::array<int64_t, 3>>> ch(nd);
    for (size_t i = 0; i < nd; ++i)
      for (int64_t st = 0; st <= p.shape[i]; ++st)
        for (int64_t en = st; en <= p.shape[i]; ++en)
          for (int64_t str : {1, 2, 3}) {
            if (st == p.shape[i] && p.shape[i] > 0 && !rich) continue;
            if (nd >= 3 && (str == 3 || (en - st == 1 && str > 1))) continue;
            if (!rich && (str == 3 || st > 1)) continue;
            ch[i].push_back({st, en, str});
          }
    std::vector<size_t> c(nd, 0);
    bool more = true;
    while (more) {
      Index st(nd), en(nd);
      Strides sr(nd);
      std::vector<int64_t> sh(nd);
      for (size_t i = 0; i < nd; ++i) {
        st[i] = ch[i][c[i]][0];
        en[i] = ch[i][c[i]][1];
        sr[i] = ch[i][c[i]][2];
        sh[i] = (en[i] - st[i] + sr[i] - 1) / sr[i];
      }
      Next x{fmt::format("slice{}{}{}", pstr(st), pstr(en), pstr(sr)), a.slice(st, en, sr), {}};
      pick(x.p, p, sh, [&](Ix ix) {
        for (size_t i = 0; i < nd; ++i) ix[i] = st[i] + ix[i] * sr[i];
        return ix;
      });
      emit(std::move(x));
      if (std::all_of(sr.begin(), sr.end(), [](int64_t q) { return q == 1; })) {
        Next y{fmt::format("slice{}{}", pstr(st), pstr(en)), a.slice(st, en, {}), {}};
        pick(y.p, p, sh, [&](Ix ix) {
          for (size_t i = 0; i < nd; ++i) ix[i] += st[i];
          return ix;
        });
        emit(std::move(y));
      }
      more = false;
      for (size_t i = 0; i < nd; ++i) {
        if (++c[i] < ch[i].size()) {
          more = true;
          break;
        }
        c[i] = 0;
      }
    }
  }
  // scalar slice
  each(p.shape, [&](const Ix& ix) {
    Index i(ix.begin(), ix.end());
    Next x{fmt::format("slice_scalar_at{}", pstr(ix)), a.slice_scalar_at(i), {}};
    x.p.v = {p.v[lin(ix, p.shape)]};
    emit(std::move(x));
  });
  // reshape to every factorisation of at most 3 (4) factors, with and without 1s
  {
    std::set<std::vector<int64_t>> shapes;
    std::function<void(std::vector<int64_t>, int64_t)> rec = [&](std::vector<int64_t> pre, int64_t rest) {
      if (pre.size() > 4) return;
      if (rest == 1) shapes.insert(pre);
      for (int64_t f = 1; f <= rest; ++f)
        if (rest % f == 0) {
          auto q = pre;
          q.push_back(f);
          rec(q, rest / f);
        }
    };
    if (n > 0) rec({}, n);
    else shapes = {{0}, {0, 2}, {3, 0}};
    for (auto& sh : shapes) {
      if (!rich && sh.size() > 3) continue;
      Next x{fmt::format("reshape{}", pstr(sh)), a.reshape(Shape(sh.begin(), sh.end())), {}};
      x.p.shape = sh;
      x.p.v = p.v;
      emit(std::move(x));
    }
  }
  // broadcast: add leading axes / repeat axes of size 1 / place axes freely
  if (n > 0 && n <= 12 && nd <= 2) {
    for (int64_t lead : {1, 2}) {
      std::vector<int64_t> sh = {lead};
      sh.insert(sh.end(), p.shape.begin(), p.shape.end());
      Next x{fmt::format("broadcast{}", pstr(sh)), a.broadcast_to(Shape(sh.begin(), sh.end()), {}), {}};
      pick(x.p, p, sh, [&](const Ix& ix) { return Ix(ix.begin() + 1, ix.end()); });
      emit(std::move(x));
    }
    for (int m = 1; m < (1 << nd); ++m) {
      auto sh = p.shape;
      bool ok = true;
      for (size_t i = 0; i < nd; ++i)
        if (m >> i & 1) {
          ok &= sh[i] == 1;
          sh[i] = 3;
        }
      if (!ok) continue;
      Next x{fmt::format("broadcast{}", pstr(sh)), a.broadcast_to(Shape(sh.begin(), sh.end()), {}), {}};
      pick(x.p, p, sh, [&](Ix ix) {
        for (size_t i = 0; i < nd; ++i)
          if (m >> i & 1) ix[i] = 0;
        return ix;
      });
      emit(std::move(x));
    }
    // in_dims: strictly increasing placement into nd+1 axes
    for (size_t hole = 0; hole <= nd && nd > 0; ++hole) {
      std::vector<int64_t> sh;
      Axes in;
      for (size_t i = 0, j = 0; i <= nd; ++i) {
        if (i == hole) {
          sh.push_back(2);
        } else {
          in.push_back(i);
          sh.push_back(p.shape[j] == 1 ? 2 : p.shape[j]);
          ++j;
        }
      }
      Next x{fmt::format("broadcast{} in{}", pstr(sh), pstr(in)), a.broadcast_to(Shape(sh.begin(), sh.end()), in), {}};
      pick(x.p, p, sh, [&](const Ix& ix) {
        Ix r;
        for (size_t k = 0; k < nd; ++k) r.push_back(p.shape[k] == 1 ? 0 : ix[in[k]]);
        return r;
      });
      emit(std::move(x));
    }
  }
  // expand
  if (n == 1)
    for (auto sh : std::vector<std::vector<int64_t>>{{}, {1}, {3}, {2, 2}, {5}, {0}}) {
      Next x{fmt::format("expand{}", pstr(sh)), a.expand(Shape(sh.begin(), sh.end())), {}, true};
      x.p.shape = sh;
      x.p.v.assign(x.p.numel(), p.v[0]);
      emit(std::move(x));
    }
  // concatenate with itself and with its reverse
  for (size_t ax = 0; ax < nd; ++ax)
    for (int cnt = 1; cnt <= 2; ++cnt) {
      std::vector<NdArrayRef> o(cnt, a);
      Axes all(nd);
      std::iota(all.begin(), all.end(), 0);
      if (cnt == 2) o[1] = a.reverse(all);
      auto sh = p.shape;
      sh[ax] *= cnt + 1;
      Next x{fmt::format("concatenate({},axis {})", cnt, ax), a.concatenate(o, ax), {}, true};
      pick(x.p, p, sh, [&](Ix ix) {
        auto k = ix[ax] / p.shape[ax];
        ix[ax] %= p.shape[ax];
        if (k == 2)
          for (size_t i = 0; i < nd; ++i) ix[i] = p.shape[i] - 1 - ix[i];
        return ix;
      });
      emit(std::move(x));
    }
  // concatenate pieces of unequal size, the empty one among them
  if (nd > 0 && rich)
    for (size_t ax = 0; ax < nd; ++ax)
      for (int64_t cut = 0; cut <= p.shape[ax]; ++cut) {
        Index z(nd, 0), e1(p.shape.begin(), p.shape.end()), s2(nd, 0), e2 = e1;
        e1[ax] = cut;
        s2[ax] = cut;
        if (cut == p.shape[ax]) continue;
        auto l = a.slice(z, e1, {}), r = a.slice(s2, e2, {});
        Next x{fmt::format("cut and concatenate(axis {}, {})", ax, cut), l.concatenate({r}, ax), p, true};
        emit(std::move(x));
      }
  // pad
  if (n <= 9 && nd <= 2) {
    Elem pv = 99;
    Plain pp;
    pp.v = {pv};
    auto padv = fresh(a.eltype(), pp);
    std::vector<std::array<int64_t, 3>> opt = {{0, 0, 0}, {1, 0, 0}, {0, 2, 0}, {1, 1, 1}, {-1, 0, 0},
                                               {0, -1, 0}, {-1, 2, 1}, {2, -1, 2}};
    std::vector<size_t> c(nd, 0);
    bool more = true;
    while (more) {
      Sizes lo(nd), hi(nd), in(nd);
      std::vector<int64_t> sh(nd);
      bool ok = true;
      for (size_t i = 0; i < nd; ++i) {
        lo[i] = opt[c[i]][0];
        hi[i] = opt[c[i]][1];
        in[i] = opt[c[i]][2];
        sh[i] = lo[i] + hi[i] + p.shape[i] + in[i] * std::max<int64_t>(p.shape[i] - 1, 0);
        ok &= sh[i] >= 0;
      }
      if (ok) {
        Next x{fmt::format("pad{}{}{}", pstr(lo), pstr(hi), pstr(in)), a.pad(padv, lo, hi, in), {}, true};
        x.p.shape = sh;
        x.p.v.assign(x.p.numel(), pv);
        each(p.shape, [&](const Ix& ix) {
          Ix t(nd);
          for (size_t i = 0; i < nd; ++i) {
            t[i] = lo[i] + ix[i] * (in[i] + 1);
            if (t[i] < 0 || t[i] >= sh[i]) return;
          }
          x.p.v[lin(t, sh)] = p.v[lin(ix, p.shape)];
        });
        emit(std::move(x));
      }
      more = false;
      for (size_t i = 0; i < nd; ++i) {
        if (++c[i] < opt.size()) {
          more = true;
          break;
        }
        c[i] = 0;
      }
    }
  }
  // gather along a vector
  if (nd == 1 && n > 0)
    for (auto ixs : std::vector<Ix>{{0}, {n - 1, 0}, {n - 1, n / 2, 0, n / 2}, {}}) {
      Next x{fmt::format("gather{}", pstr(ixs)), a.linear_gather(Index(ixs.begin(), ixs.end())), {}, true};
      x.p.shape = {static_cast<int64_t>(ixs.size())};
      for (auto i : ixs) x.p.v.push_back(p.v[i]);
      emit(std::move(x));
    }
  {
    Next x{"clone", a.clone(), p, true};
    emit(std::move(x));
  }
  {
    Next x{"as", a.as(a.eltype()), p};
    emit(std::move(x));
  }
}

// Operations that write, on private copies that have the same layout.
NdArrayRef dup(const NdArrayRef& a) {
  auto b = std::make_shared<yacl::Buffer>(*a.buf());
  return NdArrayRef(b, a.eltype(), a.shape(), a.strides(), a.offset());
}
bool aliased(const NdArrayRef& a) {
  for (size_t i = 0; i < a.shape().size(); ++i)
    if (a.shape()[i] != 1 && a.strides()[i] == 0) return true;
  return false;
}
void checkWrites(const State& s) {
  const auto& p = s.p;
  const size_t nd = p.shape.size();
  const int64_t n = p.numel();
  if (n == 0) return;
  // update_slice of every box, from a compact and from a reversed source
  std::vector<Ix> starts, sizes;
  each(p.shape, [&](const Ix& st) {
    std::vector<int64_t> room(nd);
    for (size_t i = 0; i < nd; ++i) room[i] = p.shape[i] - st[i];
    each(room, [&](const Ix& sz0) {
      Ix sz = sz0;
      for (auto& d : sz) ++d;
      starts.push_back(st);
      sizes.push_back(sz);
    });
  });
  for (size_t t = 0; t < starts.size(); ++t)
    for (int rev = 0; rev < 2; ++rev) {
      Plain q;
      q.shape = sizes[t];
      for (int64_t i = 0; i < q.numel(); ++i) q.v.push_back(100 + i);
      auto src = fresh(s.a.eltype(), q);
      if (rev) {
        Axes all(nd);
        std::iota(all.begin(), all.end(), 0);
        src = src.reverse(all);
        std::reverse(q.v.begin(), q.v.end());
      }
      auto a = dup(s.a);
      auto before = *a.buf();
      const bool al = aliased(a);
      a.update_slice(src, Index(starts[t].begin(), starts[t].end()));
      Plain w = p;
      each(sizes[t], [&](const Ix& ix) {
        Ix d = ix;
        for (size_t i = 0; i < nd; ++i) d[i] += starts[t][i];
        w.v[lin(d, p.shape)] = q.v[lin(ix, sizes[t])];
      });
      checkReads(a, w, s.path + fmt::format(" update_slice at {} size {}{}", pstr(starts[t]), pstr(sizes[t]),
                                            rev ? " reversed" : ""));
      (void)al;
      (void)before;
      vh::eval(vh::hash(s.path) * 31 + t * 2 + rev);
    }
  // copy_slice of a prefix
  if (!aliased(s.a)) {
    for (int64_t k = 0; k <= n; ++k) {
      Plain q = p;
      for (auto& e : q.v) e += 100;
      auto src = fresh(s.a.eltype(), q);
      auto a = dup(s.a);
      a.copy_slice(src, Index(nd, 0), Index(nd, 0), k);
      Plain w = p;
      for (int64_t i = 0; i < k; ++i) w.v[i] = q.v[i];
      checkReads(a, w, s.path + fmt::format(" copy_slice {}", k));
      // and from this view into a compact array, starting in the middle
      Ix mid(nd, 0);
      int64_t off = n - k;
      for (int d = static_cast<int>(nd) - 1, r = off; d >= 0; --d) {
        mid[d] = r % p.shape[d];
        r /= p.shape[d];
      }
      if (k > 0) {
        auto dst = fresh(s.a.eltype(), q);
        dst.copy_slice(s.a, Index(mid.begin(), mid.end()), Index(nd, 0), k);
        Plain w2 = q;
        for (int64_t i = 0; i < k; ++i) w2.v[i] = p.v[off + i];
        checkReads(dst, w2, s.path + fmt::format(" copied from {}", pstr(mid)));
      }
    }
    if (nd == 1) {
      for (auto ixs : std::vector<Ix>{{0}, {n - 1, 0}, {n / 2, n - 1}}) {
        Plain q;
        q.shape = {static_cast<int64_t>(ixs.size())};
        for (size_t i = 0; i < ixs.size(); ++i) q.v.push_back(70 + i);
        auto a = dup(s.a);
        a.linear_scatter(fresh(s.a.eltype(), q), Index(ixs.begin(), ixs.end()));
        Plain w = p;
        for (size_t i = 0; i < ixs.size(); ++i) w.v[ixs[i]] = q.v[i];
        checkReads(a, w, s.path + fmt::format(" scatter{}", pstr(ixs)));
      }
    }
  }
}

// Splitting a view into halves of its elements and back (what storage types
// made of two words do).
void checkForce(const State& s) {
  if (s.a.elsize() < 8 || s.p.numel() == 0) return;
  const auto& st = s.a.strides();
  auto half = s.a.elsize() == 8 ? I32 : I64;
  NdArrayRef h = s.a.as(half, true);
  VH_CHECK(h.shape() == s.a.shape(), "{}: forced view shape", s.path);
  int64_t i = 0;
  each(s.p.shape, [&](const Ix& ix) {
    Index pos(ix.begin(), ix.end());
    Elem e = load(&h.at(pos), half.size());
    Elem mask = half.size() == 4 ? 0xffffffffu : ~0ull;
    VH_CHECK(e == (s.p.v[i] & mask), "{}: forced view at {}: {} expected {}", s.path, pstr(ix), e, s.p.v[i]);
    ++i;
  });
  (void)st;
}

void bfs(const std::string& name, const State& init, int depth) {
  vh::unit(name, [=] {
    std::vector<State> frontier = {init};
    std::set<std::string> seen;
    auto key = [](const NdArrayRef& a, const Plain& p) {
      return fmt::format("{}|{}|{}|{}|{}", a.shape(), a.strides(), a.offset(), a.buf() ? a.buf()->size() : 0,
                         fmt::join(p.v, ","));
    };
    checkReads(init.a, init.p, init.path);
    checkWrites(init);
    seen.insert(key(init.a, init.p));
    for (int d = 0; d < depth; ++d) {
      std::vector<State> next;
      for (auto& s : frontier) {
        if (vh::timeUp()) {
          vh::add("capped");
          return;
        }
        vh::where(s.path);
        expand(s, d, [&](Next&& x) {
          vh::add("transitions");
          std::string path = s.path + " " + x.name;
          vh::where(path);
          const int64_t xn = x.p.numel();
          // what a view may address must lie in its buffer
          checkReads(x.a, x.p, path);
          if (x.copy && xn > 0) VH_CHECK(x.a.buf() != s.a.buf(), "{}: shares storage", path);
          vh::eval(vh::hash(path), xn > 0);
          if (xn <= 24 && x.p.shape.size() <= 4 && seen.insert(key(x.a, x.p)).second) {
            State ns{x.a, x.p, path};
            vh::add("states");
            if (xn <= 8) checkWrites(ns);
            checkForce(ns);
            if (xn <= 12 && x.p.shape.size() <= 3) next.push_back(std::move(ns));
          }
        });
      }
      frontier = std::move(next);
      vh::add("levels");
    }
  });
}

// The chunked loops and the pack/unpack of several arrays into one.
void misc() {
  vh::unit("vectorize", [] {
    for (const Type& ty : {I8, I32, I64, I128})
      for (int mode = 0; mode < 4; ++mode) {
        venv::g_par_mode = mode;
        std::vector<NdArrayRef> v;
        std::vector<Plain> ps;
        Elem c = 1;
        for (auto sh : std::vector<std::vector<int64_t>>{{2, 3}, {}, {4}, {0}, {1, 1}, {3, 2}}) {
          Plain p;
          p.shape = sh;
          for (int64_t i = 0; i < p.numel(); ++i) p.v.push_back(c++);
          auto a = fresh(ty, p);
          if (sh.size() == 2) {
            a = a.transpose();
            Plain q;
            pick(q, p, {sh[1], sh[0]}, [&](const Ix& ix) { return Ix{ix[1], ix[0]}; });
            p = q;
          }
          v.push_back(a);
          ps.push_back(p);
        }
        std::vector<NdArrayRef> out;
        vmap(v.begin(), v.end(), std::back_inserter(out), [&](const NdArrayRef& x) {
          VH_CHECK(x.shape().size() == 1, "packed shape");
          return x;
        });
        VH_CHECK(out.size() == v.size(), "vmap size");
        for (size_t i = 0; i < v.size(); ++i) {
          checkReads(out[i], ps[i], fmt::format("vmap element {}", i));
          vh::eval(i + mode * 100);
        }
        // tree reduction: every element takes part exactly once, in order
        for (int cnt = 1; cnt <= 9; ++cnt) {
          std::vector<NdArrayRef> w;
          Plain sum;
          sum.shape = {3};
          sum.v = {0, 0, 0};
          for (int j = 0; j < cnt; ++j) {
            Plain p;
            p.shape = {3};
            for (int t = 0; t < 3; ++t) {
              p.v.push_back(Elem(1) << (j % 6));
              sum.v[t] += p.v.back();
            }
            w.push_back(fresh(ty, p));
          }
          auto r = vreduce(w.begin(), w.end(), [&](const NdArrayRef& x, const NdArrayRef& y) {
            Plain p;
            p.shape = {x.numel()};
            for (int64_t i = 0; i < x.numel(); ++i)
              p.v.push_back(load(&x.at(i), ty.size()) + load(&y.at(i), ty.size()));
            return fresh(ty, p);
          });
          checkReads(r, sum, fmt::format("vreduce of {}", cnt));
          vh::eval(5000 + cnt + mode * 100);
        }
      }
    venv::g_par_mode = 0;
  });
  vh::unit("indexing", [] {
    for (auto sh : std::vector<std::vector<int64_t>>{{}, {1}, {4}, {2, 3}, {3, 1, 2}, {2, 2, 2, 2}}) {
      Shape s(sh.begin(), sh.end());
      int64_t i = 0;
      std::vector<int64_t> bump(sh.size(), 0);
      each(sh, [&](const Ix& ix) {
        Index x(ix.begin(), ix.end());
        VH_CHECK(flattenIndex(x, s) == i, "flattenIndex {} in {}", x, s);
        VH_CHECK(unflattenIndex(i, s) == x, "unflattenIndex {} in {}", i, s);
        VH_CHECK(x.inBounds(s), "inBounds");
        VH_CHECK(bump == ix, "bumpIndices");
        bool more = bumpIndices(s, absl::MakeSpan(bump));
        VH_CHECK(more == (i + 1 < s.numel()), "bumpIndices end");
        auto cs = makeCompactStrides(s);
        VH_CHECK(static_cast<int64_t>(calcFlattenOffset(x, s, cs)) == i, "compact strides");
        vh::eval(vh::hash(fmt::format("{}{}", s, i)));
        ++i;
      });
      for (size_t d = 0; d < sh.size(); ++d) {
        Index x(sh.size(), 0);
        x[d] = sh[d];
        VH_CHECK(!x.inBounds(s), "inBounds above");
        x[d] = -1;
        VH_CHECK(!x.inBounds(s), "inBounds below");
      }
    }
  });
}
}  // namespace

void vh_units() {
  misc();
  const int depth = vh::thorough() ? 4 : 3;
  int c = 0;
  for (const Type& ty : {I8, I32, I64, I128})
    for (auto sh : std::vector<std::vector<int64_t>>{{}, {1}, {4}, {2, 3}, {1, 3}, {2, 1, 2}, {2, 2, 2}, {0, 2}}) {
      Plain p;
      p.shape = sh;
      for (int64_t i = 0; i < p.numel(); ++i) p.v.push_back(i * 3 + 1);
      // depth 3 from a few, 2 from all
      State s{fresh(ty, p), p, fmt::format("{} {}", ty, pstr(sh))};
      int d = (ty == I64 && (p.numel() == 4 ? sh.size() == 1 : p.numel() == 1)) ? depth : depth - 1;
      bfs(fmt::format("views/{}/{}", ty, pstr(sh)), s, d);
      ++c;
      // the same data in the middle of a larger buffer, every other element
      if (sh.size() == 1 && sh[0] == 4) {
        Plain big;
        big.shape = {11};
        for (int i = 0; i < 11; ++i) big.v.push_back(50 + i);
        auto b = fresh(ty, big);
        Plain q;
        q.shape = {4};
        q.v = {52, 54, 56, 58};
        State t{NdArrayRef(b.buf(), ty, {4}, {2}, 2 * ty.size()), q, fmt::format("{} [4] embedded", ty)};
        bfs(fmt::format("views/{}/embedded", ty), t, d);
      }
    }
}
