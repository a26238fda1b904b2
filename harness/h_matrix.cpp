// C12: the sparse matrices filled by the equations and the block structure of the constraint
// Jacobian hold exactly what was put into them, at positions that cover every influence.
#include "ConstraintJacobian.hpp"
#include "Matrixhandler.hpp"
#include "mc.hpp"
using namespace Optimization;
using V = Eigen::VectorXd;
using M = Eigen::MatrixXd;

int main(int argc, char **argv) {
  mc::Explorer ex(argc, argv);

  ex.scenario("block structure", [&] {
    auto subset = [&](std::vector<double> const &of, bool nonempty) {
      int n = 1 << of.size();
      int bits = nonempty ? 1 + ex.choose(n - 1) : ex.choose(n);
      std::vector<double> s;
      for (std::size_t i = 0; i < of.size(); ++i)
        if (bits >> i & 1) s.push_back(of[i]);
      return V(Eigen::Map<V>(s.data(), static_cast<Eigen::Index>(s.size())));
    };
    V controls = subset(ex.thorough() ? std::vector<double>{-1, 0, 1, 2, 3, 4} : std::vector<double>{0, 1, 2, 3}, true);
    ex.split();
    V constraints = subset(ex.thorough() ? std::vector<double>{-2, -0.5, 0, 0.5, 1, 1.5, 2, 2.5, 3, 3.5} : std::vector<double>{0, 0.5, 1, 2, 2.5, 3, 3.5}, true);
    Eigen::Index k = 1 + ex.choose(2), m = 1 + ex.choose(2);
    auto what = std::to_string(k) + " constraints at " + mc::vec(constraints) + ", " + std::to_string(m) + " controls at " + mc::vec(controls);
    ex.note(what);
    ConstraintJacobian J(k, m, constraints, controls);
    auto rows = constraints.size() * k, cols = controls.size() * m;
    ex.expect((J.get_inner_height() == rows && J.get_inner_width() == cols && J.get_outer_height() == constraints.size() && J.get_outer_width() == controls.size() && J.get_block_height() == k && J.get_block_width() == m && J.get_block_size() == k * m),
              "shape", what + ": wrong shape");
    auto nnz = J.nonZeros();
    Eigen::VectorX<Ipopt::Index> r(nnz), c(nnz);
    r.setConstant(-1);
    c.setConstant(-1);
    J.supply_indices(r, c);
    M where = M::Constant(rows, cols, -1);
    for (Eigen::Index i = 0; i < nnz; ++i) {
      ex.expect((r[i] >= 0 && r[i] < rows && c[i] >= 0 && c[i] < cols), "positions", what + ": entry " + std::to_string(i) + " lies outside");
      ex.expect(where(r[i], c[i]) == -1, "positions", what + ": a position is used twice");
      where(r[i], c[i]) = static_cast<double>(i);
    }
    // a control influences everything after the control before it
    for (Eigen::Index i = 0; i < constraints.size(); ++i)
      for (Eigen::Index j = 0; j < controls.size(); ++j)
        if (j == 0 || constraints[i] > controls[j - 1])
          for (Eigen::Index a = 0; a < k; ++a)
            for (Eigen::Index b = 0; b < m; ++b)
              ex.expect(where(i * k + a, j * m + b) >= 0, "positions", what + ": no room for the influence of control " + std::to_string(j) + " on constraint " + std::to_string(i));
    // values written blockwise arrive at these positions
    J.setZero();
    ex.expect(J.whole_matrix().isZero(0), "values", what + ": not zero after setZero");
    J.setOnes();
    for (Eigen::Index i = 0; i < rows; ++i)
      for (Eigen::Index j = 0; j < cols; ++j) ex.expect(J.whole_matrix()(i, j) == (where(i, j) >= 0), "values", what + ": not one after setOnes");
    M want = M::Zero(rows, cols);
    double next = 1;
    for (Eigen::Index j = 0; j < controls.size(); ++j) {
      auto block = J.get_column_block(j);
      auto start = J.get_inner_rowstart(j);
      ex.expect((block.cols() == m && start + block.rows() == rows && block.rows() == J.get_inner_col_height(j) && J.get_inner_colstart(j) == j * m), "blocks", what + ": column block " + std::to_string(j) + " has the wrong shape");
      for (Eigen::Index a = 0; a < block.rows(); ++a)
        for (Eigen::Index b = 0; b < m; ++b) want(start + a, j * m + b) = block(a, b) = next++;
    }
    ex.expect(J.whole_matrix() == want, "values", what + ": matrix differs from what was written");
    auto const &cJ = J;
    V all = J.get_allvalues();
    ex.expect(all.size() == nnz, "values", what + ": number of values");
    for (Eigen::Index i = 0; i < nnz; ++i) ex.expect(all[i] == want(r[i], c[i]), "values", what + ": value " + std::to_string(i) + " belongs to another position");
    for (Eigen::Index j = 0; j < controls.size(); ++j) {
      auto b = cJ.get_column_block(j);
      ex.expect((b == want.block(J.get_inner_rowstart(j), j * m, b.rows(), m)), "values", what + ": column block reads other values");
      ex.expect((J.column_values_start(j) == J.get_inner_column_offset(j) && J.column_values_end(j) - J.column_values_start(j) == b.rows() * m), "blocks", what + ": range of values of a column block");
    }
    // copies, foreign storage, comparison
    V store = V::Constant(nnz, -7), other = V::Constant(nnz, -9);
    MappedConstraintJacobian mapped(store.data(), nnz, k, m, constraints, controls), second(other.data(), nnz, k, m, constraints, controls);
    ex.expect((mapped != J), "comparison", what + ": different values compare equal");
    mapped = J;
    ex.expect((store == all && mapped == J && mapped.whole_matrix() == want), "assignment", what + ": assignment to foreign storage");
    second = mapped;
    ex.expect((other == all && second == mapped), "assignment", what + ": assignment between foreign storages");
    ConstraintJacobian copy(J), from(second);
    J.setZero();
    ex.expect((copy.whole_matrix() == want && from.whole_matrix() == want && store == all), "assignment", what + ": a copy changed with the original");
    J = mapped;
    store.setConstant(3);
    ex.expect((J.whole_matrix() == want && mapped.whole_matrix() != want), "assignment", what + ": a copy changed with the original");
    second.replace_storage(store.data(), nnz);
    second = J;
    ex.expect((store == all && other == all), "assignment", what + ": replaced storage is not used");
    MappedConstraintJacobian null(nullptr, nnz, k, m, constraints, controls);
    ex.expect(mc::throws([&] { null.setZero(); }), "null", what + ": missing storage is written to");
    // other structures are not compatible
    ConstraintJacobian wider(k, m + 1, constraints, controls), higher(k + 1, m, constraints, controls);
    V longer_times(constraints.size() + 1);
    longer_times << constraints, constraints[constraints.size() - 1] + 1;
    ConstraintJacobian longer(k, m, longer_times, controls);
    for (auto *x : {&wider, &higher, &longer}) {
      x->setZero();
      ex.expect((*x != J), "comparison", what + ": different structures compare equal");
      ex.expect(mc::throws([&] { J = *x; }), "assignment", what + ": a different structure was assigned");
      ex.expect(J.whole_matrix() == want, "assignment", what + ": a refused assignment changed values");
    }
    // neither are structures of the same shape, perhaps the same number of entries, at other times
    auto positions = [&](ConstraintJacobian const &x) {
      Eigen::VectorX<Ipopt::Index> a(x.nonZeros()), b(x.nonZeros());
      x.supply_indices(a, b);
      std::vector<std::pair<int, int>> p;
      for (Eigen::Index i = 0; i < x.nonZeros(); ++i) p.push_back({a[i], b[i]});
      return p;
    };
    auto const mine = positions(J);
    std::vector<double> const alphabet = {-0.75, 0.25, 0.5, 1, 1.75, 2.75};
    for (bool other_constraints : {true, false}) {
      auto count = other_constraints ? constraints.size() : controls.size();
      for (unsigned bits = 0; bits < 64; ++bits) {
        if (__builtin_popcount(bits) != count) continue;
        V u(count);
        for (Eigen::Index i = 0, j = 0; i < 6; ++i)
          if (bits >> i & 1) u[j++] = alphabet[static_cast<std::size_t>(i)];
        ConstraintJacobian x = other_constraints ? ConstraintJacobian(k, m, u, controls) : ConstraintJacobian(k, m, constraints, u);
        x.setOnes();
        if (positions(x) == mine) continue;
        ex.expect((x != J), "comparison", what + ": a structure at other times compares equal");
        ex.expect(mc::throws([&] { J = x; }), "assignment", what + ": a structure at other times, " + mc::vec(u) + ", was assigned");
        ex.expect((J.whole_matrix() == want && positions(J) == mine), "assignment", what + ": a refused assignment changed values");
      }
    }
    ex.nontrivial();
    ex.state(what);
  });

  auto handlers = [&](auto transposed) {
    constexpr int T = decltype(transposed)::value;
    ex.scenario(T ? "matrix handlers, transposed" : "matrix handlers", [&] {
      int rows = 2, cols = 3;
      Eigen::SparseMatrix<double> S(T ? cols : rows, T ? rows : cols), Other(S.rows(), S.cols());
      M want = M::Zero(rows, cols);
      struct Add {
        int i, j;
        double v;
      };
      static std::vector<double> const values = {1.5, 0, -1.5};
      std::vector<Add> list;
      std::string trace;
      int depth = ex.pick(3, 4);
      for (int s = 0; s < depth; ++s) {
        int o = ex.choose(rows * cols * 3 + 1);
        if (s == 1) ex.split();
        if (o == rows * cols * 3) break; // fewer
        list.push_back({o / 3 / cols, o / 3 % cols, values[static_cast<std::size_t>(o % 3)]});
        trace += "(" + std::to_string(list.back().i) + "," + std::to_string(list.back().j) + ") += " + mc::num(list.back().v) + "; ";
      }
      ex.note(trace);
      auto same = [&](Eigen::SparseMatrix<double> const &s, M const &w) {
        M d = s;
        return T ? M(d.transpose()) == w : d == w;
      };
      Aux::Triplethandler<T> h(S);
      for (auto &a : list) {
        h.add_to_coefficient(a.i, a.j, a.v);
        want(a.i, a.j) += a.v;
      }
      h.set_matrix();
      ex.expect(same(S, want), "triplets", trace + "the matrix is another one");
      auto pattern = S.nonZeros();
      // refilled in place: same entries give the same matrix without changing its structure
      {
        Aux::Coeffrefhandler<T> c(S);
        ex.expect(same(S, M::Zero(rows, cols)), "coefficients", trace + "old entries are still there");
        for (auto &a : list) c.add_to_coefficient(a.i, a.j, a.v);
        c.set_matrix();
      }
      ex.expect((same(S, want) && S.nonZeros() == pattern && S.isCompressed()), "coefficients", trace + "refilling gives another matrix or structure");
      // twice the entries, in reverse order
      {
        Aux::Coeffrefhandler<T> c(S);
        for (auto a = list.rbegin(); a != list.rend(); ++a) c.add_to_coefficient(a->i, a->j, 2 * a->v);
        c.set_matrix();
      }
      ex.expect((same(S, 2 * want) && S.nonZeros() == pattern), "coefficients", trace + "refilling with other values gives another matrix");
      // entries outside the structure
      {
        Aux::Coeffrefhandler<T> c(Other);
        for (auto &a : list) c.add_to_coefficient(a.i, a.j, a.v);
        c.set_matrix();
      }
      ex.expect(same(Other, want), "coefficients", trace + "filling an empty matrix gives another matrix");
      {
        Aux::Coeffrefhandler<T> c(Other);
        ex.expect(same(Other, M::Zero(rows, cols)), "coefficients", trace + "old entries outside the first structure are still there");
        for (auto &a : list) c.add_to_coefficient(a.i, a.j, 3 * a.v);
      }
      ex.expect(same(Other, 3 * want), "coefficients", trace + "refilling a matrix filled by coefficients gives another matrix");
      // a handler forgets its coefficients when the matrix is set
      h.set_matrix();
      ex.expect(same(S, M::Zero(rows, cols)), "triplets", trace + "coefficients are used again");
      for (auto &a : list) h.add_to_coefficient(a.i, a.j, -a.v);
      h.set_matrix();
      ex.expect(same(S, -want), "triplets", trace + "the handler cannot be used again");
      if (list.size() > 1) ex.nontrivial();
      ex.state(trace);
    });
  };
  handlers(std::integral_constant<int, Aux::Regular>());
  handlers(std::integral_constant<int, Aux::Transposed>());
  return ex.finish();
}
