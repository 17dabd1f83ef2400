// C15: Normalize keeps the half-space of every row.
#include "com_spec.hh"
using namespace spec;

enum Kind { GENERIC, SPARSE, ZERO_NEG, ZERO_NULL, ZERO_POS, KINDS };
static bool isZero(int k) { return k >= ZERO_NEG; }
static void normalised(MatrixXX& A, VectorX& b, const std::vector<int>& kind) {
  const int rows = (int)kind.size(), cols = A.cols();
  MatrixXX A0 = A;
  VectorX b0 = b;
  int n = Normalize(A, b);
  bool infeasible = false;
  int nz = 0;
  for (int i = 0; i < rows; ++i) {
    infeasible = infeasible || kind[i] == ZERO_NEG;
    nz += !isZero(kind[i]);
  }
  // as many rows as were given, each one the half-space of one given row
  Rows got = rowsOf(A, b), want = rowsOf(A0, b0);
  std::vector<bool> used(rows, false);
  for (int i = 0; i < rows; ++i) {
    int m = -1;
    for (int j = 0; j < rows && m < 0; ++j) {
      if (used[j]) continue;
      bool z = isZero(kind[j]);
      bool gz = true;
      for (int c = 0; c < cols; ++c) gz = gz && engine::fingerprint(got[i][c]) == 0;
      if (z != gz) continue;
      if (z) {
        machine_double g = engine::fingerprint(got[i][cols]), w = engine::fingerprint(want[j][cols]);
        if (g * w > 0 || (g == 0 && w == 0)) m = j;
      } else if (engine::row_matches(got[i], want[j]))
        m = j;
    }
    ensure_true("C15/row-keeps-its-half-space", m >= 0);
    if (m >= 0) used[m] = true;
    if (m >= 0 && !isZero(kind[m])) ensure_row("C15/row-keeps-its-half-space", got[i], want[m]);
    // the reported count leaves out no row that constrains the solution
    if (m >= 0 && n >= 0 && i >= n) ensure_true("C15/left-out-rows-are-trivial", isZero(kind[m]) && kind[m] != ZERO_NEG);
  }
  ensure_true("C15/count-in-range", n >= -1 && n <= rows);
  ensure_true("C15/infeasible-zero-row-reported", !infeasible || n == -1);
  ensure_true("C15/feasible-not-reported-as-infeasible", infeasible || n >= 0);
  // normalised: rows of norm one
  if (n >= 0)
    for (int i = 0; i < n; ++i) {
      double s = 0;
      for (int j = 0; j < cols; ++j) s = s + A(i, j) * A(i, j);
      ensure_eq("C15/unit-rows", s, 1);
    }
}
CONTRACT("C15/normalize", "Normalize removeZeroRows", "<= 3 rows, <= 4 columns") {
  int rows = engine::choice("rows", 4), cols = engine::choice("columns", 2) ? 4 : 3;
  std::vector<int> kind;
  MatrixXX A = MatrixXX::Zero(rows, cols);
  VectorX b = VectorX::Zero(rows);
  for (int i = 0; i < rows; ++i) {
    kind.push_back(engine::choice("row" + S(i), KINDS));
    if (kind[i] == GENERIC)
      for (int j = 0; j < cols; ++j) A(i, j) = engine::posvar("A" + S(i) + S(j));
    if (kind[i] == SPARSE) A(i, i % cols) = -engine::posvar("A" + S(i));
    if (kind[i] == ZERO_NEG) b(i) = -engine::posvar("b" + S(i));
    if (kind[i] == ZERO_POS) b(i) = engine::posvar("b" + S(i));
    if (!isZero(kind[i])) b(i) = engine::var("b" + S(i));
  }
  normalised(A, b, kind);
}
// many rows, zero rows first, last, alone and in runs
CONTRACT("C15/larger", "Normalize removeZeroRows", "fixed numbers; 40 rows, <= 31 columns, 12 patterns of zero rows") {
  int pat = engine::choice("pattern", 12), zeros = engine::choice("zero-rows", 3);
  engine::setConcrete(true);
  const int rows = 40, cols = pat % 3 == 0 ? 31 : pat % 3 == 1 ? 6 : 3;
  static const unsigned long PAT[12] = {0x1, 0x8000000000, 0xf, 0xf000000000, 0x5555555555, 0xaaaaaaaaaa,
                                        0xfffff, 0xfffff00000, 0x7fffffffff, 0xffffffffff, 0x842108421, 0xe739c1};
  std::vector<int> kind;
  MatrixXX A = MatrixXX::Zero(rows, cols);
  VectorX b = VectorX::Zero(rows);
  bool neg = false;
  for (int i = 0; i < rows; ++i) {
    if (PAT[pat] >> i & 1) {
      // no infeasible row, one of them, any number
      kind.push_back(zeros == 0 || (zeros == 1 && neg) ? ZERO_NULL + i % 2 : i % 3 == 0 ? ZERO_NEG : ZERO_NULL + i % 2);
      if (kind[i] == ZERO_NEG) {
        neg = true;
        b(i) = -engine::posvar("b" + S(i));
      }
      if (kind[i] == ZERO_POS) b(i) = engine::posvar("b" + S(i));
      continue;
    }
    kind.push_back(i % 4 ? GENERIC : SPARSE);
    for (int j = 0; j < cols; ++j)
      if (kind[i] == GENERIC || j == i % cols) A(i, j) = engine::var("A" + S(i) + "_" + S(j));
    b(i) = engine::var("b" + S(i));
  }
  normalised(A, b, kind);
}
