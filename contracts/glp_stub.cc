// Recording implementation of the GLPK interface.  simplex() returns the
// outcome chosen by the contract under proof; the preconditions of the library
// (documented in its reference manual) are checked and recorded as `misuse`.
#include "spec.hh"
namespace glpstub {
Prob last;
int simplexReturn = 0, status = GLP_OPT, liveProblems = 0, solves = 0;
std::vector<double> primal;
double objVal = 0;
static Prob cur;
static glp_prob* H() {
  static int h;
  return (glp_prob*)&h;
}
static void bad(const char* s) { cur.misuse.push_back(s); }
void reset() {
  cur = Prob();
  cur.rows = cur.cols = cur.dir = 0;
  cur.deleted = false;
  last = cur;
  liveProblems = solves = 0;
  simplexReturn = 0;
  status = GLP_OPT;
  primal.clear();
  objVal = 0;
}
glp_prob* create_prob() {
  cur = Prob();
  cur.dir = GLP_MIN;
  cur.rows = cur.cols = 0;
  cur.deleted = false;
  ++liveProblems;
  return H();
}
void set_prob_name(glp_prob*, const char*) {}
void set_obj_dir(glp_prob*, int d) { cur.dir = d; }
int add_rows(glp_prob*, int n) {
  if (n < 1) bad("glp_add_rows: number of rows < 1");
  int f = cur.rows + 1;
  for (int i = 0; i < n; ++i) {
    Bnd b = {GLP_FR, double(0), double(0)};
    cur.row[++cur.rows] = b;
  }
  return f;
}
int add_cols(glp_prob*, int n) {
  if (n < 1) bad("glp_add_cols: number of columns < 1");
  int f = cur.cols + 1;
  for (int i = 0; i < n; ++i) {
    Bnd b = {GLP_FX, double(0), double(0)};
    cur.col[++cur.cols] = b;
    cur.obj[cur.cols] = double(0);
  }
  return f;
}
void set_row_bnds(glp_prob*, int i, int t, const double& l, const double& u) {
  if (i < 1 || i > cur.rows) bad("glp_set_row_bnds: row out of range");
  Bnd b = {t, l, u};
  cur.row[i] = b;
}
void set_col_bnds(glp_prob*, int j, int t, const double& l, const double& u) {
  if (j < 1 || j > cur.cols) bad("glp_set_col_bnds: column out of range");
  Bnd b = {t, l, u};
  cur.col[j] = b;
}
void set_obj_coef(glp_prob*, int j, const double& c) {
  if (j < 0 || j > cur.cols) bad("glp_set_obj_coef: column out of range");
  cur.obj[j] = c;
}
static void put(int i, int j, const double& v) {
  if (i < 1 || i > cur.rows || j < 1 || j > cur.cols) bad("constraint matrix: index out of range");
  if (cur.mat.count(std::make_pair(i, j))) bad("constraint matrix: duplicate element");
  cur.mat[std::make_pair(i, j)] = v;
}
void load_matrix(glp_prob*, int ne, const int* ia, const int* ja, const double* ar) {
  cur.mat.clear();
  for (int k = 1; k <= ne; ++k) put(ia[k], ja[k], ar[k]);
}
void set_mat_row(glp_prob*, int i, int len, const int* ind, const double* val) {
  for (auto it = cur.mat.begin(); it != cur.mat.end();)
    if (it->first.first == i) it = cur.mat.erase(it); else ++it;
  for (int k = 1; k <= len; ++k) put(i, ind[k], val[k]);
}
void set_mat_col(glp_prob*, int j, int len, const int* ind, const double* val) {
  for (auto it = cur.mat.begin(); it != cur.mat.end();)
    if (it->first.second == j) it = cur.mat.erase(it); else ++it;
  for (int k = 1; k <= len; ++k) put(ind[k], j, val[k]);
}
void init_smcp(glp_smcp* p) { std::memset((void*)p, 0, sizeof(*p)); }
int simplex(glp_prob*, const glp_smcp*) {
  // glp_simplex returns GLP_EBOUND when a double-bounded row or column does
  // not have lb < ub
  bool ebound = false;
  for (auto* m : {&cur.row, &cur.col})
    for (auto& e : *m)
      if (e.second.type == GLP_DB && !(e.second.lb < e.second.ub)) ebound = true;
  if (ebound) bad("glp_simplex: double-bounded variable without lb < ub (GLP_EBOUND)");
  last = cur;
  ++solves;
  return simplexReturn;
}
int get_status(glp_prob*) { return status; }
double get_obj_val(glp_prob*) { return objVal; }
double get_col_prim(glp_prob*, int j) {
  if (j < 1 || j > cur.cols) {
    last.misuse.push_back("glp_get_col_prim: column out of range");
    return double(0);
  }
  if (j > (int)primal.size()) return double(0);
  return primal[j - 1];
}
int get_num_rows(glp_prob*) { return cur.rows; }
int get_num_cols(glp_prob*) { return cur.cols; }
void delete_prob(glp_prob*) { last.deleted = true; --liveProblems; }
void erase_prob(glp_prob*) { create_prob(); --liveProblems; }
int free_env() { return 0; }
int term_out(int) { return 1; }
}  // namespace glpstub
