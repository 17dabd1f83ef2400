// The calls of the code to GLPK go to a recording implementation of the
// interface (assumed contract of an external library; see glp_stub.cc).
#ifndef VERIF_GLP_REDIRECT_HH
#define VERIF_GLP_REDIRECT_HH
#include <functional>
#include <map>
#include <vector>
#ifdef VERIF_SYMBOLIC
#define VERIF_SCALAR sym::Sym
#else
#define VERIF_SCALAR double
#endif
namespace glpstub {
struct Bnd {
  int type;
  VERIF_SCALAR lb, ub;
};
struct Prob {
  int dir, rows, cols;
  std::map<int, Bnd> row, col;  // 1-based
  std::map<int, VERIF_SCALAR> obj;
  std::map<std::pair<int, int>, VERIF_SCALAR> mat;
  bool deleted;
  std::vector<const char*> misuse;  // violated preconditions of the library
};
extern Prob last;
extern int simplexReturn, status;         // chosen by the contract
extern std::vector<VERIF_SCALAR> primal;  // chosen by the contract
extern VERIF_SCALAR objVal;
extern int liveProblems, solves;
void reset();
glp_prob* create_prob();
void set_prob_name(glp_prob*, const char*);
void set_obj_dir(glp_prob*, int);
int add_rows(glp_prob*, int);
int add_cols(glp_prob*, int);
void set_row_bnds(glp_prob*, int, int, const VERIF_SCALAR&, const VERIF_SCALAR&);
void set_col_bnds(glp_prob*, int, int, const VERIF_SCALAR&, const VERIF_SCALAR&);
void set_obj_coef(glp_prob*, int, const VERIF_SCALAR&);
void load_matrix(glp_prob*, int, const int*, const int*, const VERIF_SCALAR*);
void set_mat_row(glp_prob*, int, int, const int*, const VERIF_SCALAR*);
void set_mat_col(glp_prob*, int, int, const int*, const VERIF_SCALAR*);
void init_smcp(glp_smcp*);
int simplex(glp_prob*, const glp_smcp*);
int get_status(glp_prob*);
VERIF_SCALAR get_obj_val(glp_prob*);
VERIF_SCALAR get_col_prim(glp_prob*, int);
int get_num_rows(glp_prob*);
int get_num_cols(glp_prob*);
void delete_prob(glp_prob*);
void erase_prob(glp_prob*);
int free_env();
int term_out(int);
inline void nop(glp_prob*, int = 0) {}
}  // namespace glpstub
#define glp_create_prob glpstub::create_prob
#define glp_set_prob_name glpstub::set_prob_name
#define glp_set_obj_name glpstub::set_prob_name
#define glp_set_obj_dir glpstub::set_obj_dir
#define glp_add_rows glpstub::add_rows
#define glp_add_cols glpstub::add_cols
#define glp_set_row_bnds glpstub::set_row_bnds
#define glp_set_col_bnds glpstub::set_col_bnds
#define glp_set_obj_coef glpstub::set_obj_coef
#define glp_load_matrix glpstub::load_matrix
#define glp_set_mat_row glpstub::set_mat_row
#define glp_set_mat_col glpstub::set_mat_col
#define glp_init_smcp glpstub::init_smcp
#define glp_simplex glpstub::simplex
#define glp_exact glpstub::simplex
#define glp_get_status glpstub::get_status
#define glp_get_prim_stat glpstub::get_status
#define glp_get_obj_val glpstub::get_obj_val
#define glp_get_col_prim glpstub::get_col_prim
#define glp_get_num_rows glpstub::get_num_rows
#define glp_get_num_cols glpstub::get_num_cols
#define glp_delete_prob glpstub::delete_prob
#define glp_erase_prob glpstub::erase_prob
#define glp_free_env glpstub::free_env
#define glp_term_out glpstub::term_out
#define glp_scale_prob glpstub::nop
#define glp_adv_basis glpstub::nop
#define glp_std_basis glpstub::nop
#endif
