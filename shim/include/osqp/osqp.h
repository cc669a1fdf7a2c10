// Stand-in for the OSQP 0.6 C interface (OSQP is not installed here): declares the parts the bridge
// uses; the functions are defined by the harness, which records what it is handed.
#pragma once
#include <cstdlib>

typedef long long c_int;
typedef double c_float;
#define c_malloc vh_osqp_malloc
#define c_free vh_osqp_free
extern "C" {
void * vh_osqp_malloc(std::size_t);
void vh_osqp_free(void *);
}

#define OSQP_DUAL_INFEASIBLE_INACCURATE (4)
#define OSQP_PRIMAL_INFEASIBLE_INACCURATE (3)
#define OSQP_SOLVED_INACCURATE (2)
#define OSQP_SOLVED (1)
#define OSQP_MAX_ITER_REACHED (-2)
#define OSQP_PRIMAL_INFEASIBLE (-3)
#define OSQP_DUAL_INFEASIBLE (-4)
#define OSQP_SIGINT (-5)
#define OSQP_TIME_LIMIT_REACHED (-6)
#define OSQP_NON_CVX (-7)
#define OSQP_UNSOLVED (-10)

enum linsys_solver_type { QDLDL_SOLVER, MKL_PARDISO_SOLVER };

typedef struct
{
  c_int nzmax, m, n;
  c_int *p, *i;
  c_float * x;
  c_int nz;
} csc;

typedef struct
{
  c_float rho, sigma;
  c_int scaling;
  c_int adaptive_rho, adaptive_rho_interval;
  c_float adaptive_rho_tolerance, adaptive_rho_fraction;
  c_int max_iter;
  c_float eps_abs, eps_rel, eps_prim_inf, eps_dual_inf, alpha;
  enum linsys_solver_type linsys_solver;
  c_float delta;
  c_int polish, polish_refine_iter, verbose, scaled_termination, check_termination, warm_start;
  c_float time_limit;
} OSQPSettings;

typedef struct
{
  c_int n, m;
  csc *P, *A;
  c_float *q, *l, *u;
} OSQPData;

typedef struct
{
  c_float *x, *y;
} OSQPSolution;

typedef struct
{
  c_int iter;
  char status[32];
  c_int status_val, status_polish;
  c_float obj_val, pri_res, dua_res, setup_time, solve_time, update_time, polish_time, run_time;
  c_int rho_updates;
  c_float rho_estimate;
} OSQPInfo;

typedef struct
{
  OSQPData * data;
  OSQPSettings * settings;
  OSQPSolution * solution;
  OSQPInfo * info;
  void * priv;
} OSQPWorkspace;

extern "C" {
void osqp_set_default_settings(OSQPSettings *);
c_int osqp_setup(OSQPWorkspace **, const OSQPData *, const OSQPSettings *);
c_int osqp_solve(OSQPWorkspace *);
c_int osqp_warm_start(OSQPWorkspace *, const c_float *, const c_float *);
c_int osqp_cleanup(OSQPWorkspace *);
csc * csc_matrix(c_int m, c_int n, c_int nzmax, c_float * x, c_int * i, c_int * p);
}
