#include <lobpcgxx/lobpcg.hpp>
namespace lobpcgxx {
template class lobpcg_operator<double>;
void use() {
  double* p = nullptr;
  int64_t lw = 0;
  operator_action_type<double> f;
  lobpcg_operator<double> op(f), op2(f, f), op3(op);
  lobpcg_settings s;
  lobpcg_convergence<double> conv;
  lobpcg_convergence_check<double> chk = lobpcg_absres_convergence_check<double>;
  lobpcg(s, 1, 1, 1, op, p, p, 1, p, p, lw, conv);
  lobpcg(s, 1, 1, 1, op, p, p, 1, p, conv);
  lobpcg(s, 1, 1, 1, op, p, p, 1, p, p, lw);
  lobpcg(s, 1, 1, 1, op, p, p, 1, p);
  lobpcg(s, 1, 1, 1, op, p, p, 1, p, p, lw, chk, conv);
}
}
