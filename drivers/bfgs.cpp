// BFGS / line search templates with a vector functor.
#include <spdlog/spdlog.h>
#include <spdlog/sinks/stdout_color_sinks.h>
#include <bfgs/bfgs.hpp>
#include <bfgs/line_search.hpp>
struct F {
  using argument_type = std::vector<double>;
  using return_type = double;
  double eval(const argument_type&);
  argument_type grad(const argument_type&);
  bool converged(const argument_type&, const argument_type&);
  static double dot(const argument_type&, const argument_type&);
  static double norm(const argument_type&);
  static void axpy(double, const argument_type&, argument_type&);
  static void scal(double, argument_type&);
  static argument_type subtract(const argument_type&, const argument_type&);
};
void use() {
  F f;
  std::vector<double> x;
  double s = 0;
  auto a = bfgs::make_identity_hessian<F>();
  auto b = bfgs::make_updated_scaled_hessian<F>();
  auto c = bfgs::make_static_scaled_hessian<F>();
  bfgs::DiagInitializedBFGSHessian<F> d(1, &s);
  bfgs::RuntimeInitializedBFGSHessian<F> e([](std::vector<double>&) {});
  bfgs::bfgs(f, x, *a, bfgs::BFGSSettings{});
  bfgs::bfgs(f, x, bfgs::BFGSSettings{});
  bfgs::backtracking_line_search(f, x, x, s, x, s, x);
  bfgs::nocedal_wright_line_search(f, x, x, s, x, s, x);
  bfgs::discrete_line_search(f, x, x, s, x, s, x);
}
