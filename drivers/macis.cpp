// Instantiates every public template of macis (type-checked only, never run).
#include <macis/types.hpp>
#include <macis/bitset_operations.hpp>
#include <macis/csr_hamiltonian.hpp>
#include <macis/hamiltonian_generator.hpp>
#include <macis/hamiltonian_generator/double_loop.hpp>
#include <macis/sd_operations.hpp>
#include <macis/wavefunction_io.hpp>
#include <macis/solvers/davidson.hpp>
#include <macis/solvers/selected_ci_diag.hpp>
#include <macis/asci/determinant_search.hpp>
#include <macis/asci/determinant_sort.hpp>
#include <macis/asci/grow.hpp>
#include <macis/asci/iteration.hpp>
#include <macis/asci/mask_constraints.hpp>
#include <macis/asci/refine.hpp>
#include <macis/util/binary_rdms.hpp>
#include <macis/util/cas.hpp>
#include <macis/util/diis.hpp>
#include <macis/util/dist_quickselect.hpp>
#include <macis/util/fcidump.hpp>
#include <macis/util/fock_matrices.hpp>
#include <macis/util/mcscf.hpp>
#include <macis/util/mcscf_impl.hpp>
#include <macis/util/memory.hpp>
#include <macis/util/moller_plesset.hpp>
#include <macis/util/mpi.hpp>
#include <macis/util/orbital_energies.hpp>
#include <macis/util/orbital_gradient.hpp>
#include <macis/util/orbital_hessian.hpp>
#include <macis/util/orbital_rotation_utilities.hpp>
#include <macis/util/orbital_steps.hpp>
#include <macis/util/rdms.hpp>
#include <macis/util/transform.hpp>

namespace macis {
template <class... T> void sink(T&&...) {}

template <size_t N> void use_bits() {
  std::bitset<N> b;
  std::vector<uint32_t> ind;
  sink(ffs(b), fls(b));
  if constexpr(N <= 64) sink(fast_to_ullong(b), fast_to_ulong(b));
  sink(full_mask<N>(), full_mask<N>(1));
  bits_to_indices(b, ind);
  sink(bits_to_indices(b));
  sink(truncate_bitset<N / 2>(b), expand_bitset<2 * N>(b));
  if constexpr(N == 64 or N == 128) sink(bitset_lo_word(b), bitset_hi_word(b));
  sink(bitset_less(b, b), bitset_less_comparator<N>{}(b, b));
}
void bits() {
  use_bits<32>();
  use_bits<64>();
  use_bits<128>();
  use_bits<256>();
  sink(full_mask<16, 64>(), full_mask<32, 64>(), full_mask<64, 128>());
  sink(clz(1u), clz(1ul), clz(1ull));
  sink(to_uint128(std::bitset<128>{}));
}

template <size_t N> void use_sd() {
  std::bitset<N> b;
  std::bitset<N / 2> h;
  std::vector<uint32_t> occ, vir;
  std::vector<std::bitset<N>> v, w;
  std::vector<std::bitset<N / 2>> hv;
  sink(canonical_hf_determinant<N>(1, 1));
  sink(canonical_hf_determinant<N>(1, 1, std::vector<double>{}));
  bitset_to_occ_vir(1, b, occ, vir);
  bitset_to_occ_vir(1, h, occ, vir);
  bitset_to_occ_vir_as(1, b, occ, vir, occ);
  append_singles(b, occ, vir, v);
  append_doubles(b, occ, vir, v);
  generate_singles(1, b, v);
  generate_doubles(1, b, v);
  generate_singles_doubles(1, b, v, w);
  generate_singles_as(1, b, v, occ);
  generate_singles_doubles_as(1, b, v, w, occ);
  generate_singles_spin_as(1, b, v, occ);
  generate_singles_doubles_spin_as(1, b, v, w, occ);
  generate_singles_spin(1, b, v);
  generate_singles_doubles_spin(1, b, v, w);
  generate_cisd_hilbert_space(1, b, v);
  sink(generate_cisd_hilbert_space(1, b));
  generate_cis_hilbert_space(1, b, v);
  sink(generate_cis_hilbert_space(1, b));
  sink(generate_combs<N>(1, 1), generate_hilbert_space<N>(1, 1, 1));
  sink(first_occupied_flipped(b, b), single_excitation_sign(b, 1, 1));
  sink(single_excitation_sign_indices(b, b, b));
  sink(doubles_sign_indices(b, b, b), doubles_sign(b, b, b));
  generate_residues(b, v);
  sink(to_canonical_string(b), from_canonical_string<N>(""));
}
void sd() {
  use_sd<64>();
  use_sd<128>();
}

using HG = HamiltonianGenerator<64>;
using DL = DoubleLoopHamiltonianGenerator<64>;
template class HamiltonianGenerator<64>;
template class DoubleLoopHamiltonianGenerator<64>;
template class NamedType<size_t, struct sink_tag>;

void ham(MPI_Comm comm) {
  double* p = nullptr;
  DL g(matrix_span<double>(p, 1, 1), rank4_span<double>(p, 1, 1, 1, 1));
  std::vector<wfn_t<64>> d;
  std::vector<uint32_t> o;
  sink(g.make_csr_hamiltonian_block<int64_t>(d.begin(), d.end(), d.begin(), d.end(), 0.));
  sink(g.make_csr_hamiltonian_block<int32_t>(d.begin(), d.end(), d.begin(), d.end(), 0.));
  sink(make_csr_hamiltonian_block<int64_t>(d.begin(), d.end(), d.begin(), d.end(), g, 0.));
  sink(make_csr_hamiltonian<int64_t>(d.begin(), d.end(), g, 0.));
  sink(make_dist_csr_hamiltonian<int64_t>(comm, d.begin(), d.end(), g, 0.));
  sink(make_dist_csr_hamiltonian<int32_t>(comm, d.begin(), d.end(), g, 0.));
  std::vector<double> C;
  sink(selected_ci_diag<64, int64_t>(d.begin(), d.end(), g, 0., 1, 0., C, comm));
  sink(selected_ci_diag<64, int32_t>(d.begin(), d.end(), g, 0., 1, 0., C, comm));
  auto H = make_csr_hamiltonian<int64_t>(d.begin(), d.end(), g, 0.);
  sink(serial_selected_ci_diag(H, 1, 0., C));
  auto dH = make_dist_csr_hamiltonian<int64_t>(comm, d.begin(), d.end(), g, 0.);
  SparseMatrixOperator sop(dH);
  sop.operator_action(1, 1., p, 1, 0., p, 1);
  SparseMatrixOperator hop(H);
  hop.operator_action(1, 1., p, 1, 0., p, 1);
  diagonal_guess(1, H, p);
  p_diagonal_guess(1, dH, p);
  sink(davidson(1, 1, hop, p, 0., p), p_davidson(1, 1, sop, p, 0., p, comm));
  gram_schmidt(1, 1, p, 1, p);
  p_gram_schmidt(1, 1, p, 1, p, comm);
  MCSCFSettings ms;
  ASCISettings as;
  sink(compute_casci_rdms<DL>(ms, NumOrbital(1), 1, 1, p, p, p, p, C, comm));
  sink(asci_grow<64, int32_t>(as, ms, 0., d, C, g, 1, comm), asci_refine<64, int32_t>(as, ms, 0., d, C, g, 1, comm),
       asci_iter<64, int32_t>(as, ms, 1, 0., d, C, g, 1, comm));
  read_wavefunction<64>("", d, C);
  write_wavefunction<64>("", 1, d, C);
  reorder_ci_on_coeff(d, C);
  asci_contrib_container<wfn_t<64>> ac;
  sort_and_accumulate_asci_pairs(ac);
  keep_only_largest_copy_asci_pairs(ac);
  sink(asci_contributions_standard<64>(as, d.begin(), d.end(), 0., C, 1, p, p, p, p, p, g));
  sink(asci_contributions_constraint<64>(as, d.begin(), d.end(), 0., C, 1, p, p, p, p, p, g, comm));
  rdm_contributions_4(d[0], d[0], d[0], 0., rank4_span<double>(p, 1, 1, 1, 1));
  g.rotate_hamiltonian_ordm(p);
  matrix_span<double> od(p, 1, 1);
  rank4_span<double> td(p, 1, 1, 1, 1);
  {
    wfn_t<32> s;
    rdm_contributions(s, s, s, s, s, s, o, o, 0., od, td);
  }
  g.form_rdms(d.begin(), d.end(), d.begin(), d.end(), p, od, td);
  using cidx = std::vector<int>;
}

template <class VecType> void diis_use() {
  DIIS<VecType> d(5);
  d.add_vector(VecType{}, VecType{});
  sink(d.extrapolate());
}
void misc(MPI_Comm comm) {
  diis_use<std::vector<double>>();
  double* p = nullptr;
  std::vector<double> v;
  sink(dist_quickselect(v.begin(), v.end(), 1, comm, std::greater<double>{}, std::equal_to<double>{}));
  sink(to_gib(v));
  allreduce(p, p, 1, MPI_SUM, comm);
  allreduce(p, 1, MPI_SUM, comm);
  sink(allreduce(1., MPI_SUM, comm), allreduce(size_t(1), MPI_SUM, comm));
  bcast(p, 1, 0, comm);
  std::bitset<64>* bb = nullptr;
  bcast(bb, 1, 0, comm);
  std::bitset<32>* bq = nullptr;
  bcast(bq, 1, 0, comm);
  bcast((std::bitset<128>*)nullptr, 1, 0, comm);
  int* ip = nullptr;
  bcast(ip, 1, 0, comm);
  sink(mpi_traits<std::bitset<128>>::datatype(), make_contiguous_mpi_datatype<double>(2));
#define MT(T) sink(mpi_traits<T>::datatype());
  MT(int) MT(double) MT(float) MT(size_t)
  approx_diag_hessian(NumInactive(1), NumActive(1), NumVirtual(1), p, 1, p, 1, p, 1, p, 1, p);
  sink(split_linear_orb_rot(NumInactive(1), NumActive(1), NumVirtual(1), p));
  MCSCFSettings ms;
  CASRDMFunctor<DL> f;
  sink(mcscf_impl(f, ms, NumElectron(1), NumElectron(1), NumOrbital(1), NumInactive(1), NumActive(1), NumVirtual(1), 0., p, 1, p, 1, p, 1, p, 1, comm));
}
void more() {
  double* p = nullptr;
  std::vector<std::bitset<64>> d;
  std::bitset<64> w;
  sink(make_quad<64>(4u, 3u, 2u, 1u));
  generate_constraint_singles(w, w, w, w, d);
  generate_constraint_doubles(w, w, w, w, d);
  approx_diag_hessian(NumOrbital(1), NumInactive(1), NumActive(1), NumVirtual(1), p, 1, p, 1, p, 1, p, 1, p);
}
}  // namespace macis
