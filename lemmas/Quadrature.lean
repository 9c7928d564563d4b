import Mathlib.Analysis.SpecialFunctions.Integrals.Basic
import Mathlib.Algebra.Polynomial.Degree.Lemmas
import Mathlib.LinearAlgebra.Lagrange

/-! Mathematical lemmas over the contracts of C02 / C07: a rule that is exact on [-1, 1], moved to [a, b]. -/

open Polynomial Finset intervalIntegral

noncomputable section
namespace Qmat

/-- the rule (ξ, ω) of N points integrates the monomials below m exactly over [-1, 1] -/
def Exact (N : ℕ) (ξ ω : ℕ → ℝ) (m : ℕ) : Prop :=
  ∀ k < m, ∑ q ∈ range N, ω q * ξ q ^ k = ∫ t in (-1:ℝ)..1, t ^ k

variable {N m : ℕ} {ξ ω : ℕ → ℝ}

theorem exact_poly (h : Exact N ξ ω m) (p : ℝ[X]) (hp : p.degree < m) :
    ∑ q ∈ range N, ω q * p.eval (ξ q) = ∫ t in (-1:ℝ)..1, p.eval t := by
  have hm : ∀ t : ℝ, p.eval t = ∑ k ∈ range m, p.coeff k * t ^ k := by
    intro t
    rw [eval_eq_sum, sum_def]
    refine sum_subset (fun k hk => ?_) (fun k _ hk => by rw [notMem_support_iff.1 hk, zero_mul])
    rw [mem_range]
    by_contra hc
    exact mem_support_iff.1 hk (coeff_eq_zero_of_degree_lt (lt_of_lt_of_le hp (by exact_mod_cast not_lt.1 hc)))
  simp_rw [hm]
  rw [integral_finsetSum (fun k _ => Continuous.intervalIntegrable (by fun_prop) _ _)]
  simp_rw [integral_const_mul]
  simp_rw [mul_sum]
  rw [sum_comm]
  refine sum_congr rfl fun k hk => ?_
  rw [← h k (mem_range.1 hk), mul_sum]
  exact sum_congr rfl fun q _ => by ring

/-- C02: the moved rule is exact on every interval (forward, backward, empty) -/
theorem affine_rule (h : Exact N ξ ω m) (p : ℝ[X]) (hp : p.degree < m) (a b : ℝ) :
    ∑ q ∈ range N, ω q * ((b - a) / 2) * p.eval ((b - a) / 2 * ξ q + (b + a) / 2) = ∫ t in a..b, p.eval t := by
  let s : ℝ[X] := C ((b - a) / 2) * X + C ((b + a) / 2)
  have hs : ∀ t : ℝ, (p.comp s).eval t = p.eval ((b - a) / 2 * t + (b + a) / 2) := by
    intro t; simp [s, eval_comp]
  have hd : (p.comp s).degree < m := by
    by_cases h0 : p.comp s = 0
    · rw [h0, degree_zero]; exact WithBot.bot_lt_coe m
    · rw [degree_eq_natDegree h0]
      have h1 : (p.comp s).natDegree ≤ p.natDegree := by
        rw [natDegree_comp]
        have : s.natDegree ≤ 1 := natDegree_linear_le
        nlinarith [Nat.zero_le p.natDegree]
      have hp0 : p ≠ 0 := by rintro rfl; simp at h0
      have h2 : p.natDegree < m := by
        rw [degree_eq_natDegree hp0] at hp; exact_mod_cast hp
      exact_mod_cast lt_of_le_of_lt h1 h2
  have he := exact_poly h _ hd
  simp_rw [hs] at he
  have hl : ∑ q ∈ range N, ω q * ((b - a) / 2) * p.eval ((b - a) / 2 * ξ q + (b + a) / 2)
      = (b - a) / 2 * ∑ q ∈ range N, ω q * p.eval ((b - a) / 2 * ξ q + (b + a) / 2) := by
    rw [mul_sum]; exact sum_congr rfl fun q _ => by ring
  rw [hl, he]
  by_cases hab : b = a
  · simp [hab]
  · have hc : (b - a) / 2 ≠ 0 := by
      intro hc; exact hab (by linarith)
    have := intervalIntegral.mul_integral_comp_mul_add (a := -1) (b := 1) (f := fun t => p.eval t) ((b - a) / 2) ((b + a) / 2)
    rw [this]
    congr 1 <;> ring

/-- C02: a row of the integration matrix, `Q j = sum_q ω_q (b - a)/2 P(τ_q, j)` with interpolation rows P -/
theorem integration_row (h : Exact N ξ ω m) {n : ℕ} (x : ℕ → ℝ) (a b : ℝ) (P : ℕ → ℕ → ℝ) (Q : ℕ → ℝ)
    (hQ : ∀ j < n, Q j = ∑ q ∈ range N, ω q * ((b - a) / 2) * P q j)
    (p : ℝ[X]) (hp : p.degree < m)
    (hP : ∀ q < N, ∑ j ∈ range n, P q j * p.eval (x j) = p.eval ((b - a) / 2 * ξ q + (b + a) / 2)) :
    ∑ j ∈ range n, Q j * p.eval (x j) = ∫ t in a..b, p.eval t := by
  rw [← affine_rule h p hp a b]
  calc ∑ j ∈ range n, Q j * p.eval (x j)
      = ∑ j ∈ range n, ∑ q ∈ range N, ω q * ((b - a) / 2) * (P q j * p.eval (x j)) := by
        refine sum_congr rfl fun j hj => ?_
        rw [hQ j (mem_range.1 hj), sum_mul]
        exact sum_congr rfl fun q _ => by ring
    _ = _ := by
        rw [sum_comm]
        refine sum_congr rfl fun q hq => ?_
        rw [← mul_sum, hP q (mem_range.1 hq)]

end Qmat
end

#print axioms Qmat.exact_poly
#print axioms Qmat.affine_rule
#print axioms Qmat.integration_row
