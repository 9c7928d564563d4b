import Mathlib.LinearAlgebra.Lagrange
import Mathlib.Analysis.Calculus.Deriv.Polynomial

/-! Mathematical lemmas over the contracts of qmat.lagrange (C01, C03).
The hypotheses are the postconditions proved by the contracts, word for word:
`x` distinct points, `w` non-zero with `w i * nodal i = w j * nodal j`. -/

open Polynomial Finset

noncomputable section
namespace Qmat

/-- prod_{k < n, k != j} (x j - x k), as written in the contract -/
def nodal (n : ℕ) (x : ℕ → ℝ) (j : ℕ) : ℝ := ∏ k ∈ range n, if k = j then 1 else x j - x k

/-- postcondition of LagrangeApproximation.__init__ -/
structure Weights (n : ℕ) (x w : ℕ → ℝ) : Prop where
  dist : ∀ i < n, ∀ j < n, i ≠ j → x i ≠ x j
  nz : ∀ i < n, w i ≠ 0
  common : ∀ i < n, ∀ j < n, w i * nodal n x i = w j * nodal n x j

variable {n : ℕ} {x w : ℕ → ℝ}

theorem Weights.inj (h : Weights n x w) : Set.InjOn x (range n : Finset ℕ) := by
  intro i hi j hj hij
  by_contra hne
  exact h.dist i (by simpa using hi) j (by simpa using hj) hne hij

theorem nodal_eq {j : ℕ} (hj : j < n) : nodal n x j = ∏ k ∈ (range n).erase j, (x j - x k) := by
  unfold nodal
  rw [← mul_prod_erase (range n) _ (mem_range.2 hj)]
  simp only [if_true, one_mul]
  exact prod_congr rfl fun k hk => by simp [(mem_erase.1 hk).1]

theorem nodal_ne (h : Weights n x w) {j : ℕ} (hj : j < n) : nodal n x j ≠ 0 := by
  rw [nodal_eq hj]
  refine prod_ne_zero_iff.2 fun k hk => sub_ne_zero.2 ?_
  exact h.dist j hj k (by simpa using (mem_erase.1 hk).2) (mem_erase.1 hk).1.symm

theorem weight_eq {j : ℕ} (hj : j < n) : Lagrange.nodalWeight (range n) x j = (nodal n x j)⁻¹ := by
  rw [nodal_eq hj, Lagrange.nodalWeight, prod_inv_distrib]

/-- the weights are c / nodal -/
theorem Weights.scale (h : Weights n x w) :
    ∃ c : ℝ, (0 < n → c ≠ 0) ∧ ∀ i < n, w i = c * Lagrange.nodalWeight (range n) x i := by
  rcases Nat.eq_zero_or_pos n with h0 | h0
  · exact ⟨0, by omega, by omega⟩
  · refine ⟨w 0 * nodal n x 0, fun _ => mul_ne_zero (h.nz 0 h0) (nodal_ne h h0), fun i hi => ?_⟩
    rw [weight_eq hi, ← h.common i hi 0 h0, mul_assoc, mul_inv_cancel₀ (nodal_ne h hi), mul_one]

/-- the barycentric denominator does not vanish (hypothesis of the contract 'interpolation') -/
theorem Weights.den_ne_zero (h : Weights n x w) (hn : 0 < n) {t : ℝ} (ht : ∀ k < n, t ≠ x k) :
    (∑ k ∈ range n, w k * (t - x k)⁻¹) ≠ 0 := by
  obtain ⟨c, hc, hw⟩ := h.scale
  have : (∑ k ∈ range n, w k * (t - x k)⁻¹) = c * ∑ k ∈ range n, Lagrange.nodalWeight (range n) x k * (t - x k)⁻¹ := by
    rw [mul_sum]
    exact sum_congr rfl fun k hk => by rw [hw k (mem_range.1 hk)]; ring
  rw [this]
  refine mul_ne_zero (hc hn) (Lagrange.sum_nodalWeight_mul_inv_sub_ne_zero h.inj (fun i hi => ht i (mem_range.1 hi)) ?_)
  exact ⟨0, mem_range.2 hn⟩

/-- C01: a row satisfying the postcondition of getInterpolationMatrix reproduces every polynomial of degree < n -/
theorem row_reproduces (h : Weights n x w) (hn : 0 < n) {t : ℝ} (P : ℕ → ℝ)
    (off : (∀ k < n, t ≠ x k) → ∀ j < n, P j * (∑ k ∈ range n, w k * (t - x k)⁻¹) = w j * (t - x j)⁻¹)
    (on : ∀ q < n, t = x q → ∀ j < n, P j = if j = q then 1 else 0)
    (p : ℝ[X]) (hp : p.degree < n) : ∑ j ∈ range n, P j * p.eval (x j) = p.eval t := by
  by_cases ht : ∀ k < n, t ≠ x k
  · have hd := h.den_ne_zero hn ht
    obtain ⟨c, hc, hw⟩ := h.scale
    have hc := hc hn
    have hpe : p = Lagrange.interpolate (range n) x (fun i => p.eval (x i)) :=
      Lagrange.eq_interpolate h.inj (by simpa using hp)
    have hs : (∑ k ∈ range n, w k * (t - x k)⁻¹) = c * ∑ k ∈ range n, Lagrange.nodalWeight (range n) x k * (t - x k)⁻¹ := by
      rw [mul_sum]
      exact sum_congr rfl fun k hk => by rw [hw k (mem_range.1 hk)]; ring
    conv_rhs => rw [hpe]
    rw [Lagrange.eval_interpolate_not_at_node' _ h.inj ⟨0, mem_range.2 hn⟩ (fun i hi => ht i (mem_range.1 hi)),
      eq_div_iff (Lagrange.sum_nodalWeight_mul_inv_sub_ne_zero h.inj (fun i hi => ht i (mem_range.1 hi)) ⟨0, mem_range.2 hn⟩)]
    apply mul_left_cancel₀ hc
    rw [mul_left_comm, ← hs, sum_mul, mul_sum]
    refine sum_congr rfl fun j hj => ?_
    have := off ht j (mem_range.1 hj)
    calc P j * p.eval (x j) * ∑ k ∈ range n, w k * (t - x k)⁻¹
        = (P j * ∑ k ∈ range n, w k * (t - x k)⁻¹) * p.eval (x j) := by ring
      _ = _ := by rw [this, hw j (mem_range.1 hj)]; ring
  · push Not at ht
    obtain ⟨q, hq, hx⟩ := ht
    rw [sum_eq_single q]
    · rw [on q hq hx q hq, hx]; simp
    · intro j hj hne
      rw [on q hq hx j (mem_range.1 hj)]; simp [hne]
    · intro hq'; exact absurd (mem_range.2 hq) hq'

/-! ### derivative matrices (C03) -/

theorem sum_weights_zero (h : Weights n x w) (g : ℝ[X]) (hg : g.degree < (n - 1 : ℕ)) :
    ∑ j ∈ range n, w j * g.eval (x j) = 0 := by
  obtain ⟨c, _, hw⟩ := h.scale
  have hn : g.degree < #(range n) := by
    rw [card_range]; exact lt_of_lt_of_le hg (by exact_mod_cast Nat.sub_le n 1)
  have := Lagrange.coeff_eq_sum h.inj hn
  rw [card_range, coeff_eq_zero_of_degree_lt hg] at this
  calc ∑ j ∈ range n, w j * g.eval (x j)
      = c * ∑ j ∈ range n, g.eval (x j) / ∏ k ∈ (range n).erase j, (x j - x k) := by
        rw [mul_sum]
        refine sum_congr rfl fun j hj => ?_
        rw [hw j (mem_range.1 hj), Lagrange.nodalWeight, prod_inv_distrib, div_eq_mul_inv]; ring
    _ = 0 := by rw [← this, mul_zero]

/-- p - p(a) = (X - a) g with deg g < deg p, p' (a) = g(a), p''(a) = 2 g'(a) -/
theorem exists_quot (p : ℝ[X]) (a : ℝ) (hn : 0 < n) (hp : p.degree < n) :
    ∃ g : ℝ[X], g.degree < (n - 1 : ℕ) ∧ (∀ y, p.eval y - p.eval a = (y - a) * g.eval y) ∧
      (derivative p).eval a = g.eval a ∧ (derivative (derivative p)).eval a = 2 * (derivative g).eval a := by
  obtain ⟨g, hg⟩ : (X - C a) ∣ (p - C (p.eval a)) := by
    rw [dvd_iff_isRoot]; simp
  have hpg : p = C (p.eval a) + (X - C a) * g := by rw [← hg]; ring
  refine ⟨g, ?_, fun y => ?_, ?_, ?_⟩
  · by_cases g0 : g = 0
    · simp [g0, WithBot.bot_lt_coe]
    have h1 : (p - C (p.eval a)).degree < n := by
      refine lt_of_le_of_lt (degree_sub_le _ _) (max_lt hp ?_)
      exact lt_of_le_of_lt degree_C_le (by exact_mod_cast hn)
    rw [hg, degree_mul, degree_X_sub_C, degree_eq_natDegree g0] at h1
    rw [degree_eq_natDegree g0]
    have h2 : 1 + g.natDegree < n := by exact_mod_cast h1
    exact_mod_cast (by omega : g.natDegree < n - 1)
  · have := congrArg (eval y) hg
    simpa using this
  · conv_lhs => rw [hpg]
    simp
  · conv_lhs => rw [hpg]
    simp; ring

/-- C03, first order -/
theorem deriv1 (h : Weights n x w) (hn : 0 < n) (D : ℕ → ℕ → ℝ)
    (offd : ∀ i < n, ∀ j < n, i ≠ j → D i j * (w i * (x i - x j)) = w j)
    (rows : ∀ i < n, ∑ j ∈ range n, D i j = 0)
    (p : ℝ[X]) (hp : p.degree < n) (i : ℕ) (hi : i < n) :
    ∑ j ∈ range n, D i j * p.eval (x j) = (derivative p).eval (x i) := by
  obtain ⟨g, hg, hq, h1, -⟩ := exists_quot p (x i) hn hp
  have hz := sum_weights_zero h g hg
  have hw := h.nz i hi
  have e1 : ∑ j ∈ range n, D i j * p.eval (x j) = ∑ j ∈ range n, D i j * (p.eval (x j) - p.eval (x i)) := by
    simp_rw [mul_sub, sum_sub_distrib, ← sum_mul, rows i hi]; ring
  rw [e1, h1]
  apply mul_left_cancel₀ hw
  rw [mul_sum, ← add_sum_erase _ _ (mem_range.2 hi)]
  rw [← add_sum_erase _ _ (mem_range.2 hi)] at hz
  have e2 : ∑ j ∈ (range n).erase i, w i * (D i j * (p.eval (x j) - p.eval (x i))) = - ∑ j ∈ (range n).erase i, w j * g.eval (x j) := by
    rw [← sum_neg_distrib]
    refine sum_congr rfl fun j hj => ?_
    have hj' := mem_erase.1 hj
    rw [hq, ← offd i hi j (mem_range.1 hj'.2) hj'.1.symm]; ring
  rw [e2]
  simp only [sub_self, mul_zero, zero_add]
  linarith

/-- C03, second order -/
theorem deriv2 (h : Weights n x w) (hn : 0 < n) (D E : ℕ → ℕ → ℝ)
    (offd : ∀ i < n, ∀ j < n, i ≠ j → D i j * (w i * (x i - x j)) = w j)
    (rows : ∀ i < n, ∑ j ∈ range n, D i j = 0)
    (offe : ∀ i < n, ∀ j < n, i ≠ j → E i j * (x i - x j) = -2 * D i j * (1 - D i i * (x i - x j)))
    (rowse : ∀ i < n, ∑ j ∈ range n, E i j = 0)
    (p : ℝ[X]) (hp : p.degree < n) (i : ℕ) (hi : i < n) :
    ∑ j ∈ range n, E i j * p.eval (x j) = (derivative (derivative p)).eval (x i) := by
  obtain ⟨g, hg, hq, -, h2⟩ := exists_quot p (x i) hn hp
  have hz := sum_weights_zero h g hg
  have hw := h.nz i hi
  have hgn : g.degree < n := lt_of_lt_of_le hg (by exact_mod_cast Nat.sub_le n 1)
  have hD := deriv1 h hn D offd rows g hgn i hi
  have e1 : ∑ j ∈ range n, E i j * p.eval (x j) = ∑ j ∈ range n, E i j * (p.eval (x j) - p.eval (x i)) := by
    simp_rw [mul_sub, sum_sub_distrib, ← sum_mul, rowse i hi]; ring
  rw [e1, h2, ← hD]
  rw [← add_sum_erase _ _ (mem_range.2 hi), ← add_sum_erase (range n) (fun j => D i j * g.eval (x j)) (mem_range.2 hi)]
  rw [← add_sum_erase _ _ (mem_range.2 hi)] at hz
  -- sum_{j != i} (w_j / w_i) g(x_j) = - g(x_i)
  have hs : ∑ j ∈ (range n).erase i, D i j * (x i - x j) * g.eval (x j) = - g.eval (x i) := by
    apply mul_left_cancel₀ hw
    rw [mul_sum]
    have : ∑ j ∈ (range n).erase i, w i * (D i j * (x i - x j) * g.eval (x j)) = ∑ j ∈ (range n).erase i, w j * g.eval (x j) := by
      refine sum_congr rfl fun j hj => ?_
      have hj' := mem_erase.1 hj
      rw [← offd i hi j (mem_range.1 hj'.2) hj'.1.symm]; ring
    rw [this]; linarith
  have e2 : ∑ j ∈ (range n).erase i, E i j * (p.eval (x j) - p.eval (x i))
      = 2 * ∑ j ∈ (range n).erase i, D i j * g.eval (x j) - 2 * D i i * ∑ j ∈ (range n).erase i, D i j * (x i - x j) * g.eval (x j) := by
    rw [mul_sum, mul_sum, ← sum_sub_distrib]
    refine sum_congr rfl fun j hj => ?_
    have hj' := mem_erase.1 hj
    have := offe i hi j (mem_range.1 hj'.2) hj'.1.symm
    rw [hq]
    calc E i j * ((x j - x i) * g.eval (x j)) = -(E i j * (x i - x j)) * g.eval (x j) := by ring
      _ = _ := by rw [this]; ring
  rw [e2, hs]
  simp only [sub_self, mul_zero, zero_add]
  ring

end Qmat
end

#print axioms Qmat.row_reproduces
#print axioms Qmat.deriv1
#print axioms Qmat.deriv2
#print axioms Qmat.Weights.den_ne_zero
