import Mathlib.Analysis.SpecialFunctions.Trigonometric.Chebyshev.ChebyshevGauss
import Mathlib.Analysis.SpecialFunctions.Integrals.Basic
import Mathlib.Algebra.Polynomial.Degree.Lemmas

/-! C02: the Fejer rule computed by `qmat.lagrange.computeFejerRule` (whose contract gives `X`, `W` below) integrates exactly. -/

open Polynomial Finset intervalIntegral Real
open Polynomial.Chebyshev (T)
open scoped ComplexConjugate

noncomputable section
namespace Qmat

/-! ### the contract of `computeFejerRule` -/

/-- nodes -/
def feX (n p : ℕ) : ℝ := cos (π * (2 * ((n : ℝ) - p) - 1) / (2 * n))

/-- `v0` of the code -/
def feV0 (n k : ℕ) : ℂ :=
  if k < n - n / 2 then 2 * Complex.exp (Complex.I * π * k / n) / (1 - 4 * (k : ℂ) ^ 2) else 0

/-- `v1` of the code -/
def feV1 (n k : ℕ) : ℂ := feV0 n k + conj (feV0 n (n - k))

/-- the inverse Fourier transform of `v1` -/
def feW (n p : ℕ) : ℂ :=
  (1 / (n : ℂ)) * ∑ k ∈ range n, feV1 n k * Complex.exp (Complex.I * π * 2 * k * p / n)

/-! ### the weights are real -/

/-- angles -/
def th (n p : ℕ) : ℝ := (2 * p + 1) / (2 * n) * π

/-- real coefficients of the weights -/
def feC (n k : ℕ) : ℝ := if k < n - n / 2 then 2 / (1 - 4 * (k : ℝ) ^ 2) else 0

def feR (n p : ℕ) : ℝ := (1 / (n : ℝ)) * (2 + ∑ k ∈ range (n - 1), 2 * (feC n (k + 1) * cos (((2 * (k + 1) : ℕ) : ℝ) * th n p)))

theorem term_eq {n : ℕ} (hn : 0 < n) (p k : ℕ) :
    feV0 n k * Complex.exp (Complex.I * π * 2 * k * p / n) = (feC n k : ℂ) * Complex.exp (((((2 * k : ℕ) : ℝ) * th n p : ℝ) : ℂ) * Complex.I) := by
  unfold feV0 feC th
  have hn' : (n : ℂ) ≠ 0 := by exact_mod_cast hn.ne'
  split_ifs with h
  · push_cast
    rw [show ∀ a b c : ℂ, 2 * a / b * c = 2 / b * (a * c) by intros; ring, ← Complex.exp_add]
    congr 2
    field_simp
    ring
  · simp

theorem conj_term (r t : ℝ) : (r : ℂ) * Complex.exp ((t : ℂ) * Complex.I) + conj ((r : ℂ) * Complex.exp ((t : ℂ) * Complex.I)) = ((2 * (r * cos t) : ℝ) : ℂ) := by
  rw [Complex.add_conj, Complex.re_ofReal_mul, Complex.exp_ofReal_mul_I_re]

theorem feW_eq {n : ℕ} (hn : 0 < n) (p : ℕ) : feW n p = (feR n p : ℂ) := by
  have hn' : (n : ℂ) ≠ 0 := by exact_mod_cast hn.ne'
  set e : ℕ → ℂ := fun k => Complex.exp (Complex.I * π * 2 * k * p / n) with he
  have h0 : feV0 n 0 = 2 := by
    unfold feV0
    rw [if_pos (by omega)]
    simp
  have hN : feV0 n n = 0 := by
    unfold feV0
    by_cases h : n < n - n / 2
    · omega
    · rw [if_neg h]
  have hrefl : ∀ k < n - 1, conj (feV0 n (n - (k + 1))) * e (k + 1) = conj (feV0 n (n - 1 - 1 - k + 1) * e (n - 1 - 1 - k + 1)) := by
    intro k hk
    have h1 : n - (k + 1) = n - 1 - 1 - k + 1 := by omega
    rw [map_mul, h1]
    congr 1
    simp only [he]
    rw [← Complex.exp_conj]
    rw [Complex.exp_eq_exp_iff_exists_int]
    refine ⟨p, ?_⟩
    have h2 : ((n - 1 - 1 - k + 1 : ℕ) : ℂ) = (n : ℂ) - (k + 1) := by
      rw [← h1, Nat.cast_sub (by omega)]; push_cast; ring
    simp only [map_div₀, map_mul, Complex.conj_I, Complex.conj_ofReal, map_natCast, map_ofNat]
    rw [h2]
    push_cast
    field_simp
    ring
  have hs : ∑ k ∈ range n, feV1 n k * e k = 2 + ∑ k ∈ range (n - 1), ((2 * (feC n (k + 1) * cos (((2 * (k + 1) : ℕ) : ℝ) * th n p)) : ℝ) : ℂ) := by
    obtain ⟨m, rfl⟩ : ∃ m, n = m + 1 := ⟨n - 1, by omega⟩
    rw [sum_range_succ']
    simp only [Nat.add_sub_cancel] at hrefl ⊢
    have hz : feV1 (m + 1) 0 * e 0 = 2 := by
      unfold feV1
      rw [Nat.sub_zero, hN, h0]
      simp [he]
    rw [hz, add_comm]
    congr 1
    unfold feV1
    simp_rw [add_mul]
    rw [sum_add_distrib, sum_congr rfl (fun k hk => hrefl k (mem_range.1 hk)),
      sum_range_reflect (fun k => conj (feV0 (m + 1) (k + 1) * e (k + 1))) m, ← sum_add_distrib]
    refine sum_congr rfl fun k _ => ?_
    rw [he]
    simp only
    rw [term_eq hn, conj_term]
  unfold feW feR
  rw [hs]
  push_cast
  rfl

/-- the test for a large imaginary part never rejects (in exact arithmetic) -/
theorem fejer_imag {n : ℕ} (hn : 0 < n) (p : ℕ) : (feW n p).im = 0 := by
  rw [feW_eq hn, Complex.ofReal_im]

theorem fejer_re {n : ℕ} (hn : 0 < n) (p : ℕ) : (feW n p).re = feR n p := by
  rw [feW_eq hn, Complex.ofReal_re]

/-! ### orthogonality -/

theorem cos_sum {n : ℕ} (hn : 0 < n) (k : ℕ) (h0 : 0 < k) (h : k < 2 * n) : ∑ p ∈ range n, cos (k * th n p) = 0 := by
  have hd : ¬ (2 * n : ℤ) ∣ (k : ℤ) := by
    intro hd
    have := Nat.le_of_dvd h0 (by exact_mod_cast hd)
    omega
  have := Polynomial.Chebyshev.sumZeroes_T_of_not_dvd hd
  unfold Polynomial.Chebyshev.sumZeroes at this
  have hpi : π / n ≠ 0 := by positivity
  have h2 := (mul_eq_zero.1 this).resolve_left hpi
  rw [← h2]
  refine sum_congr rfl fun p _ => ?_
  rw [Polynomial.Chebyshev.T_real_cos]
  simp [th]

theorem cos_mul_sum {n : ℕ} (hn : 0 < n) (i j : ℕ) (hij : i + j < 2 * n) (hj : 0 < i + j) :
    ∑ p ∈ range n, cos (i * th n p) * cos (j * th n p) = if i = j then (n : ℝ) / 2 else 0 := by
  have h2 : ∀ t : ℝ, cos (i * t) * cos (j * t) = (cos ((i + j : ℕ) * t) + cos (((i : ℝ) - j) * t)) / 2 := by
    intro t
    push_cast
    rw [add_mul, sub_mul, cos_add, cos_sub]; ring
  simp_rw [h2]
  rw [← sum_div, sum_add_distrib, cos_sum hn _ hj hij, zero_add]
  by_cases h : i = j
  · subst h; simp
  · rw [if_neg h]
    have : ∀ t : ℝ, cos (((i : ℝ) - j) * t) = cos ((((i - j) + (j - i) : ℕ) : ℝ) * t) := by
      intro t
      rcases lt_or_gt_of_ne h with h | h
      · rw [Nat.sub_eq_zero_of_le h.le, zero_add, Nat.cast_sub h.le, ← cos_neg]; congr 1; ring
      · rw [Nat.sub_eq_zero_of_le h.le, add_zero, Nat.cast_sub h.le]
    simp_rw [this]
    rw [cos_sum hn _ (by omega) (by omega)]; simp

/-- the rule on the cosines -/
theorem cos_rule {n : ℕ} (hn : 0 < n) (j : ℕ) (hj : j < n + n % 2) :
    ∑ p ∈ range n, feR n p * cos (j * th n p) = if j % 2 = 0 then 2 / (1 - (j : ℝ) ^ 2) else 0 := by
  have hn' : (n : ℝ) ≠ 0 := by exact_mod_cast hn.ne'
  have hin : ∀ k < n - 1, ∑ p ∈ range n, feC n (k + 1) * cos (((2 * (k + 1) : ℕ) : ℝ) * th n p) * cos (j * th n p)
      = if 2 * (k + 1) = j then feC n (k + 1) * (n / 2) else 0 := by
    intro k hk
    by_cases hm : k + 1 < n - n / 2
    · simp_rw [mul_assoc]
      rw [← mul_sum, cos_mul_sum hn _ _ (by omega) (by omega)]
      split_ifs <;> simp
    · have : feC n (k + 1) = 0 := by unfold feC; rw [if_neg hm]
      simp [this]
  have hex : ∑ p ∈ range n, feR n p * cos (j * th n p) =
      (1 / (n : ℝ)) * (2 * ∑ p ∈ range n, cos (j * th n p) + 2 * ∑ k ∈ range (n - 1), if 2 * (k + 1) = j then feC n (k + 1) * ((n : ℝ) / 2) else 0) := by
    rw [← sum_congr rfl (fun k hk => hin k (mem_range.1 hk)), sum_comm, mul_sum, mul_sum, ← sum_add_distrib, mul_sum]
    refine sum_congr rfl fun p _ => ?_
    unfold feR
    rw [← mul_sum, ← sum_mul]
    ring
  rw [hex]
  by_cases h0 : j = 0
  · subst h0
    have : ∀ k ∈ range (n - 1), (if 2 * (k + 1) = 0 then feC n (k + 1) * ((n : ℝ) / 2) else 0) = 0 := by
      intro k _; rw [if_neg (by omega)]
    rw [sum_congr rfl this]
    simp
    field_simp
  · rw [cos_sum hn j (by omega) (by omega)]
    by_cases he : j % 2 = 0
    · rw [if_pos he]
      rw [sum_eq_single_of_mem (j / 2 - 1) (by rw [mem_range]; omega) (fun k _ hk => by rw [if_neg (by omega)])]
      rw [if_pos (by omega)]
      have hj2 : j / 2 - 1 + 1 = j / 2 := by omega
      rw [hj2]
      unfold feC
      rw [if_pos (by omega)]
      have hc : (j : ℝ) = 2 * ((j / 2 : ℕ) : ℝ) := by
        have : j = 2 * (j / 2) := by omega
        exact_mod_cast this
      rw [hc, show (1 - (2 * ((j / 2 : ℕ) : ℝ)) ^ 2) = 1 - 4 * ((j / 2 : ℕ) : ℝ) ^ 2 by ring]
      field_simp
      ring
    · rw [if_neg he]
      have : ∀ k ∈ range (n - 1), (if 2 * (k + 1) = j then feC n (k + 1) * ((n : ℝ) / 2) else 0) = 0 := by
        intro k _; rw [if_neg (by omega)]
      rw [sum_congr rfl this]
      simp

/-! ### integrals of the Chebyshev polynomials -/

theorem integral_T (j : ℕ) : ∫ t in (-1:ℝ)..1, (T ℝ j).eval t = if j % 2 = 0 then 2 / (1 - (j : ℝ) ^ 2) else 0 := by
  have h := integral_comp_mul_deriv (a := 0) (b := π) (f := cos) (f' := fun x => -sin x) (g := fun t => (T ℝ j).eval t)
    (fun x _ => hasDerivAt_cos x) (by fun_prop) (by fun_prop)
  rw [cos_zero, cos_pi] at h
  have h1 : ∫ t in (-1:ℝ)..1, (T ℝ j).eval t = ∫ x in (0:ℝ)..π, cos (j * x) * sin x := by
    rw [integral_symm, ← h, ← intervalIntegral.integral_neg]
    refine integral_congr fun x _ => ?_
    simp [Polynomial.Chebyshev.T_real_cos]
  rw [h1]
  have hp : ∀ x : ℝ, cos (j * x) * sin x = (sin (((j : ℝ) + 1) * x) - sin (((j : ℝ) - 1) * x)) / 2 := by
    intro x
    rw [add_mul, sub_mul, one_mul, sin_add, sin_sub]; ring
  simp_rw [hp]
  rw [integral_div, integral_sub (Continuous.intervalIntegrable (by fun_prop) _ _) (Continuous.intervalIntegrable (by fun_prop) _ _)]
  have hi : ∀ c : ℝ, c ≠ 0 → ∫ x in (0:ℝ)..π, sin (c * x) = (1 - cos (c * π)) / c := by
    intro c hc
    rw [intervalIntegral.integral_comp_mul_left (fun x => sin x) hc, integral_sin]
    simp; ring
  have hc1 : cos (((j : ℝ) + 1) * π) = -(-1) ^ j := by
    rw [add_mul, one_mul, cos_add_pi, cos_nat_mul_pi]
  have hj1 : ((j : ℝ) + 1) ≠ 0 := by positivity
  rw [hi _ hj1, hc1]
  by_cases h1 : j = 1
  · subst h1; simp
  · have hj2 : ((j : ℝ) - 1) ≠ 0 := by
      intro h; apply h1; exact_mod_cast (sub_eq_zero.1 h)
    have hc2 : cos (((j : ℝ) - 1) * π) = -(-1) ^ j := by
      rw [sub_mul, one_mul, cos_sub_pi, cos_nat_mul_pi]
    rw [hi _ hj2, hc2]
    have hj3 : (1 - (j : ℝ) ^ 2) ≠ 0 := by
      rw [show (1 - (j : ℝ) ^ 2) = -(((j : ℝ) + 1) * ((j : ℝ) - 1)) by ring]
      exact neg_ne_zero.2 (mul_ne_zero hj1 hj2)
    by_cases he : j % 2 = 0
    · rw [if_pos he, (Nat.even_iff.2 he).neg_one_pow]
      field_simp
      ring
    · rw [if_neg he, (Nat.odd_iff.2 (by omega)).neg_one_pow]
      simp

/-! ### exactness -/

theorem feX_eq {n : ℕ} (hn : 0 < n) (p : ℕ) : feX n p = cos (π - th n p) := by
  unfold feX th
  have hn' : (n : ℝ) ≠ 0 := by exact_mod_cast hn.ne'
  congr 1
  field_simp
  ring

theorem T_rule {n : ℕ} (hn : 0 < n) (j : ℕ) (hj : j < n + n % 2) :
    ∑ p ∈ range n, feR n p * (T ℝ j).eval (feX n p) = ∫ t in (-1:ℝ)..1, (T ℝ j).eval t := by
  rw [integral_T]
  have : ∀ p ∈ range n, feR n p * (T ℝ j).eval (feX n p) = (-1) ^ j * (feR n p * cos (j * th n p)) := by
    intro p _
    rw [feX_eq hn, Polynomial.Chebyshev.T_real_cos]
    have : cos (((j : ℤ) : ℝ) * (π - th n p)) = (-1) ^ j * cos (j * th n p) := by
      rw [Int.cast_natCast, mul_sub, cos_sub, cos_nat_mul_pi, sin_nat_mul_pi]; ring
    rw [this]; ring
  rw [sum_congr rfl this, ← mul_sum, cos_rule hn j hj]
  by_cases he : j % 2 = 0
  · rw [(Nat.even_iff.2 he).neg_one_pow, one_mul]
  · rw [if_neg he, mul_zero]

/-- the rule integrates every polynomial of degree below n exactly, and for odd n also degree n -/
theorem fejer_exact {n : ℕ} (hn : 0 < n) : ∀ d : ℕ, d ≤ n + n % 2 → ∀ q : ℝ[X], q.degree < d →
    ∑ p ∈ range n, (feW n p).re * q.eval (feX n p) = ∫ t in (-1:ℝ)..1, q.eval t := by
  simp_rw [fejer_re hn]
  intro d
  induction d with
  | zero =>
    intro _ q hq
    have : q = 0 := by
      rw [← degree_eq_bot]
      exact Nat.WithBot.lt_zero_iff.1 (by exact_mod_cast hq)
    simp [this]
  | succ d ih =>
    intro hd q hq
    -- q = c T_d + r
    set c : ℝ := q.coeff d / (T ℝ d).leadingCoeff with hc
    have hT : (T ℝ (d : ℤ)).degree = d := by
      rw [Polynomial.Chebyshev.degree_T]; simp
    have hT0 : (T ℝ (d : ℤ)).leadingCoeff ≠ 0 := by
      intro h; rw [leadingCoeff_eq_zero.1 h] at hT; simp at hT
    have hr : (q - C c * T ℝ d).degree < d := by
      rw [degree_lt_iff_coeff_zero]
      intro m hm
      rcases Nat.eq_or_lt_of_le hm with rfl | hm
      · have : (T ℝ (d : ℤ)).coeff d = (T ℝ (d : ℤ)).leadingCoeff := by
          rw [leadingCoeff, natDegree_eq_of_degree_eq_some hT]
        rw [coeff_sub, coeff_C_mul, this, hc, div_mul_cancel₀ _ hT0, sub_self]
      · rw [coeff_sub, coeff_C_mul, coeff_eq_zero_of_degree_lt (lt_of_lt_of_le hq (by exact_mod_cast hm)),
          coeff_eq_zero_of_degree_lt (by rw [hT]; exact_mod_cast hm)]
        simp
    have h1 := ih (by omega) _ hr
    have h2 := T_rule hn d (by omega)
    have hq' : ∀ t, q.eval t = (q - C c * T ℝ d).eval t + c * (T ℝ d).eval t := by
      intro t; simp
    simp_rw [hq', mul_add]
    rw [sum_add_distrib, h1, integral_add (Continuous.intervalIntegrable (by fun_prop) _ _) (Continuous.intervalIntegrable (by fun_prop) _ _),
      integral_const_mul, ← h2, mul_sum]
    congr 1
    exact sum_congr rfl fun p _ => by ring

end Qmat
end

#print axioms Qmat.fejer_exact
#print axioms Qmat.fejer_imag
