/- Legendre polynomials from the recurrence coefficients of getOrthogPolyCoefficients: orthogonality, and exactness of the
   interpolatory quadrature on the roots of the (modified) polynomials: degree below 2M (Gauss), 2M-1 (Radau), 2M-2 (Lobatto);
   one more degree for an odd number of symmetric nodes. -/
import Mathlib.Analysis.Calculus.Deriv.Polynomial
import Mathlib.Analysis.SpecialFunctions.Integrals.Basic
import Mathlib.Topology.Algebra.Polynomial
import Mathlib.Tactic

open Polynomial MeasureTheory

noncomputable section
namespace Qmat

/-- beta of the Legendre family -/
def lb (k : ℕ) : ℝ := (k : ℝ) ^ 2 / (4 * (k : ℝ) ^ 2 - 1)

/-- the recurrence of evalOrthogPoly with the coefficients of getOrthogPolyCoefficients, as polynomials -/
structure Leg (P : ℕ → ℝ[X]) : Prop where
  zero : P 0 = 1
  one : P 1 = X
  step : ∀ k, P (k + 2) = X * P (k + 1) - C (lb (k + 1)) * P k

variable {P : ℕ → ℝ[X]}

theorem lb_succ (k : ℕ) : lb (k + 1) = ((k : ℝ) + 1) ^ 2 / ((2 * (k : ℝ) + 1) * (2 * (k : ℝ) + 3)) := by
  unfold lb
  push_cast
  congr 1
  ring

theorem lb_eq (k : ℕ) : (2 * (k : ℝ) + 1) * (2 * (k : ℝ) + 3) * lb (k + 1) = ((k : ℝ) + 1) ^ 2 := by
  rw [lb_succ]
  have h0 : (0 : ℝ) ≤ k := Nat.cast_nonneg k
  have h1 : (2 * (k : ℝ) + 1) ≠ 0 := by positivity
  have h2 : (2 * (k : ℝ) + 3) ≠ 0 := by positivity
  field_simp

theorem monic_deg (h : Leg P) (k : ℕ) : (P k).Monic ∧ (P k).natDegree = k := by
  induction k using Nat.strong_induction_on with
  | _ k ih =>
    match k with
    | 0 => rw [h.zero]; exact ⟨monic_one, natDegree_one⟩
    | 1 => rw [h.one]; exact ⟨monic_X, natDegree_X⟩
    | k + 2 =>
      obtain ⟨a, b⟩ := ih (k + 1) (by omega)
      obtain ⟨_, c⟩ := ih k (by omega)
      have m : (X * P (k + 1)).Monic := monic_X.mul a
      have d : (X * P (k + 1)).natDegree = k + 2 := by rw [natDegree_X_mul a.ne_zero, b]
      have l' : (C (lb (k + 1)) * P k).natDegree < k + 2 := by
        refine lt_of_le_of_lt (natDegree_C_mul_le _ _) (by omega)
      have l : (C (lb (k + 1)) * P k).degree < (X * P (k + 1)).degree := by
        rw [degree_eq_natDegree m.ne_zero, d]
        exact lt_of_le_of_lt degree_le_natDegree (by exact_mod_cast l')
      rw [h.step]
      exact ⟨m.sub_of_left l, by rw [natDegree_sub_eq_left_of_natDegree_lt (by rw [d]; exact l'), d]⟩

/-- (X^2 - 1) P_n' in terms of P_n and its neighbours -/
theorem deriv_AB (h : Leg P) (n : ℕ) :
    (X ^ 2 - 1) * derivative (P (n + 1)) = C ((n : ℝ) + 1) * X * P (n + 1) - C ((2 * (n : ℝ) + 3) * lb (n + 1)) * P n ∧
    (X ^ 2 - 1) * derivative (P n) = -C ((n : ℝ) + 1) * X * P n + C (2 * (n : ℝ) + 1) * P (n + 1) := by
  induction n with
  | zero =>
    rw [h.zero, h.one]
    have : (2 * ((0 : ℕ) : ℝ) + 3) * lb (0 + 1) = 1 := by unfold lb; norm_num
    rw [this]
    simp
    ring
  | succ n ih =>
    obtain ⟨a, b⟩ := ih
    have s := h.step n
    have B : (X ^ 2 - 1) * derivative (P (n + 1)) =
        -C (((n + 1 : ℕ) : ℝ) + 1) * X * P (n + 1) + C (2 * ((n + 1 : ℕ) : ℝ) + 1) * P (n + 1 + 1) := by
      rw [a, s]
      simp only [C_mul, C_add, C_1, Nat.cast_add, Nat.cast_one]
      have e3 : C (3 : ℝ) = (3 : ℝ[X]) := rfl
      have e2 : C (2 : ℝ) = (2 : ℝ[X]) := rfl
      rw [e2, e3]
      ring
    refine ⟨?_, B⟩
    have d : derivative (P (n + 2)) = P (n + 1) + X * derivative (P (n + 1)) - C (lb (n + 1)) * derivative (P n) := by
      rw [s]; simp
    have e1 := congrArg C (lb_eq n)
    have e2 := congrArg C (lb_eq (n + 1))
    have key : C ((2 * ((n + 1 : ℕ) : ℝ) + 3) * lb (n + 1 + 1)) = 1 + C ((2 * (n : ℝ) + 1) * lb (n + 1)) := by
      rw [← C_1, ← C_add]
      congr 1
      rw [lb_succ, lb_succ]
      have h0 : (0 : ℝ) ≤ n := Nat.cast_nonneg n
      have h1 : (2 * (n : ℝ) + 1) ≠ 0 := by positivity
      have h2 : (2 * (n : ℝ) + 3) ≠ 0 := by positivity
      have h3 : (2 * ((n : ℝ) + 1) + 1) ≠ 0 := by positivity
      have h4 : (2 * ((n : ℝ) + 1) + 3) ≠ 0 := by positivity
      push_cast
      field_simp
      ring
    have : n + 1 + 1 = n + 2 := rfl
    rw [this, d, key]
    have x : (X ^ 2 - 1) * (P (n + 1) + X * derivative (P (n + 1)) - C (lb (n + 1)) * derivative (P n)) =
        (X ^ 2 - 1) * P (n + 1) + X * ((X ^ 2 - 1) * derivative (P (n + 1))) - C (lb (n + 1)) * ((X ^ 2 - 1) * derivative (P n)) := by ring
    rw [x, a, b, s]
    simp only [C_mul, C_add, C_1, Nat.cast_add, Nat.cast_one]
    have e3 : C (3 : ℝ) = (3 : ℝ[X]) := rfl
    have e2 : C (2 : ℝ) = (2 : ℝ[X]) := rfl
    rw [e2, e3]
    ring

/-- Legendre's differential equation -/
def Lop (f : ℝ[X]) : ℝ[X] := derivative ((X ^ 2 - 1) * derivative f)

theorem eigen (h : Leg P) (n : ℕ) : Lop (P n) = C ((n : ℝ) * (n + 1)) * P n := by
  have ⟨a, b⟩ := deriv_AB h n
  have hx : (X ^ 2 - 1 : ℝ[X]) ≠ 0 := by
    intro h0
    have := congrArg (eval 0) h0
    simp at this
  have c : C (2 * (n : ℝ) + 1) * derivative (P (n + 1)) = C ((n : ℝ) + 1) * (C ((n : ℝ) + 1) * P n + X * derivative (P n)) := by
    apply mul_left_cancel₀ hx
    have e := congrArg C (lb_eq n)
    have l : (X ^ 2 - 1) * (C (2 * (n : ℝ) + 1) * derivative (P (n + 1))) = C (2 * (n : ℝ) + 1) * ((X ^ 2 - 1) * derivative (P (n + 1))) := by ring
    have r : (X ^ 2 - 1) * (C ((n : ℝ) + 1) * (C ((n : ℝ) + 1) * P n + X * derivative (P n))) =
      C ((n : ℝ) + 1) * (C ((n : ℝ) + 1) * (X ^ 2 - 1) * P n + X * ((X ^ 2 - 1) * derivative (P n))) := by ring
    rw [l, r, a, b]
    have e' : C (2 * (n : ℝ) + 1) * C ((2 * (n : ℝ) + 3) * lb (n + 1)) = C ((n : ℝ) + 1) ^ 2 := by
      rw [← C_mul, ← C_pow, ← lb_eq n]; congr 1; ring
    linear_combination (-P n) * e'
  unfold Lop
  rw [b]
  simp only [derivative_add, derivative_mul, derivative_neg, derivative_C, derivative_X, neg_zero, zero_mul, zero_add]
  rw [c]
  simp only [C_mul, C_add, C_1]
  ring

/-- Green's formula on [-1, 1] -/
theorem green (f g : ℝ[X]) : ∫ t in (-1 : ℝ)..1, (Lop f * g).eval t = ∫ t in (-1 : ℝ)..1, (f * Lop g).eval t := by
  have i : ∀ q : ℝ[X], IntervalIntegrable (fun t => q.eval t) volume (-1) 1 := fun q => (Polynomial.continuous q).intervalIntegrable _ _
  rw [← sub_eq_zero, ← intervalIntegral.integral_sub (i _) (i _)]
  let W : ℝ[X] := (X ^ 2 - 1) * (derivative f * g - f * derivative g)
  have hW : ∀ t, (Lop f * g).eval t - (f * Lop g).eval t = (derivative W).eval t := by
    intro t
    rw [← eval_sub]
    congr 1
    simp only [W, Lop, derivative_mul, derivative_sub]
    ring
  simp_rw [hW]
  rw [intervalIntegral.integral_eq_sub_of_hasDerivAt (f := fun t => W.eval t) (fun t _ => W.hasDerivAt t) (i _)]
  simp [W]

theorem orth_pair (h : Leg P) {n m : ℕ} (hnm : n ≠ m) : ∫ t in (-1 : ℝ)..1, (P n * P m).eval t = 0 := by
  have g := green (P n) (P m)
  rw [eigen h, eigen h] at g
  have e1 : ∀ t, (C ((n : ℝ) * (n + 1)) * P n * P m).eval t = ((n : ℝ) * (n + 1)) * (P n * P m).eval t := by
    intro t; simp; ring
  have e2 : ∀ t, (P n * (C ((m : ℝ) * (m + 1)) * P m)).eval t = ((m : ℝ) * (m + 1)) * (P n * P m).eval t := by
    intro t; simp; ring
  simp_rw [e1, e2, intervalIntegral.integral_const_mul] at g
  have : ((n : ℝ) * (n + 1) - m * (m + 1)) * ∫ t in (-1 : ℝ)..1, (P n * P m).eval t = 0 := by linarith
  refine (mul_eq_zero.mp this).resolve_left ?_
  have e : (n : ℝ) * (n + 1) - m * (m + 1) = (n - m) * (n + m + 1) := by ring
  rw [e]
  refine mul_ne_zero (sub_ne_zero.mpr (by exact_mod_cast hnm)) ?_
  positivity

/-- P_n is orthogonal to every polynomial of degree below n -/
theorem orth (h : Leg P) (n : ℕ) : ∀ d ≤ n, ∀ q : ℝ[X], q.degree < d → ∫ t in (-1 : ℝ)..1, (P n * q).eval t = 0 := by
  intro d
  induction d with
  | zero =>
    intro _ q hq
    have : q = 0 := by
      rw [← degree_eq_bot]
      exact Nat.WithBot.lt_zero_iff.mp (by exact_mod_cast hq)
    simp [this]
  | succ d ih =>
    intro hd q hq
    obtain ⟨mo, de⟩ := monic_deg h d
    let r : ℝ[X] := q - C (q.coeff d) * P d
    have hr : r.degree < d := by
      rw [degree_lt_iff_coeff_zero]
      intro k hk
      rcases Nat.lt_or_eq_of_le hk with hk | rfl
      · have a : q.coeff k = 0 := coeff_eq_zero_of_degree_lt (lt_of_lt_of_le hq (by exact_mod_cast hk))
        have b : (P d).coeff k = 0 := coeff_eq_zero_of_natDegree_lt (by omega)
        simp [r, a, b]
      · have b : (P d).coeff d = 1 := by
          have := mo.coeff_natDegree; rwa [de] at this
        simp [r, b]
    have e : ∀ t, (P n * q).eval t = (P n * r).eval t + q.coeff d * (P n * P d).eval t := by
      intro t; simp [r]; ring
    have i : ∀ q : ℝ[X], IntervalIntegrable (fun t => q.eval t) volume (-1) 1 := fun q => (Polynomial.continuous q).intervalIntegrable _ _
    simp_rw [e]
    rw [intervalIntegral.integral_add (i _) ((i _).const_mul _), intervalIntegral.integral_const_mul, ih (by omega) r hr, orth_pair h (by omega)]
    simp

/-- a rule exact below M whose nodes are roots of a monic polynomial of degree M orthogonal to all degrees below m is exact
below M + m -/
theorem exact_of_orth {M m : ℕ} (w : ℝ[X]) (hw : w.Monic) (hd : w.natDegree = M) (ho : ∀ q : ℝ[X], q.degree < m → ∫ t in (-1 : ℝ)..1, (w * q).eval t = 0)
    (ξ ω : ℕ → ℝ) (hroot : ∀ i < M, w.eval (ξ i) = 0)
    (hex : ∀ q : ℝ[X], q.degree < M → ∑ i ∈ Finset.range M, ω i * q.eval (ξ i) = ∫ t in (-1 : ℝ)..1, q.eval t)
    (q : ℝ[X]) (hq : q.degree < (M + m : ℕ)) : ∑ i ∈ Finset.range M, ω i * q.eval (ξ i) = ∫ t in (-1 : ℝ)..1, q.eval t := by
  have e := modByMonic_add_div q w
  have hr : (q %ₘ w).degree < M := by
    have := degree_modByMonic_lt q hw
    rwa [degree_eq_natDegree hw.ne_zero, hd] at this
  have hs : (q /ₘ w).degree < m := by
    by_cases h0 : q /ₘ w = 0
    · rw [h0, degree_zero]; exact WithBot.bot_lt_coe m
    · rw [degree_eq_natDegree h0, natDegree_divByMonic q hw, hd]
      have hq0 : q ≠ 0 := by
        rintro rfl; simp at h0
      rw [degree_eq_natDegree hq0] at hq
      have h1 : q.natDegree < M + m := by exact_mod_cast hq
      have h2 : M ≤ q.natDegree := by
        by_contra hc
        apply h0
        rw [divByMonic_eq_zero_iff hw, degree_eq_natDegree hw.ne_zero, hd, degree_eq_natDegree hq0]
        exact_mod_cast not_le.mp hc
      exact_mod_cast (by omega : q.natDegree - M < m)
  have i : ∀ q : ℝ[X], IntervalIntegrable (fun t => q.eval t) volume (-1) 1 := fun q => (Polynomial.continuous q).intervalIntegrable _ _
  have ev : ∀ t, q.eval t = (q %ₘ w).eval t + (w * (q /ₘ w)).eval t := by
    intro t
    conv_lhs => rw [← e]
    rw [eval_add]
  calc ∑ i ∈ Finset.range M, ω i * q.eval (ξ i) = ∑ i ∈ Finset.range M, ω i * (q %ₘ w).eval (ξ i) := by
        refine Finset.sum_congr rfl fun i hi => ?_
        rw [ev, eval_mul, hroot i (Finset.mem_range.mp hi)]
        ring
    _ = ∫ t in (-1 : ℝ)..1, (q %ₘ w).eval t := hex _ hr
    _ = _ := by
        simp_rw [ev]
        rw [intervalIntegral.integral_add (i _) (i _), ho _ hs, add_zero]

/-- the modified polynomial (t - a) P_{n+1} - b P_n is monic and orthogonal to all degrees below n (Lobatto), below n + 1
when b is the coefficient of the family (Radau), below n + 2 when a = 0 as well (Gauss) -/
theorem modified (h : Leg P) (n : ℕ) (a b : ℝ) (m : ℕ) (hm : m ≤ n ∨ (m ≤ n + 1 ∧ b = lb (n + 1)) ∨ (m ≤ n + 2 ∧ b = lb (n + 1) ∧ a = 0)) :
    ((X - C a) * P (n + 1) - C b * P n).Monic ∧ ((X - C a) * P (n + 1) - C b * P n).natDegree = n + 2 ∧
    ∀ q : ℝ[X], q.degree < m → ∫ t in (-1 : ℝ)..1, (((X - C a) * P (n + 1) - C b * P n) * q).eval t = 0 := by
  obtain ⟨m1, d1⟩ := monic_deg h (n + 1)
  obtain ⟨m0, d0⟩ := monic_deg h n
  have mm : ((X - C a) * P (n + 1)).Monic := (monic_X_sub_C a).mul m1
  have d : ((X - C a) * P (n + 1)).natDegree = n + 2 := by
    rw [(monic_X_sub_C a).natDegree_mul m1, natDegree_X_sub_C, d1]; ring
  have l' : (C b * P n).natDegree < n + 2 := lt_of_le_of_lt (natDegree_C_mul_le _ _) (by omega)
  have l : (C b * P n).degree < ((X - C a) * P (n + 1)).degree := by
    rw [degree_eq_natDegree mm.ne_zero, d]
    exact lt_of_le_of_lt degree_le_natDegree (by exact_mod_cast l')
  refine ⟨mm.sub_of_left l, by rw [natDegree_sub_eq_left_of_natDegree_lt (by rw [d]; exact l'), d], fun q hq => ?_⟩
  have i : ∀ q : ℝ[X], IntervalIntegrable (fun t => q.eval t) volume (-1) 1 := fun q => (Polynomial.continuous q).intervalIntegrable _ _
  have e : ∀ t, (((X - C a) * P (n + 1) - C b * P n) * q).eval t =
      (P (n + 2) * q).eval t + (-a * (P (n + 1) * q).eval t + (lb (n + 1) - b) * (P n * q).eval t) := by
    intro t
    rw [h.step]
    simp
    ring
  simp_rw [e]
  have hmn : m ≤ n + 2 := by omega
  rw [intervalIntegral.integral_add (i _) (((i _).const_mul _).add ((i _).const_mul _)),
    intervalIntegral.integral_add ((i _).const_mul _) ((i _).const_mul _), intervalIntegral.integral_const_mul, intervalIntegral.integral_const_mul,
    orth h (n + 2) m hmn q hq]
  rcases hm with hm | ⟨hm, hb⟩ | ⟨hm, hb, ha⟩
  · rw [orth h (n + 1) m (by omega) q hq, orth h n m hm q hq]; simp
  · rw [orth h (n + 1) m hm q hq, hb]; simp
  · rw [ha, hb]; simp

/-- roots symmetric about 0, an odd number of them: the node polynomial is odd, hence orthogonal to the constants -/
theorem odd_orth (w : ℝ[X]) (hw : w.comp (-X) = -w) (q : ℝ[X]) (hq : q.degree < (1 : ℕ)) : ∫ t in (-1 : ℝ)..1, (w * q).eval t = 0 := by
  have hc : q = C (q.coeff 0) := by
    ext k
    rcases k with _ | k
    · simp
    · rw [coeff_C, if_neg (by omega)]
      exact coeff_eq_zero_of_degree_lt (lt_of_lt_of_le hq (by exact_mod_cast (by omega : 1 ≤ k + 1)))
  rw [hc]
  have e : ∀ t, (w * C (q.coeff 0)).eval t = q.coeff 0 * w.eval t := by intro t; simp; ring
  simp_rw [e, intervalIntegral.integral_const_mul]
  have s : ∫ t in (-1 : ℝ)..1, w.eval t = -∫ t in (-1 : ℝ)..1, w.eval t := by
    have := intervalIntegral.integral_comp_neg (a := (-1 : ℝ)) (b := 1) (fun t => w.eval t)
    have f : ∀ t, w.eval (-t) = -w.eval t := by
      intro t
      have := congrArg (eval t) hw
      simpa [eval_comp] using this
    simp_rw [f, intervalIntegral.integral_neg] at this
    simp at this
    linarith
  have : ∫ t in (-1 : ℝ)..1, w.eval t = 0 := by linarith
  rw [this, mul_zero]

/-- families with alpha = 0 and any beta: p_k(-x) = (-1)^k p_k(x) -/
theorem parity (β : ℕ → ℝ) (R : ℕ → ℝ[X]) (h0 : R 0 = 1) (h1 : R 1 = X) (h2 : ∀ k, R (k + 2) = X * R (k + 1) - C (β (k + 1)) * R k) (k : ℕ) :
    (R k).comp (-X) = (-1) ^ k * R k := by
  induction k using Nat.strong_induction_on with
  | _ k ih =>
    match k with
    | 0 => simp [h0]
    | 1 => simp [h1]
    | k + 2 =>
      rw [h2, sub_comp, mul_comp, mul_comp, ih (k + 1) (by omega), ih k (by omega)]
      simp
      ring

/-- the last coefficient changed to any b, the last alpha still 0 -/
theorem parity_last (β : ℕ → ℝ) (R : ℕ → ℝ[X]) (h0 : R 0 = 1) (h1 : R 1 = X) (h2 : ∀ k, R (k + 2) = X * R (k + 1) - C (β (k + 1)) * R k) (k : ℕ) (b : ℝ)
    (hk : Odd (k + 2)) : (X * R (k + 1) - C b * R k).comp (-X) = -(X * R (k + 1) - C b * R k) := by
  have ok : Odd k := by
    obtain ⟨m, hm⟩ := hk
    exact ⟨m - 1, by omega⟩
  have ek : Even (k + 1) := ok.add_one
  rw [sub_comp, mul_comp, mul_comp, parity β R h0 h1 h2, parity β R h0 h1 h2, ok.neg_one_pow, ek.neg_one_pow]
  simp
  ring

/-- the node polynomial of an odd number of symmetric nodes is odd -/
theorem symmetric_nodes (M : ℕ) (hM : Odd M) (ξ : ℕ → ℝ) (hs : ∀ i < M, ξ (M - 1 - i) = -ξ i) :
    (∏ i ∈ Finset.range M, (X - C (ξ i))).comp (-X) = -∏ i ∈ Finset.range M, (X - C (ξ i)) := by
  have e : (∏ i ∈ Finset.range M, (X - C (ξ i))).comp (-X) = ∏ i ∈ Finset.range M, ((X - C (ξ (M - 1 - i))) * -1) := by
    rw [prod_comp]
    refine Finset.prod_congr rfl fun i hi => ?_
    rw [hs i (Finset.mem_range.mp hi)]
    simp
    ring
  rw [e, Finset.prod_mul_distrib, Finset.prod_const, Finset.card_range, hM.neg_one_pow,
    Finset.prod_range_reflect (fun i => X - C (ξ i)) M]
  ring

theorem node_poly_monic (M : ℕ) (ξ : ℕ → ℝ) :
    (∏ i ∈ Finset.range M, (X - C (ξ i))).Monic ∧ (∏ i ∈ Finset.range M, (X - C (ξ i))).natDegree = M ∧
    ∀ i < M, (∏ i ∈ Finset.range M, (X - C (ξ i))).eval (ξ i) = 0 := by
  refine ⟨monic_prod_of_monic _ _ fun i _ => monic_X_sub_C _, ?_, fun i hi => ?_⟩
  · rw [natDegree_prod_of_monic _ _ fun i _ => monic_X_sub_C _]
    simp
  · rw [eval_prod]
    exact Finset.prod_eq_zero (Finset.mem_range.mpr hi) (by simp)

/-- C21: weights exact below M on [a, b] at the affine images of the nodes are exact below M + m -/
theorem collocation_order {M m : ℕ} (w : ℝ[X]) (hw : w.Monic) (hd : w.natDegree = M) (ho : ∀ q : ℝ[X], q.degree < m → ∫ t in (-1 : ℝ)..1, (w * q).eval t = 0)
    (ξ ω : ℕ → ℝ) (hroot : ∀ i < M, w.eval (ξ i) = 0) (a b : ℝ) (hab : a ≠ b)
    (hex : ∀ q : ℝ[X], q.degree < M → ∑ i ∈ Finset.range M, ω i * q.eval ((b - a) / 2 * ξ i + (b + a) / 2) = ∫ t in a..b, q.eval t)
    (q : ℝ[X]) (hq : q.degree < (M + m : ℕ)) :
    ∑ i ∈ Finset.range M, ω i * q.eval ((b - a) / 2 * ξ i + (b + a) / 2) = ∫ t in a..b, q.eval t := by
  have hc : (b - a) / 2 ≠ 0 := by
    intro h0
    exact hab (by linarith)
  have deg : ∀ (q : ℝ[X]) (c d : ℝ) (n : ℕ), q.degree < n → (q.comp (C c * X + C d)).degree < n := by
    intro q c d n hn
    by_cases h0 : q.comp (C c * X + C d) = 0
    · rw [h0, degree_zero]; exact WithBot.bot_lt_coe n
    · have q0 : q ≠ 0 := by rintro rfl; simp at h0
      rw [degree_eq_natDegree q0] at hn
      rw [degree_eq_natDegree h0]
      have h1 : (q.comp (C c * X + C d)).natDegree ≤ q.natDegree := by
        rw [natDegree_comp]
        have : (C c * X + C d : ℝ[X]).natDegree ≤ 1 := natDegree_linear_le
        nlinarith [Nat.zero_le q.natDegree]
      have h2 : q.natDegree < n := by exact_mod_cast hn
      exact_mod_cast lt_of_le_of_lt h1 h2
  have ch : ∀ f : ℝ → ℝ, (b - a) / 2 * ∫ t in (-1 : ℝ)..1, f ((b - a) / 2 * t + (b + a) / 2) = ∫ t in a..b, f t := by
    intro f
    have := intervalIntegral.mul_integral_comp_mul_add (a := -1) (b := 1) (f := f) ((b - a) / 2) ((b + a) / 2)
    rw [this]
    congr 1 <;> ring
  have ref : ∀ r : ℝ[X], r.degree < M → ∑ i ∈ Finset.range M, ((b - a) / 2)⁻¹ * ω i * r.eval (ξ i) = ∫ t in (-1 : ℝ)..1, r.eval t := by
    intro r hr
    let s : ℝ[X] := r.comp (C ((b - a) / 2)⁻¹ * X + C (-((b - a) / 2)⁻¹ * ((b + a) / 2)))
    have se : ∀ t, s.eval ((b - a) / 2 * t + (b + a) / 2) = r.eval t := by
      intro t
      simp only [s, eval_comp, eval_add, eval_mul, eval_C, eval_X]
      congr 1
      have e : ((b - a) / 2)⁻¹ * ((b - a) / 2 * t + (b + a) / 2) + -((b - a) / 2)⁻¹ * ((b + a) / 2) = (((b - a) / 2)⁻¹ * ((b - a) / 2)) * t := by ring
      rw [e, inv_mul_cancel₀ hc, one_mul]
    have h := hex s (deg r _ _ _ hr)
    rw [← ch (fun t => s.eval t)] at h
    simp_rw [se] at h
    have : ∑ i ∈ Finset.range M, ((b - a) / 2)⁻¹ * ω i * r.eval (ξ i) = ((b - a) / 2)⁻¹ * ∑ i ∈ Finset.range M, ω i * r.eval (ξ i) := by
      rw [Finset.mul_sum]; exact Finset.sum_congr rfl fun i _ => by ring
    rw [this, h, ← mul_assoc, inv_mul_cancel₀ hc, one_mul]
  have big := exact_of_orth w hw hd ho ξ (fun i => ((b - a) / 2)⁻¹ * ω i) hroot ref (q.comp (C ((b - a) / 2) * X + C ((b + a) / 2))) (deg q _ _ _ hq)
  rw [← ch (fun t => q.eval t)]
  have ce : ∀ t, (q.comp (C ((b - a) / 2) * X + C ((b + a) / 2))).eval t = q.eval ((b - a) / 2 * t + (b + a) / 2) := by
    intro t; simp [eval_comp]
  simp_rw [ce] at big
  rw [← big, Finset.mul_sum]
  refine Finset.sum_congr rfl fun i _ => ?_
  rw [← mul_assoc, ← mul_assoc, mul_inv_cancel₀ hc, one_mul]

end Qmat
end

#print axioms Qmat.parity_last
#print axioms Qmat.symmetric_nodes
#print axioms Qmat.node_poly_monic
#print axioms Qmat.collocation_order
#print axioms Qmat.orth
#print axioms Qmat.exact_of_orth
#print axioms Qmat.modified
#print axioms Qmat.odd_orth
