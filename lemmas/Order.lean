import Mathlib.Algebra.Polynomial.Div
import Mathlib.Algebra.Polynomial.Derivative
import Mathlib.Algebra.Polynomial.BigOperators
import Mathlib.Analysis.Calculus.Deriv.Polynomial
import Mathlib.Topology.Algebra.Polynomial
import Mathlib.MeasureTheory.Integral.IntervalIntegral.FundThmCalculus
import Mathlib.Analysis.SpecialFunctions.Exponential
import Mathlib.Analysis.Complex.Exponential
import Mathlib.Analysis.Normed.Group.Basic
import Mathlib.LinearAlgebra.Matrix.ToLin
import Mathlib.Analysis.SpecialFunctions.Integrals.Basic

/-! C23: the order of K sweeps.  Hypotheses: the rows of Q integrate polynomials of degree < M exactly (C07), the weights
polynomials of degree < p (C21), the sweeps satisfy the equation of the SDC solver (C18), and for the trapezoidal
approximations the first matrix integrates the first-degree polynomial exactly (contract of C23). -/

open Polynomial MeasureTheory Matrix Asymptotics Filter Topology
noncomputable section
namespace Qmat

/-! ### the collocation weights reproduce the Taylor coefficients of the exponential up to p -/

/-- the antiderivative of a polynomial that vanishes at 0 -/
def anti (f : ℝ[X]) : ℝ[X] := f.sum fun n a => monomial (n + 1) (a / (n + 1))

theorem anti_deriv (f : ℝ[X]) : derivative (anti f) = f := by
  conv_rhs => rw [← sum_monomial_eq f]
  unfold anti
  rw [Polynomial.sum, Polynomial.sum, derivative_sum]
  refine Finset.sum_congr rfl fun n _ => ?_
  rw [derivative_monomial]
  congr 1
  have : ((n : ℝ) + 1) ≠ 0 := by positivity
  push_cast
  field_simp

theorem anti_zero (f : ℝ[X]) : (anti f).eval 0 = 0 := by
  unfold anti
  rw [Polynomial.sum, eval_finsetSum]
  exact Finset.sum_eq_zero fun n _ => by simp

theorem anti_natDegree (f : ℝ[X]) {d : ℕ} (h : f.natDegree ≤ d) : (anti f).natDegree ≤ d + 1 := by
  unfold anti
  rw [Polynomial.sum]
  refine natDegree_sum_le_of_forall_le _ _ fun n hn => ?_
  refine (natDegree_monomial_le _).trans ?_
  have := le_natDegree_of_mem_supp n hn
  omega

theorem int_deriv (f : ℝ[X]) (a b : ℝ) : ∫ t in a..b, (derivative f).eval t = f.eval b - f.eval a := by
  have h : ∀ t ∈ Set.uIcc a b, HasDerivAt (fun x => f.eval x) ((derivative f).eval t) t := fun t _ => f.hasDerivAt t
  exact intervalIntegral.integral_eq_sub_of_hasDerivAt h ((Polynomial.continuous _).intervalIntegrable _ _)

theorem anti_eval (f : ℝ[X]) (b : ℝ) : (anti f).eval b = ∫ t in (0 : ℝ)..b, f.eval t := by
  have := int_deriv (anti f) 0 b
  rw [anti_deriv, anti_zero, sub_zero] at this
  exact this.symm

/-- the kernel (1 - s)^l / l! of the l-fold antiderivative at 1 -/
def ker (l : ℕ) : ℝ[X] := C (1 / (l.factorial : ℝ)) * (1 - X) ^ l

theorem ker_natDegree (l : ℕ) : (ker l).natDegree ≤ l := by
  unfold ker
  refine (natDegree_C_mul_le _ _).trans ((natDegree_pow_le).trans ?_)
  have : (1 - X : ℝ[X]).natDegree ≤ 1 := by
    refine (natDegree_sub_le _ _).trans ?_
    simp
  nlinarith

theorem ker_deriv (l : ℕ) : derivative (ker (l + 1)) = -ker l := by
  unfold ker
  have hf : ((l + 1).factorial : ℝ) = ((l : ℝ) + 1) * (l.factorial : ℝ) := by
    rw [Nat.factorial_succ]; push_cast; ring
  have h1 : ((l : ℝ) + 1) ≠ 0 := by positivity
  have h2 : (l.factorial : ℝ) ≠ 0 := by positivity
  rw [derivative_C_mul, derivative_pow]
  simp only [derivative_sub, derivative_one, derivative_X, Nat.add_sub_cancel]
  have : C (1 / ((l + 1).factorial : ℝ)) * C (((l + 1 : ℕ) : ℝ)) = C (1 / (l.factorial : ℝ)) := by
    rw [← C_mul]
    congr 1
    rw [hf]
    push_cast
    field_simp
  rw [← this]
  ring

theorem ker_end (l : ℕ) : (ker (l + 1)).eval 1 = 0 := by
  unfold ker; simp

/-- integration by parts -/
theorem parts (l : ℕ) (h : ℝ[X]) : ∫ t in (0 : ℝ)..1, (ker l * anti h).eval t = ∫ t in (0 : ℝ)..1, (ker (l + 1) * h).eval t := by
  have i : ∀ q : ℝ[X], IntervalIntegrable (fun t => q.eval t) volume (0 : ℝ) 1 := fun q => (Polynomial.continuous q).intervalIntegrable _ _
  have d := int_deriv (ker (l + 1) * anti h) 0 1
  rw [derivative_mul, anti_deriv, ker_deriv] at d
  rw [eval_mul, ker_end, zero_mul, eval_mul, anti_zero, mul_zero, sub_zero] at d
  have e : ∀ t, (-ker l * anti h + ker (l + 1) * h).eval t = (ker (l + 1) * h).eval t - (ker l * anti h).eval t := by
    intro t; simp; ring
  simp only [e] at d
  rw [intervalIntegral.integral_sub (i _) (i _)] at d
  linarith

variable {M : ℕ}

/-- nodal polynomial -/
def nodal (c : Fin M → ℝ) : ℝ[X] := ∏ i, (X - C (c i))

theorem nodal_monic (c : Fin M → ℝ) : (nodal c).Monic := monic_prod_of_monic _ _ fun i _ => monic_X_sub_C _

theorem nodal_natDegree (c : Fin M → ℝ) : (nodal c).natDegree = M := by
  unfold nodal
  rw [natDegree_prod_of_monic _ _ fun i _ => monic_X_sub_C _]
  simp

theorem nodal_root (c : Fin M → ℝ) (i : Fin M) : (nodal c).eval (c i) = 0 := by
  unfold nodal
  rw [eval_prod]
  exact Finset.prod_eq_zero (Finset.mem_univ i) (by simp)

/-- interpolation as a remainder, iterated with the antiderivative -/
def iter (c : Fin M → ℝ) : ℕ → ℝ[X]
  | 0 => 1
  | j + 1 => anti (iter c j %ₘ nodal c)

theorem rem_eval (c : Fin M → ℝ) (f : ℝ[X]) (i : Fin M) : (f %ₘ nodal c).eval (c i) = f.eval (c i) := by
  have e := congrArg (eval (c i)) (modByMonic_add_div f (nodal c))
  rw [eval_add, eval_mul, nodal_root, zero_mul, add_zero] at e
  exact e

theorem rem_degree (c : Fin M → ℝ) (f : ℝ[X]) : (f %ₘ nodal c).degree < M := by
  have := degree_modByMonic_lt f (nodal_monic c)
  rwa [degree_eq_natDegree (nodal_monic c).ne_zero, nodal_natDegree] at this

theorem iter_natDegree (c : Fin M → ℝ) (j : ℕ) : (iter c j).natDegree ≤ j := by
  induction j with
  | zero => simp [iter]
  | succ j ih => exact anti_natDegree _ ((natDegree_modByMonic_le_left).trans ih)

/-- nodal values of the iterates are the powers of Q applied to ones -/
theorem pow_iter (c : Fin M → ℝ) (Q : Matrix (Fin M) (Fin M) ℝ)
    (hQ : ∀ i, ∀ f : ℝ[X], f.degree < M → ∑ j, Q i j * f.eval (c j) = ∫ t in (0 : ℝ)..c i, f.eval t) (j : ℕ) (i : Fin M) :
    (Q ^ j *ᵥ 1) i = (iter c j).eval (c i) := by
  induction j generalizing i with
  | zero => simp [iter]
  | succ j ih =>
    rw [pow_succ', ← mulVec_mulVec]
    show ∑ k, Q i k * (Q ^ j *ᵥ 1) k = _
    have : ∀ k, Q i k * (Q ^ j *ᵥ 1) k = Q i k * (iter c j %ₘ nodal c).eval (c k) := by
      intro k; rw [ih, rem_eval]
    rw [Finset.sum_congr rfl fun k _ => this k, hQ i _ (rem_degree c _), iter, anti_eval]

theorem ker_iter (c : Fin M → ℝ) (w : Fin M → ℝ) (p : ℕ)
    (hw : ∀ f : ℝ[X], f.degree < p → ∑ j, w j * f.eval (c j) = ∫ t in (0 : ℝ)..1, f.eval t) (j : ℕ) :
    ∀ l, l + j < p → ∫ t in (0 : ℝ)..1, (ker l * (iter c j %ₘ nodal c)).eval t = 1 / ((l + j + 1).factorial : ℝ) := by
  have i : ∀ q : ℝ[X], IntervalIntegrable (fun t => q.eval t) volume 0 1 := fun q => (Polynomial.continuous q).intervalIntegrable _ _
  have key : ∀ j l, l + j < p → ∫ t in (0 : ℝ)..1, (ker l * (iter c j %ₘ nodal c)).eval t = ∫ t in (0 : ℝ)..1, (ker l * iter c j).eval t := by
    intro j l h
    have e := modByMonic_add_div (iter c j) (nodal c)
    have hz : ∫ t in (0 : ℝ)..1, (ker l * (nodal c * (iter c j /ₘ nodal c))).eval t = 0 := by
      rw [← hw]
      · refine Finset.sum_eq_zero fun k _ => ?_
        rw [eval_mul, eval_mul, nodal_root, zero_mul, mul_zero, mul_zero]
      · have hn : (nodal c * (iter c j /ₘ nodal c)).natDegree ≤ j := by
          have : nodal c * (iter c j /ₘ nodal c) = iter c j - iter c j %ₘ nodal c := by rw [eq_sub_iff_add_eq, add_comm]; exact e
          rw [this]
          refine (natDegree_sub_le _ _).trans (max_le (iter_natDegree c j) ((natDegree_modByMonic_le_left).trans (iter_natDegree c j)))
        have : (ker l * (nodal c * (iter c j /ₘ nodal c))).natDegree ≤ l + j := (natDegree_mul_le).trans (Nat.add_le_add (ker_natDegree l) hn)
        exact lt_of_le_of_lt degree_le_natDegree (by exact_mod_cast lt_of_le_of_lt this h)
    have e2 : ∀ t, (ker l * iter c j).eval t = (ker l * (iter c j %ₘ nodal c)).eval t + (ker l * (nodal c * (iter c j /ₘ nodal c))).eval t := by
      intro t
      conv_lhs => rw [← e]
      rw [mul_add, eval_add]
    simp only [e2]
    rw [intervalIntegral.integral_add (i _) (i _), hz, add_zero]
  induction j with
  | zero =>
    intro l h
    rw [key 0 l h]
    have d := int_deriv (ker (l + 1)) 0 1
    rw [ker_deriv, ker_end] at d
    have e : ∀ t, (-ker l).eval t = -((ker l * iter c 0).eval t) := by intro t; simp [iter]
    simp only [e] at d
    rw [intervalIntegral.integral_neg] at d
    have e0 : (ker (l + 1)).eval 0 = 1 / ((l + 1).factorial : ℝ) := by unfold ker; simp
    rw [e0] at d
    rw [add_zero]
    linarith
  | succ j ih =>
    intro l h
    rw [key (j + 1) l h, iter, parts, ih (l + 1) (by omega)]
    congr 3
    omega

/-- the weights and the powers of Q give the Taylor coefficients of the exponential, up to the order of the weights -/
theorem taylor_coeffs (c : Fin M → ℝ) (Q : Matrix (Fin M) (Fin M) ℝ) (w : Fin M → ℝ) (p : ℕ) (hMp : M ≤ p)
    (hQ : ∀ i, ∀ f : ℝ[X], f.degree < M → ∑ j, Q i j * f.eval (c j) = ∫ t in (0 : ℝ)..c i, f.eval t)
    (hw : ∀ f : ℝ[X], f.degree < p → ∑ j, w j * f.eval (c j) = ∫ t in (0 : ℝ)..1, f.eval t) (j : ℕ) (hj : j < p) :
    ∑ i, w i * (Q ^ j *ᵥ 1) i = 1 / ((j + 1).factorial : ℝ) := by
  have h := ker_iter c w p hw j 0 (by omega)
  have e : ∀ t, (ker 0 * (iter c j %ₘ nodal c)).eval t = (iter c j %ₘ nodal c).eval t := by intro t; simp [ker]
  simp only [e] at h
  rw [← hw _ (lt_of_lt_of_le (rem_degree c _) (by exact_mod_cast hMp))] at h
  rw [zero_add] at h
  rw [← h]
  refine Finset.sum_congr rfl fun i _ => ?_
  rw [pow_iter c Q hQ, rem_eval]


/-! ### the sweeps -/

/-- Taylor polynomial of the collocation solution -/
def tay (Q : Matrix (Fin M) (Fin M) ℂ) (m : ℕ) (z : ℂ) : Fin M → ℂ := ∑ i ∈ Finset.range (m + 1), z ^ i • (Q ^ i *ᵥ 1)

theorem tay_succ (Q : Matrix (Fin M) (Fin M) ℂ) (m : ℕ) (z : ℂ) : tay Q (m + 1) z = tay Q m z + z ^ (m + 1) • (Q ^ (m + 1) *ᵥ 1) := by
  unfold tay; rw [Finset.sum_range_succ]

theorem tay_mul (Q : Matrix (Fin M) (Fin M) ℂ) (m : ℕ) (z : ℂ) : tay Q (m + 1) z = 1 + z • (Q *ᵥ tay Q m z) := by
  induction m with
  | zero => simp [tay, Finset.sum_range_succ]
  | succ m ih =>
    rw [tay_succ, ih]
    conv_rhs => rw [← ih, tay_succ, mulVec_add, mulVec_smul, mulVec_mulVec, ← pow_succ', smul_add, smul_smul, ← pow_succ', ← add_assoc]

theorem mulVec_bound (D : Matrix (Fin M) (Fin M) ℂ) : ∃ c : ℝ, 0 < c ∧ ∀ v : Fin M → ℂ, ‖D *ᵥ v‖ ≤ c * ‖v‖ := by
  let L := LinearMap.toContinuousLinearMap (Matrix.mulVecLin D)
  refine ⟨‖L‖ + 1, by positivity, fun v => ?_⟩
  have := L.le_opNorm v
  have e : L v = D *ᵥ v := rfl
  rw [e] at this
  nlinarith [norm_nonneg v]

/-- the implicit part does not change the order -/
theorem absorb (D : Matrix (Fin M) (Fin M) ℂ) (V W : ℂ → Fin M → ℂ) (n : ℕ)
    (h : ∀ᶠ z in 𝓝 (0 : ℂ), V z = W z + z • (D *ᵥ V z)) (hW : W =O[𝓝 0] fun z : ℂ => z ^ n) : V =O[𝓝 0] fun z : ℂ => z ^ n := by
  obtain ⟨c, hc, hb⟩ := mulVec_bound D
  refine IsBigO.trans ?_ hW
  have small : ∀ᶠ z in 𝓝 (0 : ℂ), ‖z‖ < 1 / (2 * c) := by
    have : (0 : ℝ) < 1 / (2 * c) := by positivity
    filter_upwards [Metric.ball_mem_nhds (0 : ℂ) this] with z hz
    rwa [Metric.mem_ball, dist_zero_right] at hz
  refine IsBigO.of_bound 2 ?_
  filter_upwards [h, small] with z hz hs
  have h1 : ‖V z‖ ≤ ‖W z‖ + ‖z‖ * (c * ‖V z‖) := by
    conv_lhs => rw [hz]
    refine (norm_add_le _ _).trans ?_
    rw [norm_smul]
    gcongr
    exact hb _
  have h2 : ‖z‖ * c ≤ 1 / 2 := by
    have := (mul_le_mul_of_nonneg_right hs.le hc.le)
    have e : 1 / (2 * c) * c = 1 / 2 := by field_simp
    linarith
  nlinarith [norm_nonneg (V z)]

theorem mulVec_O (D : Matrix (Fin M) (Fin M) ℂ) (V : ℂ → Fin M → ℂ) (n : ℕ) (h : V =O[𝓝 0] fun z : ℂ => z ^ n) :
    (fun z => z • (D *ᵥ V z)) =O[𝓝 0] fun z : ℂ => z ^ (n + 1) := by
  obtain ⟨c, hc, hb⟩ := mulVec_bound D
  have e : (fun z : ℂ => z ^ (n + 1)) = fun z => z • z ^ n := by funext z; rw [pow_succ', smul_eq_mul]
  rw [e]
  refine (isBigO_refl _ _).smul (IsBigO.trans ?_ h)
  exact IsBigO.of_bound c (Eventually.of_forall fun z => hb _)

theorem const_O (v : Fin M → ℂ) (n : ℕ) : (fun z : ℂ => z ^ n • v) =O[𝓝 0] fun z : ℂ => z ^ n := by
  refine IsBigO.of_bound ‖v‖ (Eventually.of_forall fun z => ?_)
  rw [norm_smul, mul_comm]

/-- one sweep gains one order (any QDelta) -/
theorem sweep_gain (Q D : Matrix (Fin M) (Fin M) ℂ) (U V : ℂ → Fin M → ℂ) (m : ℕ)
    (hs : ∀ᶠ z in 𝓝 (0 : ℂ), V z = 1 + z • ((Q - D) *ᵥ U z) + z • (D *ᵥ V z))
    (hU : (fun z => U z - tay Q m z) =O[𝓝 0] fun z : ℂ => z ^ (m + 1)) :
    (fun z => V z - tay Q (m + 1) z) =O[𝓝 0] fun z : ℂ => z ^ (m + 2) := by
  refine absorb D _ (fun z => z • ((Q - D) *ᵥ (U z - tay Q m z)) + z ^ (m + 2) • (D *ᵥ (Q ^ (m + 1) *ᵥ 1))) _ ?_
    ((mulVec_O (Q - D) _ _ hU).add (const_O _ _))
  filter_upwards [hs] with z hz
  conv_lhs => rw [hz, tay_mul]
  simp only [mulVec_sub, sub_mulVec, smul_sub]
  conv_rhs => rw [tay_succ, mulVec_add, mulVec_smul, smul_add, smul_smul, ← pow_succ']
  abel

/-- the first sweep gains two orders when its QDelta integrates the first-degree polynomial exactly -/
theorem first_gain (Q D : Matrix (Fin M) (Fin M) ℂ) (U V : ℂ → Fin M → ℂ)
    (hs : ∀ᶠ z in 𝓝 (0 : ℂ), V z = 1 + z • ((Q - D) *ᵥ U z) + z • (D *ᵥ V z)) (hU : ∀ z, U z = 1)
    (hD : D *ᵥ (Q *ᵥ 1) = Q *ᵥ (Q *ᵥ 1)) :
    (fun z => V z - tay Q 2 z) =O[𝓝 0] fun z : ℂ => z ^ 3 := by
  refine absorb D _ (fun z => z ^ 3 • (D *ᵥ (Q ^ 2 *ᵥ 1))) _ ?_ (const_O _ _)
  filter_upwards [hs] with z hz
  have t1 : tay Q 1 z = 1 + z • (Q *ᵥ 1) := by rw [tay_mul]; simp [tay]
  conv_lhs => rw [hz, hU, tay_mul, t1]
  conv_rhs => rw [tay_succ, t1]
  simp only [mulVec_sub, sub_mulVec, smul_sub, mulVec_add, mulVec_smul, smul_add, smul_smul, hD]
  rw [show z * z ^ (1 + 1) = z ^ 3 by ring]
  abel

variable (Q : Matrix (Fin M) (Fin M) ℂ) (D : ℕ → Matrix (Fin M) (Fin M) ℂ) (U : ℕ → ℂ → Fin M → ℂ)

theorem sweeps (h0 : ∀ z, U 0 z = 1) (hs : ∀ k, ∀ᶠ z in 𝓝 (0 : ℂ), U (k + 1) z = 1 + z • ((Q - D k) *ᵥ U k z) + z • (D k *ᵥ U (k + 1) z)) (K : ℕ) :
    (fun z => U K z - tay Q K z) =O[𝓝 0] fun z : ℂ => z ^ (K + 1) := by
  induction K with
  | zero =>
    have : (fun z => U 0 z - tay Q 0 z) = fun _ => 0 := by funext z; simp [h0, tay]
    rw [this]
    exact isBigO_zero _ _
  | succ K ih => exact sweep_gain Q (D K) _ _ K (hs K) ih

theorem sweeps_trap (h0 : ∀ z, U 0 z = 1) (hs : ∀ k, ∀ᶠ z in 𝓝 (0 : ℂ), U (k + 1) z = 1 + z • ((Q - D k) *ᵥ U k z) + z • (D k *ᵥ U (k + 1) z))
    (hD : D 0 *ᵥ (Q *ᵥ 1) = Q *ᵥ (Q *ᵥ 1)) (K : ℕ) :
    (fun z => U (K + 1) z - tay Q (K + 2) z) =O[𝓝 0] fun z : ℂ => z ^ (K + 3) := by
  induction K with
  | zero => exact first_gain Q (D 0) _ _ (hs 0) h0 hD
  | succ K ih => exact sweep_gain Q (D (K + 1)) _ _ (K + 2) (hs (K + 1)) ih

theorem lower (V : ℂ → Fin M → ℂ) {m n : ℕ} (hmn : n ≤ m) (h : (fun z => V z - tay Q m z) =O[𝓝 0] fun z : ℂ => z ^ (m + 1)) :
    (fun z => V z - tay Q n z) =O[𝓝 0] fun z : ℂ => z ^ (n + 1) := by
  induction m, hmn using Nat.le_induction with
  | base => exact h
  | succ m hm ih =>
    apply ih
    have e : (fun z => V z - tay Q m z) = fun z => (V z - tay Q (m + 1) z) + z ^ (m + 1) • (Q ^ (m + 1) *ᵥ 1) := by
      funext z; rw [tay_succ]; abel
    rw [e]
    refine IsBigO.add (h.trans ?_) (const_O _ _)
    have : (fun z : ℂ => z ^ (m + 1 + 1)) = fun z => z * z ^ (m + 1) := by funext z; ring
    rw [this]
    have one : (fun z : ℂ => z) =O[𝓝 0] fun _ : ℂ => (1 : ℂ) := (continuous_id.tendsto (0 : ℂ)).isBigO_one ℂ
    simpa using one.mul (isBigO_refl (fun z : ℂ => z ^ (m + 1)) (𝓝 0))

theorem exp_O (n : ℕ) : (fun z : ℂ => Complex.exp z - ∑ i ∈ Finset.range n, z ^ i / (i.factorial : ℂ)) =O[𝓝 0] fun z : ℂ => z ^ n :=
  Complex.exp_sub_sum_range_isBigO_pow n

theorem dot_O (w : Fin M → ℂ) (V : ℂ → Fin M → ℂ) (g : ℂ → ℂ) (h : V =O[𝓝 0] g) : (fun z => ∑ i, w i * V z i) =O[𝓝 0] g := by
  refine IsBigO.trans (IsBigO.of_bound (∑ i, ‖w i‖) (Eventually.of_forall fun z => ?_)) h
  refine (norm_sum_le _ _).trans ?_
  rw [Finset.sum_mul]
  refine Finset.sum_le_sum fun i _ => ?_
  rw [norm_mul]
  exact mul_le_mul_of_nonneg_left (norm_le_pi_norm (V z) i) (norm_nonneg _)

/-- weighted update: one order more than the nodes, at most the order of the weights -/
theorem order_update (w : Fin M → ℂ) (p m : ℕ) (hw : ∀ j < p, ∑ i, w i * (Q ^ j *ᵥ 1) i = 1 / ((j + 1).factorial : ℂ))
    (V : ℂ → Fin M → ℂ) (h : (fun z => V z - tay Q m z) =O[𝓝 0] fun z : ℂ => z ^ (m + 1)) (q : ℕ) (hq : q ≤ p) (hqm : q ≤ m + 1) :
    (fun z => 1 + z * (∑ i, w i * V z i) - Complex.exp z) =O[𝓝 0] fun z : ℂ => z ^ (q + 1) := by
  rcases q with _ | q
  · -- order 0
    have hV : V =O[𝓝 0] fun _ : ℂ => (1 : ℂ) := by
      have a := lower Q V (Nat.zero_le m) h
      have e : V = fun z => (V z - tay Q 0 z) + 1 := by funext z; simp [tay]
      rw [e]
      refine IsBigO.add (a.trans ?_) ?_
      · simpa using (continuous_id.tendsto (0 : ℂ)).isBigO_one ℂ
      · exact isBigO_const_const _ one_ne_zero _
    have hs := dot_O w V _ hV
    have ex := exp_O 1
    have e : (fun z => 1 + z * (∑ i, w i * V z i) - Complex.exp z) =
        fun z => z * (∑ i, w i * V z i) - (Complex.exp z - ∑ i ∈ Finset.range 1, z ^ i / (i.factorial : ℂ)) := by
      funext z; simp; ring
    rw [e]
    refine IsBigO.sub ?_ ex
    simpa using (isBigO_refl (fun z : ℂ => z) (𝓝 0)).mul hs
  · have a := lower Q V (show q ≤ m by omega) h
    have hs := dot_O w _ _ a
    have ht : ∀ z, ∑ i, w i * tay Q q z i = ∑ j ∈ Finset.range (q + 1), z ^ j / ((j + 1).factorial : ℂ) := by
      intro z
      have : ∀ i, w i * tay Q q z i = ∑ j ∈ Finset.range (q + 1), z ^ j * (w i * (Q ^ j *ᵥ 1) i) := by
        intro i
        unfold tay
        rw [Finset.sum_apply, Finset.mul_sum]
        refine Finset.sum_congr rfl fun j _ => ?_
        rw [Pi.smul_apply, smul_eq_mul]; ring
      rw [Finset.sum_congr rfl fun i _ => this i, Finset.sum_comm]
      refine Finset.sum_congr rfl fun j hj => ?_
      rw [← Finset.mul_sum, hw j (by have := Finset.mem_range.mp hj; omega)]
      ring
    have e : (fun z => 1 + z * (∑ i, w i * V z i) - Complex.exp z) =
        fun z => z * (∑ i, w i * (V z - tay Q q z) i) - (Complex.exp z - ∑ i ∈ Finset.range (q + 2), z ^ i / (i.factorial : ℂ)) := by
      funext z
      have s : ∑ i, w i * (V z - tay Q q z) i = ∑ i, w i * V z i - ∑ i, w i * tay Q q z i := by
        rw [← Finset.sum_sub_distrib]
        exact Finset.sum_congr rfl fun i _ => by rw [Pi.sub_apply]; ring
      rw [s, ht, Finset.sum_range_succ' _ (q + 1), mul_sub]
      have : ∀ j ∈ Finset.range (q + 1), z * (z ^ j / ((j + 1).factorial : ℂ)) = z ^ (j + 1) / ((j + 1).factorial : ℂ) := by
        intro j _; ring
      have t2 : z * ∑ j ∈ Finset.range (q + 1), z ^ j / ((j + 1).factorial : ℂ) = ∑ j ∈ Finset.range (q + 1), z ^ (j + 1) / ((j + 1).factorial : ℂ) := by
        rw [Finset.mul_sum]; exact Finset.sum_congr rfl this
      rw [t2]
      simp only [pow_zero, Nat.factorial_zero, Nat.cast_one, div_one]
      ring
    rw [e]
    refine IsBigO.sub ?_ (exp_O _)
    have := (isBigO_refl (fun z : ℂ => z) (𝓝 0)).mul hs
    refine this.congr_right fun z => ?_
    ring

/-- last node: the last row of Q are the weights -/
theorem order_last (w : Fin M → ℂ) (last : Fin M) (hlast : ∀ j, Q last j = w j) (p m : ℕ)
    (hw : ∀ j < p, ∑ i, w i * (Q ^ j *ᵥ 1) i = 1 / ((j + 1).factorial : ℂ))
    (V : ℂ → Fin M → ℂ) (h : (fun z => V z - tay Q m z) =O[𝓝 0] fun z : ℂ => z ^ (m + 1)) (q : ℕ) (hq : q ≤ p) (hqm : q ≤ m) :
    (fun z => V z last - Complex.exp z) =O[𝓝 0] fun z : ℂ => z ^ (q + 1) := by
  have a := lower Q V hqm h
  have hs : (fun z => (V z - tay Q q z) last) =O[𝓝 0] fun z : ℂ => z ^ (q + 1) := by
    refine IsBigO.trans ?_ a
    exact IsBigO.of_bound 1 (Eventually.of_forall fun z => by rw [one_mul]; exact norm_le_pi_norm (V z - tay Q q z) last)
  have ht : ∀ z, tay Q q z last = ∑ j ∈ Finset.range (q + 1), z ^ j / (j.factorial : ℂ) := by
    intro z
    unfold tay
    rw [Finset.sum_apply]
    refine Finset.sum_congr rfl fun j hj => ?_
    rw [Pi.smul_apply, smul_eq_mul]
    rcases j with _ | j
    · simp
    · rw [pow_succ' Q, ← mulVec_mulVec]
      have : (Q *ᵥ (Q ^ j *ᵥ 1)) last = ∑ i, w i * (Q ^ j *ᵥ 1) i := by
        show ∑ i, Q last i * (Q ^ j *ᵥ 1) i = _
        exact Finset.sum_congr rfl fun i _ => by rw [hlast]
      rw [this, hw j (by have := Finset.mem_range.mp hj; omega)]
      ring
  have e : (fun z => V z last - Complex.exp z) = fun z => (V z - tay Q q z) last - (Complex.exp z - ∑ i ∈ Finset.range (q + 1), z ^ i / (i.factorial : ℂ)) := by
    funext z
    rw [Pi.sub_apply, ht]; ring
  rw [e]
  exact hs.sub (exp_O _)


/-! ### conclusion -/

/-- a real matrix as a complex one -/
def cplx (A : Matrix (Fin M) (Fin M) ℝ) : Matrix (Fin M) (Fin M) ℂ := A.map Complex.ofReal

theorem cplx_mulVec (A : Matrix (Fin M) (Fin M) ℝ) (v : Fin M → ℝ) : (cplx A *ᵥ fun i => (v i : ℂ)) = fun i => ((A *ᵥ v) i : ℂ) := by
  funext i
  show ∑ j, (cplx A) i j * (v j : ℂ) = ((∑ j, A i j * v j : ℝ) : ℂ)
  push_cast
  rfl

theorem cplx_pow (A : Matrix (Fin M) (Fin M) ℝ) (j : ℕ) : (cplx A ^ j *ᵥ 1) = fun i => ((A ^ j *ᵥ 1) i : ℂ) := by
  induction j with
  | zero => funext i; simp
  | succ j ih => rw [pow_succ', ← mulVec_mulVec, ih, cplx_mulVec, pow_succ', ← mulVec_mulVec]

structure Sdc (c : Fin M → ℝ) (Q : Matrix (Fin M) (Fin M) ℝ) (w : Fin M → ℝ) (p : ℕ) (D : ℕ → Matrix (Fin M) (Fin M) ℝ) (U : ℕ → ℂ → Fin M → ℂ) : Prop where
  size : M ≤ p
  rows : ∀ i, ∀ f : ℝ[X], f.degree < M → ∑ j, Q i j * f.eval (c j) = ∫ t in (0 : ℝ)..c i, f.eval t
  weights : ∀ f : ℝ[X], f.degree < p → ∑ j, w j * f.eval (c j) = ∫ t in (0 : ℝ)..1, f.eval t
  start : ∀ z, U 0 z = 1
  sweep : ∀ k, ∀ᶠ z in 𝓝 (0 : ℂ), U (k + 1) z = 1 + z • ((cplx Q - cplx (D k)) *ᵥ U k z) + z • (cplx (D k) *ᵥ U (k + 1) z)

variable {c : Fin M → ℝ} {R : Matrix (Fin M) (Fin M) ℝ} {w : Fin M → ℝ} {p : ℕ} {E : ℕ → Matrix (Fin M) (Fin M) ℝ} {V : ℕ → ℂ → Fin M → ℂ}

theorem Sdc.coeffs (h : Sdc c R w p E V) : ∀ j < p, ∑ i, (w i : ℂ) * (cplx R ^ j *ᵥ 1) i = 1 / ((j + 1).factorial : ℂ) := by
  intro j hj
  have := taylor_coeffs c R w p h.size h.rows h.weights j hj
  have := congrArg Complex.ofReal this
  push_cast at this
  rw [← this]
  refine Finset.sum_congr rfl fun i _ => ?_
  rw [cplx_pow]

/-- trapezoidal approximations: the first QDelta integrates the first-degree polynomial exactly -/
theorem Sdc.trap (h : Sdc c R w p E V) (hM : 2 ≤ M) (ht : ∀ i, ∑ j, E 0 i j * c j = c i ^ 2 / 2) :
    cplx (E 0) *ᵥ (cplx R *ᵥ 1) = cplx R *ᵥ (cplx R *ᵥ 1) := by
  have one : R *ᵥ 1 = c := by
    funext i
    have := h.rows i 1 (by rw [degree_one]; exact_mod_cast (by omega : 0 < M))
    simp only [eval_one, mul_one, intervalIntegral.integral_const, sub_zero, smul_eq_mul] at this
    show ∑ j, R i j * (1 : Fin M → ℝ) j = c i
    simpa using this
  have two : R *ᵥ c = fun i => c i ^ 2 / 2 := by
    funext i
    have := h.rows i X (by rw [degree_X]; exact_mod_cast (by omega : 1 < M))
    simp only [eval_X, integral_id] at this
    show ∑ j, R i j * c j = c i ^ 2 / 2
    rw [this]; ring
  have two' : E 0 *ᵥ c = fun i => c i ^ 2 / 2 := funext ht
  have e : cplx R *ᵥ 1 = fun i => (c i : ℂ) := by
    have := cplx_pow R 1
    rw [pow_one, pow_one, one] at this
    exact this
  rw [e, cplx_mulVec, cplx_mulVec, two, two']

/-- weighted update: K sweeps have order min (p, K + 1), for every choice of QDelta -/
theorem sdc_update (h : Sdc c R w p E V) (K : ℕ) :
    (fun z => 1 + z * (∑ i, (w i : ℂ) * V K z i) - Complex.exp z) =O[𝓝 0] fun z : ℂ => z ^ (min p (K + 1) + 1) :=
  order_update (cplx R) (fun i => (w i : ℂ)) p K h.coeffs (V K) (sweeps (cplx R) (fun k => cplx (E k)) V h.start h.sweep K) _ (min_le_left _ _) (min_le_right _ _)

/-- weighted update, trapezoidal first sweep: order min (p, K + 2) for K ≥ 1 sweeps -/
theorem sdc_update_trap (h : Sdc c R w p E V) (hM : 2 ≤ M) (ht : ∀ i, ∑ j, E 0 i j * c j = c i ^ 2 / 2) (K : ℕ) :
    (fun z => 1 + z * (∑ i, (w i : ℂ) * V (K + 1) z i) - Complex.exp z) =O[𝓝 0] fun z : ℂ => z ^ (min p (K + 1 + 2) + 1) :=
  order_update (cplx R) (fun i => (w i : ℂ)) p (K + 2) h.coeffs (V (K + 1)) (sweeps_trap (cplx R) (fun k => cplx (E k)) V h.start h.sweep (h.trap hM ht) K) _
    (min_le_left _ _) ((min_le_right _ _).trans (by omega))

/-- last node (the last row of Q are the weights): K sweeps have order min (p, K) -/
theorem sdc_last (h : Sdc c R w p E V) (last : Fin M) (hl : ∀ j, R last j = w j) (K : ℕ) :
    (fun z => V K z last - Complex.exp z) =O[𝓝 0] fun z : ℂ => z ^ (min p K + 1) :=
  order_last (cplx R) (fun i => (w i : ℂ)) last (fun j => by show ((R last j : ℝ) : ℂ) = _; rw [hl]) p K h.coeffs (V K)
    (sweeps (cplx R) (fun k => cplx (E k)) V h.start h.sweep K) _ (min_le_left _ _) (min_le_right _ _)

/-- last node, trapezoidal first sweep: order min (p, K + 1) for K ≥ 1 sweeps -/
theorem sdc_last_trap (h : Sdc c R w p E V) (hM : 2 ≤ M) (ht : ∀ i, ∑ j, E 0 i j * c j = c i ^ 2 / 2) (last : Fin M) (hl : ∀ j, R last j = w j) (K : ℕ) :
    (fun z => V (K + 1) z last - Complex.exp z) =O[𝓝 0] fun z : ℂ => z ^ (min p (K + 1 + 1) + 1) :=
  order_last (cplx R) (fun i => (w i : ℂ)) last (fun j => by show ((R last j : ℝ) : ℂ) = _; rw [hl]) p (K + 2) h.coeffs (V (K + 1))
    (sweeps_trap (cplx R) (fun k => cplx (E k)) V h.start h.sweep (h.trap hM ht) K) _ (min_le_left _ _) (min_le_right _ _)

end Qmat

#print axioms Qmat.taylor_coeffs
#print axioms Qmat.sdc_update
#print axioms Qmat.sdc_update_trap
#print axioms Qmat.sdc_last
#print axioms Qmat.sdc_last_trap
