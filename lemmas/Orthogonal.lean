/- Orthogonal polynomials given by their three-term recurrence (contracts of getOrthogPolyCoefficients, evalOrthogPoly and
   getTridiagCoefficients): roots of the (modified) polynomials lie in [-1, 1]; closed forms of the Chebyshev families. -/
import Mathlib

namespace Qmat

/-- the recurrence evaluated by evalOrthogPoly -/
structure Rec (α β : ℕ → ℝ) (p : ℕ → ℝ → ℝ) : Prop where
  zero : ∀ t, p 0 t = 1
  one : ∀ t, p 1 t = t - α 0
  step : ∀ k t, p (k + 2) t = (t - α (k + 1)) * p (k + 1) t - β (k + 1) * p k t

variable {α β : ℕ → ℝ} {p : ℕ → ℝ → ℝ}

theorem pos_of_ratio (h : Rec α β p) {N : ℕ} {s : ℝ} (ρ : ℕ → ℝ) (hρ : ∀ k, k + 1 < N → 0 < ρ k)
    (hp : ∀ k, k + 1 < N → p (k + 1) s = ρ k * p k s) : ∀ k, k < N → 0 < p k s := by
  intro k
  induction k with
  | zero => intro _; rw [h.zero]; exact one_pos
  | succ k ih =>
    intro hk
    rw [hp k hk]
    exact mul_pos (hρ k hk) (ih (by omega))

theorem grows (h : Rec α β p) {N : ℕ} (hβ : ∀ k, 1 ≤ k → k < N → 0 ≤ β k) (h1 : ∀ k, k < N → 0 < p k 1) {t : ℝ} (ht : 1 < t) :
    ∀ k, k < N → 0 < p k t ∧ (p (k + 1) 1 + (t - 1) * p k 1) * p k t ≤ p (k + 1) t * p k 1 := by
  intro k
  induction k with
  | zero =>
    intro _
    rw [h.zero, h.zero, h.one, h.one]
    exact ⟨one_pos, by linarith⟩
  | succ k ih =>
    intro hk
    obtain ⟨a, b⟩ := ih (by omega)
    have hk1 := h1 k (by omega)
    have hk2 := h1 (k + 1) hk
    have pos : 0 < p (k + 1) t := by
      have : 0 < p (k + 1) t * p k 1 := lt_of_lt_of_le (mul_pos (by nlinarith) a) b
      exact pos_of_mul_pos_left this hk1.le
    refine ⟨pos, ?_⟩
    have c : p (k + 1) 1 * p k t ≤ p (k + 1) t * p k 1 := by
      have : 0 ≤ (t - 1) * p k 1 * p k t := by positivity
      nlinarith
    have d := mul_le_mul_of_nonneg_left c (hβ (k + 1) (by omega) hk)
    have e1 := h.step k t
    have e2 := h.step k 1
    have : k + 1 + 1 = k + 2 := rfl
    rw [this, e1, e2]
    nlinarith

/-- no root above 1 -/
theorem no_root_above (h : Rec α β p) {N : ℕ} (hN : 1 ≤ N) (hβ : ∀ k, 1 ≤ k → k < N → 0 ≤ β k) (h1 : ∀ k, k < N → 0 < p k 1)
    (hlast : 0 ≤ p N 1) {t : ℝ} (ht : 1 < t) : 0 < p N t := by
  obtain ⟨n, rfl⟩ : ∃ n, N = n + 1 := ⟨N - 1, by omega⟩
  obtain ⟨a, b⟩ := grows h hβ h1 ht n (by omega)
  have hn := h1 n (by omega)
  have : 0 < p (n + 1) t * p n 1 := lt_of_lt_of_le (mul_pos (by nlinarith) a) b
  exact pos_of_mul_pos_left this hn.le

/-- the reflected polynomials -/
theorem reflect (h : Rec α β p) : Rec (fun k => -α k) β (fun k t => (-1) ^ k * p k (-t)) where
  zero t := by simp [h.zero]
  one t := by simp [h.one]; ring
  step k t := by
    simp only [h.step]
    ring

/-- postconditions of getTridiagCoefficients: all roots of the (modified) polynomial of degree N lie in [-1, 1], and an end
with a non-zero last ratio is not a root -/
theorem roots_in (h : Rec α β p) {N : ℕ} (hN : 1 ≤ N) (hβ : ∀ k, 1 ≤ k → k < N → 0 < β k)
    (ρ σ : ℕ → ℝ) (hρ : ∀ k, k + 1 < N → 0 < ρ k) (hσ : ∀ k, k + 1 < N → σ k < 0)
    (h1 : ∀ k, k + 1 < N → p (k + 1) 1 = ρ k * p k 1) (h2 : ∀ k, k + 1 < N → p (k + 1) (-1) = σ k * p k (-1))
    (r s : ℝ) (hr : 0 ≤ r) (hs : s ≤ 0) (hp1 : p N 1 = r * p (N - 1) 1) (hp2 : p N (-1) = s * p (N - 1) (-1)) :
    (∀ t, p N t = 0 → -1 ≤ t ∧ t ≤ 1) ∧ (r ≠ 0 → p N 1 ≠ 0) ∧ (s ≠ 0 → p N (-1) ≠ 0) := by
  have hβ' : ∀ k, 1 ≤ k → k < N → 0 ≤ β k := fun k a b => (hβ k a b).le
  have g1 := pos_of_ratio h ρ hρ h1
  have g2 := pos_of_ratio (reflect h) (s := 1) (fun k => -σ k) (fun k hk => by linarith [hσ k hk]) (by
    intro k hk
    simp only [h2 k hk]
    ring)
  have q1 : 0 ≤ p N 1 := by rw [hp1]; exact mul_nonneg hr (g1 _ (by omega)).le
  have q2 : 0 ≤ (-1) ^ N * p N (-1) := by
    have e : (-1 : ℝ) ^ N = -(-1) ^ (N - 1) := by
      obtain ⟨n, rfl⟩ : ∃ n, N = n + 1 := ⟨N - 1, by omega⟩
      simp [pow_succ]
    have := g2 (N - 1) (by omega)
    rw [hp2, e]
    have e2 : s * p (N - 1) (-1) * (-(-1) ^ (N - 1)) = -s * ((-1) ^ (N - 1) * p (N - 1) (-1)) := by ring
    rw [mul_comm, e2]
    exact mul_nonneg (by linarith) this.le
  refine ⟨fun t ht => ⟨?_, ?_⟩, fun hr0 => ?_, fun hs0 => ?_⟩
  · by_contra hc
    have := no_root_above (reflect h) hN hβ' g2 q2 (t := -t) (by linarith [not_le.mp hc])
    simp [ht] at this
  · by_contra hc
    have := no_root_above h hN hβ' g1 q1 (not_le.mp hc)
    linarith
  · rw [hp1]; exact mul_ne_zero hr0 (g1 _ (by omega)).ne'
  · rw [hp2]
    refine mul_ne_zero hs0 ?_
    have := g2 (N - 1) (by omega)
    intro h0
    simp [h0] at this

/-- CHEBY-1: p_k(cos x) = cos(k x) / 2^(k-1) -/
theorem cheby1 (h : Rec α β p) (hα : ∀ k, α k = 0) (hβ1 : β 1 = 1 / 2) (hβ : ∀ k, 2 ≤ k → β k = 1 / 4) (x : ℝ) (k : ℕ) :
    2 ^ k * p (k + 1) (Real.cos x) = Real.cos ((k + 1 : ℕ) * x) := by
  induction k using Nat.strong_induction_on with
  | _ k ih =>
    match k with
    | 0 => simp [h.one, hα]
    | 1 =>
      rw [h.step 0, h.one, h.zero, hα, hα, hβ1]
      have := Real.cos_two_mul x
      push_cast
      rw [this]
      ring
    | k + 2 =>
      have a := ih (k + 1) (by omega)
      have b := ih k (by omega)
      rw [h.step (k + 1), hα, hβ (k + 1 + 1) (by omega)]
      have e : Real.cos ((k + 2 + 1 : ℕ) * x) = 2 * Real.cos x * Real.cos ((k + 1 + 1 : ℕ) * x) - Real.cos ((k + 1 : ℕ) * x) := by
        have e1 : ((k + 2 + 1 : ℕ) : ℝ) * x = (k + 1 + 1 : ℕ) * x + x := by push_cast; ring
        have e2 : ((k + 1 : ℕ) : ℝ) * x = (k + 1 + 1 : ℕ) * x - x := by push_cast; ring
        rw [e1, e2, Real.cos_add, Real.cos_sub]
        ring
      rw [e, ← a, ← b]
      ring

/-- CHEBY-2: p_k(cos x) sin x = sin((k+1) x) / 2^k -/
theorem cheby2 (h : Rec α β p) (hα : ∀ k, α k = 0) (hβ : ∀ k, 1 ≤ k → β k = 1 / 4) (x : ℝ) (k : ℕ) :
    2 ^ k * p k (Real.cos x) * Real.sin x = Real.sin ((k + 1 : ℕ) * x) := by
  induction k using Nat.strong_induction_on with
  | _ k ih =>
    match k with
    | 0 => simp [h.zero]
    | 1 =>
      rw [h.one, hα]
      push_cast
      rw [Real.sin_two_mul]
      ring
    | k + 2 =>
      have a := ih (k + 1) (by omega)
      have b := ih k (by omega)
      rw [h.step k, hα, hβ (k + 1) (by omega)]
      have e : Real.sin ((k + 2 + 1 : ℕ) * x) = 2 * Real.cos x * Real.sin ((k + 1 + 1 : ℕ) * x) - Real.sin ((k + 1 : ℕ) * x) := by
        have e1 : ((k + 2 + 1 : ℕ) : ℝ) * x = (k + 1 + 1 : ℕ) * x + x := by push_cast; ring
        have e2 : ((k + 1 : ℕ) : ℝ) * x = (k + 1 + 1 : ℕ) * x - x := by push_cast; ring
        rw [e1, e2, Real.sin_add, Real.sin_sub]
        ring
      rw [e, ← a, ← b]
      ring

/-- CHEBY-3: p_k(cos x) cos(x/2) = cos((k + 1/2) x) / 2^k -/
theorem cheby3 (h : Rec α β p) (hα0 : α 0 = 1 / 2) (hα : ∀ k, 1 ≤ k → α k = 0) (hβ : ∀ k, 1 ≤ k → β k = 1 / 4) (x : ℝ) (k : ℕ) :
    2 ^ k * p k (Real.cos x) * Real.cos (x / 2) = Real.cos ((k + 1 / 2 : ℝ) * x) := by
  induction k using Nat.strong_induction_on with
  | _ k ih =>
    match k with
    | 0 => simp [h.zero]; ring_nf
    | 1 =>
      rw [h.one, hα0]
      have e1 : ((1 : ℕ) + 1 / 2 : ℝ) * x = x + x / 2 := by push_cast; ring
      have e2 : x / 2 = x - x / 2 := by ring
      have e3 : Real.cos (x / 2) = Real.cos x * Real.cos (x / 2) + Real.sin x * Real.sin (x / 2) := by
        conv_lhs => rw [e2, Real.cos_sub]
      rw [e1, Real.cos_add]
      linarith
    | k + 2 =>
      have a := ih (k + 1) (by omega)
      have b := ih k (by omega)
      rw [h.step k, hα (k + 1) (by omega), hβ (k + 1) (by omega)]
      have e : Real.cos (((k + 2 : ℕ) + 1 / 2 : ℝ) * x) = 2 * Real.cos x * Real.cos (((k + 1 : ℕ) + 1 / 2 : ℝ) * x) - Real.cos (((k : ℕ) + 1 / 2 : ℝ) * x) := by
        have e1 : ((k + 2 : ℕ) + 1 / 2 : ℝ) * x = ((k + 1 : ℕ) + 1 / 2 : ℝ) * x + x := by push_cast; ring
        have e2 : ((k : ℕ) + 1 / 2 : ℝ) * x = ((k + 1 : ℕ) + 1 / 2 : ℝ) * x - x := by push_cast; ring
        rw [e1, e2, Real.cos_add, Real.cos_sub]
        ring
      rw [e, ← a, ← b]
      ring

/-- CHEBY-4: p_k(cos x) sin(x/2) = sin((k + 1/2) x) / 2^k -/
theorem cheby4 (h : Rec α β p) (hα0 : α 0 = -(1 / 2)) (hα : ∀ k, 1 ≤ k → α k = 0) (hβ : ∀ k, 1 ≤ k → β k = 1 / 4) (x : ℝ) (k : ℕ) :
    2 ^ k * p k (Real.cos x) * Real.sin (x / 2) = Real.sin ((k + 1 / 2 : ℝ) * x) := by
  induction k using Nat.strong_induction_on with
  | _ k ih =>
    match k with
    | 0 => simp [h.zero]; ring_nf
    | 1 =>
      rw [h.one, hα0]
      have e1 : ((1 : ℕ) + 1 / 2 : ℝ) * x = x + x / 2 := by push_cast; ring
      have e2 : x / 2 = x - x / 2 := by ring
      have e3 : Real.sin (x / 2) = Real.sin x * Real.cos (x / 2) - Real.cos x * Real.sin (x / 2) := by
        conv_lhs => rw [e2, Real.sin_sub]
      rw [e1, Real.sin_add]
      linarith
    | k + 2 =>
      have a := ih (k + 1) (by omega)
      have b := ih k (by omega)
      rw [h.step k, hα (k + 1) (by omega), hβ (k + 1) (by omega)]
      have e : Real.sin (((k + 2 : ℕ) + 1 / 2 : ℝ) * x) = 2 * Real.cos x * Real.sin (((k + 1 : ℕ) + 1 / 2 : ℝ) * x) - Real.sin (((k : ℕ) + 1 / 2 : ℝ) * x) := by
        have e1 : ((k + 2 : ℕ) + 1 / 2 : ℝ) * x = ((k + 1 : ℕ) + 1 / 2 : ℝ) * x + x := by push_cast; ring
        have e2 : ((k : ℕ) + 1 / 2 : ℝ) * x = ((k + 1 : ℕ) + 1 / 2 : ℝ) * x - x := by push_cast; ring
        rw [e1, e2, Real.sin_add, Real.sin_sub]
        ring
      rw [e, ← a, ← b]
      ring

end Qmat

#print axioms Qmat.roots_in
#print axioms Qmat.cheby1
#print axioms Qmat.cheby2
#print axioms Qmat.cheby3
#print axioms Qmat.cheby4
