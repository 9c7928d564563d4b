import Mathlib.LinearAlgebra.Vandermonde
import Mathlib.LinearAlgebra.Matrix.NonsingularInverse
import Mathlib.Data.Real.Basic
import Mathlib.Tactic

/-! The sweeps of the node-based diagonal approximations annihilate (C13). -/

open Matrix

namespace Qmat

variable {n : ℕ}

/-- a matrix vanishing on n consecutive powers (starting at o) of n distinct points vanishes -/
theorem zero_of_powers (x : Fin n → ℝ) (hx : Function.Injective x) (o : ℕ) (hz : o = 0 ∨ ∀ i, x i ≠ 0)
    (A : Matrix (Fin n) (Fin n) ℝ) (h : ∀ j < n, A *ᵥ (fun i => x i ^ (j + o)) = 0) : A = 0 := by
  have hd : (diagonal (fun i => x i ^ o)).det ≠ 0 := by
    rw [det_diagonal]
    refine Finset.prod_ne_zero_iff.2 fun i _ => ?_
    rcases hz with rfl | hz
    · simp
    · exact pow_ne_zero _ (hz i)
  have hv : (vandermonde x).det ≠ 0 := det_vandermonde_ne_zero_iff.2 hx
  have hdet : IsUnit (diagonal (fun i => x i ^ o) * vandermonde x).det := by
    rw [det_mul]
    exact (mul_ne_zero hd hv).isUnit
  have hA : A * (diagonal (fun i => x i ^ o) * vandermonde x) = 0 := by
    ext r j
    have := congrFun (h j j.2) r
    simp only [mulVec, dotProduct, Pi.zero_apply] at this
    rw [Matrix.mul_apply, Matrix.zero_apply, ← this]
    refine Finset.sum_congr rfl fun i _ => ?_
    rw [diagonal_mul, vandermonde_apply]
    ring
  calc A = A * (diagonal (fun i => x i ^ o) * vandermonde x) * (diagonal (fun i => x i ^ o) * vandermonde x)⁻¹ := by
        rw [mul_assoc, mul_nonsing_inv _ hdet, mul_one]
    _ = 0 := by rw [hA, zero_mul]

/-- Q exact on the powers below n, QDelta = diag (x / n): Q - QDelta is nilpotent of index n -/
theorem nonstiff_nilpotent (x : Fin n → ℝ) (hx : Function.Injective x) (Q : Matrix (Fin n) (Fin n) ℝ)
    (hQ : ∀ j < n, Q *ᵥ (fun i => x i ^ j) = fun i => x i ^ (j + 1) / ((j : ℝ) + 1)) :
    (Q - diagonal (fun i => x i / (n : ℝ))) ^ n = 0 := by
  set N := Q - diagonal (fun i => x i / (n : ℝ)) with hN
  have act : ∀ j < n, N *ᵥ (fun i => x i ^ j) = (1 / ((j : ℝ) + 1) - 1 / (n : ℝ)) • fun i => x i ^ (j + 1) := by
    intro j hj
    rw [hN, sub_mulVec, hQ j hj]
    ext i
    simp only [mulVec_diagonal, Pi.sub_apply, Pi.smul_apply, smul_eq_mul]
    ring
  -- N^(n - j) vanishes on the j-th power
  have key : ∀ m j, j + m + 1 = n → N ^ (m + 1) *ᵥ (fun i => x i ^ j) = 0 := by
    intro m
    induction m with
    | zero =>
      intro j hj
      have hc : (n : ℝ) = (j : ℝ) + 1 := by rw [← hj]; push_cast; ring
      rw [zero_add, pow_one, act j (by omega), hc, sub_self, zero_smul]
    | succ m ih =>
      intro j hj
      rw [pow_succ, ← mulVec_mulVec, act j (by omega), mulVec_smul, ih (j + 1) (by omega), smul_zero]
  refine zero_of_powers x hx 0 (Or.inl rfl) _ fun j hj => ?_
  have e : N ^ n = N ^ j * N ^ (n - 1 - j + 1) := by
    rw [← pow_add]
    congr 1
    omega
  rw [e, ← mulVec_mulVec, add_zero, key (n - 1 - j) j (by omega), mulVec_zero]

/-- Q exact on the powers o, .., o + n - 1, QDelta_k = diag (x / k): every product of the stiff-limit sweeps that
contains the sweeps o + 1, .., o + n vanishes (o = 1: the node at zero is left out) -/
theorem flex_product (x : Fin n → ℝ) (hx : Function.Injective x) (hz : ∀ i, x i ≠ 0) (o : ℕ) (Q : Matrix (Fin n) (Fin n) ℝ)
    (hQ : ∀ j < n, Q *ᵥ (fun i => x i ^ (j + o)) = fun i => x i ^ (j + o + 1) / ((j : ℝ) + o + 1))
    (l : List ℕ) (h0 : ∀ k ∈ l, k ≠ 0) (hl : ∀ j < n, j + o + 1 ∈ l) :
    (l.map fun k : ℕ => 1 - (diagonal (fun i => x i / (k : ℝ)))⁻¹ * Q).prod = 0 := by
  have act : ∀ k : ℕ, k ≠ 0 → ∀ j < n, (1 - (diagonal (fun i => x i / (k : ℝ)))⁻¹ * Q) *ᵥ (fun i => x i ^ (j + o)) =
      (1 - (k : ℝ) / ((j : ℝ) + o + 1)) • fun i => x i ^ (j + o) := by
    intro k hk j hj
    have hk' : (k : ℝ) ≠ 0 := by exact_mod_cast hk
    have hi : (diagonal (fun i => x i / (k : ℝ)))⁻¹ = diagonal (fun i => (k : ℝ) / x i) := by
      refine inv_eq_left_inv ?_
      rw [diagonal_mul_diagonal, ← diagonal_one]
      congr 1
      ext i
      have := hz i
      field_simp
    rw [hi, sub_mulVec, one_mulVec, ← mulVec_mulVec, hQ j hj]
    ext i
    have := hz i
    have hj' : (j : ℝ) + o + 1 ≠ 0 := by positivity
    simp only [mulVec_diagonal, Pi.sub_apply, Pi.smul_apply, smul_eq_mul]
    field_simp
    ring
  have prod : ∀ l : List ℕ, (∀ k ∈ l, k ≠ 0) → ∀ j < n,
      (l.map fun k : ℕ => 1 - (diagonal (fun i => x i / (k : ℝ)))⁻¹ * Q).prod *ᵥ (fun i => x i ^ (j + o)) =
      (l.map fun k : ℕ => 1 - (k : ℝ) / ((j : ℝ) + o + 1)).prod • fun i => x i ^ (j + o) := by
    intro l
    induction l with
    | nil => intro _ j _; simp
    | cons k l ih =>
      intro h0 j hj
      rw [List.map_cons, List.prod_cons, List.map_cons, List.prod_cons, ← mulVec_mulVec,
        ih (fun k hk => h0 k (List.mem_cons_of_mem _ hk)) j hj, mulVec_smul, act k (h0 k List.mem_cons_self) j hj, smul_smul]
      congr 1
      ring
  refine zero_of_powers x hx o (Or.inr hz) _ fun j hj => ?_
  rw [prod l h0 j hj]
  have : (l.map fun k : ℕ => 1 - (k : ℝ) / ((j : ℝ) + o + 1)).prod = 0 := by
    refine List.prod_eq_zero (List.mem_map.2 ⟨j + o + 1, hl j hj, ?_⟩)
    have hj' : (j : ℝ) + o + 1 ≠ 0 := by positivity
    push_cast
    field_simp
    ring
  rw [this, zero_smul]

end Qmat

#print axioms Qmat.nonstiff_nilpotent
#print axioms Qmat.flex_product
