import Mathlib.LinearAlgebra.Matrix.Charpoly.Coeff
import Mathlib.LinearAlgebra.Matrix.Charpoly.LinearMap
import Mathlib.Algebra.Polynomial.Roots
import Mathlib.Data.Real.Basic
import Mathlib.Tactic

/-! The condition solved by MIN_SR_S implies nilpotency of the stiff-limit sweep (C22). -/

open Polynomial Matrix

namespace Qmat

/-- a matrix with det (1 - z N) = 1 at n distinct non-zero points z is nilpotent -/
theorem nilpotent_of_det {n : ℕ} (N : Matrix (Fin n) (Fin n) ℝ) (z : Fin n → ℝ) (hz : Function.Injective z)
    (hz0 : ∀ i, z i ≠ 0) (h : ∀ i, (1 - z i • N).det = 1) : N ^ n = 0 := by
  have ev : ∀ t : ℝ, N.charpolyRev.eval t = (1 - t • N).det := fun t => by
    rw [Matrix.charpolyRev, ← coe_evalRingHom, RingHom.map_det]
    congr 1
    ext r s
    by_cases hrs : r = s <;> simp [hrs] <;> exact mul_comm _ _
  have deg : (N.charpolyRev - 1).natDegree ≤ n := by
    refine (natDegree_sub_le _ _).trans ?_
    simp only [natDegree_one, zero_le, max_eq_left]
    rw [← Matrix.reverse_charpoly]
    exact (reverse_natDegree_le _).trans (by simp)
  have zero : N.charpolyRev - 1 = 0 := by
    by_contra hne
    let w : Option (Fin n) → ℝ := fun o => o.elim 0 z
    have hw : Function.Injective w := by
      intro a b hab
      cases a <;> cases b
      · rfl
      · exact absurd hab.symm (hz0 _)
      · exact absurd hab (hz0 _)
      · exact congrArg some (hz hab)
    have hr : ∀ o, (N.charpolyRev - 1).eval (w o) = 0 := by
      intro o
      cases o with
      | none => simp [w, ev]
      | some i => simp [w, ev, h]
    have := card_le_degree_of_subset_roots (p := N.charpolyRev - 1) (Z := Finset.univ.image w) (by
      intro a ha
      have ha' : a ∈ Finset.image w Finset.univ := ha
      obtain ⟨o, -, rfl⟩ := Finset.mem_image.1 ha'
      exact (mem_roots hne).2 (hr o))
    rw [Finset.card_image_of_injective _ hw] at this
    simp at this
    omega
  have rev : N.charpolyRev = 1 := sub_eq_zero.1 zero
  have cp : N.charpoly = X ^ n := by
    have hm := N.charpoly_monic
    have hd : N.charpoly.natDegree = n := by simp
    have hrv : N.charpoly.reverse = 1 := by rw [Matrix.reverse_charpoly, rev]
    ext i
    rw [coeff_X_pow]
    by_cases hi : i ≤ n
    · have := congrArg (fun p => p.coeff (n - i)) hrv
      simp only [coeff_one] at this
      rw [coeff_reverse, hd, revAt_le (by omega)] at this
      rw [show n - (n - i) = i by omega] at this
      rw [this]
      by_cases h2 : i = n <;> simp [h2] <;> omega
    · rw [coeff_eq_zero_of_natDegree_lt (by omega)]
      simp; omega
  have := Matrix.aeval_self_charpoly N
  rw [cp] at this
  simpa using this

/-- the postcondition of MIN_SR_S.computeCoeffs (with coefficients c, on the nodes z) makes I - QDelta^{-1} Q nilpotent -/
theorem stiff_nilpotent {n : ℕ} (Q : Matrix (Fin n) (Fin n) ℝ) (c z : Fin n → ℝ) (hz : Function.Injective z) (hz0 : ∀ i, z i ≠ 0)
    (h : ∀ i, (Matrix.of fun r s => (1 - z i) * (if r = s then 1 else 0) + z i * (Q r s / c r)).det = 1) :
    (1 - Matrix.diagonal (fun r => (c r)⁻¹) * Q) ^ n = 0 := by
  refine nilpotent_of_det _ z hz hz0 fun i => ?_
  rw [← h i]
  congr 1
  ext r s
  by_cases hrs : r = s
  · simp [hrs, Matrix.diagonal_mul]; ring
  · simp [hrs, Matrix.diagonal_mul, div_eq_inv_mul]

end Qmat

#print axioms Qmat.nilpotent_of_det
#print axioms Qmat.stiff_nilpotent
