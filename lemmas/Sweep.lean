import Mathlib.LinearAlgebra.Matrix.NonsingularInverse
import Mathlib.Data.Complex.Basic

/-! C18: the collocation solution is a fixed point of every sweep. C17: the stability function of a step. -/

open Matrix
namespace Qmat

variable {n : Type*} [Fintype n] [DecidableEq n]

/-- `sweep` is the postcondition of one sweep: (I - z D) new = u + z (Q - D) old, I - z D invertible -/
theorem sweep_fixed (z : ℂ) (Q D : Matrix n n ℂ) (u U : n → ℂ) (h : IsUnit (1 - z • D).det)
    (hU : U = u + z • (Q *ᵥ U)) :
    (1 - z • D)⁻¹ *ᵥ (u + z • ((Q - D) *ᵥ U)) = U := by
  have e : u + z • ((Q - D) *ᵥ U) = (1 - z • D) *ᵥ U := by
    rw [sub_mulVec, sub_mulVec, one_mulVec, smul_sub, smul_mulVec, ← add_sub_assoc, ← hU]
  rw [e, mulVec_mulVec, nonsing_inv_mul _ h, one_mulVec]

/-- conversely a fixed point of a sweep is a collocation solution -/
theorem fixed_sweep (z : ℂ) (Q D : Matrix n n ℂ) (u U : n → ℂ) (h : IsUnit (1 - z • D).det)
    (hU : (1 - z • D)⁻¹ *ᵥ (u + z • ((Q - D) *ᵥ U)) = U) :
    U = u + z • (Q *ᵥ U) := by
  have e : u + z • ((Q - D) *ᵥ U) = (1 - z • D) *ᵥ U := by
    have := congrArg (fun v => (1 - z • D) *ᵥ v) hU
    simpa [mulVec_mulVec, mul_nonsing_inv _ h] using this
  rw [sub_mulVec, sub_mulVec, one_mulVec, smul_sub, smul_mulVec] at e
  have : U = (u + (z • (Q *ᵥ U) - z • (D *ᵥ U))) + z • (D *ᵥ U) := by rw [e]; abel
  rw [this]
  conv_rhs => rw [← this]
  abel

/-- C17: the update of a Runge-Kutta step is multiplication by 1 + z w^T (I - z Q)^{-1} 1 -/
theorem stability (z u : ℂ) (Q : Matrix n n ℂ) (w U : n → ℂ) (h : IsUnit (1 - z • Q).det)
    (hU : U = (fun _ => u) + z • (Q *ᵥ U)) :
    u + z * (w ⬝ᵥ U) = u * (1 + z * (w ⬝ᵥ ((1 - z • Q)⁻¹ *ᵥ fun _ => 1))) := by
  have e : (1 - z • Q) *ᵥ U = u • (fun _ => (1 : ℂ)) := by
    rw [sub_mulVec, one_mulVec, smul_mulVec]
    have : U - z • (Q *ᵥ U) = fun _ => u := sub_eq_iff_eq_add.2 hU
    rw [this]; ext i; simp
  have : U = u • ((1 - z • Q)⁻¹ *ᵥ fun _ => (1 : ℂ)) := by
    have := congrArg (fun v => (1 - z • Q)⁻¹ *ᵥ v) e
    simpa [mulVec_mulVec, nonsing_inv_mul _ h, mulVec_smul] using this
  rw [this, dotProduct_smul, smul_eq_mul]; ring

end Qmat

#print axioms Qmat.sweep_fixed
#print axioms Qmat.fixed_sweep
#print axioms Qmat.stability
