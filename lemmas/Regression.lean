import Mathlib.LinearAlgebra.Matrix.NonsingularInverse
import Mathlib.LinearAlgebra.Matrix.ToLinearEquiv
import Mathlib.LinearAlgebra.Matrix.DotProduct
import Mathlib.Algebra.Polynomial.Roots
import Mathlib.Algebra.Polynomial.BigOperators
import Mathlib.Data.Real.Basic

/-! C19: polynomial regression by normal equations reproduces polynomials. -/

open Matrix Finset
namespace Qmat

/-- the Gram matrix of the monomials on n distinct nodes is invertible up to degree n - 1 -/
theorem gram_unit {n p : ℕ} (x : Fin n → ℝ) (hx : Function.Injective x) (hp : p < n)
    (X : Matrix (Fin n) (Fin (p + 1)) ℝ) (hX : ∀ j a, X j a = x j ^ (a : ℕ)) :
    IsUnit (Xᵀ * X).det := by
  rw [isUnit_iff_ne_zero]
  intro h0
  obtain ⟨v, hv, hz⟩ := Matrix.exists_mulVec_eq_zero_iff.2 h0
  have h1 : X *ᵥ v = 0 := by
    have : (X *ᵥ v) ⬝ᵥ (X *ᵥ v) = 0 := by
      have e : (X *ᵥ v) ⬝ᵥ (X *ᵥ v) = v ⬝ᵥ ((Xᵀ * X) *ᵥ v) := by
        rw [← mulVec_mulVec, dotProduct_mulVec, dotProduct_comm, mulVec_transpose]
      rw [e, hz, dotProduct_zero]
    exact dotProduct_self_eq_zero.1 this
  let f : Polynomial ℝ := ∑ a : Fin (p + 1), Polynomial.C (v a) * Polynomial.X ^ (a : ℕ)
  have hev : ∀ j, f.eval (x j) = 0 := by
    intro j
    have := congrFun h1 j
    simp only [mulVec, dotProduct, hX, Pi.zero_apply] at this
    rw [← this]
    simp only [f, Polynomial.eval_finsetSum, Polynomial.eval_mul, Polynomial.eval_C, Polynomial.eval_pow, Polynomial.eval_X]
    exact sum_congr rfl fun a _ => mul_comm _ _
  have hdeg : f.natDegree ≤ p := by
    refine Polynomial.natDegree_sum_le_of_forall_le _ _ fun a _ => ?_
    exact (Polynomial.natDegree_C_mul_X_pow_le _ _).trans (Nat.lt_succ_iff.1 a.2)
  have hf : f = 0 := by
    by_contra hne
    have hc : n ≤ f.roots.toFinset.card := by
      have : (univ.image x).card = n := by rw [card_image_of_injective _ hx]; simp
      rw [← this]
      refine card_le_card fun y hy => ?_
      obtain ⟨j, _, rfl⟩ := mem_image.1 hy
      exact Multiset.mem_toFinset.2 ((Polynomial.mem_roots hne).2 (hev j))
    have := hc.trans (Multiset.toFinset_card_le _ |>.trans (Polynomial.card_roots' f))
    omega
  apply hv
  funext a
  have := congrArg (fun g => Polynomial.coeff g (a : ℕ)) hf
  simp only [f, Polynomial.finsetSum_coeff, Polynomial.coeff_C_mul, Polynomial.coeff_X_pow, Polynomial.coeff_zero] at this
  rw [sum_eq_single a] at this
  · simpa using this
  · intro b _ hb
    have : (a : ℕ) ≠ b := fun h => hb (Fin.ext h.symm)
    simp [this]
  · simp

/-- rows T (X^T X)^-1 X^T applied to the node values of a polynomial of degree <= p give its values at the times -/
theorem regression {n N p : ℕ} (x : Fin n → ℝ) (t : Fin N → ℝ) (hx : Function.Injective x) (hp : p < n)
    (X : Matrix (Fin n) (Fin (p + 1)) ℝ) (T : Matrix (Fin N) (Fin (p + 1)) ℝ)
    (hX : ∀ j a, X j a = x j ^ (a : ℕ)) (hT : ∀ i a, T i a = t i ^ (a : ℕ))
    (c : Fin (p + 1) → ℝ) (i : Fin N) :
    ((T * ((Xᵀ * X)⁻¹ * Xᵀ)) *ᵥ fun j => ∑ a, c a * x j ^ (a : ℕ)) i = ∑ a, c a * t i ^ (a : ℕ) := by
  have hu := gram_unit x hx hp X hX
  have e : (fun j => ∑ a, c a * x j ^ (a : ℕ)) = X *ᵥ c := by
    funext j
    simp only [mulVec, dotProduct, hX]
    exact sum_congr rfl fun a _ => mul_comm _ _
  rw [e, mulVec_mulVec, Matrix.mul_assoc, Matrix.mul_assoc, nonsing_inv_mul _ hu, Matrix.mul_one]
  simp only [mulVec, dotProduct, hT]
  exact sum_congr rfl fun a _ => mul_comm _ _

end Qmat

#print axioms Qmat.gram_unit
#print axioms Qmat.regression
