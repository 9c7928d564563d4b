import Mathlib

namespace Qmat

open Polynomial Finset

/-- A row whose moments about the target are those of the evaluation at the target reproduces every polynomial
of degree below the number of moments. -/
theorem moments_reproduce {ι : Type*} (s : Finset ι) (p : ℕ) (w y : ι → ℝ) (t : ℝ)
    (h : ∀ q < p, ∑ z ∈ s, w z * (y z - t) ^ q = if q = 0 then 1 else 0) (f : ℝ[X]) (hf : f.natDegree < p) :
    ∑ z ∈ s, w z * f.eval (y z) = f.eval t := by
  have hy : ∀ z, f.eval (y z) = ∑ q ∈ range p, (taylor t f).coeff q * (y z - t) ^ q := by
    intro z
    have h1 : f.eval (y z) = (taylor t f).eval (y z - t) := by
      rw [taylor_eval]; congr 1; ring
    rw [h1]
    exact eval_eq_sum_range' (by rw [natDegree_taylor]; exact hf) _
  have hp : 0 < p := lt_of_le_of_lt (Nat.zero_le _) hf
  calc ∑ z ∈ s, w z * f.eval (y z)
      = ∑ q ∈ range p, (taylor t f).coeff q * ∑ z ∈ s, w z * (y z - t) ^ q := by
        simp_rw [hy, mul_sum]
        rw [sum_comm]
        exact sum_congr rfl fun q _ => sum_congr rfl fun z _ => by ring
    _ = ∑ q ∈ range p, (taylor t f).coeff q * (if q = 0 then 1 else 0) :=
        sum_congr rfl fun q hq => by rw [h q (mem_range.1 hq)]
    _ = (taylor t f).coeff 0 := by
        simp [hp]
    _ = f.eval t := by simp [taylor_coeff_zero]

end Qmat

#print axioms Qmat.moments_reproduce
