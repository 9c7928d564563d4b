import Mathlib.Algebra.BigOperators.Group.Finset.Basic
import Mathlib.Data.Real.Basic

/-! C04: a placed matrix applied to values that agree on repeated points. -/

open Finset
namespace Qmat

/-- `inv j`: the distinct point of the point `j`; `occ c`: the occurrence at which column `c` is placed -/
theorem placed_apply {n N : ℕ} (occ : ℕ → ℕ) (inv : ℕ → ℕ) (M R : ℕ → ℝ) (f : ℕ → ℝ)
    (ho : ∀ c < n, occ c < N) (hi : ∀ c < n, inv (occ c) = c)
    (hR : ∀ c < n, R (occ c) = M c)
    (h0 : ∀ j < N, (∀ c < n, j ≠ occ c) → R j = 0) :
    ∑ j ∈ range N, R j * f (inv j) = ∑ c ∈ range n, M c * f c := by
  classical
  have hinj : Set.InjOn occ (range n : Finset ℕ) := by
    intro a ha b hb h
    have ha' := mem_range.1 (mem_coe.1 ha)
    have hb' := mem_range.1 (mem_coe.1 hb)
    rw [← hi a ha', ← hi b hb', h]
  have hsub : (range n).image occ ⊆ range N := by
    intro j hj
    obtain ⟨c, hc, rfl⟩ := mem_image.1 hj
    exact mem_range.2 (ho c (mem_range.1 hc))
  rw [← sum_subset hsub, sum_image hinj]
  · refine sum_congr rfl fun c hc => ?_
    rw [hR c (mem_range.1 hc), hi c (mem_range.1 hc)]
  · intro j hj hn
    rw [h0 j (mem_range.1 hj) (fun c hc h => hn (mem_image.2 ⟨c, mem_range.2 hc, h.symm⟩)), zero_mul]

end Qmat

#print axioms Qmat.placed_apply
