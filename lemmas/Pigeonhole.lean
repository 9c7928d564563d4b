import Mathlib

namespace Qmat

/-- `n + 1` chosen images (one for every grid point, and one more) cannot have different ranks below `p ≤ n`. -/
theorem no_two_images_of_one_point (n p : ℕ) (hp : p ≤ n) (rank : ℕ → ℕ) (img : ℕ → ℕ) (extra : ℕ)
    (hchosen : ∀ b < n, rank (img b) < p) (hextra : rank extra < p)
    (hinj : ∀ b < n, ∀ c < n, b ≠ c → rank (img b) ≠ rank (img c))
    (hdiff : ∀ b < n, rank (img b) ≠ rank extra) : False := by
  have h : (Finset.range (n + 1)).card ≤ (Finset.range p).card := by
    apply Finset.card_le_card_of_injOn (fun b => if b < n then rank (img b) else rank extra)
    · intro b _
      simp only [Finset.coe_range, Set.mem_Iio]
      split
      · exact hchosen b ‹_›
      · exact hextra
    · intro b hb c hc hbc
      simp only [Finset.coe_range, Set.mem_Iio] at hb hc
      simp only at hbc
      by_contra hne
      split at hbc <;> split at hbc
      · exact hinj b ‹_› c ‹_› hne hbc
      · exact hdiff b ‹_› hbc
      · exact hdiff c ‹_› hbc.symm
      · omega
  simp at h
  omega

end Qmat

#print axioms Qmat.no_two_images_of_one_point
