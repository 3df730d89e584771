import Mathlib
/-!
Counting lemmas about boxes of grid points: used for the size of message buffers (C08) and for tilings (C06).
-/
open Finset

namespace FftMpi

/-- parts of a set that lie in disjoint sets have together at most its size -/
theorem overlap_le {α ι : Type*} [DecidableEq α] (s : Finset ι) (b : ι → Finset α) (B : Finset α)
    (h : ∀ i ∈ s, ∀ j ∈ s, i ≠ j → Disjoint (b i) (b j)) : ∑ i ∈ s, (b i ∩ B).card ≤ B.card := by
  classical
  rw [← Finset.card_biUnion]
  · exact Finset.card_le_card (fun x hx => by
      obtain ⟨i, _, hi⟩ := Finset.mem_biUnion.mp hx
      exact (Finset.mem_inter.mp hi).2)
  · intro i hi j hj hij
    exact Disjoint.mono Finset.inter_subset_left Finset.inter_subset_left (h i hi j hj hij)

/-- disjoint subsets of a set whose sizes sum to its size cover it -/
theorem cover_of_card {α ι : Type*} [DecidableEq α] (s : Finset ι) (b : ι → Finset α) (B : Finset α)
    (hs : ∀ i ∈ s, b i ⊆ B) (h : ∀ i ∈ s, ∀ j ∈ s, i ≠ j → Disjoint (b i) (b j)) (hc : ∑ i ∈ s, (b i).card = B.card) :
    s.biUnion b = B := by
  apply Finset.eq_of_subset_of_card_le
  · exact Finset.biUnion_subset.mpr hs
  · rw [Finset.card_biUnion (fun i hi j hj hij => h i hi j hj hij), hc]

/-- a box -/
noncomputable def box (l u : ℤ × ℤ × ℤ) : Finset (ℤ × ℤ × ℤ) := Icc l.1 u.1 ×ˢ Icc l.2.1 u.2.1 ×ˢ Icc l.2.2 u.2.2

theorem card_box (l u : ℤ × ℤ × ℤ) : (box l u).card = (u.1 + 1 - l.1).toNat * ((u.2.1 + 1 - l.2.1).toNat * (u.2.2 + 1 - l.2.2).toNat) := by
  simp [box, Finset.card_product]

/-- the overlap of two boxes is the box the code computes with max and min -/
theorem inter_box (l u l' u' : ℤ × ℤ × ℤ) : box l u ∩ box l' u' =
    box (max l.1 l'.1, max l.2.1 l'.2.1, max l.2.2 l'.2.2) (min u.1 u'.1, min u.2.1 u'.2.1, min u.2.2 u'.2.2) := by
  ext x
  simp only [box, mem_inter, mem_product, mem_Icc, max_le_iff, le_min_iff]
  tauto

end FftMpi
