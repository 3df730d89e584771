import Mathlib
/-!
Lemmas about the communication group of a collective remap (dv/coll.py).
`r p q` : p and q exchange data (symmetric).  `F p` : the group process p computes; the loop invariants show
that it contains the partners of p, is closed under r, and is contained in every set with these two properties.
-/
open Finset

namespace FftMpi

variable {α : Type*}

/-- a process whose group is not empty is in it -/
theorem group_self (r : α → α → Prop) (sym : ∀ p q, r p q → r q p) (F : α → Set α)
    (part : ∀ p q, r p q → q ∈ F p) (closed : ∀ p x y, x ∈ F p → r x y → y ∈ F p)
    (least : ∀ p (C : Set α), (∀ q, r p q → q ∈ C) → (∀ x y, x ∈ C → r x y → y ∈ C) → F p ⊆ C)
    (p q : α) (hq : q ∈ F p) : p ∈ F p := by
  by_cases h : ∃ x, r p x
  · obtain ⟨x, hx⟩ := h
    exact closed p x p (part p x hx) (sym p x hx)
  · have := least p ∅ (fun y hy => (h ⟨y, hy⟩).elim) (fun x _ hx _ => hx.elim) hq
    exact this.elim

/-- a process in its own group has a partner -/
theorem group_partner (r : α → α → Prop) (sym : ∀ p q, r p q → r q p) (F : α → Set α)
    (least : ∀ p (C : Set α), (∀ q, r p q → q ∈ C) → (∀ x y, x ∈ C → r x y → y ∈ C) → F p ⊆ C)
    (p : α) (hp : p ∈ F p) : ∃ y, r p y := by
  have : F p ⊆ {x | ∃ y, r x y} := least p _ (fun y hy => ⟨p, sym p y hy⟩) (fun x y _ hxy => ⟨x, sym x y hxy⟩)
  exact this hp

/-- every member of a group computes the same group -/
theorem group_eq (r : α → α → Prop) (sym : ∀ p q, r p q → r q p) (F : α → Set α)
    (part : ∀ p q, r p q → q ∈ F p) (closed : ∀ p x y, x ∈ F p → r x y → y ∈ F p)
    (least : ∀ p (C : Set α), (∀ q, r p q → q ∈ C) → (∀ x y, x ∈ C → r x y → y ∈ C) → F p ⊆ C)
    (p q : α) (hq : q ∈ F p) : F q = F p := by
  apply Set.Subset.antisymm
  · exact least q (F p) (fun y hy => closed p q y hq hy) (fun x y hx hxy => closed p x y hx hxy)
  · -- members have partners
    have hp : ∃ y, r q y := by
      have : F p ⊆ {x | ∃ y, r x y} := least p _ (fun y hy => ⟨p, sym p y hy⟩) (fun x y _ hxy => ⟨x, sym x y hxy⟩)
      exact this hq
    have hqq : q ∈ F q := by
      obtain ⟨y, hy⟩ := hp
      exact closed q y q (part q y hy) (sym q y hy)
    by_cases h : ∃ y, r p y ∧ y ∈ F q
    · obtain ⟨y, hy, hyq⟩ := h
      have hpq : p ∈ F q := closed q y p hyq (sym p y hy)
      exact least p (F q) (fun z hz => closed q p z hpq hz) (fun x y hx hxy => closed q x y hx hxy)
    · have : F p ⊆ (F q)ᶜ := least p _ (fun y hy hyq => h ⟨y, hy, hyq⟩)
        (fun x y hx hxy hyq => hx (closed q y x hyq (sym x y hxy)))
      exact (this hq hqq).elim

/-- distinct members of a list of processes: not more than processes -/
theorem members_le (n P : ℕ) (G : ℕ → ℕ) (hG : ∀ t < n, G t < P) (inj : ∀ s < n, ∀ t < n, G s = G t → s = t) : n ≤ P := by
  have h : ((range n).image G).card = n := by
    rw [card_image_of_injOn]; · simp
    · intro s hs t ht h; exact inj s (by simpa using hs) t (by simpa using ht) h
  have : (range n).image G ⊆ range P := by
    intro x hx; obtain ⟨t, ht, rfl⟩ := mem_image.mp hx; exact mem_range.mpr (hG t (mem_range.mp ht))
  simpa [h] using card_le_card this

/-- ... and fewer while some process is missing -/
theorem members_lt (n P : ℕ) (G : ℕ → ℕ) (hG : ∀ t < n, G t < P) (inj : ∀ s < n, ∀ t < n, G s = G t → s = t)
    (p : ℕ) (hp : p < P) (miss : ∀ t < n, G t ≠ p) : n < P := by
  have h : ((range n).image G).card = n := by
    rw [card_image_of_injOn]; · simp
    · intro s hs t ht h; exact inj s (by simpa using hs) t (by simpa using ht) h
  have : (range n).image G ⊂ range P := by
    rw [Finset.ssubset_iff_of_subset]
    · exact ⟨p, mem_range.mpr hp, fun hx => by obtain ⟨t, ht, e⟩ := mem_image.mp hx; exact miss t (mem_range.mp ht) e⟩
    · intro x hx; obtain ⟨t, ht, rfl⟩ := mem_image.mp hx; exact mem_range.mpr (hG t (mem_range.mp ht))
  simpa [h] using card_lt_card this

/-- a list that names every flagged process once is as long as there are flagged processes -/
theorem count_members (n P : ℕ) (G : ℕ → ℕ) (f : ℕ → Prop) [DecidablePred f] (hG : ∀ t < n, G t < P ∧ f (G t))
    (inj : ∀ s < n, ∀ t < n, G s = G t → s = t) (all : ∀ p < P, f p → ∃ t < n, G t = p) :
    ∑ p ∈ range P, (if f p then 1 else 0) = n := by
  have h : (range n).image G = (range P).filter f := by
    ext x; constructor
    · intro hx; obtain ⟨t, ht, rfl⟩ := mem_image.mp hx
      exact mem_filter.mpr ⟨mem_range.mpr (hG t (mem_range.mp ht)).1, (hG t (mem_range.mp ht)).2⟩
    · intro hx; obtain ⟨hp, hf⟩ := mem_filter.mp hx
      obtain ⟨t, ht, e⟩ := all x (mem_range.mp hp) hf
      exact mem_image.mpr ⟨t, mem_range.mpr ht, e⟩
  rw [← card_filter, ← h, card_image_of_injOn]; · simp
  · intro s hs t ht h; exact inj s (by simpa using hs) t (by simpa using ht) h

/-- amounts summed over the group list (zero for members that are no partners) and over the table of partners agree -/
theorem reindex (n m : ℕ) (G S : ℕ → ℕ) (f : ℕ → Prop) [DecidablePred f] (a : ℕ → ℤ)
    (injG : ∀ s < n, ∀ t < n, G s = G t → s = t) (injS : ∀ s < m, ∀ t < m, S s = S t → s = t)
    (hS : ∀ t < m, f (S t)) (inG : ∀ s < m, ∃ t < n, G t = S s) (inS : ∀ t < n, f (G t) → ∃ s < m, S s = G t) :
    ∑ t ∈ range n, (if f (G t) then a (G t) else 0) = ∑ s ∈ range m, a (S s) := by
  have h1 : ∑ t ∈ range n, (if f (G t) then a (G t) else 0) = ∑ q ∈ (range n).image G, (if f q then a q else 0) := by
    rw [sum_image]; intro s hs t ht h; exact injG s (by simpa using hs) t (by simpa using ht) h
  have h2 : ∑ s ∈ range m, a (S s) = ∑ q ∈ (range m).image S, a q := by
    rw [sum_image]; intro s hs t ht h; exact injS s (by simpa using hs) t (by simpa using ht) h
  rw [h1, h2, ← sum_filter]
  congr 1
  ext x; constructor
  · intro hx; obtain ⟨hi, hf⟩ := mem_filter.mp hx; obtain ⟨t, ht, rfl⟩ := mem_image.mp hi
    obtain ⟨s, hs, e⟩ := inS t (mem_range.mp ht) hf
    exact mem_image.mpr ⟨s, mem_range.mpr hs, e⟩
  · intro hx; obtain ⟨s, hs, rfl⟩ := mem_image.mp hx; obtain ⟨t, ht, e⟩ := inG s (mem_range.mp hs)
    exact mem_filter.mpr ⟨mem_image.mpr ⟨t, mem_range.mpr ht, e⟩, hS s (mem_range.mp hs)⟩

end FftMpi
