import Mathlib
/-!
The axioms of dv/sums.py about accumulating loops.  S a k is what "s += a(κ)" has added after k iterations,
M v a k what "m = max(m, a(κ))" gives, and sel the iteration at which an indicator is true for the (j+1)-th time.
-/
open Finset
namespace Sums
def S (a : ℕ → ℤ) (k : ℕ) : ℤ := ∑ i ∈ range k, a i
def M (v : ℤ) (a : ℕ → ℤ) : ℕ → ℤ
  | 0 => v
  | k + 1 => max (M v a k) (a k)

theorem zero (a : ℕ → ℤ) : S a 0 = 0 := by simp [S]
theorem step (a : ℕ → ℤ) (k : ℕ) : S a (k + 1) = S a k + a k := by simp [S, sum_range_succ]
theorem mono (a : ℕ → ℤ) (h : ∀ i, 0 ≤ a i) {k l : ℕ} (kl : k ≤ l) : S a k ≤ S a l :=
  sum_le_sum_of_subset_of_nonneg (range_mono kl) (fun i _ _ => h i)
theorem nonneg (a : ℕ → ℤ) (h : ∀ i, 0 ≤ a i) (k : ℕ) : 0 ≤ S a k := sum_nonneg (fun i _ => h i)
/-- one summand after position k is contained in the later sum -/
theorem skip (a : ℕ → ℤ) (h : ∀ i, 0 ≤ a i) {k l : ℕ} (kl : k < l) : S a k + a k ≤ S a l := by
  rw [← step]; exact mono a h kl
/-- and so are the first and the last one -/
theorem skip2 (a : ℕ → ℤ) (h : ∀ i, 0 ≤ a i) {k l : ℕ} (kl : k + 1 < l) : S a k + a k + a (l - 1) ≤ S a l := by
  obtain ⟨m, rfl⟩ : ∃ m, l = m + 1 := ⟨l - 1, by omega⟩
  have := mono a h (show k + 1 ≤ m by omega)
  rw [step] at this ⊢; simpa using this
theorem entry (a : ℕ → ℤ) (h : ∀ i, 0 ≤ a i) {i k : ℕ} (ik : i < k) : a i ≤ S a k := by
  have := skip a h ik; have := nonneg a h i; omega
/-- 0/1 valued summands count -/
theorem count_le (a : ℕ → ℤ) (h : ∀ i, a i = 0 ∨ a i = 1) {k l : ℕ} (kl : k ≤ l) : S a l - S a k ≤ l - k := by
  induction l, kl using Nat.le_induction with
  | base => simp
  | succ l _ ih => rw [step]; rcases h l with e | e <;> rw [e] <;> push_cast <;> omega
theorem count (a : ℕ → ℤ) (h : ∀ i, a i = 0 ∨ a i = 1) (k : ℕ) : 0 ≤ S a k ∧ S a k ≤ k := by
  refine ⟨nonneg a (fun i => by rcases h i with e | e <;> omega) k, ?_⟩
  have := count_le a h (Nat.zero_le k); rw [zero] at this; simpa using this
/-- the iteration that has exactly j selected predecessors and is selected itself -/
theorem sel (a : ℕ → ℤ) (h : ∀ i, a i = 0 ∨ a i = 1) (n : ℕ) (j : ℤ) (h0 : 0 ≤ j) (hj : j < S a n) :
    ∃ κ, κ < n ∧ a κ = 1 ∧ S a κ = j := by
  induction n with
  | zero => rw [zero] at hj; omega
  | succ n ih =>
    by_cases c : j < S a n
    · obtain ⟨κ, h1, h2⟩ := ih c; exact ⟨κ, by omega, h2⟩
    · rw [step] at hj
      rcases h n with e | e
      · omega
      · exact ⟨n, by omega, e, by omega⟩
/-- there is only one, so a table filled at position S a κ for each selected κ holds that κ there -/
theorem sel_unique (a : ℕ → ℤ) (h : ∀ i, a i = 0 ∨ a i = 1) (κ μ : ℕ) (h1 : a κ = 1) (h2 : a μ = 1) (e : S a κ = S a μ) : κ = μ := by
  have p : ∀ i, 0 ≤ a i := fun i => by rcases h i with e | e <;> omega
  rcases lt_trichotomy κ μ with c | c | c
  · have := skip a p c; omega
  · exact c
  · have := skip a p c; omega
/-- sums of summands that agree below P agree up to P -/
theorem congr (a b : ℕ → ℤ) (P k : ℕ) (h : ∀ i < P, a i = b i) (kP : k ≤ P) : S a k = S b k :=
  sum_congr rfl (fun i hi => h i (lt_of_lt_of_le (mem_range.1 hi) kP))
theorem max_zero (v : ℤ) (a : ℕ → ℤ) : M v a 0 = v := rfl
theorem max_start (v : ℤ) (a : ℕ → ℤ) (k : ℕ) : v ≤ M v a k := by
  induction k with
  | zero => exact le_refl _
  | succ k ih => exact le_trans ih (le_max_left _ _)
theorem max_entry (v : ℤ) (a : ℕ → ℤ) (i k : ℕ) (ik : i < k) : a i ≤ M v a k := by
  induction k with
  | zero => omega
  | succ k ih =>
    rcases Nat.lt_succ_iff_lt_or_eq.1 ik with c | c
    · exact le_trans (ih c) (le_max_left _ _)
    · subst c; exact le_max_right _ _
end Sums
