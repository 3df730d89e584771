import Mathlib
/-!
No process waits for ever (C07).  Every process performs the same sequence of N operations (obligation: every
collective operation, remap creation, remap is on every path of every process, with uniform arguments).  Operation n is
either a collective, which completes once every process of its group has reached it, or a point-to-point remap:
  stage 0  post all receives (not blocking)
  stage 1..ns  the sends; the i-th may block until its destination has posted its receives of this operation
  stage ns+1  wait for all messages; may block until each source has finished its sends of this operation
A state gives each process its operation and stage.  `CanStep` is what MPI guarantees.  The theorem: unless all have
finished, some process can step; as steps only go forward, every execution ends.
-/
namespace Progress
variable {P : Type*} [Fintype P] [Nonempty P]
structure St (P : Type*) where
  op : P → ℕ
  stage : P → ℕ

inductive Kind (P : Type*)
  | coll (mem : P → P → Prop)                     -- group each process names
  | p2p (ns : P → ℕ) (dst : P → ℕ → P) (src : P → Set P)

/-- process p may take its next step in operation k -/
def CanStep (kind : ℕ → Kind P) (s : St P) (p : P) : Prop :=
  match kind (s.op p) with
  | .coll mem => ∀ q, mem p q → s.op p ≤ s.op q
  | .p2p ns dst src =>
      s.stage p = 0 ∨
      (1 ≤ s.stage p ∧ s.stage p ≤ ns p ∧
        (s.op p < s.op (dst p (s.stage p)) ∨ (s.op p = s.op (dst p (s.stage p)) ∧ 1 ≤ s.stage (dst p (s.stage p))))) ∨
      (s.stage p = ns p + 1 ∧ ∀ q ∈ src p, s.op p < s.op q ∨ (s.op p = s.op q ∧ s.stage q = ns q + 1))

/-- the stage is one of the operation's -/
def Ok (kind : ℕ → Kind P) (N : ℕ) (s : St P) : Prop :=
  ∀ p, s.op p ≤ N ∧ (match kind (s.op p) with | .coll _ => True | .p2p ns _ _ => s.stage p ≤ ns p + 1)

theorem no_deadlock (kind : ℕ → Kind P) (N : ℕ) (s : St P) (ok : Ok kind N s) (run : ∃ p, s.op p < N) :
    ∃ p, s.op p < N ∧ CanStep kind s p := by
  classical
  -- the least advanced operation
  obtain ⟨p0, _, h0⟩ := Finset.exists_min_image Finset.univ s.op Finset.univ_nonempty
  have least : ∀ q, s.op p0 ≤ s.op q := fun q => h0 q (Finset.mem_univ q)
  obtain ⟨p, hp⟩ := run
  have hN : s.op p0 < N := lt_of_le_of_lt (least p) hp
  cases hk : kind (s.op p0) with
  | coll mem => exact ⟨p0, hN, by unfold CanStep; rw [hk]; exact fun q _ => least q⟩
  | p2p ns dst src =>
    -- a process of this operation that has not posted its receives can
    by_cases h1 : ∃ q, s.op q = s.op p0 ∧ s.stage q = 0
    · obtain ⟨q, e, z⟩ := h1
      exact ⟨q, by omega, by unfold CanStep; rw [e, hk]; exact Or.inl z⟩
    -- otherwise all have; one with sends left can send
    push Not at h1
    by_cases h2 : ∃ q, s.op q = s.op p0 ∧ s.stage q ≤ ns q
    · obtain ⟨q, e, z⟩ := h2
      refine ⟨q, by omega, ?_⟩
      unfold CanStep; rw [e, hk]
      refine Or.inr (Or.inl ⟨by have := h1 q e; omega, z, ?_⟩)
      rcases lt_or_eq_of_le (least (dst q (s.stage q))) with c | c
      · exact Or.inl c
      · exact Or.inr ⟨c, by have := h1 _ c.symm; omega⟩
    -- otherwise all have sent everything: the waits complete
    push Not at h2
    refine ⟨p0, hN, ?_⟩
    have full : ∀ q, s.op q = s.op p0 → s.stage q = ns q + 1 := fun q e => by
      have a := h2 q e
      have b := (ok q).2; rw [e, hk] at b; omega
    unfold CanStep; rw [hk]
    refine Or.inr (Or.inr ⟨full p0 rfl, fun q _ => ?_⟩)
    rcases lt_or_eq_of_le (least q) with c | c
    · exact Or.inl c
    · exact Or.inr ⟨c, full q c.symm⟩
end Progress
