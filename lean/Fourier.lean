import Mathlib
/-!
What the stages of a transform amount to (C01, C02, C03): one 1d transform along every axis is the 3d (2d) transform, a forward
followed by a backward transform multiplies by the number of points.
-/
open Finset Complex

namespace FftMpi

/-- 1d transform of a line of length n with root w -/
noncomputable def dft (w : ℂ) (n : ℕ) (x : ℕ → ℂ) (j : ℕ) : ℂ := ∑ l ∈ range n, x l * w ^ (l * j)

/-- transforms along the three axes, in any order, are the 3d transform -/
noncomputable def dft3 (w : Fin 3 → ℂ) (n : Fin 3 → ℕ) (x : ℕ → ℕ → ℕ → ℂ) (a b c : ℕ) : ℂ :=
  ∑ i ∈ range (n 0), ∑ j ∈ range (n 1), ∑ k ∈ range (n 2), x i j k * w 0 ^ (i * a) * w 1 ^ (j * b) * w 2 ^ (k * c)

noncomputable def axis0 (w : ℂ) (n : ℕ) (x : ℕ → ℕ → ℕ → ℂ) : ℕ → ℕ → ℕ → ℂ := fun a j k => dft w n (fun i => x i j k) a
noncomputable def axis1 (w : ℂ) (n : ℕ) (x : ℕ → ℕ → ℕ → ℂ) : ℕ → ℕ → ℕ → ℂ := fun i b k => dft w n (fun j => x i j k) b
noncomputable def axis2 (w : ℂ) (n : ℕ) (x : ℕ → ℕ → ℕ → ℂ) : ℕ → ℕ → ℕ → ℂ := fun i j c => dft w n (fun k => x i j k) c

theorem axis01 (w v : ℂ) (n m : ℕ) (x : ℕ → ℕ → ℕ → ℂ) : axis0 w n (axis1 v m x) = axis1 v m (axis0 w n x) := by
  funext a b c
  simp only [axis0, axis1, dft, Finset.sum_mul]
  rw [Finset.sum_comm]
  exact Finset.sum_congr rfl fun j _ => Finset.sum_congr rfl fun i _ => by ring
theorem axis02 (w v : ℂ) (n m : ℕ) (x : ℕ → ℕ → ℕ → ℂ) : axis0 w n (axis2 v m x) = axis2 v m (axis0 w n x) := by
  funext a b c
  simp only [axis0, axis2, dft, Finset.sum_mul]
  rw [Finset.sum_comm]
  exact Finset.sum_congr rfl fun j _ => Finset.sum_congr rfl fun i _ => by ring
theorem axis12 (w v : ℂ) (n m : ℕ) (x : ℕ → ℕ → ℕ → ℂ) : axis1 w n (axis2 v m x) = axis2 v m (axis1 w n x) := by
  funext a b c
  simp only [axis1, axis2, dft, Finset.sum_mul]
  rw [Finset.sum_comm]
  exact Finset.sum_congr rfl fun j _ => Finset.sum_congr rfl fun i _ => by ring

theorem axes_are_dft3 (w : Fin 3 → ℂ) (n : Fin 3 → ℕ) (x : ℕ → ℕ → ℕ → ℂ) :
    axis0 (w 0) (n 0) (axis1 (w 1) (n 1) (axis2 (w 2) (n 2) x)) = dft3 w n x := by
  funext a b c
  simp only [axis0, axis1, axis2, dft, dft3, Finset.sum_mul]
  refine Finset.sum_congr rfl fun i _ => Finset.sum_congr rfl fun j _ => Finset.sum_congr rfl fun k _ => ?_
  ring

/-- backward after forward: n times the line -/
theorem inverse (w : ℂ) (n : ℕ) (hw : IsPrimitiveRoot w n) (x : ℕ → ℂ) (j : ℕ) (hj : j < n) :
    dft w⁻¹ n (dft w n x) j = n * x j := by
  have hn : n ≠ 0 := by omega
  have hw0 : w ≠ 0 := hw.ne_zero hn
  simp only [dft, Finset.sum_mul]
  rw [Finset.sum_comm]
  have key : ∀ l ∈ range n, ∑ i ∈ range n, x l * w ^ (l * i) * w⁻¹ ^ (i * j) = if l = j then n * x j else 0 := by
    intro l hl
    have hl' : l < n := Finset.mem_range.mp hl
    have h1 : ∀ i ∈ range n, x l * w ^ (l * i) * w⁻¹ ^ (i * j) = x l * (w ^ l * w⁻¹ ^ j) ^ i := by
      intro i _
      rw [mul_pow, ← pow_mul, ← pow_mul, mul_comm j i]; ring
    rw [Finset.sum_congr rfl h1, ← Finset.mul_sum]
    split_ifs with h
    · subst h
      have : w ^ l * w⁻¹ ^ l = 1 := by rw [← mul_pow, mul_inv_cancel₀ hw0, one_pow]
      rw [this]; simp [mul_comm]
    · have hne : w ^ l * w⁻¹ ^ j ≠ 1 := by
        intro h1
        apply h
        have h2 : w ^ l = w ^ j := by
          rw [inv_pow] at h1
          exact (mul_inv_eq_one₀ (pow_ne_zero _ hw0)).mp h1
        exact hw.pow_inj hl' hj h2
      have hp : (w ^ l * w⁻¹ ^ j) ^ n = 1 := by
        rw [mul_pow, ← pow_mul, ← pow_mul, mul_comm l n, mul_comm j n, pow_mul, pow_mul, hw.pow_eq_one, inv_pow, hw.pow_eq_one]; simp
      have := geom_sum_mul (w ^ l * w⁻¹ ^ j) n
      rw [hp, sub_self] at this
      rcases mul_eq_zero.mp this with h3 | h3
      · rw [h3, mul_zero]
      · exact absurd (sub_eq_zero.mp h3) hne
  rw [Finset.sum_congr rfl key]
  rw [Finset.sum_ite_eq' (range n) j]
  simp [hj]

theorem scale0 (w c : ℂ) (n : ℕ) (y z : ℕ → ℕ → ℕ → ℂ) (a j k : ℕ) (h : ∀ i, i < n → y i j k = c * z i j k) :
    axis0 w n y a j k = c * axis0 w n z a j k := by
  simp only [axis0, dft, Finset.mul_sum]
  exact Finset.sum_congr rfl fun i hi => by rw [h i (Finset.mem_range.mp hi)]; ring
theorem scale1 (w c : ℂ) (n : ℕ) (y z : ℕ → ℕ → ℕ → ℂ) (i b k : ℕ) (h : ∀ j, j < n → y i j k = c * z i j k) :
    axis1 w n y i b k = c * axis1 w n z i b k := by
  simp only [axis1, dft, Finset.mul_sum]
  exact Finset.sum_congr rfl fun j hj => by rw [h j (Finset.mem_range.mp hj)]; ring

/-- forward and backward transform of a 3d grid: every value times the number of points -/
theorem inverse3 (u v w : ℂ) (n m l : ℕ) (hu : IsPrimitiveRoot u n) (hv : IsPrimitiveRoot v m) (hw : IsPrimitiveRoot w l)
    (x : ℕ → ℕ → ℕ → ℂ) (i j k : ℕ) (hi : i < n) (hj : j < m) (hk : k < l) :
    axis0 u⁻¹ n (axis1 v⁻¹ m (axis2 w⁻¹ l (axis0 u n (axis1 v m (axis2 w l x))))) i j k = (n * m * l) * x i j k := by
  have h2 : ∀ i j, axis2 w⁻¹ l (axis2 w l x) i j k = l * x i j k := fun i j => inverse w l hw (fun k => x i j k) k hk
  rw [← axis02 u w⁻¹, ← axis12 v w⁻¹]
  have h1 : ∀ i, axis1 v⁻¹ m (axis0 u n (axis1 v m (axis2 w⁻¹ l (axis2 w l x)))) i j k = l * (m * axis0 u n x i j k) := by
    intro i
    rw [← axis01 u v⁻¹, scale0 u (l : ℂ) n _ (fun i b c => (m : ℂ) * x i b c) i j k]
    · rw [scale0 u (m : ℂ) n (fun i b c => (m : ℂ) * x i b c) x i j k (fun _ _ => rfl)]
    · intro i' _
      rw [scale1 v⁻¹ (l : ℂ) m _ (axis1 v m x) i' j k]
      · have := inverse v m hv (fun j => x i' j k) j hj
        simp only [axis1] at this ⊢
        rw [this]
      · intro j' _
        exact scale1 v (l : ℂ) m _ x i' j' k (fun j'' _ => h2 i' j'')
  rw [scale0 u⁻¹ ((l : ℂ) * m) n _ (axis0 u n x) i j k (fun i' _ => by rw [h1 i']; ring)]
  have := inverse u n hu (fun i => x i j k) i hi
  simp only [axis0] at this ⊢
  rw [this]; ring

/-- two axes -/
theorem axes_are_dft2 (u v : ℂ) (n m : ℕ) (x : ℕ → ℕ → ℂ) (a b : ℕ) :
    dft u n (fun i => dft v m (fun j => x i j) b) a = ∑ i ∈ range n, ∑ j ∈ range m, x i j * u ^ (i * a) * v ^ (j * b) := by
  simp only [dft, Finset.sum_mul]
  exact Finset.sum_congr rfl fun i _ => Finset.sum_congr rfl fun j _ => by ring
theorem inverse2 (u v : ℂ) (n m : ℕ) (hu : IsPrimitiveRoot u n) (hv : IsPrimitiveRoot v m) (x : ℕ → ℕ → ℂ) (i j : ℕ) (hi : i < n) (hj : j < m) :
    axis0 u⁻¹ n (axis1 v⁻¹ m (axis0 u n (axis1 v m (fun i j _ => x i j)))) i j 0 = (n * m) * x i j := by
  have h1 : ∀ i, axis1 v⁻¹ m (axis1 v m (fun i j _ => x i j)) i j 0 = m * x i j := fun i => inverse v m hv (fun j => x i j) j hj
  rw [← axis01 u v⁻¹]
  have h0 : ∀ i, axis0 u n (axis1 v⁻¹ m (axis1 v m (fun i j _ => x i j))) i j 0 = m * axis0 u n (fun i j _ => x i j) i j 0 :=
    fun i => scale0 u (m : ℂ) n _ (fun i j _ => x i j) i j 0 (fun i' _ => h1 i')
  rw [scale0 u⁻¹ (m : ℂ) n _ (axis0 u n (fun i j _ => x i j)) i j 0 (fun i' _ => h0 i')]
  have := inverse u n hu (fun i => x i j) i hi
  simp only [axis0] at this ⊢
  rw [this]; ring

/-- the two directions use inverse primitive roots -/
theorem roots (n : ℕ) (hn : n ≠ 0) : IsPrimitiveRoot (exp (2 * Real.pi * I / n)) n ∧ exp (-(2 * Real.pi * I / n)) = (exp (2 * Real.pi * I / n))⁻¹ :=
  ⟨Complex.isPrimitiveRoot_exp n hn, Complex.exp_neg _⟩

end FftMpi
