import Mathlib

/-!
Lemmas the obligations of property C16 use about the Fourier transform, roots of unity and numbers without
prime factors other than 2, 3 and 5.
-/
open Finset Complex

namespace FftMpi

/-- `D w x o s m j = ∑_{l<m} x(o+l s) w^(l j)`, `w` the root of unity of the transform of length `m`. -/
noncomputable def D (w : ℂ) (x : ℕ → ℂ) (o s m j : ℕ) : ℂ := ∑ l ∈ range m, x (o + l * s) * w ^ (l * j)

/-- a transform of length 1 is its input -/
theorem D_one (w : ℂ) (x : ℕ → ℂ) (o s : ℕ) : D w x o s 1 0 = x o := by
  simp [D]

theorem sum_split (f : ℕ → ℂ) (p m : ℕ) :
    ∑ l ∈ range (p * m), f l = ∑ q ∈ range p, ∑ k ∈ range m, f (q + p * k) := by
  induction m with
  | zero => simp
  | succ m ih =>
    rw [Nat.mul_succ, Finset.sum_range_add, ih, ← Finset.sum_add_distrib]
    apply Finset.sum_congr rfl
    intro q _
    rw [Finset.sum_range_succ, Nat.add_comm (p * m) q]

/-- Decimation in time: the transform of length `p*m` from `p` transforms of length `m`.  `w` is the root of
unity of the long transform, `w^p` that of the short ones, `w^m` the `p`-th root of unity of the butterfly. -/
theorem decimation (w : ℂ) (x : ℕ → ℂ) (o s p m r u : ℕ) (hw : w ^ (p * m) = 1) :
    D w x o s (p * m) (r * m + u)
      = ∑ q ∈ range p, (D (w ^ p) x (o + q * s) (p * s) m u * w ^ (q * u)) * (w ^ m) ^ (q * r) := by
  unfold D
  rw [sum_split]
  apply Finset.sum_congr rfl
  intro q _
  rw [Finset.sum_mul, Finset.sum_mul]
  apply Finset.sum_congr rfl
  intro k _
  have h1 : o + (q + p * k) * s = o + q * s + k * (p * s) := by ring
  have h2 : w ^ ((q + p * k) * (r * m + u)) = (w ^ p) ^ (k * u) * w ^ (q * u) * (w ^ m) ^ (q * r) := by
    have : (q + p * k) * (r * m + u) = p * (k * u) + q * u + m * (q * r) + (p * m) * (k * r) := by ring
    rw [this, pow_add, pow_add, pow_add, pow_mul w (p * m), hw, one_pow, mul_one, pow_mul, pow_mul w m]
  rw [h1, h2]; ring

/-- the table: `omega s n ^ i` for the sign `s` of the direction -/
noncomputable def omega (s : ℤ) (n : ℕ) : ℂ := exp (s * (2 * Real.pi * I / n))

theorem omega_pow (s : ℤ) (n i : ℕ) : omega s n ^ i = exp (s * (2 * Real.pi * I * i / n)) := by
  rw [omega, ← Complex.exp_nat_mul]; congr 1; ring

/-- what `kiss_fft_alloc` stores -/
theorem omega_re_im (s : ℤ) (n i : ℕ) :
    (omega s n ^ i).re = Real.cos (s * (2 * Real.pi) * i / n) ∧ (omega s n ^ i).im = Real.sin (s * (2 * Real.pi) * i / n) := by
  rw [omega_pow]
  have : (s : ℂ) * (2 * Real.pi * I * i / n) = ((s * (2 * Real.pi) * i / n : ℝ) : ℂ) * I := by
    push_cast; ring
  rw [this]
  exact ⟨Complex.exp_ofReal_mul_I_re _, Complex.exp_ofReal_mul_I_im _⟩

theorem omega_full (s : ℤ) (n : ℕ) (hn : n ≠ 0) : omega s n ^ n = 1 := by
  rw [omega_pow]
  have hn' : (n : ℂ) ≠ 0 := by exact_mod_cast hn
  have : (s : ℂ) * (2 * Real.pi * I * n / n) = s * (2 * Real.pi * I) := by field_simp
  rw [this]; exact Complex.exp_int_mul_two_pi_mul_I s

/-- the short transforms have the root of unity of their own length -/
theorem omega_sub (s : ℤ) (p m : ℕ) (hp : p ≠ 0) : omega s (p * m) ^ p = omega s m := by
  rw [omega_pow, omega]
  have hp' : (p : ℂ) ≠ 0 := by exact_mod_cast hp
  congr 2
  push_cast
  rw [mul_comm (p : ℂ) (m : ℂ), mul_div_mul_right _ _ hp']

theorem omega_conj (s : ℤ) (n k : ℕ) (hn : n ≠ 0) (hk : k ≤ n) :
    omega s n ^ (n - k) = (starRingEnd ℂ) (omega s n ^ k) := by
  have h : omega s n ^ (n - k) * omega s n ^ k = 1 := by
    rw [← pow_add, Nat.sub_add_cancel hk, omega_full s n hn]
  have h2 : (starRingEnd ℂ) (omega s n ^ k) * omega s n ^ k = 1 := by
    rw [mul_comm, Complex.mul_conj]
    have : Complex.normSq (omega s n ^ k) = 1 := by
      rw [Complex.normSq_apply]
      obtain ⟨a, b⟩ := omega_re_im s n k
      rw [a, b]; nlinarith [Real.sin_sq_add_cos_sq (s * (2 * Real.pi) * k / n)]
    rw [this]; simp
  have hne : omega s n ^ k ≠ 0 := by
    intro h0; rw [h0, mul_zero] at h; exact zero_ne_one h
  exact mul_right_cancel₀ hne (h.trans h2.symm)

/-- entries of the table at multiples of n/p for the four radices -/
theorem root2 (s : ℤ) (hs : s = 1 ∨ s = -1) (k : ℕ) (hk : k ≠ 0) : omega s (2 * k) ^ k = -1 := by
  rw [omega_pow]
  have hk' : (k : ℂ) ≠ 0 := by exact_mod_cast hk
  have : (s : ℂ) * (2 * Real.pi * I * k / ((2 * k : ℕ) : ℂ)) = s * (Real.pi * I) := by push_cast; field_simp
  rw [this]
  rcases hs with rfl | rfl
  · simp [Complex.exp_pi_mul_I]
  · simp [Complex.exp_neg, Complex.exp_pi_mul_I]

theorem root4 (s : ℤ) (hs : s = 1 ∨ s = -1) (k : ℕ) (hk : k ≠ 0) : omega s (4 * k) ^ k = s * I := by
  rw [omega_pow]
  have hk' : (k : ℂ) ≠ 0 := by exact_mod_cast hk
  have : (s : ℂ) * (2 * Real.pi * I * k / ((4 * k : ℕ) : ℂ)) = s * (Real.pi / 2 * I) := by push_cast; field_simp; ring
  rw [this]
  rcases hs with rfl | rfl
  · simp [Complex.exp_pi_div_two_mul_I]
  · have : (((-1 : ℤ) : ℂ)) * (Real.pi / 2 * I) = -(Real.pi / 2 * I) := by push_cast; ring
    rw [this, Complex.exp_neg, Complex.exp_pi_div_two_mul_I]; simp

theorem root3 (s : ℤ) (hs : s = 1 ∨ s = -1) (k : ℕ) (hk : k ≠ 0) : (omega s (3 * k) ^ k).re = -1 / 2 := by
  rw [(omega_re_im s (3 * k) k).1]
  have hk' : (k : ℝ) ≠ 0 := by exact_mod_cast hk
  have h : (s : ℝ) * (2 * Real.pi) * k / ((3 * k : ℕ) : ℝ) = s * (Real.pi - Real.pi / 3) := by push_cast; field_simp; ring
  rw [h]
  rcases hs with rfl | rfl
  · simp [Real.cos_pi_sub]; norm_num
  · have : (((-1 : ℤ) : ℝ)) * (Real.pi - Real.pi / 3) = -(Real.pi - Real.pi / 3) := by push_cast; ring
    rw [this, Real.cos_neg, Real.cos_pi_sub, Real.cos_pi_div_three]; norm_num

theorem root3_conj (s : ℤ) (k : ℕ) (hk : k ≠ 0) : omega s (3 * k) ^ (2 * k) = (starRingEnd ℂ) (omega s (3 * k) ^ k) := by
  have := omega_conj s (3 * k) k (by omega) (by omega)
  rwa [show 3 * k - k = 2 * k by omega] at this
theorem root5_conj2 (s : ℤ) (k : ℕ) (hk : k ≠ 0) : omega s (5 * k) ^ (3 * k) = (starRingEnd ℂ) (omega s (5 * k) ^ (2 * k)) := by
  have := omega_conj s (5 * k) (2 * k) (by omega) (by omega)
  rwa [show 5 * k - 2 * k = 3 * k by omega] at this
theorem root5_conj1 (s : ℤ) (k : ℕ) (hk : k ≠ 0) : omega s (5 * k) ^ (4 * k) = (starRingEnd ℂ) (omega s (5 * k) ^ k) := by
  have := omega_conj s (5 * k) k (by omega) (by omega)
  rwa [show 5 * k - k = 4 * k by omega] at this
/-- powers of the butterfly's root are taken modulo the radix -/
theorem root_mod (s : ℤ) (p k e : ℕ) (hp : p ≠ 0) (hk : k ≠ 0) :
    (omega s (p * k) ^ k) ^ e = (omega s (p * k) ^ k) ^ (e % p) := by
  have h : (omega s (p * k) ^ k) ^ p = 1 := by
    rw [← pow_mul, mul_comm k p]; exact omega_full s (p * k) (Nat.mul_ne_zero hp hk)
  conv_lhs => rw [← Nat.mod_add_div e p, pow_add, pow_mul, h, one_pow, mul_one]

/-! Numbers without other prime factors than 2, 3 and 5 -/
def Smooth (n : ℕ) : Prop := ∀ q, q.Prime → q ∣ n → q = 2 ∨ q = 3 ∨ q = 5

theorem smooth_divisor (n a b : ℕ) (h : Smooth n) (e : a * b = n) : Smooth b :=
  fun q hq hd => h q hq (e ▸ Dvd.dvd.mul_left hd a)

theorem smooth_one (n : ℕ) (h : Smooth n) (h2 : n % 2 ≠ 0) (h3 : n % 3 ≠ 0) (h5 : n % 5 ≠ 0) : n = 1 := by
  by_contra hn
  obtain ⟨q, hq, hd⟩ := Nat.exists_prime_and_dvd hn
  rcases h q hq hd with rfl | rfl | rfl <;> omega

theorem smooth_small (n : ℕ) (h : Smooth n) (h1 : 1 ≤ n) (hn : n < 49) :
    n = 1 ∨ n = 2 ∨ n = 3 ∨ n = 4 ∨ n = 5 ∨ n = 6 ∨ n = 8 ∨ n = 9 ∨ n = 10 ∨ n = 12 ∨ n = 15 ∨ n = 16 ∨ n = 18 ∨ n = 20 ∨ n = 24 ∨
    n = 25 ∨ n = 27 ∨ n = 30 ∨ n = 32 ∨ n = 36 ∨ n = 40 ∨ n = 45 ∨ n = 48 := by
  have hq : ∀ q, q.Prime → ¬ (q = 2 ∨ q = 3 ∨ q = 5) → ¬ q ∣ n := fun q hp hne hd => hne (h q hp hd)
  have h7 := hq 7 (by norm_num) (by norm_num)
  have h11 := hq 11 (by norm_num) (by norm_num)
  have h13 := hq 13 (by norm_num) (by norm_num)
  have h17 := hq 17 (by norm_num) (by norm_num)
  have h19 := hq 19 (by norm_num) (by norm_num)
  have h23 := hq 23 (by norm_num) (by norm_num)
  have h29 := hq 29 (by norm_num) (by norm_num)
  have h31 := hq 31 (by norm_num) (by norm_num)
  have h37 := hq 37 (by norm_num) (by norm_num)
  have h41 := hq 41 (by norm_num) (by norm_num)
  have h43 := hq 43 (by norm_num) (by norm_num)
  have h47 := hq 47 (by norm_num) (by norm_num)
  clear hq h
  omega

end FftMpi
