import Mathlib.Data.Nat.Prime.Basic
import Mathlib.Data.Int.ModEq
import Mathlib.Algebra.BigOperators.Ring.Finset
import Mathlib.Tactic

/-! The arithmetic behind the contracts of `mkrlwe/basis_extension.go`. -/

open Finset

namespace Govc

variable {ι : Type*} [DecidableEq ι]

/-- the cofactor Q/q_i -/
def cof (s : Finset ι) (q : ι → ℤ) (i : ι) : ℤ := ∏ j ∈ s.erase i, q j

/-- the reconstruction sum, before the correction term -/
def recon (s : Finset ι) (q y : ι → ℤ) : ℤ := ∑ i ∈ s, y i * cof s q i

theorem cof_mul (s : Finset ι) (q : ι → ℤ) {i : ι} (hi : i ∈ s) : q i * cof s q i = ∏ j ∈ s, q j :=
  Finset.mul_prod_erase s q hi

theorem dvd_cof (s : Finset ι) (q : ι → ℤ) {i t : ι} (ht : t ∈ s) (h : t ≠ i) : q t ∣ cof s q i :=
  Finset.dvd_prod_of_mem q (Finset.mem_erase.mpr ⟨h, ht⟩)

/-- with y_i = x_i (Q/q_i)^-1 mod q_i the sum has residue x_t modulo q_t, and so has the sum minus
any multiple of Q (whatever quotient the code uses) -/
theorem recon_congr (s : Finset ι) (q x y w : ι → ℤ) (V : ℤ)
    (hw : ∀ i ∈ s, w i * cof s q i ≡ 1 [ZMOD q i])
    (hy : ∀ i ∈ s, y i ≡ w i * x i [ZMOD q i]) {t : ι} (ht : t ∈ s) :
    recon s q y - V * ∏ j ∈ s, q j ≡ x t [ZMOD q t] := by
  have h1 : recon s q y ≡ y t * cof s q t [ZMOD q t] := by
    unfold recon
    rw [← Finset.add_sum_erase s _ ht]
    have : (q t) ∣ ∑ i ∈ s.erase t, y i * cof s q i := by
      apply Finset.dvd_sum
      intro i hi
      have := Finset.mem_erase.mp hi
      exact Dvd.dvd.mul_left (dvd_cof s q ht (Ne.symm this.1)) _
    have h0 := (Int.modEq_zero_iff_dvd.mpr this)
    simpa using (Int.ModEq.refl (y t * cof s q t)).add h0
  have h2 : V * ∏ j ∈ s, q j ≡ 0 [ZMOD q t] :=
    Int.modEq_zero_iff_dvd.mpr (Dvd.dvd.mul_left (Finset.dvd_prod_of_mem q ht) _)
  have h3 : y t * cof s q t ≡ x t [ZMOD q t] := by
    have a := (hy t ht).mul_right (cof s q t)
    have b := (hw t ht).mul_right (x t)
    calc y t * cof s q t ≡ w t * x t * cof s q t [ZMOD q t] := a
      _ = w t * cof s q t * x t := by ring
      _ ≡ 1 * x t [ZMOD q t] := b
      _ = x t := by ring
  simpa using (h1.trans h3).sub h2

/-- the real quotient: floor (Σ y_i/q_i) is the quotient of the sum by Q -/
theorem floor_eq (s : Finset ι) (q y : ι → ℤ) (hq : ∀ i ∈ s, 0 < q i) :
    ⌊∑ i ∈ s, (y i : ℚ) / (q i : ℚ)⌋ = recon s q y / ∏ j ∈ s, q j := by
  have hQ : (0 : ℤ) < ∏ j ∈ s, q j := Finset.prod_pos hq
  have e : ∑ i ∈ s, (y i : ℚ) / (q i : ℚ) = (recon s q y : ℚ) / ((∏ j ∈ s, q j : ℤ) : ℚ) := by
    unfold recon
    push_cast
    rw [Finset.sum_div]
    apply Finset.sum_congr rfl
    intro i hi
    have hqi : (q i : ℚ) ≠ 0 := by exact_mod_cast (hq i hi).ne'
    have hc := cof_mul s q hi
    have hc' : (q i : ℚ) * (cof s q i : ℚ) = ∏ j ∈ s, (q j : ℚ) := by exact_mod_cast hc
    rw [← hc']
    have hcz : (cof s q i : ℚ) ≠ 0 := by
      intro h
      rw [h, mul_zero] at hc'
      have : ((∏ j ∈ s, q j : ℤ) : ℚ) ≠ 0 := by exact_mod_cast hQ.ne'
      push_cast at this
      exact this hc'.symm
    field_simp
  rw [e]
  have hQ' : (0 : ℚ) < ((∏ j ∈ s, q j : ℤ) : ℚ) := by exact_mod_cast hQ
  apply Int.floor_eq_iff.mpr
  constructor
  · rw [le_div_iff₀ hQ']
    exact_mod_cast Int.ediv_mul_le (recon s q y) hQ.ne'
  · rw [div_lt_iff₀ hQ']
    exact_mod_cast Int.lt_ediv_add_one_mul_self (recon s q y) hQ

/-- with the exact quotient the extended value is the representative in [0, Q) -/
theorem recon_range (s : Finset ι) (q y : ι → ℤ) (hq : ∀ i ∈ s, 0 < q i) :
    0 ≤ recon s q y - ⌊∑ i ∈ s, (y i : ℚ) / (q i : ℚ)⌋ * ∏ j ∈ s, q j ∧
      recon s q y - ⌊∑ i ∈ s, (y i : ℚ) / (q i : ℚ)⌋ * ∏ j ∈ s, q j < ∏ j ∈ s, q j := by
  have hQ : (0 : ℤ) < ∏ j ∈ s, q j := Finset.prod_pos hq
  rw [floor_eq s q y hq]
  have h : recon s q y - recon s q y / (∏ j ∈ s, q j) * ∏ j ∈ s, q j = recon s q y % ∏ j ∈ s, q j := by
    rw [Int.emod_def]; ring
  rw [h]
  exact ⟨Int.emod_nonneg _ hQ.ne', Int.emod_lt_of_pos _ hQ⟩

omit [DecidableEq ι] in
/-- the quotient is an index of the table of correction terms -/
theorem quotient_range (s : Finset ι) (q y : ι → ℤ) (hq : ∀ i ∈ s, 0 < q i)
    (hy : ∀ i ∈ s, 0 ≤ y i ∧ y i < q i) :
    0 ≤ ⌊∑ i ∈ s, (y i : ℚ) / (q i : ℚ)⌋ ∧ ⌊∑ i ∈ s, (y i : ℚ) / (q i : ℚ)⌋ ≤ s.card := by
  constructor
  · apply Int.floor_nonneg.mpr
    apply Finset.sum_nonneg
    intro i hi
    exact div_nonneg (by exact_mod_cast (hy i hi).1) (by exact_mod_cast (hq i hi).le)
  · have : ∑ i ∈ s, (y i : ℚ) / (q i : ℚ) ≤ s.card := by
      calc ∑ i ∈ s, (y i : ℚ) / (q i : ℚ) ≤ ∑ _i ∈ s, (1 : ℚ) := by
            apply Finset.sum_le_sum
            intro i hi
            have h : (0 : ℚ) < q i := by exact_mod_cast hq i hi
            rw [div_le_one h]
            exact_mod_cast (hy i hi).2.le
        _ = s.card := by simp
    have h2 : (⌊∑ i ∈ s, (y i : ℚ) / (q i : ℚ)⌋ : ℚ) ≤ (s.card : ℤ) := (Int.floor_le _).trans (by exact_mod_cast this)
    exact_mod_cast h2

/-- Montgomery: with m' m ≡ 1 (mod 2^64), floor(S/2^64) - floor((S m' mod 2^64) m / 2^64) times 2^64 is S modulo m -/
theorem montgomery (S m m' R : ℤ) (h : m' * m ≡ 1 [ZMOD R]) :
    (S / R - ((S * m') % R * m) / R) * R ≡ S [ZMOD m] := by
  set u := (S * m') % R with hu
  have hu' : u * m ≡ S [ZMOD R] := by
    have a : u ≡ S * m' [ZMOD R] := Int.mod_modEq _ _
    calc u * m ≡ S * m' * m [ZMOD R] := a.mul_right m
      _ = S * (m' * m) := by ring
      _ ≡ S * 1 [ZMOD R] := h.mul_left S
      _ = S := by ring
  have e : (u * m) % R = S % R := hu'
  have d1 : S / R * R = S - S % R := by have := Int.emod_add_mul_ediv S R; linarith [mul_comm R (S / R)]
  have d2 : (u * m) / R * R = u * m - (u * m) % R := by
    have := Int.emod_add_mul_ediv (u * m) R; linarith [mul_comm R (u * m / R)]
  have : (S / R - (u * m) / R) * R = S - u * m := by rw [sub_mul, d1, d2, e]; ring
  rw [this]
  have : u * m ≡ 0 [ZMOD m] := Int.modEq_zero_iff_dvd.mpr (Dvd.intro_left u rfl)
  simpa using (Int.ModEq.refl S).sub this

/-- division: p1 - r is divisible by P when r has the residues of p1 modulo P -/
theorem moddown (x r P Pinv q z : ℤ) (hinv : Pinv * P ≡ 1 [ZMOD q])
    (hz : z ≡ (x - r) * Pinv [ZMOD q]) (d : ℤ) (hd : x - r = d * P) : z ≡ d [ZMOD q] := by
  rw [hd] at hz
  calc z ≡ d * P * Pinv [ZMOD q] := hz
    _ = d * (Pinv * P) := by ring
    _ ≡ d * 1 [ZMOD q] := hinv.mul_left d
    _ = d := by ring

end Govc
