import Mathlib.Algebra.BigOperators.Intervals
import Mathlib.Tactic

/-! Sums over a cyclic shift, behind the contracts of SumRowVec and SumColVec. -/

open Finset

namespace Govc

/-- the rows of a matrix with C columns and R rows stored row by row: starting the walk at slot j,
with steps of one row and wrapping around, visits every entry of the column of j once -/
theorem shifted_rows {M : Type*} [AddCommMonoid M] (f : ℕ → M) (R C j : ℕ) (hR : 0 < R) (hC : 0 < C) :
    ∑ r ∈ range R, f ((j + r * C) % (R * C)) = ∑ r ∈ range R, f (j % C + r * C) := by
  have key : ∀ r, (j + r * C) % (R * C) = j % C + ((j / C + r) % R) * C := by
    intro r
    have h1 : j + r * C = j % C + C * (j / C + r) := by
      have := Nat.mod_add_div j C
      nlinarith
    rw [h1, mul_comm R C, Nat.mod_mul]
    have h2 : (j % C + C * (j / C + r)) % C = j % C := by
      rw [Nat.add_mul_mod_self_left, Nat.mod_mod]
    have h3 : (j % C + C * (j / C + r)) / C = j / C + r := by
      rw [Nat.add_mul_div_left _ _ hC, Nat.div_eq_of_lt (Nat.mod_lt j hC), zero_add]
    rw [h2, h3, mul_comm]
  simp_rw [key]
  -- r ↦ (a + r) mod R permutes range R
  apply Finset.sum_nbij (fun r => (j / C + r) % R)
  · intro r _
    simpa using Nat.mod_lt _ hR
  · intro a ha b hb h
    simp only [coe_range, Set.mem_Iio] at ha hb
    have h' : j / C + a ≡ j / C + b [MOD R] := h
    have := Nat.ModEq.add_left_cancel' _ h'
    exact Nat.ModEq.eq_of_lt_of_lt this ha hb
  · intro y hy
    simp only [coe_range, Set.mem_Iio] at hy
    refine ⟨(y + (R - (j / C) % R)) % R, by simpa using Nat.mod_lt _ hR, ?_⟩
    have hlt : (j / C) % R < R := Nat.mod_lt _ hR
    show (j / C + (y + (R - j / C % R)) % R) % R = y
    rw [Nat.add_mod, Nat.mod_mod, ← Nat.add_mod]
    have e : j / C + (y + (R - j / C % R)) = y + R * (j / C / R + 1) := by
      have := Nat.mod_add_div (j / C) R
      have h4 : R * (j / C / R + 1) = R * (j / C / R) + R := by ring
      omega
    rw [e, Nat.add_mul_mod_self_left, Nat.mod_eq_of_lt hy]
  · intro r _
    rfl

/-- one rotate-and-add step doubles the number of summed shifts -/
theorem double_step {M : Type*} [AddCommMonoid M] (f : ℕ → M) (k C j : ℕ) :
    ∑ r ∈ range k, f (j + r * C) + ∑ r ∈ range k, f (j + k * C + r * C) = ∑ r ∈ range (2 * k), f (j + r * C) := by
  rw [two_mul, Finset.sum_range_add]
  congr 1
  apply Finset.sum_congr rfl
  intro r _
  congr 1
  ring

end Govc
