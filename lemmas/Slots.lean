import Mathlib.Algebra.Polynomial.Eval.Degree
import Mathlib.Algebra.Polynomial.Expand
import Mathlib.Data.Complex.Basic
import Mathlib.Analysis.SpecialFunctions.Complex.CircleAddChar
import Mathlib.Tactic

/-! The automorphisms X ↦ X^g on slots, where slot j of p is p(ζ^(5^j)) for a primitive 2N-th root of unity ζ. -/

open Polynomial

namespace Govc

noncomputable def slot (ζ : ℂ) (p : ℝ[X]) (j : ℕ) : ℂ := aeval (ζ ^ 5 ^ j) p

/-- X ↦ X^(5^k) shifts the slots to the left by k -/
theorem rotate_slot (ζ : ℂ) (p : ℝ[X]) (j k : ℕ) : slot ζ (expand ℝ (5 ^ k) p) j = slot ζ p (j + k) := by
  unfold slot
  rw [expand_aeval, ← pow_mul, pow_add]

/-- the exponent counts modulo 2N only -/
theorem exponent_mod (ζ : ℂ) (M : ℕ) (h : ζ ^ M = 1) (p : ℝ[X]) (a b : ℕ) (hab : a ≡ b [MOD M]) :
    aeval (ζ ^ a) p = aeval (ζ ^ b) p := by
  have : ζ ^ a = ζ ^ b := by
    have ha := Nat.mod_add_div a M
    have hb := Nat.mod_add_div b M
    rw [← ha, ← hb, pow_add, pow_add, pow_mul, pow_mul, h, one_pow, one_pow, hab]
  rw [this]

/-- rotations compose additively -/
theorem rotate_rotate (p : ℝ[X]) (a b : ℕ) : expand ℝ (5 ^ a) (expand ℝ (5 ^ b) p) = expand ℝ (5 ^ (a + b)) p := by
  rw [expand_expand, pow_add]

/-- X ↦ X^(2N-1) conjugates every slot -/
theorem conjugate_slot (ζ : ℂ) (N : ℕ) (hN : 0 < N) (h : ζ ^ (2 * N) = 1) (hn : (starRingEnd ℂ) ζ * ζ = 1) (p : ℝ[X]) (j : ℕ) :
    slot ζ (expand ℝ (2 * N - 1) p) j = (starRingEnd ℂ) (slot ζ p j) := by
  unfold slot
  rw [expand_aeval]
  have e : (ζ ^ 5 ^ j) ^ (2 * N - 1) = (starRingEnd ℂ) (ζ ^ 5 ^ j) := by
    set z := ζ ^ 5 ^ j with hz
    have hz1 : z ^ (2 * N) = 1 := by rw [hz, ← pow_mul, mul_comm, pow_mul, h, one_pow]
    have hz2 : (starRingEnd ℂ) z * z = 1 := by rw [hz, map_pow, ← mul_pow, hn, one_pow]
    have hz0 : z ≠ 0 := by
      intro h0
      rw [h0, mul_zero] at hz2
      exact zero_ne_one hz2
    have : z ^ (2 * N - 1) * z = 1 := by
      rw [← pow_succ, Nat.sub_add_cancel (by omega)]
      exact hz1
    exact mul_right_cancel₀ hz0 (this.trans hz2.symm)
  rw [e]
  have := Polynomial.aeval_conj p (ζ ^ 5 ^ j)
  exact this

end Govc
