import Mathlib.Algebra.BigOperators.Group.Finset.Basic
import Mathlib.Algebra.BigOperators.Ring.Finset
import Mathlib.Algebra.Field.Basic
import Mathlib.Algebra.Star.BigOperators
import Mathlib.Tactic.Ring
import Mathlib.Tactic.LinearCombination
import Mathlib.Tactic.FieldSimp
import Mathlib.Analysis.Complex.Norm
import Mathlib.Algebra.BigOperators.Field
import Mathlib.Algebra.BigOperators.Group.Finset.Defs

/-
What the contracts of contracts/elim.py mean for the equations of a graph: a coupling e r s says that
the equation (or readout) of s has the term e r s * x r.
-/

open Finset

/-- Eliminating node `v` (contract of `reduceLU`: e' r s = e r s + e v s * CLG * e r v, CLG = -1 / e v v)
leaves every other equation and every readout as it is, for every solution of the equation of `v`. -/
theorem eliminate {K R : Type*} [DecidableEq K] [Field R] (S : Finset K) (v : K) (hv : v ∉ S)
    (e : K → K → R) (x : K → R) (h0 : e v v ≠ 0)
    (heq : ∑ r ∈ insert v S, e r v * x r = 0) (s : K) :
    ∑ r ∈ S, (e r s + e v s * (-1 / e v v) * e r v) * x r = ∑ r ∈ insert v S, e r s * x r := by
  rw [sum_insert hv] at heq ⊢
  have h1 : ∑ r ∈ S, e r v * x r = - (e v v * x v) := by linear_combination heq
  have : ∑ r ∈ S, (e r s + e v s * (-1 / e v v) * e r v) * x r
      = ∑ r ∈ S, e r s * x r + e v s * (-1 / e v v) * ∑ r ∈ S, e r v * x r := by
    rw [mul_sum, ← sum_add_distrib]
    exact sum_congr rfl (fun r _ => by ring)
  rw [this, h1]
  field_simp
  ring

/-- Swapping what leaves two nodes (contract of `pivotCOL_OP`, with s the swap; `pivotROW_OP` only renumbers the equations)
leaves every equation and readout as it is, for the solution with the two swapped. -/
theorem pivot {K R : Type*} [Fintype K] [CommRing R] (s : Equiv.Perm K) (e : K → K → R) (x : K → R) (hs : ∀ k, s (s k) = k) (f : K) :
    ∑ r, e (s r) f * x r = ∑ r, e r f * x (s r) := by
  rw [← Equiv.sum_comp s (fun r => e r f * x (s r))]
  exact Finset.sum_congr rfl (fun r _ => by rw [hs])

/-- The columns of the contract of `householderREFL_ROW_OP` (e' k = e k - 2 u k * sum_j c j * e j, c the conjugates of u)
state the equation (or readout) of before for x j = y j - 2 c j * sum_k u k * y k. -/
theorem reflect {K R : Type*} [CommRing R] (U : Finset K) (u c e y : K → R) :
    ∑ k ∈ U, (e k - 2 * u k * ∑ j ∈ U, c j * e j) * y k
      = ∑ j ∈ U, e j * (y j - 2 * c j * ∑ k ∈ U, u k * y k) := by
  have h1 : ∑ k ∈ U, (e k - 2 * u k * ∑ j ∈ U, c j * e j) * y k
      = ∑ k ∈ U, e k * y k - 2 * (∑ j ∈ U, c j * e j) * ∑ k ∈ U, u k * y k := by
    rw [mul_sum, ← sum_sub_distrib]
    exact sum_congr rfl (fun k _ => by ring)
  have h2 : ∑ j ∈ U, e j * (y j - 2 * c j * ∑ k ∈ U, u k * y k)
      = ∑ k ∈ U, e k * y k - 2 * (∑ k ∈ U, u k * y k) * ∑ j ∈ U, c j * e j := by
    rw [mul_sum, ← sum_sub_distrib]
    exact sum_congr rfl (fun k _ => by ring)
  rw [h1, h2]; ring

/-- and with u of norm one every x comes of exactly one y: nothing is lost or added. -/
theorem involution {K R : Type*} [CommRing R] (U : Finset K) (u c y : K → R)
    (h : ∑ k ∈ U, u k * c k = 1) (j : K) :
    (y j - 2 * c j * ∑ k ∈ U, u k * y k)
      - 2 * c j * ∑ k ∈ U, u k * (y k - 2 * c k * ∑ i ∈ U, u i * y i) = y j := by
  have h1 : ∑ k ∈ U, u k * (y k - 2 * c k * ∑ i ∈ U, u i * y i)
      = ∑ k ∈ U, u k * y k - 2 * (∑ i ∈ U, u i * y i) * ∑ k ∈ U, u k * c k := by
    rw [mul_sum, ← sum_sub_distrib]
    exact sum_congr rfl (fun k _ => by ring)
  rw [h1, h]; ring

open Complex ComplexConjugate in
/-- The u of the contract (the couplings e into the node from F, a its own, p the phase of a) has norm one, and
its reflection takes the column to zeros and the diagonal the contract names. -/
theorem zeros {K : Type*} (F : Finset K) (e : K → ℂ) (a p um : ℂ) (n2 n0 N : ℝ)
    (hp : p * conj p = 1) (hpa : p * ‖a‖ = a)
    (hn2 : ∑ k ∈ F, conj (e k) * e k = (n2 : ℂ)) (hn0 : (n0 : ℂ) ^ 2 = n2 + a * conj a)
    (hum : um = a + n0 * p) (hN : (N : ℂ) ^ 2 = n2 + um * conj um) (hN0 : (N : ℂ) ≠ 0) :
    (∑ k ∈ F, (e k / N) * conj (e k / N) + (um / N) * conj (um / N) = 1)
    ∧ (∀ k, e k - 2 * (e k / N) * (∑ j ∈ F, conj (e j / N) * e j + conj (um / N) * a) = 0)
    ∧ a - 2 * (um / N) * (∑ j ∈ F, conj (e j / N) * e j + conj (um / N) * a)
        = a - 2 * (um / N) * (conj (um / N) * a + n2 / N) := by
  have hc : ∀ z : ℂ, conj (z / (N : ℂ)) = conj z / N := by
    intro z; rw [map_div₀, conj_ofReal]
  have hca : conj p * a = ‖a‖ := by
    calc conj p * a = conj p * (p * ‖a‖) := by rw [hpa]
      _ = (p * conj p) * ‖a‖ := by ring
      _ = ‖a‖ := by rw [hp]; ring
  have hac : p * conj a = ‖a‖ := by
    have := congrArg conj hca
    simpa using this
  have hcum : conj um = conj a + n0 * conj p := by rw [hum]; simp
  have hG : ∑ j ∈ F, conj (e j / N) * e j = n2 / N := by
    rw [← hn2, sum_div]
    exact sum_congr rfl (fun k _ => by rw [hc]; ring)
  have hS : ∑ k ∈ F, (e k / N) * conj (e k / N) = n2 / N ^ 2 := by
    rw [← hn2, sum_div]
    exact sum_congr rfl (fun k _ => by rw [hc]; field_simp)
  have hua : conj um * a = a * conj a + n0 * ‖a‖ := by rw [hcum]; linear_combination (n0 : ℂ) * hca
  have hNN : (N : ℂ) ^ 2 = 2 * (n2 + conj um * a) := by
    rw [hN, hua, hcum, hum]
    linear_combination (n0 : ℂ) * hca + (n0 : ℂ) * hac + (n0 : ℂ) ^ 2 * hp + hn0
  refine ⟨?_, ?_, ?_⟩
  · rw [hS, hc]
    field_simp
    linear_combination -hN
  · intro k
    rw [hG, hc]
    field_simp
    linear_combination (e k) * hNN
  · rw [hG]; ring

#print axioms eliminate
#print axioms pivot
#print axioms reflect
#print axioms involution
#print axioms zeros
