import Mathlib.Algebra.BigOperators.Group.Finset.Basic
import Mathlib.Algebra.BigOperators.GroupWithZero.Action
import Mathlib.Algebra.CharP.Two
import Mathlib.Data.ZMod.Basic

open Finset

/-- Cells that cover every qubit of two disjoint planes once, and every other qubit an even
number of times: if every cell has even parity then the planes have the same parity. -/
theorem planes_agree {C P : Type} [DecidableEq P] (cells : Finset C) (pts A B : Finset P)
    (R : C → P → Prop) [∀ c p, Decidable (R c p)] (f : P → ZMod 2)
    (hA : A ⊆ pts) (hB : B ⊆ pts) (hd : Disjoint A B)
    (even : ∀ c ∈ cells, ∑ p ∈ pts.filter (R c), f p = 0)
    (once : ∀ p ∈ A ∪ B, (cells.filter (fun c => R c p)).card = 1)
    (twice : ∀ p ∈ pts, p ∉ A ∪ B → Even (cells.filter (fun c => R c p)).card) :
    ∑ p ∈ A, f p = ∑ p ∈ B, f p := by
  have h1 : ∑ c ∈ cells, ∑ p ∈ pts.filter (R c), f p = 0 := sum_eq_zero even
  simp_rw [sum_filter] at h1
  rw [sum_comm] at h1
  have h2 : ∀ p ∈ pts, (∑ c ∈ cells, if R c p then f p else 0) = if p ∈ A ∪ B then f p else 0 := by
    intro p hp
    rw [← sum_filter, sum_const]
    split_ifs with h
    · rw [once p h, one_smul]
    · obtain ⟨k, hk⟩ := twice p hp h
      rw [hk, add_smul]
      exact CharTwo.add_self_eq_zero _
  rw [sum_congr rfl h2, ← sum_filter] at h1
  have h3 : pts.filter (fun p => p ∈ A ∪ B) = A ∪ B := by
    ext p
    simp only [mem_filter, mem_union]
    constructor
    · exact fun h => h.2
    · exact fun h => ⟨h.elim (fun a => hA a) (fun b => hB b), h⟩
  rw [h3, sum_union hd] at h1
  exact CharTwo.add_eq_zero.mp h1
