/- Laws of finite sums that the contracts use (independent of the code). -/
import Mathlib.Algebra.BigOperators.Group.Finset.Basic
import Mathlib.Algebra.Order.BigOperators.Group.Finset
import Mathlib.Tactic

open Finset

/-- Processes 0 .. size-1 with trials D r each, numbered one to one by 0 .. n-1: the sum over all processes of what
they count is a1 for every trial that succeeded and a0 for every one that failed. -/
theorem all_processes (size n : ℕ) (D : ℕ → Finset ℕ) (num : (_ : ℕ) × ℕ → ℕ)
    (ok : (_ : ℕ) × ℕ → Prop) [DecidablePred ok] (a1 a0 : ℤ)
    (into : ∀ p ∈ (range size).sigma D, num p < n)
    (once : ∀ p ∈ (range size).sigma D, ∀ q ∈ (range size).sigma D, num p = num q → p = q)
    (all : ∀ i < n, ∃ p ∈ (range size).sigma D, num p = i) :
    ∃ fails : ℕ, fails = (((range size).sigma D).filter fun p => ¬ ok p).card ∧ fails ≤ n ∧
      ∑ r ∈ range size, ∑ v ∈ D r, (if ok ⟨r, v⟩ then a1 else a0) = a1 * (n - fails) + a0 * fails := by
  have hc : ((range size).sigma D).card = n := by
    rw [← card_range n]
    apply card_bij (fun p _ => num p)
    · intro p hp; exact mem_range.mpr (into p hp)
    · intro p hp q hq h; exact once p hp q hq h
    · intro i hi
      obtain ⟨p, hp, h⟩ := all i (mem_range.mp hi)
      exact ⟨p, hp, h⟩
  have hs := card_filter_add_card_filter_not (s := (range size).sigma D) ok
  refine ⟨_, rfl, ?_, ?_⟩
  · rw [← hc]; exact card_filter_le _ _
  · rw [Finset.sum_sigma' (range size) D fun r v => if ok ⟨r, v⟩ then a1 else a0]
    rw [Finset.sum_ite, sum_const, sum_const, nsmul_eq_mul, nsmul_eq_mul]
    rw [hc] at hs
    have : ((((range size).sigma D).filter ok).card : ℤ) = n - (((range size).sigma D).filter fun p => ¬ ok p).card := by
      push_cast [← hs]; ring
    rw [← this]
    ring

/-- Sums of terms that are not negative. -/
theorem sum_not_negative (s : Finset ℤ) (f : ℤ → ℝ) (h : ∀ k ∈ s, 0 ≤ f k) : 0 ≤ ∑ k ∈ s, f k := sum_nonneg h

/-- Sums of smaller terms are smaller. -/
theorem sum_smaller (s : Finset ℤ) (f g : ℤ → ℝ) (h : ∀ k ∈ s, f k ≤ g k) : ∑ k ∈ s, f k ≤ ∑ k ∈ s, g k := sum_le_sum h

/-- A telescoping sum. -/
theorem telescope (f : ℕ → ℝ) (n : ℕ) : ∑ k ∈ range n, (f (k + 1) - f k) = f n - f 0 := sum_range_sub f n
