import Mathlib.Data.Finset.Card
import Mathlib.Algebra.BigOperators.Group.Finset.Basic
import Mathlib.Algebra.BigOperators.Ring.Finset
import Mathlib.Data.Nat.Cast.Basic
import Mathlib.Tactic.Push

open Finset

/-- Fewer landmarks than points: some point is no landmark. -/
theorem fresh_point (n m : ℕ) (g : ℕ → ℕ) (h : m < n) : ∃ p, p < n ∧ ∀ k, k < m → g k ≠ p := by
  by_contra hc
  push Not at hc
  have hs : range n ⊆ (range m).image g := by
    intro p hp
    obtain ⟨k, hk, e⟩ := hc p (mem_range.mp hp)
    exact mem_image.mpr ⟨k, mem_range.mpr hk, e⟩
  have h1 := card_le_card hs
  have h2 : ((range m).image g).card ≤ (range m).card := card_image_le
  rw [card_range] at h1 h2
  omega

/-- The number of points that are no landmark, when the landmarks are distinct points. -/
theorem rest_count (n m : ℕ) (g : ℕ → ℕ) (hr : ∀ k, k < m → g k < n)
    (inj : ∀ j k, j < m → k < m → g j = g k → j = k) :
    (∑ p ∈ range n, (if ∃ k, k < m ∧ g k = p then (0 : ℤ) else 1)) + m = n := by
  classical
  have hi : ((range m).image g).card = m := by
    rw [card_image_of_injOn, card_range]
    intro j hj k hk e
    exact inj j k (by simpa using hj) (by simpa using hk) e
  have hs : (range m).image g ⊆ range n := by
    intro p hp
    obtain ⟨k, hk, e⟩ := mem_image.mp hp
    exact mem_range.mpr (e ▸ hr k (mem_range.mp hk))
  have e1 : ∀ p, (∃ k, k < m ∧ g k = p) ↔ p ∈ (range m).image g := by
    intro p; simp [mem_image]
  have e2 : (∑ p ∈ range n, (if ∃ k, k < m ∧ g k = p then (0 : ℤ) else 1)) = ((range n \ (range m).image g).card : ℤ) := by
    rw [card_eq_sum_ones, Nat.cast_sum, ← Finset.filter_notMem_eq_sdiff, Finset.sum_filter]
    apply Finset.sum_congr rfl
    intro p _
    by_cases hp : ∃ k, k < m ∧ g k = p
    · have := (e1 p).mp hp
      simp [hp, this]
    · have : p ∉ (range m).image g := fun h => hp ((e1 p).mpr h)
      rw [if_neg hp, if_pos this]; rfl
  rw [e2]
  have h3 := card_sdiff_add_card_eq_card hs
  rw [hi, card_range] at h3
  exact_mod_cast h3
