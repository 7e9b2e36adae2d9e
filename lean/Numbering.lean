import Mathlib.Data.Nat.Choose.Basic
import Mathlib.Algebra.BigOperators.Group.Finset.Basic
import Mathlib.Algebra.BigOperators.Intervals

/-! The combinatorial number system: strictly increasing k-tuples below n are numbered by 0, ..., C(n, k) - 1. -/

open Finset

/-- the number of the tuple v 0 < ... < v (k - 1) -/
def number (v : ℕ → ℕ) (k : ℕ) : ℕ := ∑ l ∈ range k, (v l).choose (l + 1)

/-- strictly increasing on the first k places -/
def Inc (v : ℕ → ℕ) (k : ℕ) : Prop := ∀ a b, a < b → b < k → v a < v b

theorem Inc.mono {v : ℕ → ℕ} {k : ℕ} (h : Inc v (k + 1)) : Inc v k := fun a b hab hb => h a b hab (by omega)

theorem number_lt (v : ℕ → ℕ) : ∀ k n, Inc v k → (∀ l, l < k → v l < n) → number v k < n.choose k := by
  intro k
  induction k with
  | zero => intro n _ _; simp [number]
  | succ k ih =>
    intro n h hn
    have h1 : number v k < (v k).choose k := ih (v k) h.mono (fun l hl => h l k hl (by omega))
    have h2 : number v (k + 1) = number v k + (v k).choose (k + 1) := by simp [number, sum_range_succ]
    have h3 : (v k + 1).choose (k + 1) ≤ n.choose (k + 1) := Nat.choose_le_choose _ (hn k (by omega))
    have h4 : (v k + 1).choose (k + 1) = (v k).choose k + (v k).choose (k + 1) := Nat.choose_succ_succ _ _
    omega

theorem number_inj (v w : ℕ → ℕ) : ∀ k, Inc v k → Inc w k → number v k = number w k → ∀ l, l < k → v l = w l := by
  intro k
  induction k with
  | zero => intro _ _ _ l hl; omega
  | succ k ih =>
    intro hv hw e
    have sv : number v (k + 1) = number v k + (v k).choose (k + 1) := by simp [number, sum_range_succ]
    have sw : number w (k + 1) = number w k + (w k).choose (k + 1) := by simp [number, sum_range_succ]
    have lv : number v k < (v k).choose k := number_lt v k (v k) hv.mono (fun l hl => hv l k hl (by omega))
    have lw : number w k < (w k).choose k := number_lt w k (w k) hw.mono (fun l hl => hw l k hl (by omega))
    have top : v k = w k := by
      rcases lt_trichotomy (v k) (w k) with h | h | h
      · have h3 : (v k + 1).choose (k + 1) ≤ (w k).choose (k + 1) := Nat.choose_le_choose _ h
        have h4 : (v k + 1).choose (k + 1) = (v k).choose k + (v k).choose (k + 1) := Nat.choose_succ_succ _ _
        omega
      · exact h
      · have h3 : (w k + 1).choose (k + 1) ≤ (v k).choose (k + 1) := Nat.choose_le_choose _ h
        have h4 : (w k + 1).choose (k + 1) = (w k).choose k + (w k).choose (k + 1) := Nat.choose_succ_succ _ _
        omega
    have e' : number v k = number w k := by rw [sv, sw, top] at e; omega
    intro l hl
    rcases Nat.lt_succ_iff_lt_or_eq.mp hl with h | h
    · exact ih hv.mono hw.mono e' l h
    · rw [h]; exact top

theorem number_surj : ∀ k n m, m < n.choose k → ∃ v : ℕ → ℕ, Inc v k ∧ (∀ l, l < k → v l < n) ∧ number v k = m := by
  intro k
  induction k with
  | zero =>
    intro n m hm
    refine ⟨fun _ => 0, ?_, ?_, ?_⟩
    · intro a b _ hb; omega
    · intro l hl; omega
    · simp [number] at *; omega
  | succ k ih =>
    intro n
    induction n with
    | zero => intro m hm; simp at hm
    | succ n ihn =>
      intro m hm
      by_cases h : m < n.choose (k + 1)
      · obtain ⟨v, a, b, c⟩ := ihn m h
        exact ⟨v, a, fun l hl => lt_trans (b l hl) (Nat.lt_succ_self n), c⟩
      · have h4 : (n + 1).choose (k + 1) = n.choose k + n.choose (k + 1) := Nat.choose_succ_succ _ _
        obtain ⟨v, a, b, c⟩ := ih n (m - n.choose (k + 1)) (by omega)
        refine ⟨fun l => if l < k then v l else n, ?_, ?_, ?_⟩
        · intro x y hxy hy
          have hx : x < k := by omega
          by_cases hyk : y < k
          · simp only [hx, hyk, if_true]; exact a x y hxy hyk
          · simp only [hx, hyk, if_true, if_false]; exact b x hx
        · intro l hl
          by_cases hlk : l < k
          · simp only [hlk, if_true]; exact lt_trans (b l hlk) (Nat.lt_succ_self n)
          · simp only [hlk, if_false]; omega
        · have e : ∑ l ∈ range k, (if l < k then v l else n).choose (l + 1) = number v k := by
            apply sum_congr rfl
            intro l hl
            rw [if_pos (mem_range.mp hl)]
          show ∑ l ∈ range (k + 1), (if l < k then v l else n).choose (l + 1) = m
          rw [sum_range_succ, e, c]
          simp only [lt_irrefl, if_false]
          omega
