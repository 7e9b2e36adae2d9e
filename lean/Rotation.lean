import Mathlib.LinearAlgebra.Matrix.SchurComplement
import Mathlib.LinearAlgebra.Matrix.NonsingularInverse
import Mathlib.Data.Real.Basic
import Mathlib.Tactic.LinearCombination

open Matrix

set_option linter.unusedSectionVars false

section
variable {n : Type*} [Fintype n] [DecidableEq n] (b c : n → ℝ) (l t : ℝ)

/-- The matrix of the rotation in the plane of b and c. -/
def rotation : Matrix n n ℝ := Matrix.of fun i j => (if i = j then (1 : ℝ) else 0)
  + (l - 1) * (c i * c j + b i * b j) + t * (b i * c j - c i * b j)

def frame : Matrix n (Fin 2) ℝ := Matrix.of fun i k => ![b i, c i] k
def turn : Matrix (Fin 2) (Fin 2) ℝ := !![l - 1, t; -t, l - 1]

theorem rotation_eq : rotation b c l t = 1 + frame b c * turn l t * (frame b c)ᵀ := by
  ext i j
  simp only [rotation, frame, turn, Matrix.of_apply, Matrix.add_apply, Matrix.one_apply, Matrix.mul_apply, Fin.sum_univ_two,
    Matrix.transpose_apply, Matrix.cons_val_zero, Matrix.cons_val_one, Matrix.cons_val', Matrix.cons_val_fin_one]
  ring

variable (hb : b ⬝ᵥ b = 1) (hc : c ⬝ᵥ c = 1) (hbc : b ⬝ᵥ c = 0) (h : l ^ 2 + t ^ 2 = 1)
include hb hc hbc

theorem frame_orthonormal : (frame b c)ᵀ * frame b c = 1 := by
  have s1 : ∑ x, b x * b x = 1 := hb
  have s2 : ∑ x, c x * c x = 1 := hc
  have s3 : ∑ x, b x * c x = 0 := hbc
  have s4 : ∑ x, c x * b x = 0 := by simpa only [mul_comm] using s3
  ext i j
  fin_cases i <;> fin_cases j <;> simp [frame, Matrix.mul_apply, s1, s2, s3, s4]

omit hb hc hbc
include h

theorem turn_cancels : turn l t + (turn l t)ᵀ + turn l t * (turn l t)ᵀ = 0 := by
  rw [Matrix.eta_fin_two (turn l t)ᵀ]
  ext i j
  fin_cases i <;> fin_cases j <;> simp [turn] <;> first | ring1 | linear_combination h

include hb hc hbc

/-- R Rᵀ = 1 -/
theorem rotation_orthogonal : rotation b c l t * (rotation b c l t)ᵀ = 1 := by
  have f := frame_orthonormal b c hb hc hbc
  have m := turn_cancels l t h
  have e : rotation b c l t * (rotation b c l t)ᵀ
      = 1 + frame b c * (turn l t + (turn l t)ᵀ + turn l t * (turn l t)ᵀ) * (frame b c)ᵀ := by
    rw [rotation_eq]
    simp only [Matrix.transpose_add, Matrix.transpose_one, Matrix.transpose_mul, Matrix.transpose_transpose,
      Matrix.add_mul, Matrix.mul_add, Matrix.one_mul, Matrix.mul_one, Matrix.mul_assoc]
    have g : (frame b c)ᵀ * (frame b c * ((turn l t)ᵀ * (frame b c)ᵀ)) = (turn l t)ᵀ * (frame b c)ᵀ := by
      rw [← Matrix.mul_assoc, f, Matrix.one_mul]
    rw [g]
    abel
  rw [e, m]
  simp

/-- R (l b + t c) = b -/
theorem rotation_takes : (rotation b c l t).mulVec (fun k => l * b k + t * c k) = b := by
  have f := frame_orthonormal b c hb hc hbc
  have u : (fun k => l * b k + t * c k) = (frame b c).mulVec ![l, t] := by
    ext k
    simp [frame, Matrix.mulVec, dotProduct, Fin.sum_univ_two]
    ring
  have w : (turn l t).mulVec ![l, t] = ![1 - l, - t] := by
    ext i
    fin_cases i <;> simp [turn, Matrix.mulVec, dotProduct, Fin.sum_univ_two] <;> first | ring1 | linear_combination h
  have e : rotation b c l t * frame b c = frame b c + frame b c * turn l t := by
    rw [rotation_eq, Matrix.add_mul, Matrix.one_mul, Matrix.mul_assoc, f, Matrix.mul_one]
  have z : (frame b c).mulVec ![1, 0] = b := by
    ext k
    simp [frame, Matrix.mulVec, dotProduct, Fin.sum_univ_two]
  rw [u, Matrix.mulVec_mulVec, e, Matrix.add_mulVec, ← Matrix.mulVec_mulVec, w, ← Matrix.mulVec_add]
  have q : ![l, t] + ![1 - l, -t] = ![1, 0] := by
    ext i
    fin_cases i <;> simp
  rw [q, z]

theorem rotation_det : (rotation b c l t).det = 1 := by
  have f := frame_orthonormal b c hb hc hbc
  rw [rotation_eq, Matrix.mul_assoc, Matrix.det_one_add_mul_comm, Matrix.mul_assoc, f, Matrix.mul_one]
  simp [turn, Matrix.det_fin_two]
  linear_combination h
end
