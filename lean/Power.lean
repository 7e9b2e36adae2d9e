import Mathlib.Analysis.SpecialFunctions.Trigonometric.Basic
import Mathlib.Data.Matrix.Reflection

/-- np.linalg.matrix_power of a plane rotation. -/
theorem planar_power (t : ℝ) (n : ℕ) :
    (!![Real.cos t, -Real.sin t; Real.sin t, Real.cos t] : Matrix (Fin 2) (Fin 2) ℝ) ^ n
      = !![Real.cos (n * t), -Real.sin (n * t); Real.sin (n * t), Real.cos (n * t)] := by
  induction n with
  | zero => ext i j; fin_cases i <;> fin_cases j <;> simp
  | succ n ih =>
    rw [pow_succ, ih]
    ext i j
    fin_cases i <;> fin_cases j <;> simp [Matrix.mul_apply, Fin.sum_univ_two, add_mul, Real.cos_add, Real.sin_add] <;> ring
