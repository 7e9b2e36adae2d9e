import Mathlib.Analysis.InnerProductSpace.GramSchmidtOrtho
import Mathlib.LinearAlgebra.Matrix.NonsingularInverse
import Mathlib.LinearAlgebra.Matrix.Block
import Mathlib.LinearAlgebra.Matrix.ToLin

open Finset

/-- The certificate of an orthogonalisation: columns of `X`, orthogonal vectors `Q`, coefficients `m`, squared lengths `s`. -/
structure Cert (n : ℕ) (X Q m : Fin n → Fin n → ℝ) (s : Fin n → ℝ) : Prop where
  D : ∀ r c, X r c = ∑ l, m c l * Q r l
  M : ∀ c l, m c l * s l = ∑ r, X r c * Q r l
  U : ∀ c, m c c = 1
  T : ∀ c l, c < l → m c l = 0
  S : ∀ l, ∑ r, Q r l * Q r l = s l
  P : ∀ l, 0 < s l

variable {n : ℕ} {X Q m : Fin n → Fin n → ℝ} {s : Fin n → ℝ}

/-- a column is its orthogonal vector plus the projections onto the earlier ones -/
theorem Cert.col (h : Cert n X Q m s) (r c : Fin n) : X r c = Q r c + ∑ l ∈ univ.filter (· < c), m c l * Q r l := by
  rw [h.D r c, ← Finset.sum_filter_add_sum_filter_not univ (· < c), add_comm]
  congr 1
  rw [Finset.sum_eq_single_of_mem c (by simp)]
  · rw [h.U, one_mul]
  · intro b hb hbc
    have : c < b := lt_of_le_of_ne (by simpa using hb) (Ne.symm hbc)
    rw [h.T c b this, zero_mul]

theorem Cert.orth_lt (h : Cert n X Q m s) (a b : Fin n) (hab : a < b) : ∑ r, Q r a * Q r b = 0 := by
  induction a using WellFoundedLT.induction with
  | ind a ih =>
    have e : ∑ r, X r a * Q r b = 0 := by rw [← h.M a b, h.T a b hab, zero_mul]
    have e2 : ∑ r, X r a * Q r b = ∑ r, Q r a * Q r b + ∑ l ∈ univ.filter (· < a), m a l * ∑ r, Q r l * Q r b := by
      simp_rw [h.col _ a, add_mul, Finset.sum_add_distrib, Finset.sum_mul, Finset.mul_sum]
      congr 1
      rw [Finset.sum_comm]
      simp_rw [mul_assoc]
    have e3 : ∑ l ∈ univ.filter (· < a), m a l * ∑ r, Q r l * Q r b = 0 := by
      apply Finset.sum_eq_zero
      intro l hl
      have hl : l < a := by simpa using hl
      rw [ih l hl (hl.trans hab), mul_zero]
    linarith

/-- The vectors of a certificate are pairwise orthogonal. -/
theorem Cert.orthogonal (h : Cert n X Q m s) (a b : Fin n) (hab : a ≠ b) : ∑ r, Q r a * Q r b = 0 := by
  rcases lt_or_gt_of_ne hab with g | g
  · exact h.orth_lt a b g
  · rw [← h.orth_lt b a g]
    exact Finset.sum_congr rfl (fun r _ => mul_comm _ _)

/-- Certificates of columns that agree up to `p` agree there. -/
theorem Cert.prefix {X' Q' m' : Fin n → Fin n → ℝ} {s' : Fin n → ℝ} (h : Cert n X Q m s) (h' : Cert n X' Q' m' s') (p : ℕ)
    (e : ∀ c : Fin n, (c : ℕ) < p → ∀ r, X r c = X' r c) (c : Fin n) (hc : (c : ℕ) < p) :
    (∀ r, Q r c = Q' r c) ∧ (∀ l, m c l = m' c l) ∧ s c = s' c := by
  induction c using WellFoundedLT.induction with
  | ind c ih =>
    have hm : ∀ l, m c l = m' c l := by
      intro l
      rcases lt_trichotomy l c with g | g | g
      · obtain ⟨q, _, t⟩ := ih l g (lt_trans (by exact_mod_cast g) hc)
        have a1 := h.M c l
        have a2 := h'.M c l
        have a3 : ∑ r, X r c * Q r l = ∑ r, X' r c * Q' r l := Finset.sum_congr rfl (fun r _ => by rw [e c hc r, q r])
        have a4 : m c l * s l = m' c l * s l := by rw [a1, a3, ← a2, t]
        exact mul_right_cancel₀ (h.P l).ne' a4
      · rw [g, h.U, h'.U]
      · rw [h.T c l g, h'.T c l g]
    have hq : ∀ r, Q r c = Q' r c := by
      intro r
      have a1 := h.col r c
      have a2 := h'.col r c
      have a3 : ∑ l ∈ univ.filter (· < c), m c l * Q r l = ∑ l ∈ univ.filter (· < c), m' c l * Q' r l := by
        apply Finset.sum_congr rfl
        intro l hl
        have hl : l < c := by simpa using hl
        rw [hm l, (ih l hl (lt_trans (by exact_mod_cast hl) hc)).1 r]
      have := e c hc r
      linarith
    refine ⟨hq, hm, ?_⟩
    rw [← h.S c, ← h'.S c]
    exact Finset.sum_congr rfl (fun r _ => by rw [hq r])

/-- Columns with a certificate are linearly independent. -/
theorem Cert.det_ne_zero (h : Cert n X Q m s) : (Matrix.of X).det ≠ 0 := by
  have e : Matrix.of X = Matrix.of Q * (Matrix.of m).transpose := by
    ext r c
    simp only [Matrix.mul_apply, Matrix.of_apply, Matrix.transpose_apply]
    rw [h.D r c]
    exact Finset.sum_congr rfl (fun l _ => mul_comm _ _)
  have hm : (Matrix.of m).det = 1 := by
    rw [Matrix.det_of_isLowerTriangular]
    · exact Finset.prod_eq_one (fun i _ => h.U i)
    · intro i j hij
      exact h.T i j (by simpa using hij)
  have hq : ((Matrix.of Q).transpose * Matrix.of Q).det ≠ 0 := by
    have : (Matrix.of Q).transpose * Matrix.of Q = Matrix.diagonal s := by
      ext a b
      simp only [Matrix.mul_apply, Matrix.transpose_apply, Matrix.of_apply]
      by_cases g : a = b
      · subst g; rw [Matrix.diagonal_apply_eq, h.S]
      · rw [Matrix.diagonal_apply_ne _ g, h.orthogonal a b g]
    rw [this, Matrix.det_diagonal]
    exact Finset.prod_ne_zero_iff.mpr (fun i _ => (h.P i).ne')
  rw [Matrix.det_mul, Matrix.det_transpose] at hq
  rw [e, Matrix.det_mul, Matrix.det_transpose, hm, mul_one]
  exact right_ne_zero_of_mul hq

/-- Linearly independent columns have a certificate. -/
theorem exists_cert (X : Fin n → Fin n → ℝ) (hX : (Matrix.of X).det ≠ 0) : ∃ Q m s, Cert n X Q m s := by
  classical
  let f : Fin n → EuclideanSpace ℝ (Fin n) := fun c => WithLp.toLp 2 (fun r => X r c)
  have hf : LinearIndependent ℝ f := by
    have h1 : LinearIndependent ℝ (Matrix.of X).col := Matrix.linearIndependent_cols_of_det_ne_zero hX
    have h2 := h1.map' (WithLp.linearEquiv 2 ℝ (Fin n → ℝ)).symm.toLinearMap (LinearEquiv.ker _)
    exact h2
  let g := InnerProductSpace.gramSchmidt ℝ f
  have hg : ∀ l, g l ≠ 0 := fun l => InnerProductSpace.gramSchmidt_ne_zero l hf
  have hs : ∀ l, 0 < ‖g l‖ ^ 2 := fun l => by have := norm_pos_iff.mpr (hg l); positivity
  have inn : ∀ x y : EuclideanSpace ℝ (Fin n), inner ℝ x y = ∑ r, y r * x r := by
    intro x y
    simp [PiLp.inner_apply, mul_comm]
  have nrm : ∀ l, ∑ r, g l r * g l r = ‖g l‖ ^ 2 := by
    intro l
    rw [← inn, real_inner_self_eq_norm_sq]
  have tri : ∀ c l, c < l → inner ℝ (g l) (f c) = 0 := fun c l hcl => InnerProductSpace.gramSchmidt_inv_triangular (𝕜 := ℝ) f hcl
  have dfn : ∀ c, f c = g c + ∑ l ∈ Finset.Iio c, (inner ℝ (g l) (f c) / (‖g l‖ : ℝ) ^ 2) • g l := by
    intro c
    have := InnerProductSpace.gramSchmidt_def'' ℝ f c
    simpa using this
  have own : ∀ c, inner ℝ (g c) (f c) = ‖g c‖ ^ 2 := by
    intro c
    rw [dfn c, inner_add_right, inner_sum, real_inner_self_eq_norm_sq]
    have : ∑ l ∈ Finset.Iio c, inner ℝ (g c) ((inner ℝ (g l) (f c) / (‖g l‖ : ℝ) ^ 2) • g l) = 0 := by
      apply Finset.sum_eq_zero
      intro l hl
      have hl : l < c := by simpa using hl
      rw [inner_smul_right, InnerProductSpace.gramSchmidt_orthogonal ℝ f hl.ne', mul_zero]
    rw [this, add_zero]
  refine ⟨fun r l => g l r, fun c l => inner ℝ (g l) (f c) / ‖g l‖ ^ 2, fun l => ‖g l‖ ^ 2, ?_, ?_, ?_, ?_, nrm, hs⟩
  · intro r c
    have e := congrArg (fun v : EuclideanSpace ℝ (Fin n) => v r) (dfn c)
    have e1 : X r c = g c r + ∑ l ∈ Finset.Iio c, inner ℝ (g l) (f c) / ‖g l‖ ^ 2 * g l r := by
      simpa [f] using e
    rw [e1, ← Finset.sum_filter_add_sum_filter_not univ (· < c), add_comm]
    congr 1
    · apply Finset.sum_congr
      · ext l; simp
      · intros; rfl
    · rw [Finset.sum_eq_single_of_mem c (by simp)]
      · rw [own c, div_self (hs c).ne', one_mul]
      · intro b hb hbc
        have : c < b := lt_of_le_of_ne (by simpa using hb) (Ne.symm hbc)
        rw [tri c b this, zero_div, zero_mul]
  · intro c l
    rw [div_mul_cancel₀ _ (hs l).ne', inn]
  · intro c
    rw [own c, div_self (hs c).ne']
  · intro c l hcl
    rw [tri c l hcl, zero_div]

/-- Permuted columns have a certificate, which is the old one on the columns before the first that moved. -/
theorem Cert.permute (h : Cert n X Q m s) (σ : Equiv.Perm (Fin n)) (p : ℕ) (hσ : ∀ c : Fin n, (c : ℕ) < p → σ c = c) :
    ∃ Q' m' s', Cert n (fun r c => X r (σ c)) Q' m' s' ∧
      ∀ c : Fin n, (c : ℕ) < p → (∀ r, Q' r c = Q r c) ∧ (∀ l, m' c l = m c l) ∧ s' c = s c := by
  have hd : (Matrix.of (fun r c => X r (σ c))).det ≠ 0 := by
    have : Matrix.of (fun r c => X r (σ c)) = (Matrix.of X).submatrix id σ := by ext; rfl
    rw [this, Matrix.det_permute']
    have := h.det_ne_zero
    refine mul_ne_zero ?_ this
    rcases Int.units_eq_one_or (Equiv.Perm.sign σ) with g | g <;> simp [g]
  obtain ⟨Q', m', s', h'⟩ := exists_cert _ hd
  refine ⟨Q', m', s', h', fun c hc => ?_⟩
  exact Cert.prefix h' h p (fun c hc r => by show X r (σ c) = X r c; rw [hσ c hc]) c hc

/-- An integer matrix with an integer inverse is unimodular. -/
theorem unimodular (U V : Matrix (Fin n) (Fin n) ℤ) (h : U * V = 1) : U.det = 1 ∨ U.det = -1 := by
  have : IsUnit U.det := by
    have e : U.det * V.det = 1 := by rw [← Matrix.det_mul, h, Matrix.det_one]
    exact IsUnit.of_mul_eq_one _ e
  exact Int.isUnit_iff.mp this
