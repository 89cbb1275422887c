/- Lemmas used by the contracts of C10: the combined factor is invertible, the combined covariance is positive definite,
   and it is an expert's own covariance when that expert carries all the weight or all experts agree. -/
import Mathlib

open Matrix

set_option linter.unusedSectionVars false
set_option linter.unusedVariables false

variable {n k : Type*} [Fintype n] [LinearOrder n] [Fintype k] [DecidableEq k]

/-- a weighted sum, with non-negative weights that sum to one, of lower triangular factors with positive diagonal is invertible -/
theorem factor_sum_unit (L : k → Matrix n n ℝ) (w : k → ℝ) (hlow : ∀ e i j, i < j → L e i j = 0)
    (hpos : ∀ e i, 0 < L e i i) (hw : ∀ e, 0 ≤ w e) (hs : ∑ e, w e = 1) : IsUnit (∑ e, w e • L e).det := by
  have hlow' : (∑ e, w e • L e).BlockTriangular OrderDual.toDual := by
    intro i j hij
    have hij' : i < j := hij
    simp [Matrix.sum_apply, hlow _ i j hij']
  rw [det_of_isLowerTriangular _ hlow']
  refine isUnit_iff_ne_zero.mpr (ne_of_gt (Finset.prod_pos fun i _ => ?_))
  obtain ⟨e0, _, he0⟩ : ∃ e ∈ Finset.univ, 0 < w e := by
    by_contra h
    push Not at h
    have : ∑ e, w e ≤ 0 := Finset.sum_nonpos h
    linarith
  rw [Matrix.sum_apply]
  refine Finset.sum_pos' (fun e _ => ?_) ⟨e0, Finset.mem_univ _, ?_⟩
  · simpa using mul_nonneg (hw e) (hpos e i).le
  · simpa using mul_pos he0 (hpos e0 i)

/-- the combined covariance is symmetric positive definite -/
theorem combined_posDef (L : Matrix n n ℝ) (h : IsUnit L.det) : ((L * Lᵀ)⁻¹).PosDef := by
  have hu : IsUnit L := (isUnit_iff_isUnit_det L).mpr h
  have h2 : (L * Lᴴ).PosDef := (hu.posDef_star_right_conjugate_iff (x := (1 : Matrix n n ℝ))).mpr PosDef.one |> (by simpa [star_eq_conjTranspose] using ·)
  rw [conjTranspose_eq_transpose_of_trivial] at h2
  exact h2.inv

/-- weights that sum to one leave a common factor alone -/
theorem agree_factor (L : k → Matrix n n ℝ) (L0 : Matrix n n ℝ) (w : k → ℝ) (hs : ∑ e, w e = 1) (h : ∀ e, w e ≠ 0 → L e = L0) :
    ∑ e, w e • L e = L0 := by
  have : ∀ e ∈ Finset.univ, w e • L e = w e • L0 := by
    intro e _
    by_cases hw : w e = 0
    · simp [hw]
    · rw [h e hw]
  rw [Finset.sum_congr rfl this, ← Finset.sum_smul, hs, one_smul]

/-- an expert's own covariance comes back from its precision factor -/
theorem agree_cov (S L : Matrix n n ℝ) (hS : S.PosDef) (hL : L * Lᵀ = S⁻¹) : (L * Lᵀ)⁻¹ = S := by
  rw [hL]
  exact nonsing_inv_nonsing_inv S ((isUnit_iff_isUnit_det S).mp hS.isUnit)

/-- an expert's own mean comes back from its scaled mean -/
theorem agree_mean (L : Matrix n n ℝ) (h : IsUnit L.det) (m : n → ℝ) : (Lᵀ)⁻¹ *ᵥ (Lᵀ *ᵥ m) = m := by
  rw [mulVec_mulVec, nonsing_inv_mul _ (by rwa [det_transpose]), one_mulVec]
