/- Lemmas used by the contracts of C15: the matrices inverted by an EM step are positive definite and the new diagonal is positive. -/
import Mathlib

open Matrix

set_option linter.unusedSectionVars false

variable {n r : Type*} [Fintype n] [Fintype r] [DecidableEq n] [DecidableEq r]

/-- the posterior precision of the factors is positive definite -/
theorem prec_posDef (F : Matrix n r ℝ) (d : n → ℝ) (hd : ∀ i, 0 < d i) :
    (Fᵀ * diagonal (fun i => (d i)⁻¹) * F + 1).PosDef := by
  have h1 : (Fᴴ * diagonal (fun i => (d i)⁻¹) * F).PosSemidef :=
    (PosSemidef.diagonal (fun i => (inv_pos.mpr (hd i)).le)).conjTranspose_mul_mul_same F
  rw [conjTranspose_eq_transpose_of_trivial] at h1
  exact PosDef.posSemidef_add h1 PosDef.one

/-- the expected second moment of the factors is positive definite -/
theorem ess_posDef (S : Matrix n n ℝ) (hS : S.PosDef) (G : Matrix r r ℝ) (hG : G.PosDef) (B : Matrix r n ℝ) :
    (B * S * Bᵀ + G).PosDef := by
  have h1 : (B * S * Bᴴ).PosSemidef := hS.posSemidef.mul_mul_conjTranspose_same B
  rw [conjTranspose_eq_transpose_of_trivial] at h1
  exact PosDef.posSemidef_add h1 hG

/-- the maximising residual covariance is positive definite, so its diagonal is positive -/
theorem new_diag_pos (S : Matrix n n ℝ) (hS : S.PosDef) (G : Matrix r r ℝ) (hG : G.PosDef) (B : Matrix r n ℝ) (i : n) :
    0 < (S - (S * Bᵀ) * (B * S * Bᵀ + G)⁻¹ * (B * S)) i i := by
  have hSi : (S⁻¹).PosDef := hS.inv
  have hGi : (G⁻¹).PosDef := hG.inv
  have h1 : (Bᴴ * G⁻¹ * B).PosSemidef := hGi.posSemidef.conjTranspose_mul_mul_same B
  rw [conjTranspose_eq_transpose_of_trivial] at h1
  have h2 : (S⁻¹ + Bᵀ * G⁻¹ * B).PosDef := hSi.add_posSemidef h1
  have uS : IsUnit S⁻¹ := hSi.isUnit
  have uG : IsUnit G⁻¹ := hGi.isUnit
  have nS : S⁻¹⁻¹ = S := nonsing_inv_nonsing_inv S ((isUnit_iff_isUnit_det S).mp hS.isUnit)
  have nG : G⁻¹⁻¹ = G := nonsing_inv_nonsing_inv G ((isUnit_iff_isUnit_det G).mp hG.isUnit)
  have hE : (G + B * S * Bᵀ).PosDef := by
    rw [add_comm]; exact ess_posDef S hS G hG B
  have w := add_mul_mul_inv_eq_sub S⁻¹ Bᵀ G⁻¹ B uS uG (by rw [nS, nG]; exact hE.isUnit)
  rw [nS, nG] at w
  have h3 := h2.inv
  rw [w] at h3
  have h4 := h3.diag_pos (i := i)
  rw [add_comm (B * S * Bᵀ) G]
  simpa [Matrix.mul_assoc] using h4
