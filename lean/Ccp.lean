/- Lemmas used by the contracts of C27: what the entries proved for the convex-concave fit mean for the matrices. -/
import Mathlib

open Matrix

set_option linter.unusedSectionVars false

variable {n r : Type*} [Fintype n] [Fintype r] [DecidableEq n] [DecidableEq r]

/-- E - G G' is the inverse of E^-1 + E^-1 G (1 - G' E^-1 G)^-1 G' E^-1 -/
theorem woodbury (E Ei : Matrix n n ℝ) (G : Matrix n r ℝ) (B : Matrix r r ℝ) (hE : E * Ei = 1)
    (hB : (1 - Gᵀ * Ei * G) * B = 1) :
    (E - G * Gᵀ) * (Ei + Ei * G * B * Gᵀ * Ei) = 1 := by
  have h1 : Gᵀ * Ei * G * B = B - 1 := by
    have := hB; rw [Matrix.sub_mul, Matrix.one_mul] at this; rw [← this]; abel
  calc (E - G * Gᵀ) * (Ei + Ei * G * B * Gᵀ * Ei)
      = E * Ei + (E * Ei) * G * B * Gᵀ * Ei - G * Gᵀ * Ei - G * (Gᵀ * Ei * G * B) * Gᵀ * Ei := by
        simp only [Matrix.sub_mul, Matrix.mul_add, Matrix.mul_assoc]; abel
    _ = 1 := by rw [h1, hE]; simp only [Matrix.mul_sub, Matrix.sub_mul, Matrix.mul_assoc, Matrix.one_mul, Matrix.mul_one]; abel

/-- a state made from F and d: diag(1/d) - G G' is the inverse of F F' + diag(d) -/
theorem state_precision (D Di : Matrix n n ℝ) (F : Matrix n r ℝ) (L M : Matrix r r ℝ) (hD : Di * D = 1)
    (hM : (1 + Fᵀ * Di * F) * M = 1) (hL : L * Lᵀ = M) (hDi : Diᵀ = Di) :
    (F * Fᵀ + D) * (Di - (Di * F * L) * (Di * F * L)ᵀ) = 1 := by
  have hD' : D * Di = 1 := mul_eq_one_comm.mp hD
  have h1 : Fᵀ * Di * F * M = 1 - M := by
    have := hM; rw [Matrix.add_mul, Matrix.one_mul] at this; rw [← this]; abel
  have hG : (Di * F * L) * (Di * F * L)ᵀ = Di * F * M * Fᵀ * Di := by
    simp only [transpose_mul, hDi, ← hL, Matrix.mul_assoc]
  calc (F * Fᵀ + D) * (Di - (Di * F * L) * (Di * F * L)ᵀ)
      = D * Di + F * Fᵀ * Di - F * (Fᵀ * Di * F * M) * Fᵀ * Di - (D * Di) * F * M * Fᵀ * Di := by
        rw [hG]; simp only [Matrix.add_mul, Matrix.mul_sub, Matrix.mul_assoc]; abel
    _ = 1 := by rw [h1, hD']; simp only [Matrix.mul_sub, Matrix.sub_mul, Matrix.mul_assoc, Matrix.one_mul, Matrix.mul_one]; abel

/-- the pair built from a state: F F' + diag(1/e) is the inverse of diag(e) - G G' -/
theorem built_covariance (E Ei : Matrix n n ℝ) (G : Matrix n r ℝ) (L B : Matrix r r ℝ) (hE : E * Ei = 1)
    (hB : (1 - Gᵀ * Ei * G) * B = 1) (hL : L * Lᵀ = B) (hEi : Eiᵀ = Ei) :
    (E - G * Gᵀ) * ((Ei * G * L) * (Ei * G * L)ᵀ + Ei) = 1 := by
  have h : (Ei * G * L) * (Ei * G * L)ᵀ = Ei * G * B * Gᵀ * Ei := by
    simp only [transpose_mul, hEi, ← hL, Matrix.mul_assoc]
  rw [h, add_comm]
  exact woodbury E Ei G B hE hB

/-- the determinant of the bordered matrix is that of the precision -/
theorem bordered_det (E : Matrix n n ℝ) (G : Matrix n r ℝ) :
    (fromBlocks E G Gᵀ (1 : Matrix r r ℝ)).det = (E - G * Gᵀ).det := by
  rw [det_fromBlocks_one₂₂]

/-- the linearised concave term lies above the concave term and touches it at the current loadings -/
theorem linearisation_above (S : Matrix n n ℝ) (hS : S.PosSemidef) (G H : Matrix n r ℝ) :
    -(Gᵀ * S * G).trace ≤ (Hᵀ * S * H).trace - 2 * (Gᵀ * S * H).trace := by
  have h0 : ((G - H)ᴴ * S * (G - H)).PosSemidef := hS.conjTranspose_mul_mul_same (G - H)
  rw [conjTranspose_eq_transpose_of_trivial] at h0
  have h1 := h0.trace_nonneg
  have hs : Sᵀ = S := by rw [← conjTranspose_eq_transpose_of_trivial]; exact hS.isHermitian
  have h2 : (Hᵀ * S * G).trace = (Gᵀ * S * H).trace := by
    rw [← trace_transpose]; simp only [transpose_mul, transpose_transpose, hs, Matrix.mul_assoc]
  have h3 : ((G - H)ᵀ * S * (G - H)).trace
      = (Gᵀ * S * G).trace - (Gᵀ * S * H).trace - ((Hᵀ * S * G).trace - (Hᵀ * S * H).trace) := by
    simp only [transpose_sub, Matrix.sub_mul, Matrix.mul_sub, trace_sub]; abel
  rw [h3, h2] at h1
  linarith

/-- the common factor of the gradients is (diag(e) - G G')^-1 G -/
theorem common_factor (E Ei : Matrix n n ℝ) (G : Matrix n r ℝ) (B : Matrix r r ℝ) (hE : E * Ei = 1)
    (hB : (1 - Gᵀ * Ei * G) * B = 1) : (E - G * Gᵀ) * (Ei * G * B) = G := by
  calc (E - G * Gᵀ) * (Ei * G * B) = (E * Ei) * G * B - G * (Gᵀ * Ei * G) * B := by
        simp only [Matrix.sub_mul, Matrix.mul_assoc]
    _ = G * ((1 - Gᵀ * Ei * G) * B) := by rw [hE]; simp only [Matrix.sub_mul, Matrix.mul_sub, Matrix.mul_assoc, Matrix.one_mul]
    _ = G := by rw [hB, Matrix.mul_one]
