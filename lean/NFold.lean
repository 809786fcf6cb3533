/- Law of n independent dice (pyvc/c03.py). A die is its list of (outcome, weight) pairs; `E d ψ` is the weighted sum. -/
import Mathlib

open Finset
set_option linter.unusedSectionVars false
set_option linter.unusedSimpArgs false
set_option linter.unusedVariables false

namespace NFold

abbrev Die := List (ℝ × ℝ)

/-- weighted sum of ψ over the outcomes; `tot` the total weight -/
def E (d : Die) (ψ : ℝ → ℝ) : ℝ := (d.map fun x => ψ x.1 * x.2).sum
def tot (d : Die) : ℝ := E d fun _ => 1

/-- adding (subtracting) one draw of d -/
noncomputable def up (d : Die) (ψ : ℝ → ℝ) : ℝ → ℝ := fun y => E d (fun v => ψ (y + v)) / tot d
noncomputable def down (d : Die) (ψ : ℝ → ℝ) : ℝ → ℝ := fun y => E d (fun v => ψ (y - v)) / tot d

/-- TNP a / TNM a: expectation of ψ (y + X1 + .. + Xa) / ψ (y - X1 - .. - Xa) -/
noncomputable def TNP (d : Die) (a : ℕ) (ψ : ℝ → ℝ) : ℝ → ℝ := (up d)^[a] ψ
noncomputable def TNM (d : Die) (a : ℕ) (ψ : ℝ → ℝ) : ℝ → ℝ := (down d)^[a] ψ

/-- r has the law of a copies of d (of their negated sum) -/
def HasLaw (d r : Die) (a : ℕ) : Prop := ∀ ψ c, E r (fun v => ψ (c + v)) = tot r * TNP d a ψ c
def HasLawNeg (d r : Die) (a : ℕ) : Prop := ∀ ψ c, E r (fun v => ψ (c + v)) = tot r * TNM d a ψ c

theorem zero (d : Die) (ψ : ℝ → ℝ) (y : ℝ) : TNP d 0 ψ y = ψ y ∧ TNM d 0 ψ y = ψ y := ⟨rfl, rfl⟩

theorem one (d : Die) (h : tot d ≠ 0) : HasLaw d d 1 := by
  intro ψ c
  simp only [TNP, Function.iterate_one, up]
  field_simp

/-- rule "law of independent copies": sum of TNP b (c + V i) P i over r = S · TNP (a + b) c -/
theorem compose (d r : Die) (a b : ℕ) (h : HasLaw d r a) (ψ : ℝ → ℝ) (c : ℝ) :
    E r (fun v => TNP d b ψ (c + v)) = tot r * TNP d (a + b) ψ c := by
  have := h (TNP d b ψ) c
  rw [this]
  simp only [TNP]
  rw [Function.iterate_add_apply]

/-- the same with the sign turned: r has the law of a copies, read as c - V -/
def HasLawSub (d r : Die) (a : ℕ) : Prop := ∀ ψ c, E r (fun v => ψ (c - v)) = tot r * TNM d a ψ c

theorem E_neg (d : Die) (ψ : ℝ → ℝ) (y : ℝ) : down d ψ y = up d (fun x => ψ (-x)) (-y) := by
  simp only [down, up, E]
  congr 3
  funext x
  congr 2
  ring

theorem down_eq (d : Die) (a : ℕ) (ψ : ℝ → ℝ) (y : ℝ) : TNM d a ψ y = TNP d a (fun x => ψ (-x)) (-y) := by
  induction a generalizing y with
  | zero => simp [TNM, TNP]
  | succ a ih =>
    simp only [TNM, TNP] at ih ⊢
    rw [Function.iterate_succ_apply', Function.iterate_succ_apply', E_neg]
    congr 1
    funext x
    rw [ih, neg_neg]

theorem sub_of (d r : Die) (a : ℕ) (h : HasLaw d r a) : HasLawSub d r a := by
  intro ψ c
  rw [down_eq, ← h]
  congr 1
  funext v
  congr 1
  ring

theorem compose_sub (d r : Die) (a b : ℕ) (h : HasLaw d r a) (ψ : ℝ → ℝ) (c : ℝ) :
    E r (fun v => TNM d b ψ (c - v)) = tot r * TNM d (a + b) ψ c := by
  rw [sub_of d r a h (TNM d b ψ) c]
  simp only [TNM]
  rw [Function.iterate_add_apply]

/-- TNP a really is the law of a independent draws: the a-fold sum over all ordered rolls -/
def rolls (d : Die) : ℕ → Die
  | 0 => [(0, 1)]
  | n + 1 => (rolls d n).flatMap fun r => d.map fun x => (r.1 + x.1, r.2 * x.2)

theorem E_cons (x : ℝ × ℝ) (d : Die) (ψ : ℝ → ℝ) : E (x :: d) ψ = ψ x.1 * x.2 + E d ψ := by simp [E]
theorem E_append (d e : Die) (ψ : ℝ → ℝ) : E (d ++ e) ψ = E d ψ + E e ψ := by simp [E]

theorem E_map (d : Die) (r : ℝ × ℝ) (ψ : ℝ → ℝ) :
    E (d.map fun x => (r.1 + x.1, r.2 * x.2)) ψ = r.2 * E d (fun v => ψ (r.1 + v)) := by
  induction d with
  | nil => simp [E]
  | cons x t ih => rw [List.map_cons, E_cons, E_cons, ih]; ring

theorem E_bind (l d : Die) (ψ : ℝ → ℝ) :
    E (l.flatMap fun r => d.map fun x => (r.1 + x.1, r.2 * x.2)) ψ = E l (fun y => E d (fun v => ψ (y + v))) := by
  induction l with
  | nil => simp [E]
  | cons x t ih => rw [List.flatMap_cons, E_append, E_map, ih, E_cons]; ring

theorem E_mul (d : Die) (ψ : ℝ → ℝ) (k : ℝ) : E d (fun v => k * ψ v) = k * E d ψ := by
  induction d with
  | nil => simp [E]
  | cons x t ih => rw [E_cons, E_cons, ih]; ring

theorem rolls_law (d : Die) (h : tot d ≠ 0) (n : ℕ) (ψ : ℝ → ℝ) (c : ℝ) :
    E (rolls d n) (fun v => ψ (c + v)) = tot d ^ n * TNP d n ψ c := by
  induction n generalizing ψ c with
  | zero => simp [rolls, E, TNP]
  | succ n ih =>
    have e1 : E (rolls d (n + 1)) (fun v => ψ (c + v)) = E (rolls d n) (fun y => tot d * up d ψ (c + y)) := by
      rw [rolls, E_bind]
      congr 1
      funext y
      simp only [up]
      rw [mul_div_cancel₀ _ h]
      congr 1
      funext v
      rw [add_assoc]
    rw [e1, E_mul, ih (up d ψ) c]
    simp only [TNP]
    rw [Function.iterate_succ_apply]
    ring

end NFold
