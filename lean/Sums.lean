/- The sum rules the verifier uses by name (pyvc/core.py, pyvc/models.py, pyvc/rules.py), for lists and ranges of any
   length.  A structured list of the verifier is a finite sequence; `Σ i in range n, f i` is its aggregate. -/
import Mathlib

open Finset
set_option linter.unusedSectionVars false
set_option linter.unusedSimpArgs false
set_option linter.unusedVariables false

namespace Sums

/-- sum congruence, linearity, exchange of two sums -/
theorem congr' (n : ℕ) (f g : ℕ → ℝ) (h : ∀ i < n, f i = g i) : ∑ i ∈ range n, f i = ∑ i ∈ range n, g i :=
  sum_congr rfl fun i hi => h i (mem_range.mp hi)
theorem linear (n : ℕ) (f g : ℕ → ℝ) (a b : ℝ) :
    ∑ i ∈ range n, (a * f i + b * g i) = a * ∑ i ∈ range n, f i + b * ∑ i ∈ range n, g i := by
  rw [sum_add_distrib, mul_sum, mul_sum]
theorem exchange (n m : ℕ) (f : ℕ → ℕ → ℝ) :
    ∑ i ∈ range n, ∑ j ∈ range m, f i j = ∑ j ∈ range m, ∑ i ∈ range n, f i j := sum_comm
theorem concat (n m : ℕ) (f : ℕ → ℝ) :
    ∑ i ∈ range (n + m), f i = ∑ i ∈ range n, f i + ∑ i ∈ range m, f (n + i) := sum_range_add ..
theorem pick (n j : ℕ) (hj : j < n) (f : ℕ → ℝ) : ∑ i ∈ range n, (if i = j then f i else 0) = f j := by
  simp [Finset.sum_ite_eq', hj]
theorem reversed (n : ℕ) (f : ℕ → ℝ) : ∑ i ∈ range n, f (n - 1 - i) = ∑ i ∈ range n, f i := sum_range_reflect f n

/-- range rule "permutation (sorted)": any function summed over a permuted list -/
theorem permutation {α : Type*} (l l' : List α) (h : l.Perm l') (f : α → ℝ) : (l.map f).sum = (l'.map f).sum :=
  (h.map f).sum_eq

/-- a sorted list exists, is a permutation, and is monotone (the contract of `sorted`) -/
theorem sorted_spec {α : Type*} [LinearOrder α] (l : List α) :
    (l.mergeSort (· ≤ ·)).Perm l ∧ (l.mergeSort (· ≤ ·)).Pairwise (· ≤ ·) :=
  ⟨List.mergeSort_perm _ _, by
    have := List.pairwise_mergeSort (le := fun a b : α => decide (a ≤ b)) (by intro a b c; simpa using le_trans) (by intro a b; simpa using le_total a b) l
    simpa using this⟩

/-- range rule "filtered list": a sum over the kept elements -/
theorem filtered {α : Type*} (l : List α) (p : α → Prop) [DecidablePred p] (f : α → ℝ) :
    ((l.filter (fun x => decide (p x))).map f).sum = (l.map fun x => if p x then f x else 0).sum := by
  induction l with
  | nil => simp
  | cons a t ih => by_cases h : p a <;> simp [h, ih]

/-- range rule "grouping (dict of weights)": keys without repetition, the value at a key is the total weight of the
    entries with that key; any function of the key -/
theorem grouping {κ : Type*} [DecidableEq κ] (n : ℕ) (key : ℕ → κ) (w : ℕ → ℝ) (f : κ → ℝ) :
    ∑ k ∈ (range n).image key, f k * (∑ i ∈ range n, if key i = k then w i else 0) = ∑ i ∈ range n, f (key i) * w i := by
  have h : ∀ i ∈ range n, key i ∈ (range n).image key := fun i hi => mem_image_of_mem _ hi
  rw [← sum_fiberwise_of_maps_to h]
  refine sum_congr rfl fun k _ => ?_
  rw [mul_sum, sum_filter]
  refine sum_congr rfl fun i _ => ?_
  by_cases hk : key i = k
  · simp [hk]
  · simp [hk]

/-- "bounds of a sum" -/
theorem bounds (n : ℕ) (f : ℕ → ℝ) (lo hi : ℝ) (h : ∀ i < n, lo ≤ f i ∧ f i ≤ hi) :
    lo * n ≤ ∑ i ∈ range n, f i ∧ ∑ i ∈ range n, f i ≤ hi * n := by
  constructor
  · have := card_nsmul_le_sum (range n) f lo fun i hi => (h i (mem_range.mp hi)).1
    simpa [mul_comm] using this
  · have := sum_le_card_nsmul (range n) f hi fun i hi => (h i (mem_range.mp hi)).2
    simpa [mul_comm] using this

/-- "a sum of non-negative terms is not negative" -/
theorem nonneg (n : ℕ) (f : ℕ → ℝ) (h : ∀ i < n, 0 ≤ f i) : 0 ≤ ∑ i ∈ range n, f i :=
  sum_nonneg fun i hi => h i (mem_range.mp hi)

/-- "a sum of non-negative integers is 0 exactly when every term is" (and a positive one has a positive term) -/
theorem zero_iff (n : ℕ) (f : ℕ → ℤ) (h : ∀ i < n, 0 ≤ f i) :
    (∑ i ∈ range n, f i = 0 ↔ ∀ i < n, f i = 0) ∧ (0 < ∑ i ∈ range n, f i → ∃ i < n, 0 < f i) := by
  have h' : ∀ i ∈ range n, 0 ≤ f i := fun i hi => h i (mem_range.mp hi)
  refine ⟨?_, fun hp => ?_⟩
  · rw [sum_eq_zero_iff_of_nonneg h']; simp
  · by_contra hc
    push Not at hc
    exact absurd (sum_nonpos fun i hi => hc i (mem_range.mp hi)) (not_le.mpr hp)

/-- "a term of a sum of non-negative terms is at most the sum" -/
theorem part_of_sum (n j : ℕ) (hj : j < n) (f : ℕ → ℝ) (h : ∀ i < n, 0 ≤ f i) : f j ≤ ∑ i ∈ range n, f i :=
  single_le_sum (f := f) (fun i hi => h i (mem_range.mp hi)) (mem_range.mpr hj)

/-- "partial sums of non-negative terms do not decrease" (A i is the sum of the terms up to and including i) -/
theorem prefix_monotone (n : ℕ) (p : ℕ → ℝ) (h : ∀ i < n, 0 ≤ p i) (v w : ℕ) (hv : v < w) (hw : w < n) :
    ∑ i ∈ range (v + 1), p i ≤ ∑ i ∈ range (w + 1), p i :=
  sum_le_sum_of_subset_of_nonneg (by intro i; simp; omega) fun i hi _ => h i (by simp at hi; omega)

/-- "terms with a partial sum below t add up to less than t" -/
theorem prefix_below (n : ℕ) (p : ℕ → ℝ) (h : ∀ i < n, 0 ≤ p i) (t : ℝ) (ht : 0 < t) :
    ∑ i ∈ range n, (if ∑ j ∈ range (i + 1), p j < t then p i else 0) < t := by
  induction n with
  | zero => simpa using ht
  | succ n ih =>
    rw [sum_range_succ]
    by_cases hc : ∑ j ∈ range (n + 1), p j < t
    · have hle : ∑ i ∈ range n, (if ∑ j ∈ range (i + 1), p j < t then p i else 0) ≤ ∑ i ∈ range n, p i := by
        refine sum_le_sum fun i hi => ?_
        split_ifs
        · exact le_rfl
        · exact h i (by have := mem_range.mp hi; omega)
      rw [if_pos hc]
      rw [sum_range_succ] at hc
      linarith
    · rw [if_neg hc, add_zero]
      exact ih fun i hi => h i (by omega)

/-- "a product of positive factors is positive" -/
theorem prod_pos' (n : ℕ) (f : ℕ → ℤ) (h : ∀ i < n, 0 < f i) : 0 < ∏ i ∈ range n, f i :=
  prod_pos fun i hi => h i (mem_range.mp hi)
theorem prod_nonneg' (n : ℕ) (f : ℕ → ℤ) (h : ∀ i < n, 0 ≤ f i) : 0 ≤ ∏ i ∈ range n, f i :=
  prod_nonneg fun i hi => h i (mem_range.mp hi)

/-- "exact quotient of a product by one of its factors": floor division is exact and is the real quotient -/
theorem prod_over_factor (n j : ℕ) (hj : j < n) (f : ℕ → ℤ) (h : f j ≠ 0) :
    (((∏ i ∈ range n, f i) / f j : ℤ) : ℚ) = (∏ i ∈ range n, (f i : ℚ)) * (f j : ℚ)⁻¹ := by
  have hd : f j ∣ ∏ i ∈ range n, f i := dvd_prod_of_mem f (mem_range.mpr hj)
  rw [Int.cast_div hd (by exact_mod_cast h)]
  push_cast
  rw [div_eq_mul_inv]

/-- "exact division by a common divisor": every weight is a multiple of the greatest common divisor of the weights,
    and after division the greatest common divisor is 1 -/
theorem gcd_divides (n j : ℕ) (hj : j < n) (w : ℕ → ℕ) : (range n).gcd w ∣ w j := gcd_dvd (mem_range.mpr hj)
theorem gcd_one (n : ℕ) (w : ℕ → ℕ) (j : ℕ) (hj : j < n) (h : w j ≠ 0) :
    (range n).gcd (fun i => w i / (range n).gcd w) = 1 :=
  gcd_div_eq_one (mem_range.mpr hj) h

/-- contains is stated by counting: a 0/1 sum is positive exactly when some index qualifies -/
theorem count_pos_iff_exists (n : ℕ) (p : ℕ → Prop) [DecidablePred p] :
    0 < ∑ i ∈ range n, (if p i then (1 : ℝ) else 0) ↔ ∃ i < n, p i := by
  rw [← sum_filter, sum_const, nsmul_eq_mul, mul_one]
  simp only [Nat.cast_pos, card_pos]
  constructor
  · rintro ⟨i, hi⟩
    simp at hi
    exact ⟨i, hi.1, hi.2⟩
  · rintro ⟨i, h1, h2⟩
    exact ⟨i, by simp [h1, h2]⟩

/-- a filtered list as an index list: the kept indices, in order, are strictly increasing and are exactly those kept -/
theorem filtered_indices (n : ℕ) (p : ℕ → Prop) [DecidablePred p] :
    ((List.range n).filter (fun i => decide (p i))).Pairwise (· < ·) ∧
      ∀ i, i ∈ (List.range n).filter (fun i => decide (p i)) ↔ i < n ∧ p i := by
  refine ⟨List.Pairwise.filter _ List.pairwise_lt_range, fun i => by simp⟩

/-- "range rule: merged neighbours": what the loop invariant says when the loop has reached the first element
    (rows R and the pending row (X 0, c), prefix sum 0) is the statement of the rule -/
theorem merged (A c fx F0 total : ℝ) (hF : F0 = 0) (inv : A + F0 + fx * c = total) : A + fx * c = total := by
  rw [hF] at inv; linarith

end Sums
