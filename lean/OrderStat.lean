/- Order statistic of n independent draws (pyvc/c04.py). -/
import Mathlib

open Finset
set_option linter.unusedSectionVars false
set_option linter.unusedSimpArgs false
set_option linter.unusedVariables false

namespace OrderStat

variable {m n : ℕ}

/-- the positions of a roll that fall in A -/
def hits (A : Finset (Fin m)) (f : Fin n → Fin m) : Finset (Fin n) := univ.filter fun i => f i ∈ A

/-- total weight of the ordered rolls whose hit positions are exactly t -/
theorem weight_of_hits (p : Fin m → ℝ) (A : Finset (Fin m)) (t : Finset (Fin n)) :
    ∑ f ∈ univ.filter (fun f : Fin n → Fin m => hits A f = t), ∏ i, p (f i)
      = (∑ v ∈ A, p v) ^ t.card * (∑ v ∈ Aᶜ, p v) ^ (n - t.card) := by
  have key : univ.filter (fun f : Fin n → Fin m => hits A f = t) = Fintype.piFinset (fun i => if i ∈ t then A else Aᶜ) := by
    ext f
    simp only [mem_filter, mem_univ, true_and, Fintype.mem_piFinset, hits, Finset.ext_iff]
    constructor
    · intro h i
      by_cases hi : i ∈ t
      · simpa [hi] using (h i).mpr hi
      · have : f i ∉ A := fun hc => hi ((h i).mp hc)
        simpa [hi] using this
    · intro h i
      have := h i
      by_cases hi : i ∈ t
      · simpa [hi] using this
      · simpa [hi] using this
  rw [key, ← prod_univ_sum (fun i => if i ∈ t then A else Aᶜ) (fun _ v => p v)]
  have : ∀ i : Fin n, (∑ v ∈ (if i ∈ t then A else Aᶜ), p v) = if i ∈ t then ∑ v ∈ A, p v else ∑ v ∈ Aᶜ, p v := by
    intro i; split_ifs <;> rfl
  simp_rw [this]
  rw [prod_ite]
  simp only [prod_const]
  have h1 : (univ.filter fun i : Fin n => i ∈ t) = t := by ext; simp
  have h2 : (univ.filter fun i : Fin n => i ∉ t).card = n - t.card := by
    have : (univ.filter fun i : Fin n => i ∉ t) = tᶜ := by ext; simp
    rw [this, card_compl, Fintype.card_fin]
  rw [h1, h2]

/-- total weight of the ordered rolls with fewer than k draws in A -/
theorem fewer_than (p : Fin m → ℝ) (A : Finset (Fin m)) (k : ℕ) (hk : k ≤ n + 1) :
    ∑ f ∈ univ.filter (fun f : Fin n → Fin m => (hits A f).card < k), ∏ i, p (f i)
      = ∑ j ∈ range k, (n.choose j : ℝ) * ((∑ v ∈ A, p v) ^ j * (∑ v ∈ Aᶜ, p v) ^ (n - j)) := by
  have h1 : ∑ f ∈ univ.filter (fun f : Fin n → Fin m => (hits A f).card < k), ∏ i, p (f i)
      = ∑ t ∈ univ.filter (fun t : Finset (Fin n) => t.card < k), ∑ f ∈ univ.filter (fun f : Fin n → Fin m => hits A f = t), ∏ i, p (f i) := by
    rw [← sum_fiberwise_of_maps_to (g := hits A) (t := univ.filter (fun t : Finset (Fin n) => t.card < k))]
    · refine sum_congr rfl fun t ht => ?_
      refine sum_congr ?_ fun _ _ => rfl
      ext f
      simp only [mem_filter, mem_univ, true_and] at ht ⊢
      constructor
      · exact fun h => h.2
      · intro h
        exact ⟨by rw [h]; exact ht, h⟩
    · intro f hf
      simpa using hf
  rw [h1]
  simp_rw [weight_of_hits p A]
  rw [← sum_fiberwise_of_maps_to (g := Finset.card) (t := range k)]
  · refine sum_congr rfl fun j hj => ?_
    have : (univ.filter (fun t : Finset (Fin n) => t.card < k)).filter (fun t => t.card = j) = powersetCard j univ := by
      ext t
      simp only [mem_filter, mem_univ, true_and, mem_powersetCard, subset_univ]
      constructor
      · exact fun h => h.2
      · intro h
        exact ⟨by rw [h]; exact mem_range.mp hj, h⟩
    rw [this]
    rw [sum_congr rfl (g := fun _ => (∑ v ∈ A, p v) ^ j * (∑ v ∈ Aᶜ, p v) ^ (n - j))]
    · rw [sum_const, card_powersetCard, card_univ, Fintype.card_fin, nsmul_eq_mul]
    · intro t ht
      rw [(mem_powersetCard.mp ht).2]
  · intro t ht
    simpa using ht

/-- the weight formula: with T the total and a the weight strictly above, G k a = weight of the rolls with fewer than k
    draws above -/
noncomputable def G (n k : ℕ) (a T : ℝ) : ℝ := ∑ j ∈ range k, (n.choose j : ℝ) * (a ^ j * (T - a) ^ (n - j))

theorem G_total (k : ℕ) (hk : 1 ≤ k) (T : ℝ) : G n k 0 T = T ^ n := by
  rw [G, sum_eq_single 0]
  · simp
  · intro j _ hj
    simp [hj]
  · intro h
    exact absurd (mem_range.mpr hk) h

theorem G_none (k : ℕ) (hk : k ≤ n) (T : ℝ) : G n k T T = 0 := by
  rw [G]
  refine sum_eq_zero fun j hj => ?_
  have : n - j ≠ 0 := by have := mem_range.mp hj; omega
  simp [this]

/-- fewer draws above the larger bound: G does not increase with a (two nested sets of outcomes) -/
theorem G_antitone (k : ℕ) (hk : k ≤ n + 1) (p : Fin m → ℝ) (hp : ∀ v, 0 ≤ p v) (A B : Finset (Fin m)) (h : A ⊆ B) :
    G n k (∑ v ∈ B, p v) (∑ v, p v) ≤ G n k (∑ v ∈ A, p v) (∑ v, p v) := by
  have c : ∀ A : Finset (Fin m), ∑ v ∈ Aᶜ, p v = (∑ v, p v) - ∑ v ∈ A, p v := fun A => by
    rw [← sum_add_sum_compl A p]; ring
  simp only [G]
  rw [← c A, ← c B, ← fewer_than p A k hk, ← fewer_than p B k hk]
  refine sum_le_sum_of_subset_of_nonneg ?_ fun f _ _ => prod_nonneg fun i _ => hp _
  intro f hf
  simp only [mem_filter, mem_univ, true_and] at hf ⊢
  exact lt_of_le_of_lt (card_le_card fun i hi => by simp only [hits, mem_filter, mem_univ, true_and] at hi ⊢; exact h hi) hf

/-- the same for numbers: used as  0 <= a <= b <= T  gives  G b <= G a -/
theorem G_antitone' (k : ℕ) (hk : k ≤ n + 1) (a b T : ℝ) (h0 : 0 ≤ a) (h1 : a ≤ b) (h2 : b ≤ T) : G n k b T ≤ G n k a T := by
  have := G_antitone (m := 3) k hk ![a, b - a, T - b] (by intro v; fin_cases v <;> simp <;> linarith) {0} {0, 1} (by simp)
  simpa [Fin.sum_univ_three, sum_pair] using this

/-- the k-th highest (k from 1) of a descending list is at most x exactly when fewer than k entries exceed x -/
theorem kth_highest (l : List ℝ) (hs : l.Pairwise (· ≥ ·)) (k : ℕ) (hk : k < l.length) (x : ℝ) :
    l[k] ≤ x ↔ l.countP (fun y => decide (x < y)) < k + 1 := by
  induction l generalizing k with
  | nil => simp at hk
  | cons a t ih =>
    rw [List.pairwise_cons] at hs
    by_cases ha : x < a
    · rw [List.countP_cons_of_pos (by simpa using ha)]
      cases k with
      | zero => simp; exact ha
      | succ k =>
        have := ih hs.2 k (by simpa using hk)
        simp only [List.getElem_cons_succ]
        rw [this]
        omega
    · have hz : (a :: t).countP (fun y => decide (x < y)) = 0 := by
        rw [List.countP_eq_zero]
        intro y hy
        rcases List.mem_cons.mp hy with rfl | hy
        · simpa using ha
        · have := hs.1 y hy
          have : y ≤ x := by linarith
          simpa using this
      rw [hz]
      simp only [Nat.zero_lt_succ, iff_true]
      cases k with
      | zero => simpa using ha
      | succ k =>
        simp only [List.getElem_cons_succ]
        have hm : t[k]'(by simpa using hk) ∈ t := List.getElem_mem _
        have := hs.1 _ hm
        linarith

/-- the entry of the code for the outcome x (N draws, position k from the top, a = weight above x, b = weight at or above x):
    difference of two neighbouring values of G = total weight of the rolls whose k-th highest is x -/
theorem weight_of_kth (k : ℕ) (hk : k ≤ n + 1) (p : Fin m → ℝ) (A B : Finset (Fin m)) (h : A ⊆ B) :
    G n k (∑ v ∈ A, p v) (∑ v, p v) - G n k (∑ v ∈ B, p v) (∑ v, p v)
      = ∑ f ∈ univ.filter (fun f : Fin n → Fin m => (hits A f).card < k ∧ k ≤ (hits B f).card), ∏ i, p (f i) := by
  have c : ∀ A : Finset (Fin m), ∑ v ∈ Aᶜ, p v = (∑ v, p v) - ∑ v ∈ A, p v := fun A => by
    rw [← sum_add_sum_compl A p]; ring
  simp only [G]
  rw [← c A, ← c B, ← fewer_than p A k hk, ← fewer_than p B k hk]
  have hd : univ.filter (fun f : Fin n → Fin m => (hits A f).card < k)
      = (univ.filter fun f : Fin n → Fin m => (hits B f).card < k) ∪ univ.filter (fun f : Fin n → Fin m => (hits A f).card < k ∧ k ≤ (hits B f).card) := by
    ext f
    simp only [mem_filter, mem_univ, true_and, mem_union]
    have : (hits A f).card ≤ (hits B f).card := card_le_card fun i hi => by
      simp only [hits, mem_filter, mem_univ, true_and] at hi ⊢; exact h hi
    omega
  have hdis : Disjoint (univ.filter fun f : Fin n → Fin m => (hits B f).card < k) (univ.filter (fun f : Fin n → Fin m => (hits A f).card < k ∧ k ≤ (hits B f).card)) := by
    rw [disjoint_left]
    intro f h1 h2
    simp only [mem_filter, mem_univ, true_and] at h1 h2
    omega
  rw [hd, sum_union hdis]
  ring

end OrderStat
