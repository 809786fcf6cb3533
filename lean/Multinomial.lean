/- Weight of a sorted roll (pyvc/c05.py). -/
import Mathlib

open Finset
set_option linter.unusedSectionVars false
set_option linter.unusedSimpArgs false
set_option linter.unusedVariables false

namespace Multinomial

variable {α : Type*} [Fintype α] [DecidableEq α]

/-- the ordered rolls of n dice whose multiset of faces is s -/
def ordered (n : ℕ) (s : Multiset α) : Finset (Fin n → α) := univ.filter fun f => univ.val.map f = s

theorem map_cons (n : ℕ) (a : α) (g : Fin n → α) :
    (univ : Finset (Fin (n + 1))).val.map (Fin.cons a g : Fin (n + 1) → α) = a ::ₘ univ.val.map g := by
  have : (univ : Finset (Fin (n + 1))).val = 0 ::ₘ (univ : Finset (Fin n)).val.map Fin.succ := by
    rw [Fin.univ_succ]; simp
  rw [this]
  simp [Multiset.map_map, Function.comp_def]

theorem card_step (n : ℕ) (s : Multiset α) :
    (ordered (n + 1) s).card = ∑ a : α, if a ∈ s then (ordered n (s.erase a)).card else 0 := by
  have h : ordered (n + 1) s = univ.biUnion fun a : α => if a ∈ s then (ordered n (s.erase a)).image (fun g => (Fin.cons a g : Fin (n + 1) → α)) else ∅ := by
    ext f
    simp only [ordered, mem_filter, mem_univ, true_and, mem_biUnion]
    have hf : f = Fin.cons (f 0) (fun i => f i.succ) := (Fin.cons_self_tail f).symm
    constructor
    · intro hs
      refine ⟨f 0, ?_⟩
      rw [hf, map_cons] at hs
      have hm : f 0 ∈ s := by rw [← hs]; simp
      rw [if_pos hm]
      refine mem_image.mpr ⟨fun i => f i.succ, ?_, hf.symm⟩
      simp [← hs]
    · rintro ⟨a, ha⟩
      split_ifs at ha with hm
      · obtain ⟨g, hg, rfl⟩ := mem_image.mp ha
        rw [map_cons]
        simp only [mem_filter, mem_univ, true_and] at hg
        rw [hg, Multiset.cons_erase hm]
      · simp at ha
  rw [h, card_biUnion]
  · refine sum_congr rfl fun a _ => ?_
    split_ifs
    · rw [card_image_of_injective]
      intro g g' e
      exact (Fin.cons_inj.mp e).2
    · rfl
  · intro a _ b _ hab
    simp only [Function.onFun]
    rw [disjoint_left]
    intro f ha hb
    split_ifs at ha hb
    all_goals first | simp at ha; done | simp at hb; done | skip
    obtain ⟨g, _, rfl⟩ := mem_image.mp ha
    obtain ⟨g', _, e⟩ := mem_image.mp hb
    exact hab (Fin.cons_inj.mp e).1.symm

theorem fact_step (s : Multiset α) (a : α) (h : a ∈ s) :
    ∏ b : α, (s.count b).factorial = s.count a * ∏ b : α, ((s.erase a).count b).factorial := by
  rw [← mul_prod_erase univ (fun b => (s.count b).factorial) (mem_univ a), ← mul_prod_erase univ (fun b => ((s.erase a).count b).factorial) (mem_univ a)]
  have hc : 0 < s.count a := Multiset.count_pos.mpr h
  have e1 : (s.count a).factorial = s.count a * ((s.erase a).count a).factorial := by
    rw [Multiset.count_erase_self]
    exact (Nat.mul_factorial_pred (by omega)).symm
  have e2 : ∏ b ∈ univ.erase a, (s.count b).factorial = ∏ b ∈ univ.erase a, ((s.erase a).count b).factorial :=
    prod_congr rfl fun b hb => by rw [Multiset.count_erase_of_ne (ne_of_mem_erase hb)]
  rw [e1, e2, mul_assoc]

/-- number of ordered rolls times the factorials of the multiplicities = n! : MULT is exact and counts the orderings -/
theorem card_ordered (n : ℕ) (s : Multiset α) (hs : s.card = n) :
    (ordered n s).card * ∏ b : α, (s.count b).factorial = n.factorial := by
  induction n generalizing s with
  | zero =>
    have : s = 0 := Multiset.card_eq_zero.mp hs
    subst this
    simp [ordered]
  | succ n ih =>
    rw [card_step, sum_mul]
    have : ∀ a : α, (if a ∈ s then (ordered n (s.erase a)).card else 0) * ∏ b : α, (s.count b).factorial = s.count a * n.factorial := by
      intro a
      split_ifs with h
      · rw [fact_step s a h, ← ih (s.erase a) (by rw [Multiset.card_erase_of_mem h, hs]; rfl)]
        ring
      · rw [Multiset.count_eq_zero_of_notMem h, zero_mul, zero_mul]
    simp_rw [this]
    rw [← sum_mul, Multiset.sum_count_eq_card (s := univ) (m := s) (by simp), hs, Nat.factorial_succ]

/-- the product the code builds: over the positions of a roll, one plus how often the face occurred before -/
theorem running_counts (n : ℕ) (f : ℕ → α) :
    ∏ i ∈ range n, (1 + ((range i).filter fun j => f j = f i).card) = ∏ b : α, (((range n).filter fun j => f j = b).card).factorial := by
  induction n with
  | zero => simp
  | succ n ih =>
    rw [prod_range_succ, ih]
    rw [← mul_prod_erase univ _ (mem_univ (f n)), ← mul_prod_erase univ (fun b => (((range (n + 1)).filter fun j => f j = b).card).factorial) (mem_univ (f n))]
    have c : ∀ b, ((range (n + 1)).filter fun j => f j = b).card = ((range n).filter fun j => f j = b).card + if f n = b then 1 else 0 := by
      intro b
      rw [range_add_one, filter_insert]
      split_ifs with h
      · rw [card_insert_of_notMem (by simp)]
      · rfl
    have e : ∏ b ∈ univ.erase (f n), (((range (n + 1)).filter fun j => f j = b).card).factorial = ∏ b ∈ univ.erase (f n), (((range n).filter fun j => f j = b).card).factorial := by
      refine prod_congr rfl fun b hb => ?_
      rw [c b, if_neg (ne_of_mem_erase hb).symm, add_zero]
    rw [e, c (f n), if_pos rfl, Nat.factorial_succ]
    ring

/-- total weight of the ordered rolls that sort to s: their number times the product of the weights of the faces -/
theorem weight (n : ℕ) (s : Multiset α) (p : α → ℕ) :
    ∑ f ∈ ordered n s, ∏ i, p (f i) = (ordered n s).card * (s.map p).prod := by
  rw [sum_congr rfl (g := fun _ => (s.map p).prod)]
  · simp
  · intro f hf
    simp only [ordered, mem_filter, mem_univ, true_and] at hf
    rw [← hf, Multiset.map_map]
    rfl

/-- the weights of all rolls add up to the n-th power of the total weight -/
theorem total (n : ℕ) (p : α → ℕ) : ∑ f : Fin n → α, ∏ i, p (f i) = (∑ a, p a) ^ n := by
  rw [Fintype.sum_pow]

end Multinomial
