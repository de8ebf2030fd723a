/- Walks in a relation on a finite set: the facts about `walk` used by pvc/c_reach.py -/
import Mathlib.Data.Fintype.Card
import Mathlib.Data.Finset.Card
import Mathlib.Tactic.Ring
import Mathlib.Tactic.Linarith

variable {α : Type*} (E : α → α → Prop)

/-- j can be reached from i in at most k steps -/
def walk : ℕ → α → α → Prop
  | 0, i, j => i = j
  | k + 1, i, j => walk k i j ∨ ∃ l, walk k i l ∧ E l j

theorem walk_one (i j : α) : walk E 1 i j ↔ i = j ∨ E i j := by
  simp [walk]

theorem walk_add (a b : ℕ) (i j : α) : walk E (a + b) i j ↔ ∃ l, walk E a i l ∧ walk E b l j := by
  induction b generalizing j with
  | zero => simp [walk]
  | succ b ih =>
    have e : a + (b + 1) = (a + b) + 1 := by ring
    rw [e]
    simp only [walk, ih]
    constructor
    · rintro (⟨l, h1, h2⟩ | ⟨m, ⟨l, h1, h2⟩, h3⟩)
      · exact ⟨l, h1, Or.inl h2⟩
      · exact ⟨l, h1, Or.inr ⟨m, h2, h3⟩⟩
    · rintro ⟨l, h1, (h2 | ⟨m, h2, h3⟩)⟩
      · exact Or.inl ⟨l, h1, h2⟩
      · exact Or.inr ⟨m, ⟨l, h1, h2⟩, h3⟩

theorem walk_double (k : ℕ) (i j : α) : walk E (2 * k) i j ↔ ∃ l, walk E k i l ∧ walk E k l j := by
  have e : 2 * k = k + k := by ring
  rw [e]; exact walk_add E k k i j

theorem walk_mono {a b : ℕ} (h : a ≤ b) {i j : α} (w : walk E a i j) : walk E b i j := by
  induction h with
  | refl => exact w
  | step _ ih => exact Or.inl ih

theorem walk_stable {m : ℕ} {i : α} (h : ∀ j, walk E (m + 1) i j → walk E m i j) (k : ℕ) (hk : m ≤ k) (j : α)
    (w : walk E k i j) : walk E m i j := by
  induction hk generalizing j with
  | refl => exact w
  | step _ ih =>
    rcases w with w | ⟨l, w, e⟩
    · exact ih j w
    · exact h j (Or.inr ⟨l, ih l w, e⟩)

theorem walk_enough [Fintype α] (k : ℕ) (hk : Fintype.card α - 1 ≤ k) (i j : α) :
    walk E k i j ↔ walk E (Fintype.card α - 1) i j := by
  classical
  constructor
  swap
  · exact walk_mono E hk
  intro w
  let S : ℕ → Finset α := fun m => Finset.univ.filter (fun j => walk E m i j)
  have grow : ∀ m, (∃ q, q ≤ m ∧ ∀ j, walk E (q + 1) i j → walk E q i j) ∨ m + 2 ≤ (S (m + 1)).card := by
    intro m
    have step : ∀ m, (∀ j, walk E (m + 1) i j → walk E m i j) ∨ (S m).card + 1 ≤ (S (m + 1)).card := by
      intro m
      by_cases h : ∀ j, walk E (m + 1) i j → walk E m i j
      · exact Or.inl h
      · right
        push Not at h
        obtain ⟨j, h1, h2⟩ := h
        apply Finset.card_lt_card
        refine Finset.ssubset_iff_of_subset (fun x hx => ?_) |>.2 ⟨j, ?_, ?_⟩
        · simp only [S, Finset.mem_filter, Finset.mem_univ, true_and] at hx ⊢
          exact Or.inl hx
        · simpa [S] using h1
        · simpa [S] using h2
    induction m with
    | zero =>
      rcases step 0 with h | h
      · exact Or.inl ⟨0, le_refl _, h⟩
      · right
        have : 1 ≤ (S 0).card := Finset.card_pos.2 ⟨i, by rw [Finset.mem_filter]; exact ⟨Finset.mem_univ _, rfl⟩⟩
        omega
    | succ m ih =>
      rcases ih with ⟨q, hq, h⟩ | h
      · exact Or.inl ⟨q, by omega, h⟩
      · rcases step (m + 1) with h' | h'
        · exact Or.inl ⟨m + 1, le_refl _, h'⟩
        · right; omega
  have pos : 1 ≤ Fintype.card α := Fintype.card_pos_iff.2 ⟨i⟩
  have : ∃ q, q ≤ Fintype.card α - 1 ∧ ∀ j, walk E (q + 1) i j → walk E q i j := by
    rcases grow (Fintype.card α - 1) with h | h
    · exact h
    · exfalso
      have := Finset.card_le_univ (S (Fintype.card α - 1 + 1))
      omega
  obtain ⟨q, hq, h⟩ := this
  exact walk_mono E hq (walk_stable E h k (by omega) j w)
