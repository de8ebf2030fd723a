/- First step equations x = b + Q x on a finite set of states, Q and b non-negative with b_i + sum_j Q_ij <= 1 and every
   state reaching one with b > 0 (or row sum < 1): used by pvc/c_linear.py (C13, C14). -/
import Mathlib.Data.Real.Basic
import Mathlib.Algebra.BigOperators.Group.Finset.Basic
import Mathlib.Algebra.Order.BigOperators.Group.Finset
import Mathlib.LinearAlgebra.Matrix.NonsingularInverse
import Mathlib.LinearAlgebra.Matrix.ToLinearEquiv
import Mathlib.Tactic.Linarith
import Mathlib.Tactic.Ring

open Finset BigOperators

variable {α : Type*} [Fintype α] (Q : α → α → ℝ) (g : α → ℝ)

/-- i reaches a state with g > 0 along positive entries of Q -/
inductive Reaches : α → Prop
  | here {i} : 0 < g i → Reaches i
  | step {i j} : 0 < Q i j → Reaches j → Reaches i

/-- minimum principle: g is the mass leaving the states (1 - row sum) -/
theorem nonneg_of_super (hQ : ∀ i j, 0 ≤ Q i j) (hg : ∀ i, g i + ∑ j, Q i j = 1) (hg0 : ∀ i, 0 ≤ g i)
    (hr : ∀ i, Reaches Q g i) (x : α → ℝ) (hx : ∀ i, ∑ j, Q i j * x j ≤ x i) (i : α) : 0 ≤ x i := by
  by_contra hneg
  push Not at hneg
  obtain ⟨m, -, hm⟩ := Finset.exists_min_image Finset.univ x ⟨i, Finset.mem_univ i⟩
  have hmin : ∀ j, x m ≤ x j := fun j => hm j (Finset.mem_univ j)
  have hmneg : x m < 0 := lt_of_le_of_lt (hmin i) hneg
  -- every state that attains the minimum has g = 0 and only successors that attain it
  have key : ∀ k, x k = x m → g k = 0 ∧ ∀ j, 0 < Q k j → x j = x m := by
    intro k hk
    have h1 : ∑ j, Q k j * x j ≤ x m := hk ▸ hx k
    have h2 : ∑ j, Q k j * x m ≤ ∑ j, Q k j * x j :=
      Finset.sum_le_sum (fun j _ => mul_le_mul_of_nonneg_left (hmin j) (hQ k j))
    have h3 : ∑ j, Q k j * x m = (1 - g k) * x m := by
      rw [← Finset.sum_mul]; congr 1; have := hg k; linarith
    have h4 : g k = 0 := by
      have := hg0 k
      nlinarith
    refine ⟨h4, ?_⟩
    intro j hj
    by_contra hne
    have hlt : x m < x j := lt_of_le_of_ne (hmin j) (Ne.symm hne)
    have : ∑ j, Q k j * x m < ∑ j, Q k j * x j :=
      Finset.sum_lt_sum (fun j _ => mul_le_mul_of_nonneg_left (hmin j) (hQ k j))
        ⟨j, Finset.mem_univ j, by nlinarith⟩
    rw [h3, h4] at this
    linarith
  have all : ∀ k, Reaches Q g k → x k = x m → False := by
    intro k hk
    induction hk with
    | here h => intro e; have := (key _ e).1; linarith
    | step h _ ih => intro e; exact ih ((key _ e).2 _ h)
  exact all m (hr m) rfl

/-- solutions of the first step equations are probabilities -/
theorem first_step_prob (hQ : ∀ i j, 0 ≤ Q i j) (hg : ∀ i, g i + ∑ j, Q i j = 1) (hg0 : ∀ i, 0 ≤ g i)
    (hr : ∀ i, Reaches Q g i) (b x : α → ℝ) (hb : ∀ i, 0 ≤ b i) (hb1 : ∀ i, b i ≤ g i)
    (hx : ∀ i, x i = b i + ∑ j, Q i j * x j) (i : α) : 0 ≤ x i ∧ x i ≤ 1 := by
  constructor
  · exact nonneg_of_super Q g hQ hg hg0 hr x (fun i => by have := hx i; have := hb i; linarith) i
  · have := nonneg_of_super Q g hQ hg hg0 hr (fun j => 1 - x j) (fun i => by
      have e : ∑ j, Q i j * (1 - x j) = (∑ j, Q i j) - ∑ j, Q i j * x j := by
        rw [← Finset.sum_sub_distrib]; congr 1; ext j; ring
      simp only [e]
      have := hx i; have := hb1 i; have := hg i; linarith) i
    linarith

/-- ... and are unique -/
theorem first_step_unique (hQ : ∀ i j, 0 ≤ Q i j) (hg : ∀ i, g i + ∑ j, Q i j = 1) (hg0 : ∀ i, 0 ≤ g i)
    (hr : ∀ i, Reaches Q g i) (b x y : α → ℝ)
    (hx : ∀ i, x i = b i + ∑ j, Q i j * x j) (hy : ∀ i, y i = b i + ∑ j, Q i j * y j) (i : α) : x i = y i := by
  have sub : ∀ (u w : α → ℝ), (∀ i, u i = b i + ∑ j, Q i j * u j) → (∀ i, w i = b i + ∑ j, Q i j * w j) →
      ∀ i, 0 ≤ u i - w i := by
    intro u w hu hw
    exact nonneg_of_super Q g hQ hg hg0 hr (fun j => u j - w j) (fun i => by
      have e : ∑ j, Q i j * (u j - w j) = (∑ j, Q i j * u j) - ∑ j, Q i j * w j := by
        rw [← Finset.sum_sub_distrib]; congr 1; ext j; ring
      simp only [e]
      have := hu i; have := hw i; linarith)
  have h1 := sub x y hx hy i
  have h2 := sub y x hy hx i
  linarith

/-- I - Q is invertible: the systems solved by the code have exactly one solution -/
theorem first_step_invertible [DecidableEq α] (hQ : ∀ i j, 0 ≤ Q i j) (hg : ∀ i, g i + ∑ j, Q i j = 1)
    (hg0 : ∀ i, 0 ≤ g i) (hr : ∀ i, Reaches Q g i) : IsUnit ((1 : Matrix α α ℝ) - Matrix.of Q).det := by
  rw [isUnit_iff_ne_zero]
  intro h
  obtain ⟨v, hv, h0⟩ := (Matrix.exists_mulVec_eq_zero_iff).2 h
  apply hv
  ext i
  have e : ∀ i, v i = 0 + ∑ j, Q i j * v j := by
    intro i
    have := congrFun h0 i
    simp only [Matrix.sub_mulVec, Matrix.one_mulVec, Pi.sub_apply, Pi.zero_apply] at this
    have e2 : (Matrix.of Q).mulVec v i = ∑ j, Q i j * v j := rfl
    rw [e2] at this
    linarith
  exact first_step_unique Q g hQ hg hg0 hr (fun _ => 0) v (fun _ => 0) e (fun i => by simp) i
