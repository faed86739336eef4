/- Decoding by minimum-weight perfect matching (independent of the code). -/
import Mathlib.Algebra.BigOperators.Group.Finset.Basic
import Mathlib.Algebra.Order.BigOperators.Group.Finset
import Mathlib.Data.ZMod.Basic
import Mathlib.Data.Sym.Sym2
import Mathlib.Order.Bounds.Basic
import Mathlib.Tactic

open Finset

/-! ### Flipping the qubits along paths -/

section flips
variable {N Q ι : Type} [DecidableEq N] [DecidableEq Q]

/-- R: the qubits that occur an odd number of times along the paths.  A stabilizer s with these coords changes its
parity by the number of ends of paths at s. -/
theorem flips (M : Finset ι) (len : ι → ℕ) (node : ι → ℕ → N) (cv : N → N → Q) (coords R : Finset Q) (s : N)
    (hR : ∀ q, q ∈ R ↔ Odd (∑ m ∈ M, ∑ k ∈ range (len m), if cv (node m k) (node m (k + 1)) = q then 1 else 0))
    (step : ∀ m ∈ M, ∀ k < len m, node m k ≠ node m (k + 1) ∧
      (cv (node m k) (node m (k + 1)) ∈ coords ↔ s = node m k ∨ s = node m (k + 1))) :
    ((R ∩ coords).card : ZMod 2) =
      ∑ m ∈ M, ((if node m 0 = s then 1 else 0) + if node m (len m) = s then 1 else 0) := by
  have h1 : ((R ∩ coords).card : ZMod 2) = ∑ q ∈ coords, if q ∈ R then 1 else 0 := by
    rw [inter_comm, ← filter_mem_eq_inter, card_filter]
    push_cast
    rfl
  have h2 : ∀ q, (if q ∈ R then (1 : ZMod 2) else 0) =
      ∑ m ∈ M, ∑ k ∈ range (len m), if cv (node m k) (node m (k + 1)) = q then 1 else 0 := by
    intro q
    have e : (∑ m ∈ M, ∑ k ∈ range (len m), if cv (node m k) (node m (k + 1)) = q then (1 : ZMod 2) else 0) =
        ((∑ m ∈ M, ∑ k ∈ range (len m), if cv (node m k) (node m (k + 1)) = q then 1 else 0 : ℕ) : ZMod 2) := by
      push_cast
      rfl
    rw [e]
    split_ifs with h
    · exact ((ZMod.natCast_eq_one_iff_odd).mpr ((hR q).mp h)).symm
    · have : Even (∑ m ∈ M, ∑ k ∈ range (len m), if cv (node m k) (node m (k + 1)) = q then 1 else 0) := by
        rw [← Nat.not_odd_iff_even]
        exact fun x => h ((hR q).mpr x)
      exact ((ZMod.natCast_eq_zero_iff_even).mpr this).symm
  rw [h1, sum_congr rfl fun q _ => h2 q, sum_comm]
  apply sum_congr rfl
  intro m hm
  rw [sum_comm]
  have h3 : ∀ k ∈ range (len m), (∑ q ∈ coords, if cv (node m k) (node m (k + 1)) = q then (1 : ZMod 2) else 0) =
      (if node m (k + 1) = s then 1 else 0) - (if node m k = s then 1 else 0) := by
    intro k hk
    obtain ⟨hne, hst⟩ := step m hm k (mem_range.mp hk)
    rw [sum_ite_eq]
    have neg : ∀ x : ZMod 2, 0 - x = x := by decide
    by_cases a : node m k = s
    · have b : node m (k + 1) ≠ s := fun h => hne (a.trans h.symm)
      rw [if_pos (hst.mpr (Or.inl a.symm)), if_neg b, if_pos a, neg]
    · by_cases b : node m (k + 1) = s
      · rw [if_pos (hst.mpr (Or.inr b.symm)), if_pos b, if_neg a, sub_zero]
      · rw [if_neg, if_neg a, if_neg b, sub_zero]
        rw [hst]
        rintro (h | h)
        · exact a h.symm
        · exact b h.symm
  rw [sum_congr rfl h3, sum_range_sub (fun k => if node m k = s then (1 : ZMod 2) else 0)]
  have sub2 : ∀ x y : ZMod 2, x - y = y + x := by decide
  exact sub2 _ _

/-- If moreover a stabilizer is odd iff it is the end of exactly one path, and else of none, all parities are even. -/
theorem cleared (B R coords : Finset Q) (n : ZMod 2)
    (before : ((B ∩ coords).card : ZMod 2) = n) (change : ((R ∩ coords).card : ZMod 2) = n) :
    Even ((symmDiff B R) ∩ coords).card := by
  rw [← ZMod.natCast_eq_zero_iff_even]
  have h : ((symmDiff B R) ∩ coords) = symmDiff (B ∩ coords) (R ∩ coords) := by
    ext x; simp [mem_symmDiff]; tauto
  rw [h]
  have k : ∀ X Y : Finset Q, ((symmDiff X Y).card : ZMod 2) = X.card + Y.card := by
    intro X Y
    have u : (X \ Y).card + (X ∩ Y).card = X.card := card_sdiff_add_card_inter X Y
    have v : (Y \ X).card + (Y ∩ X).card = Y.card := card_sdiff_add_card_inter Y X
    have d : (symmDiff X Y).card = (X \ Y).card + (Y \ X).card := by
      rw [symmDiff_def, sup_eq_union, card_union_of_disjoint disjoint_sdiff_sdiff]
    rw [← u, ← v, d, inter_comm Y X]
    push_cast
    have two : ∀ x : ZMod 2, x + x = 0 := by decide
    linear_combination -(two ((X ∩ Y).card : ZMod 2))
  rw [k, before, change]
  have two : ∀ x : ZMod 2, x + x = 0 := by decide
  exact two n

end flips

/-! ### Walks and distances -/

section walks
variable {N : Type} {link : N → N → Prop} {wt : N → N → ℝ}

inductive Walk (link : N → N → Prop) (wt : N → N → ℝ) : N → N → ℝ → Prop
  | nil (a : N) : Walk link wt a a 0
  | cons (a b c : N) (x : ℝ) : link a b → Walk link wt b c x → Walk link wt a c (wt a b + x)

theorem Walk.append {a b c : N} {x y : ℝ} (h : Walk link wt a b x) (k : Walk link wt b c y) :
    Walk link wt a c (x + y) := by
  induction h with
  | nil a => simpa using k
  | cons a b' b x hl _ ih => rw [add_assoc]; exact Walk.cons _ _ _ _ hl (ih k)

theorem Walk.symm (hl : ∀ a b, link a b → link b a) (hw : ∀ a b, wt a b = wt b a) {a b : N} {x : ℝ}
    (h : Walk link wt a b x) : Walk link wt b a x := by
  induction h with
  | nil a => exact Walk.nil a
  | cons a b c x h _ ih =>
    have k : Walk link wt b a (wt b a + 0) := Walk.cons _ _ _ _ (hl _ _ h) (Walk.nil a)
    have r := ih.append k
    rwa [add_zero, add_comm, ← hw a b] at r

theorem Walk.nonneg (hp : ∀ a b, link a b → 0 ≤ wt a b) {a b : N} {x : ℝ} (h : Walk link wt a b x) : 0 ≤ x := by
  induction h with
  | nil a => exact le_refl 0
  | cons a b c x h _ ih => exact add_nonneg (hp _ _ h) ih

theorem Walk.mono {link' : N → N → Prop} (hl : ∀ a b, link a b → link' a b) {a b : N} {x : ℝ} (h : Walk link wt a b x) :
    Walk link' wt a b x := by
  induction h with
  | nil a => exact Walk.nil a
  | cons a b c x h _ ih => exact Walk.cons _ _ _ _ (hl _ _ h) ih

/-- Every node but one has a neighbour that is lower: all nodes are connected with each other. -/
theorem connected (hl : ∀ a b, link a b → link b a) (hw : ∀ a b, wt a b = wt b a) (c0 : N) (S : N → Prop) (m : N → ℕ)
    (lower : ∀ c, S c → c ≠ c0 → ∃ k, S k ∧ link c k ∧ m k < m c) {a b : N} (ha : S a) (hb : S b) :
    ∃ x, Walk link wt a b x := by
  have down : ∀ n c, m c = n → S c → ∃ x, Walk link wt c c0 x := by
    intro n
    induction n using Nat.strong_induction_on with
    | _ n ih =>
      intro c hn hc
      by_cases h : c = c0
      · exact ⟨0, h ▸ Walk.nil c⟩
      · obtain ⟨k, hk, hlk, hm⟩ := lower c hc h
        obtain ⟨x, hx⟩ := ih (m k) (hn ▸ hm) k rfl hk
        exact ⟨_, Walk.cons _ _ _ _ hlk hx⟩
  obtain ⟨x, hx⟩ := down _ a rfl ha
  obtain ⟨y, hy⟩ := down _ b rfl hb
  exact ⟨_, hx.append (hy.symm hl hw)⟩

/-- The least weights of walks: a symmetric function with the triangle inequality. -/
theorem distance_symm (hl : ∀ a b, link a b → link b a) (hw : ∀ a b, wt a b = wt b a) {d : N → N → ℝ} {a b : N}
    (h : IsLeast {x | Walk link wt a b x} (d a b)) (k : IsLeast {x | Walk link wt b a x} (d b a)) : d a b = d b a :=
  le_antisymm (h.2 (k.1.symm hl hw)) (k.2 (h.1.symm hl hw))

theorem distance_triangle {d : N → N → ℝ} {a b c : N} (hab : IsLeast {x | Walk link wt a b x} (d a b))
    (hbc : IsLeast {x | Walk link wt b c x} (d b c)) (hac : IsLeast {x | Walk link wt a c x} (d a c)) :
    d a c ≤ d a b + d b c :=
  hac.2 (hab.1.append hbc.1)

/-- The links of the two connectors weigh nothing. -/
structure Connectors (link full : N → N → Prop) (wt : N → N → ℝ) (low high : N) (LO HI : N → Prop) : Prop where
  full_iff : ∀ a b, full a b ↔ link a b ∨ (a = low ∧ LO b) ∨ (b = low ∧ LO a) ∨ (a = high ∧ HI b) ∨ (b = high ∧ HI a)
  symm : ∀ a b, link a b → link b a
  wsymm : ∀ a b, wt a b = wt b a
  pos : ∀ a b, link a b → 0 < wt a b
  zlow : ∀ p, LO p → wt low p = 0
  zhigh : ∀ p, HI p → wt high p = 0
  ne : low ≠ high
  real : ∀ a b, link a b → a ≠ low ∧ a ≠ high
  lo : ∀ p, LO p → p ≠ low ∧ p ≠ high ∧ ¬ HI p
  hi : ∀ p, HI p → p ≠ low ∧ p ≠ high

variable {full : N → N → Prop} {low high : N} {LO HI : N → Prop}

theorem Connectors.nonneg (C : Connectors link full wt low high LO HI) (a b : N) (h : full a b) : 0 ≤ wt a b := by
  rcases (C.full_iff a b).mp h with h | ⟨rfl, h⟩ | ⟨rfl, h⟩ | ⟨rfl, h⟩ | ⟨rfl, h⟩
  · exact (C.pos _ _ h).le
  · exact (C.zlow _ h).ge
  · rw [C.wsymm]; exact (C.zlow _ h).ge
  · exact (C.zhigh _ h).ge
  · rw [C.wsymm]; exact (C.zhigh _ h).ge

/-- A walk from one connector to the other has a positive weight. -/
theorem Connectors.passes (C : Connectors link full wt low high LO HI) {x : ℝ} (h : Walk full wt low high x) : 0 < x := by
  have key : ∀ a b y, Walk full wt a b y → b = high → (a = low ∨ LO a) → 0 < y := by
    intro a b y hw
    induction hw with
    | nil a =>
      intro hb ha
      rcases ha with ha | ha
      · exact absurd (ha.symm.trans hb) C.ne
      · exact absurd hb (C.lo _ ha).2.1
    | cons a b c x hl hw ih =>
      intro hc ha
      have hx := hw.nonneg C.nonneg
      have h0 := C.nonneg _ _ hl
      rcases (C.full_iff a b).mp hl with h | ⟨_, h⟩ | ⟨h, _⟩ | ⟨h, _⟩ | ⟨_, h⟩
      · have := C.pos _ _ h; linarith
      · have := ih hc (Or.inr h); linarith
      · have := ih hc (Or.inl h); linarith
      · rcases ha with ha | ha
        · exact absurd (ha.symm.trans h) C.ne
        · exact absurd h (C.lo _ ha).2.1
      · rcases ha with ha | ha
        · exact absurd ha (C.hi _ h).1
        · exact absurd h (C.lo _ ha).2.2
  exact key _ _ _ h rfl (Or.inl rfl)

/-- The path from the connector that passes the other one is longer than the other's. -/
theorem Connectors.passing (C : Connectors link full wt low high LO HI) {s : N} {x y dhigh : ℝ}
    (h : Walk full wt low high x) (k : Walk full wt high s y) (least : IsLeast {z | Walk full wt high s z} dhigh) :
    dhigh < x + y := by
  have := C.passes h
  have := least.2 k
  linarith

/-- The lesser of the two connectors' distances is the least distance of any boundary point. -/
theorem Connectors.boundary (C : Connectors link full wt low high LO HI) {s : N} (hs : s ≠ low ∧ s ≠ high) {dl dh : ℝ}
    (hl : IsLeast {z | Walk full wt low s z} dl) (hh : IsLeast {z | Walk full wt high s z} dh) :
    IsLeast {z | ∃ p, (LO p ∨ HI p) ∧ Walk link wt p s z} (min dl dh) := by
  have sub : ∀ a b, link a b → full a b := fun a b h => (C.full_iff a b).mpr (Or.inl h)
  have key : ∀ a b y, Walk full wt a b y → b ≠ low ∧ b ≠ high →
      (∃ p z, (LO p ∨ HI p) ∧ Walk link wt p b z ∧ z ≤ y) ∨ (a ≠ low ∧ a ≠ high ∧ ∃ z, Walk link wt a b z ∧ z ≤ y) := by
    intro a b y hw
    induction hw with
    | nil a => intro hb; exact Or.inr ⟨hb.1, hb.2, 0, Walk.nil a, le_refl _⟩
    | cons a b c x hlk hw ih =>
      intro hc
      have h0 := C.nonneg _ _ hlk
      rcases ih hc with ⟨p, z, hp, hz, hle⟩ | ⟨hb1, hb2, z, hz, hle⟩
      · exact Or.inl ⟨p, z, hp, hz, by linarith⟩
      · rcases (C.full_iff a b).mp hlk with h | ⟨_, h⟩ | ⟨h, _⟩ | ⟨_, h⟩ | ⟨h, _⟩
        · exact Or.inr ⟨(C.real _ _ h).1, (C.real _ _ h).2, wt a b + z, Walk.cons _ _ _ _ h hz, by linarith⟩
        · exact Or.inl ⟨b, z, Or.inl h, hz, by linarith⟩
        · exact absurd h hb1
        · exact Or.inl ⟨b, z, Or.inr h, hz, by linarith⟩
        · exact absurd h hb2
  have below : ∀ p z, (LO p ∨ HI p) → Walk link wt p s z → min dl dh ≤ z := by
    intro p z hp hz
    have hf := hz.mono sub
    rcases hp with hp | hp
    · have := hl.2 (Walk.cons low p s z ((C.full_iff _ _).mpr (Or.inr (Or.inl ⟨rfl, hp⟩))) hf)
      rw [C.zlow _ hp, zero_add] at this
      exact (min_le_left _ _).trans this
    · have := hh.2 (Walk.cons high p s z ((C.full_iff _ _).mpr (Or.inr (Or.inr (Or.inr (Or.inl ⟨rfl, hp⟩))))) hf)
      rw [C.zhigh _ hp, zero_add] at this
      exact (min_le_right _ _).trans this
  have attained : ∀ a y, a = low ∨ a = high → Walk full wt a s y → ∃ p z, (LO p ∨ HI p) ∧ Walk link wt p s z ∧ z ≤ y := by
    intro a y ha hw
    rcases key _ _ _ hw hs with h | ⟨h1, h2, _⟩
    · exact h
    · rcases ha with ha | ha
      · exact absurd ha h1
      · exact absurd ha h2
  refine ⟨?_, fun z ⟨p, hp, hz⟩ => below p z hp hz⟩
  have m : ∃ a, (a = low ∨ a = high) ∧ Walk full wt a s (min dl dh) := by
    rcases min_choice dl dh with h | h <;> rw [h]
    · exact ⟨low, Or.inl rfl, hl.1⟩
    · exact ⟨high, Or.inr rfl, hh.1⟩
  obtain ⟨a, ha, hw⟩ := m
  obtain ⟨p, z, hp, hz, hle⟩ := attained a _ ha hw
  have := below p z hp hz
  exact ⟨p, hp, by rwa [le_antisymm this hle]⟩

end walks

/-! ### Perfect matchings of least weight -/

section pairing
variable {σ : Type} [DecidableEq σ]

/-- How often (modulo 2) v is an end of e. -/
def par (v : Option σ) : Sym2 (Option σ) → ZMod 2 :=
  Sym2.lift ⟨fun a b => (if a = v then 1 else 0) + (if b = v then 1 else 0), fun _ _ => add_comm _ _⟩

theorem par_mk (v a b : Option σ) : par v s(a, b) = (if a = v then 1 else 0) + (if b = v then 1 else 0) := rfl

theorem par_of_not_diag (v : Option σ) (e : Sym2 (Option σ)) (h : ¬ e.IsDiag) : par v e = if v ∈ e then 1 else 0 := by
  induction e using Sym2.ind with
  | _ a b =>
    rw [Sym2.mk_isDiag_iff] at h
    rw [par_mk]
    by_cases ha : a = v
    · have hb : b ≠ v := fun x => h (ha.trans x.symm)
      simp [ha, hb]
    · by_cases hb : b = v
      · simp [ha, hb]
      · have : v ∉ s(a, b) := by simp [Sym2.mem_iff, Ne.symm, ha, hb]
        simp [ha, hb, this]

variable (δ : Sym2 (Option σ) → ℝ)

/-- Chains that meet are joined, so that every stabilizer is left with at most one. -/
theorem reduce (hn : ∀ e, 0 ≤ δ e) (tri : ∀ (u : σ) (a b : Option σ), δ s(a, b) ≤ δ s(a, some u) + δ s(some u, b)) :
    ∀ (n : ℕ) (M : Multiset (Sym2 (Option σ))), Multiset.card M = n →
      ∃ L : Multiset (Sym2 (Option σ)), (∀ u : σ, (L.map (par (some u))).sum = (M.map (par (some u))).sum) ∧
        (L.map δ).sum ≤ (M.map δ).sum ∧ (∀ e ∈ L, ¬ e.IsDiag) ∧
        (∀ u : σ, Multiset.card (L.filter (some u ∈ ·)) ≤ 1) ∧
        ((∀ e ∈ M, none ∉ e) → ∀ e ∈ L, none ∉ e) := by
  intro n
  induction n using Nat.strong_induction_on with
  | _ n ih =>
    intro M hM
    have two : ∀ x : ZMod 2, x + x = 0 := by decide
    by_cases hd : ∃ e ∈ M, e.IsDiag
    · obtain ⟨e, he, hdiag⟩ := hd
      obtain ⟨R, rfl⟩ := Multiset.exists_cons_of_mem he
      rw [Multiset.card_cons] at hM
      obtain ⟨L, h1, h2, h3, h4, h5⟩ := ih (Multiset.card R) (by omega) R rfl
      refine ⟨L, fun u => ?_, ?_, h3, h4, fun h => h5 fun e he => h e (Multiset.mem_cons_of_mem he)⟩
      · rw [h1, Multiset.map_cons, Multiset.sum_cons]
        have : par (some u) e = 0 := by
          induction e using Sym2.ind with
          | _ a b =>
            rw [Sym2.mk_isDiag_iff] at hdiag
            rw [par_mk, hdiag, two]
        rw [this, zero_add]
      · rw [Multiset.map_cons, Multiset.sum_cons]
        have := hn e
        linarith
    · by_cases hc : ∃ u : σ, 2 ≤ Multiset.card (M.filter (some u ∈ ·))
      · obtain ⟨u, hu⟩ := hc
        obtain ⟨e, he⟩ := Multiset.card_pos_iff_exists_mem.mp (show 0 < Multiset.card (M.filter (some u ∈ ·)) by omega)
        have heM := Multiset.mem_of_mem_filter he
        have heu := Multiset.of_mem_filter he
        obtain ⟨R, rfl⟩ := Multiset.exists_cons_of_mem heM
        rw [Multiset.filter_cons_of_pos (p := (some u ∈ ·)) R heu, Multiset.card_cons] at hu
        obtain ⟨f, hf⟩ := Multiset.card_pos_iff_exists_mem.mp (show 0 < Multiset.card (R.filter (some u ∈ ·)) by omega)
        have hfM := Multiset.mem_of_mem_filter hf
        have hfu := Multiset.of_mem_filter hf
        obtain ⟨K, rfl⟩ := Multiset.exists_cons_of_mem hfM
        obtain ⟨a, rfl⟩ := Sym2.mem_iff_exists.mp heu
        obtain ⟨b, rfl⟩ := Sym2.mem_iff_exists.mp hfu
        rw [Multiset.card_cons, Multiset.card_cons] at hM
        obtain ⟨L, h1, h2, h3, h4, h5⟩ := ih (Multiset.card (s(a, b) ::ₘ K)) (by rw [Multiset.card_cons]; omega) _ rfl
        refine ⟨L, fun v => ?_, ?_, h3, h4, fun h => h5 fun e he => ?_⟩
        · rw [h1]
          simp only [Multiset.map_cons, Multiset.sum_cons, par_mk]
          linear_combination -(two (if (some u) = some v then (1 : ZMod 2) else 0))
        · refine h2.trans ?_
          simp only [Multiset.map_cons, Multiset.sum_cons]
          have := tri u a b
          rw [Sym2.eq_swap (a := a) (b := some u)] at this
          linarith
        · rcases Multiset.mem_cons.mp he with rfl | he
          · have ha := h s(some u, a) (Multiset.mem_cons_self _ _)
            have hb := h s(some u, b) (Multiset.mem_cons_of_mem (Multiset.mem_cons_self _ _))
            simp [Sym2.mem_iff] at ha hb ⊢
            exact ⟨ha, hb⟩
          · exact h e (Multiset.mem_cons_of_mem (Multiset.mem_cons_of_mem he))
      · push Not at hd hc
        exact ⟨M, fun _ => rfl, le_refl _, hd, fun u => by have := hc u; omega, fun h => h⟩

/-- The edges of the matching graph for a chain: inl s is a stabilizer, inr s its boundary point. -/
def expand (bd : Bool) : Sym2 (Option σ) → Multiset (Sym2 (σ ⊕ σ)) :=
  Sym2.lift ⟨fun a b => match a, b with
    | some a, some b => if bd then {s(Sum.inl a, Sum.inl b), s(Sum.inr a, Sum.inr b)} else {s(Sum.inl a, Sum.inl b)}
    | some a, none => {s(Sum.inl a, Sum.inr a)}
    | none, some b => {s(Sum.inl b, Sum.inr b)}
    | none, none => 0, by
      intro a b
      rcases a with _ | a <;> rcases b with _ | b <;> simp [Sym2.eq_swap]⟩

/-- An edge of the matching graph of the odd stabilizers T. -/
def Allowed (bd : Bool) (T : σ → Prop) (e : Sym2 (σ ⊕ σ)) : Prop :=
  (∃ a b, T a ∧ T b ∧ a ≠ b ∧ (e = s(Sum.inl a, Sum.inl b) ∨ (bd = true ∧ e = s(Sum.inr a, Sum.inr b)))) ∨
    (bd = true ∧ ∃ a, T a ∧ e = s(Sum.inl a, Sum.inr a))

/-- Perfect matchings: every node is in one edge. -/
def Perfect (bd : Bool) (T : σ → Prop) (M : Multiset (Sym2 (σ ⊕ σ))) : Prop :=
  (∀ e ∈ M, Allowed bd T e) ∧ ∀ a, T a → Multiset.card (M.filter (Sum.inl a ∈ ·)) = 1 ∧
    (bd = true → Multiset.card (M.filter (Sum.inr a ∈ ·)) = 1)

/-- What the edges weigh. -/
structure Weighs (bd : Bool) (δ : Sym2 (Option σ) → ℝ) (T : σ → Prop) (W : Sym2 (σ ⊕ σ) → ℝ) : Prop where
  pair : ∀ a b, T a → T b → a ≠ b → W s(Sum.inl a, Sum.inl b) = δ s(some a, some b)
  zero : bd = true → ∀ a b, T a → T b → a ≠ b → W s(Sum.inr a, Sum.inr b) = 0
  bound : bd = true → ∀ a, T a → W s(Sum.inl a, Sum.inr a) = δ s(some a, none)

theorem expand_count (bd : Bool) (u : σ) (e : Sym2 (Option σ)) (h : ¬ e.IsDiag) :
    Multiset.card ((expand bd e).filter (Sum.inl u ∈ ·)) = (if some u ∈ e then 1 else 0) ∧
    (bd = true → Multiset.card ((expand bd e).filter (Sum.inr u ∈ ·)) = (if some u ∈ e then 1 else 0)) := by
  induction e using Sym2.ind with
  | _ a b =>
    rw [Sym2.mk_isDiag_iff] at h
    rcases a with _ | a <;> rcases b with _ | b
    · exact absurd rfl h
    · by_cases hu : u = b <;> simp [expand, Multiset.filter_singleton, hu]
    · by_cases hu : u = a <;> simp [expand, Multiset.filter_singleton, hu]
    · have hab : a ≠ b := fun x => h (by rw [x])
      cases bd <;> by_cases ha : u = a <;> by_cases hb : u = b <;>
        simp_all [expand, Multiset.filter_singleton]

theorem card_filter_bind {α β : Type} (M : Multiset α) (f : α → Multiset β) (p : β → Prop) [DecidablePred p] :
    Multiset.card ((M.bind f).filter p) = (M.map fun a => Multiset.card ((f a).filter p)).sum := by
  induction M using Multiset.induction_on with
  | empty => simp
  | cons a M ih => simp [Multiset.filter_add, ih]

theorem card_filter_sum {α : Type} (M : Multiset α) (p : α → Prop) [DecidablePred p] :
    (M.map fun a => if p a then 1 else 0).sum = Multiset.card (M.filter p) := by
  induction M using Multiset.induction_on with
  | empty => simp
  | cons a M ih => by_cases h : p a <;> simp [h, ih, add_comm]

theorem par_count (u : σ) (L : Multiset (Sym2 (Option σ))) (h : ∀ e ∈ L, ¬ e.IsDiag) :
    (L.map (par (some u))).sum = (Multiset.card (L.filter (some u ∈ ·)) : ZMod 2) := by
  rw [← card_filter_sum, Multiset.map_congr rfl fun e he => par_of_not_diag (some u) e (h e he)]
  clear h
  induction L using Multiset.induction_on with
  | empty => simp
  | cons a M ih =>
    rw [Multiset.map_cons, Multiset.map_cons, Multiset.sum_cons, Multiset.sum_cons, ih]
    by_cases h : some u ∈ a <;> simp only [h, if_true, if_false, Nat.cast_add, Nat.cast_one, Nat.cast_zero]

/-- Every set of qubits F with the odd stabilizers T weighs at least as much as some perfect matching.
ends: the stabilizers of a qubit, none for the boundary. -/
theorem below {Q : Type} [DecidableEq Q] (bd : Bool) (ends : Q → Sym2 (Option σ)) (w : Q → ℝ) (T : σ → Prop) (W : Sym2 (σ ⊕ σ) → ℝ)
    (hn : ∀ e, 0 ≤ δ e) (tri : ∀ (u : σ) (a b : Option σ), δ s(a, b) ≤ δ s(a, some u) + δ s(some u, b))
    (hw : ∀ q, δ (ends q) ≤ w q) (hd : ∀ q, ¬ (ends q).IsDiag) (hb : bd = false → ∀ q, none ∉ ends q)
    (F : Finset Q) (hT : ∀ u, T u ↔ Odd (F.filter (some u ∈ ends ·)).card) (hW : Weighs bd δ T W) :
    ∃ P, Perfect bd T P ∧ (P.map W).sum ≤ ∑ q ∈ F, w q := by
  obtain ⟨L, h1, h2, h3, h4, h5⟩ := reduce δ hn tri _ (F.val.map ends) rfl
  have count : ∀ u, Multiset.card (L.filter (some u ∈ ·)) = if Odd (F.filter (some u ∈ ends ·)).card then 1 else 0 := by
    intro u
    have a := h1 u
    rw [par_count u L h3, par_count u _ (by simpa using fun q _ => hd q), Multiset.filter_map, Multiset.card_map] at a
    have b : Multiset.card (F.val.filter (some u ∈ ends ·)) = (F.filter (some u ∈ ends ·)).card := rfl
    have c : Multiset.card (F.val.filter ((fun e => some u ∈ e) ∘ ends)) = (F.filter (some u ∈ ends ·)).card := rfl
    rw [c] at a
    have d := h4 u
    split_ifs with ho
    · have z := (ZMod.natCast_eq_one_iff_odd.mpr ho)
      rw [z] at a
      have := ZMod.natCast_eq_one_iff_odd.mp a
      obtain ⟨k, hk⟩ := this
      omega
    · have z := ZMod.natCast_eq_zero_iff_even.mpr (Nat.not_odd_iff_even.mp ho)
      rw [z] at a
      obtain ⟨k, hk⟩ := ZMod.natCast_eq_zero_iff_even.mp a
      omega
  have inT : ∀ e ∈ L, ∀ u, some u ∈ e → T u := by
    intro e he u hu
    rw [hT]
    by_contra hc
    have a := count u
    rw [if_neg hc, Multiset.card_eq_zero] at a
    have : e ∈ L.filter (some u ∈ ·) := Multiset.mem_filter.mpr ⟨he, hu⟩
    rw [a] at this
    exact absurd this (Multiset.notMem_zero _)
  have noB : bd = false → ∀ e ∈ L, none ∉ e := by
    intro hbd
    apply h5
    simpa using fun q _ => hb hbd q
  refine ⟨L.bind (expand bd), ⟨?_, ?_⟩, ?_⟩
  · intro e he
    obtain ⟨f, hf, hef⟩ := Multiset.mem_bind.mp he
    have hdf := h3 f hf
    have hTf := inT f hf
    have hBf := fun h => noB h f hf
    clear hf he
    induction f using Sym2.ind with
    | _ a b =>
      rw [Sym2.mk_isDiag_iff] at hdf
      rcases a with _ | a <;> rcases b with _ | b
      · exact absurd rfl hdf
      · have : bd = true := by
          cases bd
          · exact absurd (by simp) (hBf rfl)
          · rfl
        refine Or.inr ⟨this, b, hTf b (by simp), by simpa [expand] using hef⟩
      · have : bd = true := by
          cases bd
          · exact absurd (by simp) (hBf rfl)
          · rfl
        refine Or.inr ⟨this, a, hTf a (by simp), by simpa [expand] using hef⟩
      · refine Or.inl ⟨a, b, hTf a (by simp), hTf b (by simp), fun x => hdf (by rw [x]), ?_⟩
        cases bd <;> simpa [expand] using hef
  · intro u hu
    have hc := count u
    rw [if_pos ((hT u).mp hu), ← card_filter_sum] at hc
    refine ⟨?_, fun hbd => ?_⟩
    · rw [card_filter_bind, Multiset.map_congr rfl fun e he => (expand_count bd u e (h3 e he)).1]
      exact hc
    · rw [card_filter_bind, Multiset.map_congr rfl fun e he => (expand_count bd u e (h3 e he)).2 hbd]
      exact hc
  · have cost : ((L.bind (expand bd)).map W).sum = (L.map δ).sum := by
      rw [Multiset.map_bind, Multiset.sum_bind]
      congr 1
      apply Multiset.map_congr rfl
      intro f hf
      have hdf := h3 f hf
      have hTf := inT f hf
      have hBf := fun h => noB h f hf
      clear hf
      induction f using Sym2.ind with
      | _ a b =>
        rw [Sym2.mk_isDiag_iff] at hdf
        rcases a with _ | a <;> rcases b with _ | b
        · exact absurd rfl hdf
        · have hbd : bd = true := by
            cases bd
            · exact absurd (by simp) (hBf rfl)
            · rfl
          have := hW.bound hbd b (hTf b (by simp))
          rw [Sym2.eq_swap (a := none)]
          simpa [expand] using this
        · have hbd : bd = true := by
            cases bd
            · exact absurd (by simp) (hBf rfl)
            · rfl
          have := hW.bound hbd a (hTf a (by simp))
          simpa [expand] using this
        · have hab : a ≠ b := fun x => hdf (by rw [x])
          have h1 := hW.pair a b (hTf a (by simp)) (hTf b (by simp)) hab
          cases bd
          · simpa [expand] using h1
          · have h2 := hW.zero rfl a b (hTf a (by simp)) (hTf b (by simp)) hab
            simp [expand, h1, h2]
    rw [cost]
    refine h2.trans ?_
    rw [Multiset.map_map]
    exact Finset.sum_le_sum fun q _ => hw q

/-- The qubits that occur an odd number of times along paths weigh at most as much as the paths. -/
theorem along {N Q ι : Type} [DecidableEq Q] (M : Finset ι) (len : ι → ℕ) (node : ι → ℕ → N) (cv : N → N → Q) (w : Q → ℝ)
    (hw : ∀ q, 0 ≤ w q) (R : Finset Q)
    (hR : ∀ q, q ∈ R ↔ Odd (∑ m ∈ M, ∑ k ∈ range (len m), if cv (node m k) (node m (k + 1)) = q then 1 else 0)) :
    ∑ q ∈ R, w q ≤ ∑ m ∈ M, ∑ k ∈ range (len m), w (cv (node m k) (node m (k + 1))) := by
  have h : ∀ q ∈ R, w q ≤ ∑ m ∈ M, ∑ k ∈ range (len m), if cv (node m k) (node m (k + 1)) = q then w q else 0 := by
    intro q hq
    obtain ⟨j, hj⟩ := (hR q).mp hq
    have one : 1 ≤ ∑ m ∈ M, ∑ k ∈ range (len m), if cv (node m k) (node m (k + 1)) = q then 1 else 0 := by omega
    have cast : (∑ m ∈ M, ∑ k ∈ range (len m), if cv (node m k) (node m (k + 1)) = q then w q else 0) =
        ((∑ m ∈ M, ∑ k ∈ range (len m), if cv (node m k) (node m (k + 1)) = q then 1 else 0 : ℕ) : ℝ) * w q := by
      push_cast
      simp only [sum_mul, ite_mul, one_mul, zero_mul]
    rw [cast]
    have : (1 : ℝ) ≤ ((∑ m ∈ M, ∑ k ∈ range (len m), if cv (node m k) (node m (k + 1)) = q then 1 else 0 : ℕ) : ℝ) := by
      exact_mod_cast one
    nlinarith [hw q]
  refine (sum_le_sum h).trans ?_
  rw [sum_comm]
  refine sum_le_sum fun m _ => ?_
  rw [sum_comm]
  refine sum_le_sum fun k _ => ?_
  rw [sum_ite_eq]
  split_ifs
  · exact le_refl _
  · exact hw _

/-- Correcting along a least perfect matching weighs least among all sets of qubits with the same syndrome. -/
theorem optimal {Q : Type} [DecidableEq Q] (bd : Bool) (ends : Q → Sym2 (Option σ)) (w : Q → ℝ) (T : σ → Prop) (W : Sym2 (σ ⊕ σ) → ℝ)
    (hn : ∀ e, 0 ≤ δ e) (tri : ∀ (u : σ) (a b : Option σ), δ s(a, b) ≤ δ s(a, some u) + δ s(some u, b))
    (hw : ∀ q, δ (ends q) ≤ w q) (hd : ∀ q, ¬ (ends q).IsDiag) (hb : bd = false → ∀ q, none ∉ ends q)
    (hW : Weighs bd δ T W) (M : Multiset (Sym2 (σ ⊕ σ))) (ε : ℝ)
    (least : ∀ P, Perfect bd T P → (M.map W).sum ≤ (P.map W).sum + ε)
    (R : Finset Q) (hR : ∑ q ∈ R, w q ≤ (M.map W).sum)
    (F : Finset Q) (hT : ∀ u, T u ↔ Odd (F.filter (some u ∈ ends ·)).card) :
    ∑ q ∈ R, w q ≤ ∑ q ∈ F, w q + ε := by
  obtain ⟨P, hP, hle⟩ := below δ bd ends w T W hn tri hw hd hb F hT hW
  have := least P hP
  linarith

end pairing

/-- Without a boundary the number of odd stabilizers is even. -/
theorem even_odd {S Q : Type} [DecidableEq S] [DecidableEq Q] (stabs : Finset S) (coords : S → Finset Q) (B : Finset Q)
    (two : ∀ q, q ∈ B → (stabs.filter (q ∈ coords ·)).card = 2) :
    Even (stabs.filter fun s => Odd (B ∩ coords s).card).card := by
  rw [← ZMod.natCast_eq_zero_iff_even, card_filter]
  push_cast
  have h : ∀ s, (if Odd (B ∩ coords s).card then (1 : ZMod 2) else 0) = ∑ q ∈ B, if q ∈ coords s then 1 else 0 := by
    intro s
    have e : ∑ q ∈ B, (if q ∈ coords s then (1 : ZMod 2) else 0) = ((B ∩ coords s).card : ZMod 2) := by
      rw [← filter_mem_eq_inter, card_filter]; push_cast; rfl
    rw [e]
    split_ifs with ho
    · exact (ZMod.natCast_eq_one_iff_odd.mpr ho).symm
    · exact (ZMod.natCast_eq_zero_iff_even.mpr (Nat.not_odd_iff_even.mp ho)).symm
  rw [sum_congr rfl fun s _ => h s, sum_comm]
  apply sum_eq_zero
  intro q hq
  have e : ∑ s ∈ stabs, (if q ∈ coords s then (1 : ZMod 2) else 0) = ((stabs.filter (q ∈ coords ·)).card : ZMod 2) := by
    rw [card_filter]; push_cast; rfl
  rw [e, two q hq]
  decide
