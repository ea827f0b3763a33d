/-
The induction behind the rely/guarantee rule of /verif/engine, and from the contracts of the operations to
linearizability. The hypotheses are the families of obligations the engine discharges on every run:
  preserves    lemma:<action>:preserves:*
  guarantees   lemma:<action>:rely:*
  rely_refl    lemma:rely:reflexive:*          rely_trans   lemma:rely:transitive:*
  init         lemma:new-set:*
`Step` is one guarantee action of a goroutine (what every shared write in the code is shown to be); `Apart` says that the
ghost sets (locks held, nodes created, nodes marked) of different goroutines are disjoint, which is kept because a mutex has
one holder, an allocated node is new, and `mark` requires an unmarked node.
-/
namespace RG
variable {S G L : Type}

structure Sys (S L : Type) where
  Inv : S → Prop
  Apart : L → L → S → Prop
  Step : L → S → L → S → Prop
  Rely : L → S → S → Prop
  preserves : ∀ l s l' s', Inv s → Step l s l' s' → Inv s'
  guarantees : ∀ l m s l' s', Inv s → Apart l m s → Step l s l' s' → Rely m s s'
  rely_refl : ∀ m s, Rely m s s
  rely_trans : ∀ m s t u, Inv s → Inv t → Inv u → Rely m s t → Rely m t u → Rely m s u

/-- An execution: at every moment one goroutine makes a step (or nothing happens), the ghost sets of the others stay. -/
structure Run (sys : Sys S L) (S0 : S) where
  state : Nat → S
  ghost : Nat → G → L
  who : Nat → Option G
  start : state 0 = S0
  idle : ∀ i, who i = none → state (i+1) = state i ∧ ∀ g, ghost (i+1) g = ghost i g
  step : ∀ i g, who i = some g → sys.Step (ghost i g) (state i) (ghost (i+1) g) (state (i+1))
  others : ∀ i g h, who i = some g → h ≠ g → ghost (i+1) h = ghost i h
  apart : ∀ i g h, g ≠ h → sys.Apart (ghost i g) (ghost i h) (state i)

/-- The invariant holds at every moment of every execution. -/
theorem inv_always (sys : Sys S L) {S0 : S} (init : sys.Inv S0) (r : Run (G := G) sys S0) : ∀ i, sys.Inv (r.state i) := by
  intro i
  induction i with
  | zero => rw [r.start]; exact init
  | succ i ih =>
    cases h : r.who i with
    | none => rw [(r.idle i h).1]; exact ih
    | some g => exact sys.preserves _ _ _ _ ih (r.step i g h)

/-- While goroutine g makes no step, its ghost sets do not change, ... -/
theorem ghost_stays (sys : Sys S L) {S0 : S} (r : Run (G := G) sys S0) (g : G) (i d : Nat)
    (quiet : ∀ j, i ≤ j → j < i + d → r.who j ≠ some g) : r.ghost (i+d) g = r.ghost i g := by
  induction d with
  | zero => rfl
  | succ d ih =>
    have q := ih (fun j a b => quiet j a (by omega))
    have hd := quiet (i+d) (by omega) (by omega)
    show r.ghost (i+d+1) g = _
    cases h : r.who (i+d) with
    | none => rw [(r.idle _ h).2 g, q]
    | some g' =>
      have ne : g ≠ g' := by intro e; exact hd (by rw [h, e])
      rw [r.others _ _ _ h ne, q]

/-- ... and what it sees happen is what its rely allows. So verifying a function against an environment that makes any
    rely step between any two of its own steps covers every execution. -/
theorem rely_between (sys : Sys S L) {S0 : S} (init : sys.Inv S0) (r : Run (G := G) sys S0) (g : G) (i d : Nat)
    (quiet : ∀ j, i ≤ j → j < i + d → r.who j ≠ some g) : sys.Rely (r.ghost i g) (r.state i) (r.state (i+d)) := by
  induction d with
  | zero => exact sys.rely_refl _ _
  | succ d ih =>
    have q := ih (fun j a b => quiet j a (by omega))
    have gs := ghost_stays sys r g i d (fun j a b => quiet j a (by omega))
    have hd := quiet (i+d) (by omega) (by omega)
    have inv := inv_always sys init r
    show sys.Rely (r.ghost i g) (r.state i) (r.state (i+d+1))
    refine sys.rely_trans _ _ (r.state (i+d)) _ (inv _) (inv _) (inv _) q ?_
    cases h : r.who (i+d) with
    | none => rw [(r.idle _ h).1]; exact sys.rely_refl _ _
    | some g' =>
      have ne : g' ≠ g := by intro e; exact hd (by rw [h, e])
      have a := r.apart (i+d) g' g ne
      have s := sys.guarantees _ _ _ _ _ (inv _) a (r.step _ _ h)
      rw [gs] at s
      exact s
end RG

namespace Lin
/-- What a step does to the abstract set (lemma:complete:abs-adds-exactly, lemma:mark:abs-removes-exactly,
    lemma:<other>:abs-unchanged). -/
inductive Eff (K : Type) where
  | none
  | add (k : K)
  | rem (k : K)

variable {K : Type}

structure Hist (K : Type) where
  set : Nat → K → Prop
  eff : Nat → Eff K
  empty : ∀ k, ¬ set 0 k
  unchanged : ∀ t, eff t = Eff.none → ∀ k, set (t+1) k ↔ set t k
  adds : ∀ t k, eff t = Eff.add k → ¬ set t k ∧ ∀ j, set (t+1) j ↔ (set t j ∨ j = k)
  removes : ∀ t k, eff t = Eff.rem k → set t k ∧ ∀ j, set (t+1) j ↔ (set t j ∧ j ≠ k)

/-- The state a sequential set is in after the successful updates before moment t, in the order of their steps. -/
def Seq (h : Hist K) (t : Nat) (k : K) : Prop :=
  ∃ u, u < t ∧ h.eff u = Eff.add k ∧ ∀ v, u < v → v < t → h.eff v ≠ Eff.rem k

theorem seq_is_set (h : Hist K) : ∀ t k, Seq h t k ↔ h.set t k := by
  intro t
  induction t with
  | zero =>
    intro k
    constructor
    · rintro ⟨u, hu, _⟩; omega
    · intro s; exact absurd s (h.empty k)
  | succ t ih =>
    intro k
    constructor
    · rintro ⟨u, hu, e, nr⟩
      by_cases ut : u = t
      · subst ut
        exact ((h.adds u k e).2 k).2 (Or.inr rfl)
      · have st : h.set t k := (ih k).1 ⟨u, by omega, e, fun v a b => nr v a (by omega)⟩
        cases he : h.eff t with
        | none => exact (h.unchanged t he k).2 st
        | add j => exact ((h.adds t j he).2 k).2 (Or.inl st)
        | rem j =>
          refine ((h.removes t j he).2 k).2 ⟨st, ?_⟩
          intro kj
          subst kj
          exact nr t (by omega) (by omega) he
    · intro s
      have keep : h.set t k → h.eff t ≠ Eff.rem k → Seq h (t+1) k := by
        intro st ne
        obtain ⟨u, hu, e, nr⟩ := (ih k).2 st
        refine ⟨u, by omega, e, fun v a b => ?_⟩
        by_cases vt : v = t
        · subst vt; exact ne
        · exact nr v a (by omega)
      cases he : h.eff t with
      | none => exact keep ((h.unchanged t he k).1 s) (by rw [he]; intro c; cases c)
      | add j =>
        cases ((h.adds t j he).2 k).1 s with
        | inl st => exact keep st (by rw [he]; intro c; cases c)
        | inr kj =>
          subst kj
          exact ⟨t, by omega, he, fun v a b => by omega⟩
      | rem j =>
        have ⟨st, ne⟩ := ((h.removes t j he).2 k).1 s
        exact keep st (by rw [he]; intro c; injection c with c; exact ne c.symm)

/-- A finished call and what its contract says about it: the answer `yes` of an update comes with exactly one step of its
    own inside the call; any other answer comes with a moment of the call at which it was true of the set. -/
inductive Call (h : Hist K) where
  | added (b e t : Nat) (k : K) (inside : b ≤ t ∧ t + 1 ≤ e) (own : h.eff t = Eff.add k)
  | removed (b e t : Nat) (k : K) (inside : b ≤ t ∧ t + 1 ≤ e) (own : h.eff t = Eff.rem k)
  | saw (b e t : Nat) (k : K) (inside : b ≤ t ∧ t ≤ e) (present : h.set t k)      -- Add: false, Contains: true
  | missed (b e t : Nat) (k : K) (inside : b ≤ t ∧ t ≤ e) (absent : ¬ h.set t k)  -- Remove: false, Contains: false

namespace Call
variable {h : Hist K}
def first : Call h → Nat | added b .. => b | removed b .. => b | saw b .. => b | missed b .. => b
def last : Call h → Nat | added _ e .. => e | removed _ e .. => e | saw _ e .. => e | missed _ e .. => e
/-- position in the sequential order: observations of state t before step t -/
def point : Call h → Nat
  | added _ _ t .. => 2*t+1 | removed _ _ t .. => 2*t+1 | saw _ _ t .. => 2*t | missed _ _ t .. => 2*t
/-- the answer is the one a sequential set gives in the state left by the updates before the call's position -/
def legal : Call h → Prop
  | added _ _ t k .. => ¬ Seq h t k
  | removed _ _ t k .. => Seq h t k
  | saw _ _ t k .. => Seq h t k
  | missed _ _ t k .. => ¬ Seq h t k
end Call

theorem linearizable (h : Hist K) (c : Call h) : c.legal := by
  cases c with
  | added b e t k i o => exact fun s => (h.adds t k o).1 ((seq_is_set h t k).1 s)
  | removed b e t k i o => exact (seq_is_set h t k).2 (h.removes t k o).1
  | saw b e t k i p => exact (seq_is_set h t k).2 p
  | missed b e t k i a => exact fun s => a ((seq_is_set h t k).1 s)

theorem real_time (h : Hist K) (c d : Call h) (before : c.last ≤ d.first) : c.point ≤ d.point := by
  cases c <;> cases d <;> simp only [Call.last, Call.first, Call.point] at * <;> omega

end Lin

#print axioms RG.inv_always
#print axioms RG.rely_between
#print axioms Lin.linearizable
#print axioms Lin.real_time
