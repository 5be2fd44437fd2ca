(* IEEE 754 binary64: a number times a number between zero and one lies between zero and itself.
   (What unit tween's axiom f64_scales needs of multiplication; the rest of it is Kani's k02_f64_*.) *)
From Coq Require Import ZArith Reals Lra.
From Flocq Require Import Core.Core IEEE754.BinarySingleNaN.
Open Scope R_scope.

Definition prec := 53%Z.
Definition emax := 1024%Z.
Lemma Hprec : FLX.Prec_gt_0 prec. Proof. reflexivity. Qed.
Lemma Hemax : Prec_lt_emax prec emax. Proof. reflexivity. Qed.
#[local] Existing Instance Hprec.
#[local] Existing Instance Hemax.
Notation f64 := (binary_float prec emax).
Definition mul : f64 -> f64 -> f64 := @Bmult prec emax Hprec Hemax mode_NE.
Notation val := (@B2R prec emax).
Notation rnd := (round radix2 (SpecFloat.fexp prec emax) (round_mode mode_NE)).

Lemma rnd_id : forall x : f64, rnd (val x) = val x.
Proof. intros x. apply round_generic; [ apply valid_rnd_N | apply generic_format_B2R ]. Qed.
Lemma rnd_le : forall a b, a <= b -> rnd a <= rnd b.
Proof. intros. apply round_le; [ apply fexp_correct; exact Hprec | apply valid_rnd_N | assumption ]. Qed.
Lemma rnd_0 : rnd 0 = 0.
Proof. apply round_0. apply valid_rnd_N. Qed.

Lemma between : forall t x : f64, 0 <= val t <= 1 ->
  (0 <= val x -> 0 <= rnd (val t * val x) <= val x) /\ (val x <= 0 -> val x <= rnd (val t * val x) <= 0).
Proof.
  intros t x Ht; split; intros Hx; rewrite <- (rnd_id x), <- rnd_0, (rnd_id x); rewrite rnd_0.
  - split; [ rewrite <- rnd_0 | rewrite <- (rnd_id x) at 2 ]; apply rnd_le; nra.
  - split; [ rewrite <- (rnd_id x) at 1 | rewrite <- rnd_0 ]; apply rnd_le; nra.
Qed.

Theorem product : forall t x : f64,
  is_finite t = true -> is_finite x = true -> 0 <= val t <= 1 ->
  is_finite (mul t x) = true /\
  (0 <= val x -> 0 <= val (mul t x) <= val x) /\ (val x <= 0 -> val x <= val (mul t x) <= 0).
Proof.
  intros t x Ft Fx Ht.
  pose proof (between t x Ht) as [Hp Hn].
  pose proof (@Bmult_correct prec emax Hprec Hemax mode_NE t x) as C.
  assert (B : Rabs (rnd (val t * val x)) < bpow radix2 emax).
  { apply Rle_lt_trans with (Rabs (val x)).
    - destruct (Rle_or_lt 0 (val x)) as [P|N].
      + specialize (Hp P). rewrite !Rabs_pos_eq; lra.
      + apply Rlt_le in N. specialize (Hn N). rewrite !Rabs_left1; lra.
    - apply abs_B2R_lt_emax. }
  rewrite Rlt_bool_true in C by exact B.
  destruct C as (V & F & _).
  unfold mul. rewrite V, F, Ft, Fx. split; [ reflexivity | split; assumption ].
Qed.
Print Assumptions product.
