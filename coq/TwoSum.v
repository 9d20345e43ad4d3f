(* The 2Sum step used by two_sum (p1788/util/mpfr_util.hpp): with s = RN(a+b) not overflowing, the five later operations,
   done with an exponent range one larger, do not overflow and the last one returns the exact error of s.
   fp.py (Theory.two_sum) instantiates exactly this statement. *)
Require Import Reals ZArith Psatz.
From Flocq Require Import Core Pff2Flocq.
Open Scope R_scope.

Section TS.
Variable emin prec emax : Z.
Hypothesis Hp : (1 < prec)%Z.
Hypothesis He : (emin <= 0)%Z.
Hypothesis Hx : (emin + prec <= emax)%Z.

Definition fmt := generic_format radix2 (FLT_exp emin prec).
Definition RN := round radix2 (FLT_exp emin prec) ZnearestE.
Definition M := bpow radix2 emax - bpow radix2 (emax - prec).

#[local] Instance Pp : Prec_gt_0 prec.
Proof. unfold Prec_gt_0; lia. Qed.

Lemma fmt_RN x : fmt (RN x).
Proof. apply generic_format_round; auto with typeclass_instances. Qed.

Lemma half_ulp x : Rabs x < bpow radix2 (emax + 1) -> Rabs (RN x - x) <= bpow radix2 (emax - prec).
Proof.
  intros H.
  eapply Rle_trans. apply error_le_half_ulp; auto with typeclass_instances.
  assert (ulp radix2 (FLT_exp emin prec) x <= bpow radix2 (emax + 1 - prec)).
  { destruct (Req_dec x 0) as [->|Hn].
    - rewrite ulp_FLT_0; auto with typeclass_instances. apply bpow_le; lia.
    - rewrite ulp_neq_0; trivial. apply bpow_le. unfold cexp, FLT_exp.
      assert (mag radix2 x <= emax + 1)%Z by (apply mag_le_bpow; trivial).
      lia. }
  assert (bpow radix2 (emax + 1 - prec) = 2 * bpow radix2 (emax - prec)).
  { replace (emax + 1 - prec)%Z with (1 + (emax - prec))%Z by lia. rewrite bpow_plus. reflexivity. }
  lra.
Qed.

Lemma M_lt : M < bpow radix2 emax.
Proof. unfold M. pose proof (bpow_gt_0 radix2 (emax - prec)). lra. Qed.

Lemma small_unit : 4 * bpow radix2 (emax - prec) <= bpow radix2 emax.
Proof.
  replace 4 with (bpow radix2 2) by reflexivity. rewrite <- bpow_plus. apply bpow_le. lia.
Qed.

Variable a b : R.
Hypothesis Fa : fmt a.
Hypothesis Fb : fmt b.
Hypothesis Ba : Rabs a <= M.
Hypothesis Bb : Rabs b <= M.
Let s := RN (a + b).
Hypothesis Bs : Rabs s <= M.
Let ad := RN (s - b).
Let bd := RN (s - ad).
Let u := RN (a - ad).
Let v := RN (b - bd).
Let e := RN (u + v).

Theorem two_sum_exact : s + e = a + b.
Proof.
  assert (H := TwoSum_correct emin prec (fun x => negb (Z.even x)) Hp He).
  unfold s, e, u, v, bd, ad, s.
  replace (RN (a - RN (RN (a + b) - b)) + RN (b - RN (RN (a + b) - RN (RN (a + b) - b))))
     with (RN (b - RN (RN (a + b) - RN (RN (a + b) - b))) + RN (a - RN (RN (a + b) - b))) by ring.
  replace (a + b) with (b + a) by ring.
  unfold RN, ZnearestE.
  apply H; trivial.
  intros x. rewrite Z.even_opp, Z.even_add. simpl. destruct (Z.even x); reflexivity.
Qed.

Lemma twoM : bpow radix2 (emax + 1) = 2 * bpow radix2 emax.
Proof. replace (emax + 1)%Z with (1 + emax)%Z by lia. rewrite bpow_plus. reflexivity. Qed.

Lemma Mval : M = bpow radix2 emax - bpow radix2 (emax - prec).
Proof. reflexivity. Qed.

Lemma err_sum : Rabs (s - (a + b)) <= bpow radix2 (emax - prec).
Proof.
  apply half_ulp. rewrite twoM. pose proof M_lt.
  eapply Rle_lt_trans. apply Rabs_triang. lra.
Qed.

Lemma ad_err : Rabs (ad - (s - b)) <= bpow radix2 (emax - prec).
Proof.
  apply half_ulp. rewrite twoM. pose proof M_lt.
  eapply Rle_lt_trans. apply Rabs_triang. rewrite Rabs_Ropp. lra.
Qed.

(* none of the later operations overflows the range with one more exponent, whose largest number is 2 M *)
Theorem no_overflow_ad : Rabs (s - b) <= 2 * M.
Proof. eapply Rle_trans. apply Rabs_triang. rewrite Rabs_Ropp. lra. Qed.

Theorem no_overflow_bd : Rabs (s - ad) <= 2 * M.
Proof.
  pose proof ad_err. pose proof small_unit. pose proof (bpow_gt_0 radix2 (emax - prec)). pose proof Mval.
  replace (s - ad) with (b + - (ad - (s - b))) by ring.
  eapply Rle_trans. apply Rabs_triang. rewrite Rabs_Ropp. lra.
Qed.

Lemma u_arg : Rabs (a - ad) <= 2 * bpow radix2 (emax - prec).
Proof.
  pose proof ad_err. pose proof err_sum.
  replace (a - ad) with (- (s - (a + b)) + - (ad - (s - b))) by ring.
  eapply Rle_trans. apply Rabs_triang. rewrite 2!Rabs_Ropp. lra.
Qed.

Lemma bd_err : Rabs (bd - (s - ad)) <= bpow radix2 (emax - prec).
Proof.
  apply half_ulp. rewrite twoM. pose proof no_overflow_bd. pose proof M_lt. lra.
Qed.

Lemma v_arg : Rabs (b - bd) <= 2 * bpow radix2 (emax - prec).
Proof.
  pose proof ad_err. pose proof bd_err.
  replace (b - bd) with (- (bd - (s - ad)) + (ad - (s - b))) by ring.
  eapply Rle_trans. apply Rabs_triang. rewrite Rabs_Ropp. lra.
Qed.

Theorem no_overflow_u : Rabs (a - ad) <= 2 * M.
Proof. pose proof u_arg. pose proof small_unit. pose proof (bpow_gt_0 radix2 (emax - prec)). pose proof Mval. lra. Qed.

Theorem no_overflow_v : Rabs (b - bd) <= 2 * M.
Proof. pose proof v_arg. pose proof small_unit. pose proof (bpow_gt_0 radix2 (emax - prec)). pose proof Mval. lra. Qed.

Lemma RN_bpow x k : (emin <= k)%Z -> Rabs x <= bpow radix2 k -> Rabs (RN x) <= bpow radix2 k.
Proof.
  intros Hk H. apply abs_round_le_generic; auto with typeclass_instances.
  apply generic_format_FLT_bpow; auto with typeclass_instances.
Qed.

Theorem no_overflow_e : Rabs (u + v) <= 2 * M.
Proof.
  assert (T : 2 * bpow radix2 (emax - prec) = bpow radix2 (emax - prec + 1)).
  { replace (emax - prec + 1)%Z with (1 + (emax - prec))%Z by lia. rewrite bpow_plus. reflexivity. }
  pose proof u_arg. pose proof v_arg. rewrite T in *.
  assert (Rabs u <= bpow radix2 (emax - prec + 1)) by (apply RN_bpow; trivial; lia).
  assert (Rabs v <= bpow radix2 (emax - prec + 1)) by (apply RN_bpow; trivial; lia).
  pose proof small_unit. pose proof (bpow_gt_0 radix2 (emax - prec)). pose proof Mval. rewrite <- T in *.
  pose proof (bpow_gt_0 radix2 (emax - prec)).
  eapply Rle_trans. apply Rabs_triang. lra.
Qed.
Theorem e_small : Rabs e <= M.
Proof.
  pose proof err_sum. pose proof two_sum_exact. pose proof small_unit. pose proof Mval.
  pose proof (bpow_gt_0 radix2 (emax - prec)).
  replace e with (- (s - (a + b))) by (rewrite <- two_sum_exact; ring).
  rewrite Rabs_Ropp. lra.
Qed.
End TS.

(* what fp.py assumes, for one format *)
Definition two_sum_axiom (emin prec emax : Z) : Prop := forall a b,
  let s := RN emin prec (a + b) in
  let ad := RN emin prec (s - b) in
  let bd := RN emin prec (s - ad) in
  let u := RN emin prec (a - ad) in
  let v := RN emin prec (b - bd) in
  fmt emin prec a -> fmt emin prec b ->
  Rabs a <= M prec emax -> Rabs b <= M prec emax -> Rabs s <= M prec emax ->
  s + RN emin prec (u + v) = a + b /\
  Rabs (s - b) <= 2 * M prec emax /\ Rabs (s - ad) <= 2 * M prec emax /\
  Rabs (a - ad) <= 2 * M prec emax /\ Rabs (b - bd) <= 2 * M prec emax /\
  Rabs (u + v) <= 2 * M prec emax /\ Rabs (RN emin prec (u + v)) <= M prec emax.

Lemma two_sum_holds emin prec emax : (1 < prec)%Z -> (emin <= 0)%Z -> (emin + prec <= emax)%Z -> two_sum_axiom emin prec emax.
Proof.
  intros Hp He Hx a b s ad bd u v Fa Fb Ba Bb Bs. unfold s, ad, bd, u, v in *.
  split; [apply two_sum_exact; trivial|].
  split; [apply no_overflow_ad; trivial|].
  split; [apply no_overflow_bd; trivial|].
  split; [apply no_overflow_u; trivial|].
  split; [apply no_overflow_v; trivial|].
  split; [apply no_overflow_e; trivial|apply e_small; trivial].
Qed.

(* emin is the exponent of the smallest positive number, 2^emin *)
Theorem binary32 : two_sum_axiom (-149) 24 128.
Proof. apply two_sum_holds; lia. Qed.
Theorem binary64 : two_sum_axiom (-1074) 53 1024.
Proof. apply two_sum_holds; lia. Qed.
Theorem x87 : two_sum_axiom (-16445) 64 16384.
Proof. apply two_sum_holds; lia. Qed.
Print Assumptions binary64.
